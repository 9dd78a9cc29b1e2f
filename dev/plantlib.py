"""plant(...) writes /verif/seeded/<id>/ from textual edits against /repo's HEAD."""
import json, os, subprocess, tempfile, shutil
V = "/verif"
def plant(id, prop, edits, needs, breaks, demo, deps="", sh=None, extra={}):
    w = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.check_call(f"git -C /repo archive HEAD rustfst rustfst-ffi rustfst-cli | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True)
        for f, old, new in edits:
            s = open(f"{w}/{f}").read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    finally:
        shutil.rmtree(w)
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(d + "/demo.rs", "w").write(demo)
    for n, t in extra.items():
        open(f"{d}/{n}", "w").write(t)
    open(d + "/demo.sh", "w").write((sh or open(V + "/dev/demo.sh").read()).replace("@DEPS@", deps))
    os.chmod(d + "/demo.sh", 0o755)
