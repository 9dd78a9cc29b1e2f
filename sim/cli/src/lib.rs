include!("/repo/rustfst-cli/src/main.rs");

/// The program's own main(), with the exit status its return value stands for.
pub fn entry() {
    if std::process::Termination::report(main()) != process::ExitCode::SUCCESS {
        process::exit(1)
    }
}
