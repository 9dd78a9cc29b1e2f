pub trait OrderedMapIterator: Iterator { type Key; type Val; }
pub trait OrderedSetIterator: Iterator {}
