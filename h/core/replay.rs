fn main() { vcore::vh::replay() }
