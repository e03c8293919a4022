pub fn hexdump_iter(b: &[u8]) -> impl ExactSizeIterator<Item = String> + '_ { b.chunks(16).map(|c| format!("{:?}", c)) }
pub fn hexdump(_: &[u8]) {}
