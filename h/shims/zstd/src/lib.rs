pub extern crate zcodec;
pub mod bulk {
    pub fn compress(src: &[u8], _level: i32) -> std::io::Result<Vec<u8>> { Ok(zcodec::compress(b'Z', src)) }
    pub fn decompress(src: &[u8], cap: usize) -> std::io::Result<Vec<u8>> {
        zcodec::decompress(b'Z', src, cap).ok_or_else(|| std::io::Error::from_raw_os_error(5))
    }
}
