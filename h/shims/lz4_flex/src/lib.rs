pub mod block {
    #[derive(Debug)]
    pub struct DecompressError;
    pub fn compress(src: &[u8]) -> Vec<u8> { zcodec::compress(b'L', src) }
    pub fn decompress(src: &[u8], cap: usize) -> Result<Vec<u8>, DecompressError> { zcodec::decompress(b'L', src, cap).ok_or(DecompressError) }
}
