#[doc(hidden)]
pub struct W<T>(pub T);
macro_rules! nz { ($($t:ty, $o:ident;)*) => { $( impl W<$t> { pub const fn mk(self) -> core::num::$o { match core::num::$o::new(self.0) { Some(x) => x, None => panic!("zero") } } } )* } }
nz! { u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; usize, NonZeroUsize; }
#[macro_export]
macro_rules! nonzero { ($e:expr) => { $crate::W($e).mk() }; }
