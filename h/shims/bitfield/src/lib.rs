//! Stand-in for the subset of bitfield! that bfffs uses: getters over an unsigned integer.
#[macro_export]
macro_rules! bitfield {
    ($(#[$m:meta])* $v:vis struct $n:ident($t:ty); $($rest:tt)*) => {
        $(#[$m])* $v struct $n(pub $t);
        $crate::bitfield_items! { $n, $t, $t; $($rest)* }
    };
}
#[macro_export]
macro_rules! bitfield_items {
    ($n:ident, $t:ty, $d:ty; ) => {};
    ($n:ident, $t:ty, $d:ty; impl Debug; $($rest:tt)*) => {
        impl ::core::fmt::Debug for $n {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_tuple(stringify!($n)).field(&self.0).finish() }
        }
        $crate::bitfield_items! { $n, $t, $d; $($rest)* }
    };
    ($n:ident, $t:ty, $d:ty; $(#[$m:meta])* pub $g:ident, _: $hi:expr, $lo:expr; $($rest:tt)*) => {
        $crate::bitfield_get! { $n, $t, $d, pub, $g, $hi, $lo }
        $crate::bitfield_items! { $n, $t, $d; $($rest)* }
    };
    ($n:ident, $t:ty, $d:ty; $g:ident, _: $hi:expr, $lo:expr; $($rest:tt)*) => {
        $crate::bitfield_get! { $n, $t, $d, , $g, $hi, $lo }
        $crate::bitfield_items! { $n, $t, $d; $($rest)* }
    };
    ($n:ident, $t:ty, $d:ty; $ft:ty; pub $g:ident, _: $hi:expr, $lo:expr; $($rest:tt)*) => {
        $crate::bitfield_get! { $n, $t, $ft, pub, $g, $hi, $lo }
        $crate::bitfield_items! { $n, $t, $ft; $($rest)* }
    };
    ($n:ident, $t:ty, $d:ty; $ft:ty; $g:ident, _: $hi:expr, $lo:expr; $($rest:tt)*) => {
        $crate::bitfield_get! { $n, $t, $ft, , $g, $hi, $lo }
        $crate::bitfield_items! { $n, $t, $ft; $($rest)* }
    };
}
#[macro_export]
macro_rules! bitfield_get {
    ($n:ident, $t:ty, $ft:ty, $($v:ident)?, $g:ident, $hi:expr, $lo:expr) => {
        #[allow(dead_code)]
        impl $n {
            $($v)? fn $g(&self) -> $ft {
                const W: u32 = ::core::mem::size_of::<$t>() as u32 * 8;
                let x: $t = self.0;
                let up: u32 = W - 1 - ($hi);
                ((x << up) >> (up + ($lo))) as $ft
            }
        }
    };
}
