//! Type-level stand-in for the `autocxx` crate: it declares, without bodies that do anything, the foreign
//! ALP items `alp-binding/src/lib.rs` names.  The C++ sources (git submodule alp-binding/ALP) are absent
//! from the checkout, so the foreign functions are opaque to the analysis anyway.  Never executed.
pub mod prelude {
    pub use crate::{include_cpp, moveit};
}
#[macro_export]
macro_rules! include_cpp {
    ($($t:tt)*) => {
        pub mod ffi {
            pub mod alp {
                pub struct AlpCompressorDouble { _p: u8 }
                pub struct AlpDecompressorDouble { _p: u8 }
                impl AlpCompressorDouble {
                    #[inline(never)]
                    pub fn new() -> Self { Self { _p: 0 } }
                    #[inline(never)]
                    pub unsafe fn compress(self: ::core::pin::Pin<&mut Self>, _v: *mut f64, _n: usize, _o: *mut u8) {}
                    #[inline(never)]
                    pub fn get_size(self: ::core::pin::Pin<&mut Self>) -> usize { 0 }
                }
                impl AlpDecompressorDouble {
                    #[inline(never)]
                    pub fn new() -> Self { Self { _p: 0 } }
                    #[inline(never)]
                    pub unsafe fn decompress(self: ::core::pin::Pin<&mut Self>, _i: *mut u8, _n: usize, _o: *mut f64) {}
                }
            }
        }
    };
}
#[macro_export]
macro_rules! moveit {
    (let mut $n:ident = $e:expr;) => {
        let mut __v = $e;
        #[allow(unused_mut)]
        let mut $n = ::core::pin::Pin::new(&mut __v);
    };
}
