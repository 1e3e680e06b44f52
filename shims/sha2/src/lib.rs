//! Solver-build stand-in for `sha2`: buffers the input and hands it to the
//! engine, which hashes concrete input for real and treats the digest of
//! symbolic input as an injective (collision-free) function of it.
pub use digest::{self, Digest};
use digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update, consts::{U28, U32}};

unsafe extern "C" {
    fn sx_sha256(bits: u32, p: *const u8, n: usize, out: *mut u8);
}

macro_rules! hasher {
    ($name:ident, $size:ty, $bits:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $name { buf: Vec<u8> }
        impl HashMarker for $name {}
        impl OutputSizeUser for $name { type OutputSize = $size; }
        impl Update for $name {
            fn update(&mut self, d: &[u8]) { self.buf.extend_from_slice(d); }
        }
        impl FixedOutput for $name {
            fn finalize_into(self, out: &mut Output<Self>) {
                unsafe { sx_sha256($bits, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
            }
        }
        impl Reset for $name { fn reset(&mut self) { self.buf.clear(); } }
        impl FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                unsafe { sx_sha256($bits, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr()) }
                self.buf.clear();
            }
        }
    };
}
hasher!(Sha224, U28, 224);
hasher!(Sha256, U32, 256);
