//! Solver-build stand-in for the `zstd` crate: the same API, an identity
//! encoding.  A frame is MAGIC, then blocks `len:u32le bytes`, then a zero len.
//! What is assumed of zstd: decode(encode(x)) == x, a truncated frame is an
//! error, and a decoder stops with an error on bytes that are no frame.
use std::io::{self, BufRead, BufReader, Read, Write};

unsafe extern "C" { fn sx_concretize(v: u64) -> u64; }

const MAGIC: [u8; 4] = [0x28, 0xb5, 0x2f, 0xfd];
const BLOCK: usize = 64 * 1024;

fn other(s: &'static str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, s)
}

pub const DEFAULT_COMPRESSION_LEVEL: i32 = 3;
pub fn compression_level_range() -> std::ops::RangeInclusive<i32> { -7..=22 }

pub mod stream {
    pub use self::read::Decoder;
    pub use self::write::Encoder;
    use super::*;

    pub fn encode_all<R: Read>(mut source: R, level: i32) -> io::Result<Vec<u8>> {
        let mut e = write::Encoder::new(Vec::new(), level)?;
        io::copy(&mut source, &mut e)?;
        e.finish()
    }
    pub fn decode_all<R: Read>(source: R) -> io::Result<Vec<u8>> {
        let mut v = Vec::new();
        read::Decoder::new(source)?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn copy_encode<R: Read, W: Write>(mut source: R, destination: W, level: i32) -> io::Result<()> {
        let mut e = write::Encoder::new(destination, level)?;
        io::copy(&mut source, &mut e)?;
        e.finish()?;
        Ok(())
    }
    pub fn copy_decode<R: Read, W: Write>(source: R, mut destination: W) -> io::Result<()> {
        io::copy(&mut read::Decoder::new(source)?, &mut destination)?;
        Ok(())
    }

    pub mod write {
        use super::super::*;
        pub struct Encoder<'a, W: Write> {
            w: W,
            buf: Vec<u8>,
            started: bool,
            done: bool,
            _p: std::marker::PhantomData<&'a ()>,
        }
        impl<W: Write> Encoder<'static, W> {
            pub fn new(w: W, _level: i32) -> io::Result<Self> {
                Ok(Self { w, buf: Vec::new(), started: false, done: false, _p: Default::default() })
            }
            pub fn with_dictionary(w: W, level: i32, _d: &[u8]) -> io::Result<Self> { Self::new(w, level) }
        }
        impl<'a, W: Write> Encoder<'a, W> {
            pub fn multithread(&mut self, _n: u32) -> io::Result<()> { Ok(()) }
            pub fn include_checksum(&mut self, _b: bool) -> io::Result<()> { Ok(()) }
            pub fn include_contentsize(&mut self, _b: bool) -> io::Result<()> { Ok(()) }
            pub fn include_magicbytes(&mut self, _b: bool) -> io::Result<()> { Ok(()) }
            pub fn long_distance_matching(&mut self, _b: bool) -> io::Result<()> { Ok(()) }
            pub fn window_log(&mut self, _n: u32) -> io::Result<()> { Ok(()) }
            pub fn set_pledged_src_size(&mut self, _n: Option<u64>) -> io::Result<()> { Ok(()) }
            pub fn get_ref(&self) -> &W { &self.w }
            pub fn get_mut(&mut self) -> &mut W { &mut self.w }
            fn block(&mut self) -> io::Result<()> {
                if !self.started {
                    self.w.write_all(&MAGIC)?;
                    self.started = true;
                }
                if !self.buf.is_empty() {
                    self.w.write_all(&(self.buf.len() as u32).to_le_bytes())?;
                    self.w.write_all(&self.buf)?;
                    self.buf.clear();
                }
                Ok(())
            }
            pub fn do_finish(&mut self) -> io::Result<()> {
                if !self.done {
                    self.block()?;
                    self.w.write_all(&[0; 4])?;
                    self.done = true;
                }
                Ok(())
            }
            pub fn try_finish(mut self) -> Result<W, (Self, io::Error)> {
                match self.do_finish() { Ok(()) => Ok(self.w), Err(e) => Err((self, e)) }
            }
            pub fn finish(mut self) -> io::Result<W> {
                self.do_finish()?;
                Ok(self.w)
            }
            pub fn auto_finish(self) -> AutoFinishEncoder<'a, W> { AutoFinishEncoder { e: self } }
            pub fn recommended_input_size() -> usize { BLOCK }
        }
        impl<'a, W: Write> Write for Encoder<'a, W> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                if b.is_empty() { return Ok(0); }
                if self.done { return Err(other("frame is finished")); }
                let n = b.len().min(BLOCK);
                self.buf.extend_from_slice(&b[..n]);
                if self.buf.len() >= BLOCK { self.block()?; }
                Ok(n)
            }
            fn flush(&mut self) -> io::Result<()> {
                if !self.done { self.block()?; }
                self.w.flush()
            }
        }
        pub struct AutoFinishEncoder<'a, W: Write> { e: Encoder<'a, W> }
        impl<'a, W: Write> AutoFinishEncoder<'a, W> {
            pub fn get_ref(&self) -> &W { &self.e.w }
            pub fn get_mut(&mut self) -> &mut W { &mut self.e.w }
        }
        impl<'a, W: Write> Write for AutoFinishEncoder<'a, W> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.e.write(b) }
            fn flush(&mut self) -> io::Result<()> { self.e.flush() }
        }
        impl<'a, W: Write> Drop for AutoFinishEncoder<'a, W> {
            fn drop(&mut self) { let _ = self.e.do_finish(); }
        }
    }

    pub mod read {
        use super::super::*;
        pub struct Decoder<'a, R> {
            r: R,
            in_frame: bool,
            left: usize,
            single: bool,
            finished_one: bool,
            eof: bool,
            _p: std::marker::PhantomData<&'a ()>,
        }
        impl<R: Read> Decoder<'static, BufReader<R>> {
            pub fn new(r: R) -> io::Result<Self> { Self::with_buffer(BufReader::new(r)) }
        }
        impl<R: BufRead> Decoder<'static, R> {
            pub fn with_buffer(r: R) -> io::Result<Self> {
                Ok(Self { r, in_frame: false, left: 0, single: false, finished_one: false, eof: false, _p: Default::default() })
            }
            pub fn with_dictionary(r: R, _d: &[u8]) -> io::Result<Self> { Self::with_buffer(r) }
        }
        impl<'a, R: BufRead> Decoder<'a, R> {
            pub fn single_frame(mut self) -> Self { self.single = true; self }
            pub fn get_ref(&self) -> &R { &self.r }
            pub fn get_mut(&mut self) -> &mut R { &mut self.r }
            pub fn finish(self) -> R { self.r }
            pub fn window_log_max(&mut self, _n: u32) -> io::Result<()> { Ok(()) }
            pub fn include_magicbytes(&mut self, _b: bool) -> io::Result<()> { Ok(()) }
            pub fn recommended_output_size() -> usize { BLOCK }
        }
        impl<'a, R: BufRead> Read for Decoder<'a, R> {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                if b.is_empty() || self.eof { return Ok(0); }
                loop {
                    if !self.in_frame {
                        if self.single && self.finished_one { self.eof = true; return Ok(0); }
                        if self.r.fill_buf()?.is_empty() { self.eof = true; return Ok(0); }
                        let mut m = [0u8; 4];
                        self.r.read_exact(&mut m).map_err(|_| io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame"))?;
                        if m != MAGIC { return Err(other("Unknown frame descriptor")); }
                        self.in_frame = true;
                    }
                    if self.left == 0 {
                        let mut l = [0u8; 4];
                        self.r.read_exact(&mut l).map_err(|_| io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame"))?;
                        let l = u32::from_le_bytes(l) as usize;
                        if l == 0 {
                            self.in_frame = false;
                            self.finished_one = true;
                            continue;
                        }
                        if l > BLOCK * 2 { return Err(other("Data corruption detected")); }
                        // (one path per value: everything after it depends on it)
                        self.left = unsafe { sx_concretize(l as u64) } as usize;
                    }
                    let n = b.len().min(self.left);
                    let n = self.r.read(&mut b[..n])?;
                    if n == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame")); }
                    self.left -= n;
                    return Ok(n);
                }
            }
        }
    }
}

pub use stream::{decode_all, encode_all};
pub use stream::read::Decoder;
pub use stream::write::Encoder;

pub mod bulk {
    use super::*;
    pub fn compress(data: &[u8], level: i32) -> io::Result<Vec<u8>> { stream::encode_all(data, level) }
    pub fn decompress(data: &[u8], capacity: usize) -> io::Result<Vec<u8>> {
        let v = stream::decode_all(data)?;
        if v.len() > capacity { return Err(other("Destination buffer is too small")); }
        Ok(v)
    }
    pub struct Compressor;
    impl Compressor {
        pub fn new(_l: i32) -> io::Result<Self> { Ok(Self) }
        pub fn compress(&mut self, d: &[u8]) -> io::Result<Vec<u8>> { compress(d, 0) }
    }
    pub struct Decompressor;
    impl Decompressor {
        pub fn new() -> io::Result<Self> { Ok(Self) }
        pub fn decompress(&mut self, d: &[u8], c: usize) -> io::Result<Vec<u8>> { decompress(d, c) }
    }
}
