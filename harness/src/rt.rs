//! Intrinsics of the analyzer. The bodies are never used.
use std::io;

/// Any value of the type
pub fn nondet<T>() -> T {
    unimplemented!()
}
/// `len` unknown bytes
pub fn nondet_slice(_len: usize) -> &'static [u8] {
    unimplemented!()
}
pub fn nondet_slice_mut(_len: usize) -> &'static mut [u8] {
    unimplemented!()
}
pub fn nondet_vec(_len: usize) -> Vec<u8> {
    unimplemented!()
}
pub fn assume(_c: bool) {
    unimplemented!()
}
/// Proof obligation, tagged "PROPERTY: description"
pub fn check(_c: bool, _tag: &str) {
    unimplemented!()
}
/// Coverage: the analysis must find this point reachable
pub fn reach(_tag: &str) {
    unimplemented!()
}
/// Panics from here on belong to this property
pub fn panics(_prop: &str) {
    unimplemented!()
}
/// Forget the composition of byte sequences at loop heads
pub fn coarse() {
    unimplemented!()
}
pub fn unroll_begin() {
    unimplemented!()
}
pub fn unroll_end() {
    unimplemented!()
}
/// Byte-wise equality
pub fn same(_a: &[u8], _b: &[u8]) -> bool {
    unimplemented!()
}
/// The `k`th byte, followed through loops
pub fn witness(_s: &[u8], _k: usize) -> u8 {
    unimplemented!()
}
pub fn set_alloc_limit(_l: usize) {
    unimplemented!()
}
/// Reservations of possible size succeed
pub fn no_oom() {
    unimplemented!()
}
pub fn exempt(_l: usize) {
    unimplemented!()
}
pub fn io_err(_id: u32) -> io::Error {
    unimplemented!()
}
pub fn io_err_id(_e: &io::Error) -> u32 {
    unimplemented!()
}
pub fn set_monitor<T>(_m: &mut T) {
    unimplemented!()
}
pub fn lzw_track() {
    unimplemented!()
}
pub fn lzw_code() -> u8 {
    unimplemented!()
}
pub fn lzw_input() -> &'static [u8] {
    unimplemented!()
}
pub fn lzw_output() -> &'static [u8] {
    unimplemented!()
}
pub fn dump(_t: &str) {
    unimplemented!()
}

/// Models of library functions the analyzer does not interpret directly
pub mod models {
    use std::io::{self, Read, Write};

    /// The default body (a writer's `Interrupted` counts as an error)
    pub fn write_all_unroll<W: Write + ?Sized>(w: &mut W, buf: &[u8]) -> io::Result<()> {
        let n = buf.len();
        let mut i = 0;
        while i < n {
            let k = w.write(&buf[i..])?;
            if k == 0 {
                return Err(super::io_err(9));
            }
            i += k;
        }
        Ok(())
    }

    pub fn collect_vec<I: Iterator>(it: I) -> Vec<I::Item> {
        let mut v = Vec::new();
        for x in it {
            v.push(x);
        }
        v
    }
    pub fn flat_vec<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, mut f: F) -> Vec<U::Item> {
        let mut v = Vec::new();
        for x in it {
            for y in f(x) {
                v.push(y);
            }
        }
        v
    }
    pub fn extend_vec<T, It: IntoIterator<Item = T>>(v: &mut Vec<T>, it: It) {
        for x in it {
            v.push(x);
        }
    }
    /// `BufReader::fill_buf` with an empty buffer
    pub fn fill<R: Read>(r: &mut R) -> io::Result<Vec<u8>> {
        let mut v = super::nondet_vec(8192);
        let n = r.read(&mut v)?;
        if n > 8192 {
            panic!("read returned too much");
        }
        v.truncate(n);
        Ok(v)
    }
}
