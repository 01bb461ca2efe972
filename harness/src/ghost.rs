//! Environments: readers and writers with unknown behaviour
use crate::rt;
use std::io::{self, Read, Write};

/// A reader that returns unknown data in pieces of unknown size, ends at any time and fails at any time
pub struct AnyReader;
impl Read for AnyReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if rt::nondet() {
            return Err(rt::io_err(1));
        }
        let n: usize = rt::nondet();
        rt::assume(n <= buf.len());
        let d = rt::nondet_slice(n);
        buf[..n].copy_from_slice(d);
        Ok(n)
    }
}

/// A writer that fails at any time
pub struct AnyWriter;
impl Write for AnyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if rt::nondet() {
            return Err(rt::io_err(1));
        }
        let n: usize = rt::nondet();
        rt::assume(n <= buf.len());
        Ok(n)
    }
    fn write_all(&mut self, _buf: &[u8]) -> io::Result<()> {
        if rt::nondet() {
            return Err(rt::io_err(1));
        }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        if rt::nondet() {
            return Err(rt::io_err(2));
        }
        Ok(())
    }
}
