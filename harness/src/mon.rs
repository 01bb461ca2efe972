//! A writer that fails at any time and watches everything that is written
use crate::rt;
use std::io::{self, Write};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ph {
    /// at the start of a fixed-size piece
    Screen,
    /// in a palette
    GlobalPal,
    /// between blocks
    Block,
    Label,
    Desc,
    LocalPal,
    CodeSize,
    /// at the length byte of a sub-block of an image (false) or extension (true)
    ImgLen,
    ExtLen,
    ImgData,
    ExtData,
    /// after the trailer
    End,
    /// after a write error nothing is known
    Broken,
}

/// What the call in progress may write
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op {
    New,
    Frame,
    Control,
    Repeat,
    Raw,
    Finish,
}

/// The values that have to appear in the output
#[derive(Clone, Copy)]
pub struct Want {
    pub w: u16,
    pub h: u16,
    pub left: u16,
    pub top: u16,
    pub delay: u16,
    pub dispose: u8,
    pub input: bool,
    pub transparent: Option<u8>,
    pub interlaced: bool,
    pub has_palette: bool,
    pub pal_len: usize,
    pub label: u8,
    pub repeat: u16,
}

pub fn want() -> Want {
    Want { w: 0, h: 0, left: 0, top: 0, delay: 0, dispose: 0, input: false, transparent: None, interlaced: false, has_palette: false, pal_len: 0, label: 0, repeat: 0 }
}

pub struct Mon {
    pub ph: Ph,
    pub op: Op,
    /// bytes missing in a palette or sub-block
    pub need: usize,
    /// the piece of fixed size in progress
    pub rec: [u8; 32],
    pub pos: usize,
    /// an error was reported to the call in progress
    pub failed: bool,
    /// something was written by the call in progress
    pub wrote: bool,
    /// blocks completed by the call in progress
    pub images: u8,
    pub exts: u8,
    pub label: u8,
    pub trailers: u8,
    pub want: Want,
    /// payload expected without the structure around it
    pub keep: bool,
    pub compress: bool,
    pub exp: &'static [u8],
    pub cnt: usize,
    /// dropped by the encoder's finish
    pub finish: bool,
}

pub fn mon() -> Mon {
    Mon { ph: Ph::Screen, op: Op::New, need: 0, rec: [0; 32], pos: 0, failed: false, wrote: false, images: 0, exts: 0, label: 0, trailers: 0, want: want(), keep: false, compress: false, exp: &[], cnt: 0, finish: false }
}

fn le(a: u8, b: u8) -> u16 {
    (a as u16) + 256 * (b as u16)
}

impl Mon {
    pub fn begin(&mut self, op: Op) {
        self.op = op;
        self.failed = false;
        self.wrote = false;
        self.images = 0;
        self.exts = 0;
        self.label = 0;
    }
    /// forgets everything but the position in the file
    pub fn settle(&mut self) {
        self.begin(Op::New);
        self.rec = [0; 32];
        self.pos = 0;
        self.need = 0;
        self.want = want();
    }
    fn screen(&mut self) {
        let r = &self.rec;
        rt::check(r[0] == b'G' && r[1] == b'I' && r[2] == b'F' && r[3] == b'8' && r[4] == b'9' && r[5] == b'a', "P14: the file starts with the signature");
        rt::check(le(r[6], r[7]) == self.want.w && le(r[8], r[9]) == self.want.h, "P14: the screen size is the one given");
        rt::check(r[10] & 0x80 != 0 && r[10] & 8 == 0, "P14: the flags announce the global palette, not sorted");
        rt::check(r[12] == 0, "P14: no aspect ratio");
        self.palette(r[10] & 7);
        self.ph = Ph::GlobalPal;
        self.pos = 0;
    }
    fn palette(&mut self, bits: u8) {
        self.need = match bits {
            0 => 6,
            1 => 12,
            2 => 24,
            3 => 48,
            4 => 96,
            5 => 192,
            6 => 384,
            _ => 768,
        };
        rt::check(self.need >= self.want.pal_len - self.want.pal_len % 3, "P13: the palette has room for every colour");
    }
    fn desc(&mut self) {
        let r = &self.rec;
        let w = &self.want;
        rt::check(le(r[0], r[1]) == w.left && le(r[2], r[3]) == w.top, "P14: the frame position is the one given");
        rt::check(le(r[4], r[5]) == w.w && le(r[6], r[7]) == w.h, "P14: the frame size is the one given");
        let f = r[8];
        rt::check((f & 0x80 != 0) == w.has_palette, "P14: the local palette flag says whether there is one");
        rt::check((f & 0x40 != 0) == w.interlaced, "P14: the interlacing flag is the one given");
        rt::check(f & 0x38 == 0, "P14: the sort and reserved flags are not set");
        self.pos = 0;
        if f & 0x80 != 0 {
            self.palette(f & 7);
            self.ph = Ph::LocalPal;
        } else {
            rt::check(f & 7 == 0, "P14: no palette size without a palette");
            self.ph = Ph::CodeSize;
        }
    }
    /// a graphic control extension is complete
    fn control(&mut self) {
        let r = &self.rec;
        let w = &self.want;
        rt::check(self.pos == 4, "P14: a control extension has four bytes");
        rt::check(r[0] == w.dispose * 4 + (w.input as u8) * 2 + (w.transparent.is_some() as u8), "P14: the control flags are the ones given");
        rt::check(le(r[1], r[2]) == w.delay, "P14: the delay is the one given");
        if let Some(t) = w.transparent {
            rt::check(r[3] == t, "P14: the transparent index is the one given");
        }
        rt::reach("control");
    }
    fn netscape(&mut self) {
        let r = &self.rec;
        rt::check(self.pos == 14, "P14: a repeat extension has eleven and three bytes");
        rt::check(
            r[0] == b'N' && r[1] == b'E' && r[2] == b'T' && r[3] == b'S' && r[4] == b'C' && r[5] == b'A' && r[6] == b'P' && r[7] == b'E' && r[8] == b'2' && r[9] == b'.' && r[10] == b'0',
            "P14: the repeat extension is the NETSCAPE2.0 one",
        );
        rt::check(r[11] == 1, "P14: the repeat sub-block has id 1");
        rt::check(le(r[12], r[13]) == self.want.repeat, "P14: the loop count is the one given");
        rt::reach("netscape");
    }
    fn ext_done(&mut self) {
        self.exts += 1;
        match self.op {
            Op::Frame | Op::Control => {
                rt::check(self.label == 0xF9, "P14: the control extension has its label");
                self.control();
            }
            Op::Repeat => {
                rt::check(self.label == 0xFF, "P14: the repeat extension has its label");
                self.netscape();
            }
            _ => {
                rt::check(self.label == self.want.label, "P14: a raw extension has the label given");
            }
        }
        self.pos = 0;
        self.ph = Ph::Block;
    }
    fn feed_unroll(&mut self, buf: &[u8]) {
        let n = buf.len();
        let mut i = 0;
        while i < n {
            match self.ph {
                Ph::Screen => {
                    self.rec[self.pos] = buf[i];
                    self.pos += 1;
                    i += 1;
                    if self.pos == 13 {
                        self.screen();
                    }
                }
                Ph::Desc => {
                    self.rec[self.pos] = buf[i];
                    self.pos += 1;
                    i += 1;
                    if self.pos == 9 {
                        self.desc();
                    }
                }
                Ph::GlobalPal | Ph::LocalPal => {
                    let rest = n - i;
                    if rest < self.need {
                        self.need -= rest;
                        i = n;
                    } else {
                        i += self.need;
                        self.need = 0;
                        self.ph = if self.ph == Ph::GlobalPal { Ph::Block } else { Ph::CodeSize };
                    }
                }
                Ph::Block => {
                    let b = buf[i];
                    i += 1;
                    if self.op == Op::Finish {
                        rt::check(b == 0x3B, "P17: finishing writes the trailer");
                        rt::check(self.trailers == 0, "P17: the trailer is written once");
                        self.trailers += 1;
                        self.ph = Ph::End;
                        rt::reach("trailer");
                    } else if self.op == Op::Frame && b == 0x2C {
                        rt::check(self.images == 0, "P13: a frame is one image block");
                        rt::check(self.exts == 1, "P14: the control extension precedes the image");
                        self.pos = 0;
                        self.ph = Ph::Desc;
                    } else {
                        rt::check(b == 0x21, "P13: an extension block starts with its introducer");
                        rt::check(self.op != Op::New, "P13: construction writes no blocks");
                        rt::check(self.images == 0 && self.exts == 0, "P13: one extension per call, before the image");
                        self.ph = Ph::Label;
                    }
                }
                Ph::Label => {
                    self.label = buf[i];
                    i += 1;
                    self.pos = 0;
                    self.ph = Ph::ExtLen;
                }
                Ph::CodeSize => {
                    if self.keep {
                        if self.compress {
                            rt::check(buf[i] == rt::lzw_code(), "P18: the code size announced is the one used");
                            self.exp = rt::lzw_output();
                        } else if self.exp.len() > 0 {
                            rt::check(buf[i] == self.exp[0], "P18: the code size is passed through");
                            self.cnt = 1;
                        } else {
                            rt::check(buf[i] >= 2 && buf[i] <= 8, "P18: a frame without data has a valid code size");
                        }
                    } else {
                        rt::check(buf[i] >= 2 && buf[i] <= 11, "P18: the minimum code size is valid");
                    }
                    i += 1;
                    self.ph = Ph::ImgLen;
                }
                Ph::ImgLen => {
                    let b = buf[i];
                    i += 1;
                    if b == 0 {
                        if self.keep {
                            rt::check(self.cnt == self.exp.len(), "P18: all data is written");
                        }
                        self.images += 1;
                        self.ph = Ph::Block;
                        rt::reach("image");
                    } else {
                        self.need = b as usize;
                        self.ph = Ph::ImgData;
                    }
                }
                Ph::ExtLen => {
                    let b = buf[i];
                    i += 1;
                    if b == 0 {
                        if self.keep && self.op == Op::Raw {
                            rt::check(self.cnt == self.exp.len(), "P13: all bytes of a raw extension are written");
                        }
                        self.ext_done();
                    } else {
                        self.need = b as usize;
                        self.ph = Ph::ExtData;
                    }
                }
                Ph::ExtData if self.op != Op::Raw => {
                    rt::check(self.pos < 32, "P14: the extension is short");
                    self.rec[self.pos] = buf[i];
                    self.pos += 1;
                    self.need -= 1;
                    i += 1;
                    if self.need == 0 {
                        self.ph = Ph::ExtLen;
                    }
                }
                Ph::ImgData | Ph::ExtData => {
                    let rest = n - i;
                    let k = if rest < self.need { rest } else { self.need };
                    if self.keep {
                        let c = self.cnt;
                        rt::check(self.exp.len() - c >= k && rt::same(&buf[i..i + k], &self.exp[c..c + k]), "P18: the data written is the data given, in order");
                        self.cnt = c + k;
                    }
                    i += k;
                    self.need -= k;
                    if self.need == 0 {
                        self.ph = if self.ph == Ph::ImgData { Ph::ImgLen } else { Ph::ExtLen };
                    }
                }
                Ph::End => {
                    rt::check(false, "P17: nothing follows the trailer");
                    i = n;
                }
                Ph::Broken => {
                    i = n;
                }
            }
        }
    }
    fn fail(&mut self) -> io::Error {
        self.failed = true;
        self.ph = Ph::Broken;
        rt::io_err(7)
    }
    fn pre(&mut self, buf: &[u8]) {
        rt::check(!self.failed, "P16: nothing is written after a write error");
        if self.op == Op::Finish {
            rt::check(!self.finish, "P17: nothing is written after the trailer was");
            rt::check(buf.len() == 1 && buf[0] == 0x3B, "P17: finishing writes the trailer only");
        }
    }
}

impl Write for Mon {
    /// takes as much as it likes
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.pre(buf);
        if rt::nondet() {
            return Err(self.fail());
        }
        let n: usize = rt::nondet();
        rt::assume(n <= buf.len());
        if n > 0 {
            self.wrote = true;
            if self.op == Op::Finish {
                self.finish = true;
            }
        }
        self.feed_unroll(&buf[..n]);
        Ok(n)
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        self.pre(buf);
        if buf.len() > 0 {
            self.wrote = true;
        }
        if self.op == Op::Finish {
            self.finish = true;
        }
        if rt::nondet() {
            return Err(self.fail());
        }
        self.feed_unroll(buf);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        if rt::nondet() {
            self.failed = true;
            return Err(rt::io_err(7));
        }
        Ok(())
    }
}

impl Drop for Mon {
    fn drop(&mut self) {
        if self.op == Op::Finish {
            rt::check(self.finish, "P17: finishing an encoder writes the trailer");
            rt::reach("finished");
        }
    }
}
