use crate::decode::any_frame;
use crate::mon::*;
use crate::rt;
use gif::*;
use std::borrow::Cow;
use std::io;

fn outcome(m: &mut Mon, r: &Result<(), EncodingError>) {
    match r {
        Ok(()) => {
            rt::check(!m.failed, "P16: a call that succeeds had every write succeed");
        }
        Err(EncodingError::Io(e)) => {
            if rt::io_err_id(e) == 7 {
                rt::check(m.failed, "P16: an error of the writer is reported only if it failed");
            } else if rt::io_err_id(e) == rt::io_err_id(&io::ErrorKind::OutOfMemory.into()) {
                // not a property of the input
                rt::check(!m.failed, "P16: the error of the writer is the one reported");
                if m.wrote {
                    // the file is incomplete
                    m.ph = Ph::Broken;
                }
                rt::reach("out of memory");
            } else {
                rt::check(!m.failed, "P16: the error of the writer is the one reported");
                rt::check(!m.wrote, "P15: rejected input writes nothing");
                rt::reach("rejected");
            }
        }
        Err(_) => {
            rt::check(!m.failed, "P16: the error of the writer is the one reported");
            rt::check(!m.wrote, "P15: rejected input writes nothing");
            rt::reach("unencodable");
        }
    }
}

fn io_outcome(m: &Mon, r: &io::Result<()>) {
    match r {
        Ok(()) => rt::check(!m.failed, "P16: a call that succeeds had every write succeed"),
        Err(e) => rt::check(m.failed && rt::io_err_id(e) == 7, "P16: the error of the writer is the one reported"),
    }
}

fn new_encoder() -> Option<Encoder<Mon>> {
    let mut m = mon();
    m.want.w = rt::nondet();
    m.want.h = rt::nondet();
    let n: usize = rt::nondet();
    m.want.pal_len = n;
    let (w, h) = (m.want.w, m.want.h);
    match Encoder::new(m, w, h, rt::nondet_slice(n)) {
        Ok(mut e) => {
            let m = e.get_ref();
            rt::check(!m.failed, "P16: a construction that succeeds had every write succeed");
            rt::check(m.ph == Ph::Block, "P13: after construction the file is at a block boundary");
            e.get_mut().settle();
            rt::reach("new");
            Some(e)
        }
        Err(_) => {
            rt::reach("new failed");
            None
        }
    }
}

fn want_frame(m: &mut Mon, f: &Frame<'_>) {
    m.begin(Op::Frame);
    let w = &mut m.want;
    w.w = f.width;
    w.h = f.height;
    w.left = f.left;
    w.top = f.top;
    w.delay = f.delay;
    w.dispose = f.dispose as u8;
    w.input = f.needs_user_input;
    w.transparent = f.transparent;
    w.interlaced = f.interlaced;
    w.has_palette = f.palette.is_some();
    w.pal_len = match &f.palette {
        Some(p) => p.len(),
        None => 0,
    };
}

fn frame_done(m: &mut Mon, r: &Result<(), EncodingError>) {
    outcome(m, r);
    if r.is_ok() {
        rt::check(m.ph == Ph::Broken || (m.images == 1 && m.ph == Ph::Block), "P13: a frame that was written is a complete image block");
        rt::reach("frame");
    }
}

fn write_frame(e: &mut Encoder<Mon>) {
    let f = any_frame();
    rt::assume(f.buffer.len() == 0 || (f.width > 0 && f.height > 0));
    want_frame(e.get_mut(), &f);
    let r = e.write_frame(&f);
    frame_done(e.get_mut(), &r);
}

fn write_pre(e: &mut Encoder<Mon>) {
    let f = any_frame();
    want_frame(e.get_mut(), &f);
    let r = e.write_lzw_pre_encoded_frame(&f);
    frame_done(e.get_mut(), &r);
}

fn dispose(k: u8) -> DisposalMethod {
    match k {
        0 => DisposalMethod::Any,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        _ => DisposalMethod::Previous,
    }
}

fn write_ext(e: &mut Encoder<Mon>) {
    let m = e.get_mut();
    if rt::nondet() {
        m.begin(Op::Control);
        let d = rt::nondet();
        m.want.delay = rt::nondet();
        m.want.input = rt::nondet();
        m.want.transparent = rt::nondet();
        let d = dispose(d);
        m.want.dispose = d as u8;
        let x = ExtensionData::new_control_ext(m.want.delay, d, m.want.input, m.want.transparent);
        let r = e.write_extension(x);
        outcome(e.get_mut(), &r);
        if r.is_ok() {
            let m = e.get_ref();
            rt::check(m.ph == Ph::Broken || (m.exts == 1 && m.ph == Ph::Block), "P13: a control extension that was written is complete");
            rt::reach("ext");
        }
    } else {
        m.begin(Op::Repeat);
        let c: u16 = rt::nondet();
        let inf: bool = rt::nondet();
        m.want.repeat = if inf { 0 } else { c };
        let x = if inf { Repeat::Infinite } else { Repeat::Finite(c) };
        let r = if rt::nondet() { e.set_repeat(x) } else { e.write_extension(ExtensionData::Repetitions(x)) };
        outcome(e.get_mut(), &r);
        if r.is_ok() {
            let m = e.get_ref();
            rt::check(inf || c != 0 || !m.wrote, "P14: no repetition is signalled by the absence of the extension");
            rt::check(m.ph == Ph::Broken || ((m.exts == 1 || (!inf && c == 0)) && m.ph == Ph::Block), "P13: a repeat extension that was written is complete");
            rt::reach("repeat");
        }
    }
}

fn write_raw(e: &mut Encoder<Mon>) {
    let m = e.get_mut();
    m.begin(Op::Raw);
    m.want.label = rt::nondet();
    let l = AnyExtension(m.want.label);
    let (n1, n2): (usize, usize) = (rt::nondet(), rt::nondet());
    let blocks = [rt::nondet_slice(n1), rt::nondet_slice(n2)];
    let k: usize = rt::nondet();
    let r = match k {
        0 => e.write_raw_extension(l, &[]),
        1 => e.write_raw_extension(l, &blocks[..1]),
        _ => e.write_raw_extension(l, &blocks),
    };
    io_outcome(e.get_ref(), &r);
    if r.is_ok() {
        let m = e.get_ref();
        rt::check(m.ph == Ph::Broken || (m.exts == 1 && m.ph == Ph::Block), "P13: a raw extension that was written is complete");
        rt::reach("raw");
    }
}

fn finish(mut e: Encoder<Mon>) {
    e.get_mut().begin(Op::Finish);
    if rt::nondet() {
        match e.into_inner() {
            Ok(m) => {
                rt::check(!m.failed, "P16: a finish that succeeds had every write succeed");
                rt::check(m.finish, "P17: a finish that succeeds wrote the trailer");
                rt::check(m.ph == Ph::Broken || m.ph == Ph::End, "P17: the trailer ends the file");
                rt::reach("inner");
            }
            Err(x) => {
                rt::check(rt::io_err_id(&x) == 7, "P16: finishing reports the error of the writer");
                rt::reach("inner failed");
            }
        }
    } else {
        drop(e);
        rt::reach("dropped");
    }
}

fn encoder(kind: u8) {
    rt::panics("P12");
    if let Some(mut e) = new_encoder() {
        loop {
            match kind {
                0 => write_frame(&mut e),
                1 => write_pre(&mut e),
                2 => write_ext(&mut e),
                _ => write_raw(&mut e),
            }
            e.get_mut().settle();
            if rt::nondet() {
                break;
            }
        }
        finish(e);
    }
    rt::reach("end");
}
pub fn h_enc_frame() {
    encoder(0);
}
pub fn h_enc_pre() {
    encoder(1);
}
pub fn h_enc_ext() {
    encoder(2);
}
pub fn h_enc_raw() {
    encoder(3);
}

/// The frame constructors, within their documented preconditions
pub fn h_frames() {
    rt::no_oom();
    rt::panics("P12");
    let (w, h): (u16, u16) = (rt::nondet(), rt::nondet());
    let n: usize = rt::nondet();
    let t = rt::nondet();
    let kind: u8 = rt::nondet();
    let px = w as usize * h as usize;
    let mut f = match kind {
        0 => {
            let m: usize = rt::nondet();
            rt::assume(m <= 768 && n == px);
            rt::reach("palette");
            Frame::from_palette_pixels(w, h, rt::nondet_vec(n), rt::nondet_vec(m), t)
        }
        1 => {
            rt::assume(n == px);
            rt::reach("indexed");
            Frame::from_indexed_pixels(w, h, rt::nondet_vec(n), t)
        }
        2 => {
            let s: i32 = rt::nondet();
            rt::assume(s >= 1 && s <= 30 && n == px * 4);
            rt::reach("rgba");
            Frame::from_rgba_speed(w, h, rt::nondet_slice_mut(n), s)
        }
        3 => {
            rt::assume(n == px * 4);
            Frame::from_rgba(w, h, rt::nondet_slice_mut(n))
        }
        4 => {
            let s: i32 = rt::nondet();
            rt::assume(s >= 1 && s <= 30 && n == px * 3);
            rt::reach("rgb");
            Frame::from_rgb_speed(w, h, rt::nondet_slice(n), s)
        }
        5 => {
            rt::assume(n == px * 3);
            Frame::from_rgb(w, h, rt::nondet_slice(n))
        }
        _ => any_frame(),
    };
    rt::reach("frame");
    if kind < 6 {
        rt::check(f.width == w && f.height == h, "P12: a constructed frame has the size given");
        rt::check(f.buffer.len() == px, "P12: a constructed frame has a pixel for each position");
        match &f.palette {
            Some(p) => rt::check(p.len() <= 768, "P12: a constructed palette can be encoded"),
            None => {}
        }
    }
    f.make_lzw_pre_encoded();
    rt::check(f.buffer.len() > 0 && f.buffer[0] >= 2 && f.buffer[0] <= 8, "P18: pre-encoded data starts with a valid code size");
    rt::reach("end");
}

/// code sizes that can represent an index
fn fits(code: u8, x: u8) -> bool {
    match code {
        2 => x < 4,
        3 => x < 8,
        4 => x < 16,
        5 => x < 32,
        6 => x < 64,
        7 => x < 128,
        8 => true,
        _ => false,
    }
}

fn finish_quietly(mut e: Encoder<Mon>) {
    let m = e.get_mut();
    m.keep = false;
    m.ph = Ph::Broken;
    m.begin(Op::Finish);
    let _ = e.into_inner();
}

/// The compressed form of all pixels is what is written
pub fn h_enc_data() {
    rt::panics("P12");
    rt::lzw_track();
    let mut m = mon();
    m.want.pal_len = 6;
    if let Ok(mut e) = Encoder::new(m, 0, 0, &[1, 2, 3, 4, 5, 6]) {
        let (n, k): (usize, usize) = (rt::nondet(), rt::nondet());
        rt::assume(k < n);
        let v = rt::nondet_slice(n);
        // any pixel
        let x = rt::witness(v, k);
        let mut f = Frame::default();
        f.width = rt::nondet();
        f.height = rt::nondet();
        f.buffer = Cow::Borrowed(v);
        rt::assume(f.width > 0 && f.height > 0);
        want_frame(e.get_mut(), &f);
        e.get_mut().keep = true;
        e.get_mut().compress = true;
        if e.write_frame(&f).is_ok() {
            rt::check(rt::same(rt::lzw_input(), v), "P18: all pixels are compressed");
            rt::check(fits(rt::lzw_code(), x), "P18: the code size can represent every index");
            rt::reach("data");
        }
        finish_quietly(e);
    }
    rt::reach("end");
}

/// Compressing ahead gives the same
pub fn h_pre_data() {
    rt::panics("P12");
    rt::lzw_track();
    rt::no_oom();
    let (n, k): (usize, usize) = (rt::nondet(), rt::nondet());
    rt::assume(k < n);
    let v = rt::nondet_slice(n);
    let x = rt::witness(v, k);
    let mut f = Frame::default();
    f.width = rt::nondet();
    f.height = rt::nondet();
    f.buffer = Cow::Borrowed(v);
    f.make_lzw_pre_encoded();
    rt::check(rt::same(rt::lzw_input(), v), "P18: all pixels are compressed ahead");
    rt::check(f.buffer.len() > 0 && f.buffer[0] == rt::lzw_code(), "P18: the code size stored is the one used");
    rt::check(f.buffer.len() > 0 && rt::same(&f.buffer[1..], rt::lzw_output()), "P18: all compressed data is stored");
    rt::check(fits(rt::lzw_code(), x), "P18: the code size can represent every index");
    rt::reach("end");
}

/// Compressed data is passed through
pub fn h_raw_data() {
    rt::panics("P12");
    let mut m = mon();
    m.want.pal_len = 6;
    if let Ok(mut e) = Encoder::new(m, 0, 0, &[1, 2, 3, 4, 5, 6]) {
        let n: usize = rt::nondet();
        let v = rt::nondet_slice(n);
        let mut f = Frame::default();
        f.buffer = Cow::Borrowed(v);
        want_frame(e.get_mut(), &f);
        e.get_mut().keep = true;
        e.get_mut().exp = v;
        if e.write_lzw_pre_encoded_frame(&f).is_ok() {
            rt::reach("data");
        }
        finish_quietly(e);
    }
    rt::reach("end");
}

/// Raw extensions contain the bytes given
pub fn h_ext_data() {
    rt::panics("P12");
    let mut m = mon();
    m.want.pal_len = 6;
    if let Ok(mut e) = Encoder::new(m, 0, 0, &[1, 2, 3, 4, 5, 6]) {
        let m = e.get_mut();
        m.begin(Op::Raw);
        m.keep = true;
        m.want.label = rt::nondet();
        let l = AnyExtension(m.want.label);
        let (n, n1): (usize, usize) = (rt::nondet(), rt::nondet());
        rt::assume(n1 <= n);
        let v = rt::nondet_slice(n);
        m.exp = v;
        let blocks = [&v[..n1], &v[n1..]];
        let r = if rt::nondet() { e.write_raw_extension(l, &blocks) } else { e.write_raw_extension(l, &[v]) };
        if r.is_ok() {
            rt::reach("data");
        }
        finish_quietly(e);
    }
    rt::reach("end");
}
