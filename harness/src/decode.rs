use crate::ghost::*;
use crate::rt;
use gif::streaming_decoder::*;
use gif::*;
use std::borrow::Cow;

pub fn any_options() -> DecodeOptions {
    let mut o = DecodeOptions::new();
    if rt::nondet() {
        o.set_color_output(ColorOutput::RGBA);
    }
    o.set_memory_limit(rt::nondet());
    o.check_frame_consistency(rt::nondet());
    o.skip_frame_decoding(rt::nondet());
    o.check_lzw_end_code(rt::nondet());
    o.allow_unknown_blocks(rt::nondet());
    o
}

pub fn any_frame() -> Frame<'static> {
    let mut f = Frame::default();
    f.delay = rt::nondet();
    f.dispose = rt::nondet();
    f.transparent = rt::nondet();
    f.needs_user_input = rt::nondet();
    f.top = rt::nondet();
    f.left = rt::nondet();
    f.width = rt::nondet();
    f.height = rt::nondet();
    f.interlaced = rt::nondet();
    if rt::nondet() {
        let n: usize = rt::nondet();
        f.palette = Some(rt::nondet_vec(n));
    }
    let n: usize = rt::nondet();
    f.buffer = if rt::nondet() { Cow::Owned(rt::nondet_vec(n)) } else { Cow::Borrowed(rt::nondet_slice(n)) };
    f
}

fn streaming(kind: u8) {
    rt::panics("P01");
    rt::coarse();
    let mut d = StreamingDecoder::new();
    let mut v = Vec::new();
    loop {
        let n: usize = rt::nondet();
        let buf = rt::nondet_slice(n);
        let r = match kind {
            0 => {
                let m: usize = rt::nondet();
                d.update(buf, &mut OutputBuffer::Slice(rt::nondet_slice_mut(m)))
            }
            1 => d.update(buf, &mut OutputBuffer::Vec(&mut v)),
            _ => d.update(buf, &mut OutputBuffer::None),
        };
        match r {
            Ok((k, _)) => {
                rt::reach("event");
                rt::check(k <= n, "P03: no more input is consumed than was given");
            }
            // calls after an error must not panic either
            Err(_) => rt::reach("error"),
        }
        d.width();
        d.height();
        d.version();
        let _ = d.last_ext();
        if rt::nondet() {
            break;
        }
    }
    rt::reach("end");
}

pub fn h_streaming() {
    streaming(0);
}
pub fn h_streaming_vec() {
    streaming(1);
}
pub fn h_streaming_none() {
    streaming(2);
}

pub fn h_read_info() {
    rt::panics("P01");
    rt::coarse();
    if let Ok(d) = any_options().read_info(AnyReader) {
        rt::reach("info");
        d.width();
        d.height();
        d.bg_color();
        d.repeat();
        d.global_palette();
        let _ = d.palette();
        d.buffer_size();
        d.line_length();
        d.into_inner();
    }
    rt::reach("end");
}

pub fn h_read_next_frame() {
    rt::panics("P01");
    rt::coarse();
    if let Ok(mut d) = any_options().read_info(AnyReader) {
        loop {
            match d.read_next_frame() {
                Ok(Some(_)) => rt::reach("frame"),
                Ok(None) => rt::reach("none"),
                Err(_) => rt::reach("error"),
            }
            d.buffer_size();
            d.line_length();
            if rt::nondet() {
                break;
            }
        }
    }
    rt::reach("end");
}

/// Row-wise decoding, in any sequence of calls
pub fn h_fill() {
    rt::panics("P01");
    rt::coarse();
    if let Ok(mut d) = any_options().read_info(AnyReader) {
        loop {
            let k: u8 = rt::nondet();
            match k {
                0 => {
                    if d.next_frame_info().is_ok() {
                        rt::reach("frame");
                    }
                }
                1 => {
                    let n: usize = rt::nondet();
                    if d.fill_buffer(rt::nondet_slice_mut(n)).is_ok() {
                        rt::reach("fill");
                    }
                }
                2 => {
                    let _ = d.palette();
                    d.buffer_size();
                    d.line_length();
                }
                _ => break,
            }
        }
    }
    rt::reach("end");
}

/// Frame-wise decoding into a buffer, in any sequence of calls
pub fn h_into() {
    rt::panics("P01");
    rt::coarse();
    if let Ok(mut d) = any_options().read_info(AnyReader) {
        loop {
            let k: u8 = rt::nondet();
            match k {
                0 => {
                    if d.next_frame_info().is_ok() {
                        rt::reach("frame");
                    }
                }
                1 => {
                    let n: usize = rt::nondet();
                    if d.read_into_buffer(rt::nondet_slice_mut(n)).is_ok() {
                        rt::reach("into");
                    }
                }
                _ => break,
            }
        }
    }
    rt::reach("end");
}

/// Any sequence of calls
pub fn h_decoder() {
    rt::panics("P01");
    rt::coarse();
    if let Ok(mut d) = any_options().read_info(AnyReader) {
        loop {
            let k: u8 = rt::nondet();
            match k {
                0 => {
                    let _ = d.next_frame_info();
                }
                1 => {
                    let n: usize = rt::nondet();
                    let _ = d.fill_buffer(rt::nondet_slice_mut(n));
                }
                2 => {
                    let n: usize = rt::nondet();
                    let _ = d.read_into_buffer(rt::nondet_slice_mut(n));
                }
                3 => {
                    let _ = d.read_next_frame();
                }
                4 => {
                    let _ = d.palette();
                    d.buffer_size();
                    d.line_length();
                }
                _ => break,
            }
        }
    }
    rt::reach("end");
}

pub fn h_iter() {
    rt::panics("P01");
    rt::coarse();
    if let Ok(d) = any_options().read_info(AnyReader) {
        let mut it = d.into_iter();
        loop {
            match it.next() {
                Some(Ok(_)) => rt::reach("frame"),
                Some(Err(_)) => rt::reach("error"),
                None => rt::reach("none"),
            }
            if rt::nondet() {
                break;
            }
        }
        it.into_inner();
    }
    rt::reach("end");
}

/// Frames with compressed data of any content
pub fn h_frame_decoder() {
    rt::panics("P01");
    rt::coarse();
    let mut d = FrameDecoder::new(any_options());
    loop {
        if rt::nondet() {
            let n: usize = rt::nondet();
            d.set_global_palette(rt::nondet_vec(n));
        }
        let mut f = any_frame();
        if rt::nondet() {
            if d.decode_lzw_encoded_frame(&mut f).is_ok() {
                rt::reach("frame");
            }
        } else {
            let n: usize = rt::nondet();
            if d.decode_lzw_encoded_frame_into_buffer(&f, rt::nondet_slice_mut(n)).is_ok() {
                rt::reach("into");
            }
        }
        if rt::nondet() {
            break;
        }
    }
    rt::reach("end");
}
