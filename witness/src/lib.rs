//! P21: type-level witness. Every function below is a proof, checked by the compiler's trait solver
//! for every reader and writer type, that a public type is Send or Sync (and that errors are also
//! 'static, convertible and boxable). If a field of any of them loses the property, this crate no
//! longer builds.
#![allow(dead_code)]
use gif::streaming_decoder::*;
use gif::*;
use std::error::Error;
use std::io::{Read, Write};

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn owned<T: 'static>() {}
fn error<T: Error + Send + Sync + 'static>() {}

// readers and writers
pub fn decoder<R: Read + Send>() { send::<Decoder<R>>() }
// the iterator is a private type named through the public trait
fn value_send<T: Send>(_: &T) {}
pub fn iterator<R: Read + Send>(d: Decoder<R>) { value_send(&d.into_iter()) }
pub fn encoder<W: Write + Send>() { send::<Encoder<W>>() }
pub fn encoder_sync<W: Write + Sync>() { sync::<Encoder<W>>() }

// everything else
macro_rules! both {
    ($($n:ident: $t:ty;)*) => {$( pub fn $n() { send::<$t>(); sync::<$t>(); } )*}
}
both! {
    decoded: Decoded;
    options: DecodeOptions;
    color_output: ColorOutput;
    memory_limit: MemoryLimit;
    version: Version;
    repeat: Repeat;
    extension_data: ExtensionData;
    disposal: DisposalMethod;
    block: Block;
    extension: Extension;
    any_extension: AnyExtension;
    frame_data_type: FrameDataType;
    static_frame: Frame<'static>;
}
pub fn frame<'a>() { send::<Frame<'a>>(); sync::<Frame<'a>>() }
// the state of the LZW decoder is not Sync, so neither are these
pub fn decoders() { send::<StreamingDecoder>(); send::<FrameDecoder>() }
pub fn output_buffer<'a>() { send::<OutputBuffer<'a>>(); sync::<OutputBuffer<'a>>() }
pub fn owned_types() {
    owned::<StreamingDecoder>();
    owned::<FrameDecoder>();
    owned::<DecodeOptions>();
    owned::<Frame<'static>>();
}
pub fn errors() {
    error::<DecodingError>();
    error::<DecodingFormatError>();
    error::<EncodingError>();
    error::<EncodingFormatError>();
}

// how users rely on it: work on frames and codecs in other threads
pub fn use_threads<R: Read + Send + 'static, W: Write + Send + 'static>(r: R, w: W) {
    std::thread::spawn(move || -> Result<(), Box<dyn Error + Send + Sync>> {
        let d = Decoder::new(r)?;
        let mut e = Encoder::new(w, 1, 1, &[])?;
        for f in d {
            let f = f?;
            std::thread::spawn(move || f.width);
        }
        e.set_repeat(Repeat::Infinite)?;
        Ok(())
    });
}
pub fn share_frames(frames: &[Frame<'_>]) {
    std::thread::scope(|s| {
        for f in frames {
            s.spawn(move || f.width);
        }
    });
}

#[cfg(feature = "canary")]
mod canary {
    use super::*;
    pub struct Shared(std::rc::Rc<u8>);
    impl Read for Shared {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
            Ok(0)
        }
    }
    // must be rejected
    pub fn canary_send() { send::<Decoder<Shared>>() }
    pub fn canary_sync() { sync::<std::cell::Cell<u8>>() }
}
