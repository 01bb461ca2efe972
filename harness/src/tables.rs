//! P22: the code tables
use crate::rt;
use gif::streaming_decoder::Block;
use gif::*;


pub fn h_tables() {
    rt::panics("P22");
    let n: u8 = rt::nondet();
    match Block::from_u8(n) {
        Some(b) => {
            rt::reach("block known");
            rt::check(b as u8 == n, "P22: Block::from_u8 is inverted by the number of the block");
        }
        None => {
            rt::reach("block unknown");
            rt::check(n != 0x2C && n != 0x21 && n != 0x3B, "P22: Block::from_u8 knows every block of the format");
        }
    }
    match Extension::from_u8(n) {
        Some(b) => {
            rt::reach("extension known");
            rt::check(b as u8 == n, "P22: Extension::from_u8 is inverted by the number of the extension");
        }
        None => {
            rt::reach("extension unknown");
            rt::check(n != 0x01 && n != 0xF9 && n != 0xFE && n != 0xFF, "P22: Extension::from_u8 knows every extension of the format");
        }
    }
    match DisposalMethod::from_u8(n) {
        Some(b) => {
            rt::reach("disposal known");
            rt::check(b as u8 == n, "P22: DisposalMethod::from_u8 is inverted by the number of the method");
        }
        None => {
            rt::reach("disposal unknown");
            rt::check(n > 3, "P22: DisposalMethod::from_u8 knows every method of the format");
        }
    }
    match AnyExtension(n).into_known() {
        Some(e) => {
            rt::reach("any extension known");
            rt::check(e as u8 == n, "P22: AnyExtension::into_known keeps the number");
            rt::check(AnyExtension::from(e).0 == n, "P22: AnyExtension from a known extension keeps the number");
        }
        None => {
            rt::reach("any extension unknown");
            rt::check(n != 0x01 && n != 0xF9 && n != 0xFE && n != 0xFF, "P22: AnyExtension::into_known knows every extension of the format");
        }
    }
    // the numbers of the members are those of the format
    rt::check(Block::Image as u8 == 0x2C, "P22: number of Block::Image");
    rt::check(Block::Extension as u8 == 0x21, "P22: number of Block::Extension");
    rt::check(Block::Trailer as u8 == 0x3B, "P22: number of Block::Trailer");
    rt::check(Extension::Text as u8 == 0x01, "P22: number of Extension::Text");
    rt::check(Extension::Control as u8 == 0xF9, "P22: number of Extension::Control");
    rt::check(Extension::Comment as u8 == 0xFE, "P22: number of Extension::Comment");
    rt::check(Extension::Application as u8 == 0xFF, "P22: number of Extension::Application");
    rt::check(DisposalMethod::Any as u8 == 0, "P22: number of DisposalMethod::Any");
    rt::check(DisposalMethod::Keep as u8 == 1, "P22: number of DisposalMethod::Keep");
    rt::check(DisposalMethod::Background as u8 == 2, "P22: number of DisposalMethod::Background");
    rt::check(DisposalMethod::Previous as u8 == 3, "P22: number of DisposalMethod::Previous");
    rt::check(matches!(Block::from_u8(0x2C), Some(Block::Image)), "P22: Block::from_u8 of the image separator");
    rt::check(matches!(Block::from_u8(0x21), Some(Block::Extension)), "P22: Block::from_u8 of the extension introducer");
    rt::check(matches!(Block::from_u8(0x3B), Some(Block::Trailer)), "P22: Block::from_u8 of the trailer");
    rt::reach("end");
}
