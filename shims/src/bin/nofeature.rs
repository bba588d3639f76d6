//! The library without its features. Does what `mc child` does with them: remuxes files one after
//! the other, each with its own instance.

use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamPassthroughMangler, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizerSettings, VorbisVendorStringAction};
use std::io::Cursor;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    for (i, f) in args[3..].iter().enumerate() {
        let mut s = Settings::<OggVorbisStreamPassthroughMangler>::default();
        s.first_stream_serial_offset = args[1].parse().unwrap();
        s.randomize_stream_serials = args[2] == "1";
        let mut o = VorbisOptimizerSettings::default();
        o.vendor_string_action = VorbisVendorStringAction::Copy;
        let mut out = vec![];
        match OggToOgg::new(s, o).remux(Cursor::new(std::fs::read(f).unwrap()), &mut out) {
            Ok(_) => {
                std::fs::write(format!("{}.{i}", args[0]), out).unwrap();
                println!("ok");
            }
            Err(e) => println!("err {e}"),
        }
    }
}
