//! The library with a system generator of random numbers that gives whatever it is told to, or
//! fails. Built with `--cfg getrandom_backend="custom"`.
//! A request is an offset, the number of random bytes (or 255 for failure), the bytes, a length
//! and an Ogg file; an answer is a status, the number of bytes that were asked for, a length, and
//! the result or the error message.

use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamPassthroughMangler, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizerSettings, VorbisVendorStringAction};
use std::io::{Cursor, Read, Write};
use std::sync::Mutex;

/// The bytes to come, or none if it fails, and how many were asked for
static ENTROPY: Mutex<(Option<Vec<u8>>, usize)> = Mutex::new((None, 0));

#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(at: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let mut e = ENTROPY.lock().unwrap();
    let from = e.1;
    e.1 += len;
    let Some(v) = &e.0 else { return Err(getrandom::Error::UNSUPPORTED) };
    for i in 0..len {
        at.add(i).write(v.get(from + i).copied().unwrap_or(0));
    }
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0; 5];
    while i.read_exact(&mut head).is_ok() {
        let mut random = vec![0; if head[4] == 255 { 0 } else { head[4] as usize }];
        i.read_exact(&mut random).unwrap();
        let mut len = [0; 4];
        i.read_exact(&mut len).unwrap();
        let mut b = vec![0; u32::from_le_bytes(len) as usize];
        i.read_exact(&mut b).unwrap();
        *ENTROPY.lock().unwrap() = ((head[4] != 255).then_some(random), 0);
        let mut s = Settings::<OggVorbisStreamPassthroughMangler>::default();
        s.first_stream_serial_offset = u32::from_le_bytes(head[..4].try_into().unwrap());
        let mut v = VorbisOptimizerSettings::default();
        v.vendor_string_action = VorbisVendorStringAction::Copy;
        let r = std::panic::catch_unwind(|| {
            let mut out = vec![];
            OggToOgg::new(s, v).remux(Cursor::new(b), &mut out).map(|_| ()).map_err(|e| e.to_string()).map(|()| out)
        });
        let (status, data): (u8, Vec<u8>) = match r {
            Ok(Ok(v)) => (b'o', v),
            Ok(Err(m)) => (b'e', m.into_bytes()),
            Err(_) => (b'p', vec![]),
        };
        let mut a = vec![status, ENTROPY.lock().unwrap_or_else(|e| e.into_inner()).1.min(255) as u8];
        a.extend((data.len() as u32).to_le_bytes());
        a.extend_from_slice(&data);
        o.write_all(&a).unwrap();
        o.flush().unwrap();
    }
}
