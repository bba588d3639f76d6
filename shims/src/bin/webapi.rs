//! The WebAssembly interface of the library, compiled for this machine, behind a pair of pipes.
//! A request is a kind, a length, and an Ogg file; an answer is a status, a length, and the
//! result, error message or panic message.

use std::io::{Cursor, Read, Write};

// What that file may refer to as `crate`
pub use optivorbis::*;

#[allow(dead_code)]
#[path = "/repo/packages/optivorbis/src/wasm_bindings.rs"]
mod wasm_bindings;

fn plain(r: Result<impl Into<Vec<u8>>, impl ToString>) -> Result<Vec<u8>, String> {
    r.map(Into::into).map_err(|e| e.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    #[allow(unused_mut)]
    let mut kept = wasm_bindings::OggToOgg::new_with_defaults();
    let mut head = [0; 9];
    while i.read_exact(&mut head).is_ok() {
        let mut b = vec![0; u64::from_le_bytes(head[1..].try_into().unwrap()) as usize];
        i.read_exact(&mut b).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match head[0] {
            // A new instance for every file
            b'n' => plain(wasm_bindings::OggToOgg::new_with_defaults().remux(&b)),
            // The same one for all of them
            b'k' => plain(kept.remux(&b)),
            // The interface for Rust programs
            _ => {
                let mut v = vec![];
                match optivorbis::OggToOgg::new_with_defaults().remux(Cursor::new(&b), &mut v) {
                    Ok(_) => Ok(v),
                    Err(e) => Err(e.to_string()),
                }
            }
        }));
        let (status, data): (u8, Vec<u8>) = match r {
            Ok(Ok(v)) => (b'o', v),
            Ok(Err(m)) => (b'e', m.into_bytes()),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                (b'p', m.unwrap_or_default().into_bytes())
            }
        };
        let mut a = vec![status];
        a.extend((data.len() as u64).to_le_bytes());
        a.extend_from_slice(&data);
        o.write_all(&a).unwrap();
        o.flush().unwrap();
    }
}
