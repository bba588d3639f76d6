//! The WebAssembly interface of the library, compiled for WebAssembly, without the glue that
//! wasm-bindgen generates. `run.js` calls these functions.

use std::cell::RefCell;
use std::io::Cursor;

// What that file may refer to as `crate`
pub use optivorbis::*;

#[allow(dead_code, unreachable_pub)]
#[path = "/repo/packages/optivorbis/src/wasm_bindings.rs"]
mod wasm_bindings;

fn plain(r: Result<impl Into<Vec<u8>>, impl ToString>) -> Result<Vec<u8>, String> {
    r.map(Into::into).map_err(|e| e.to_string())
}

struct State {
    input: Vec<u8>,
    output: Vec<u8>,
    kept: wasm_bindings::OggToOgg,
}

thread_local!(static STATE: RefCell<State> = RefCell::new(State { input: vec![], output: vec![], kept: wasm_bindings::OggToOgg::new_with_defaults() }));

#[no_mangle]
pub extern "C" fn mc_input(len: usize) -> *mut u8 {
    STATE.with_borrow_mut(|s| {
        s.input = vec![0; len];
        s.input.as_mut_ptr()
    })
}

/// Whether it succeeds
#[no_mangle]
pub extern "C" fn mc_remux(kind: u32) -> u32 {
    STATE.with_borrow_mut(|s| {
        let r = match kind as u8 {
            b'n' => plain(wasm_bindings::OggToOgg::new_with_defaults().remux(&s.input)),
            b'k' => plain(s.kept.remux(&s.input)),
            _ => {
                let mut v = vec![];
                match optivorbis::OggToOgg::new_with_defaults().remux(Cursor::new(&s.input), &mut v) {
                    Ok(_) => Ok(v),
                    Err(e) => Err(e.to_string()),
                }
            }
        };
        let ok = r.is_ok();
        s.output = r.unwrap_or_else(|m| m.into_bytes());
        s.input = vec![];
        ok as u32
    })
}

#[no_mangle]
pub extern "C" fn mc_output() -> *const u8 {
    STATE.with_borrow(|s| s.output.as_ptr())
}

#[no_mangle]
pub extern "C" fn mc_output_len() -> usize {
    STATE.with_borrow(|s| s.output.len())
}

#[link(wasm_import_module = "mc")]
extern "C" {
    fn random(at: *mut u8, len: usize);
}

#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(at: *mut u8, len: usize) -> Result<(), std::num::NonZeroU32> {
    random(at, len);
    Ok(())
}
