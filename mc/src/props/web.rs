//! C24: default settings, and the interface for WebAssembly, which uses them.

use super::serials::canonical;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::report::Ctx;
use crate::spaces::*;
use crate::spaces2::*;
use crate::vorbis::{Codebook, LenFmt};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::LazyLock;

/// The other end of shims/src/bin/webapi.rs or wasm/run.js
struct Web(Child, ChildStdin, ChildStdout);

impl Web {
    fn new(wasm: bool) -> Self {
        let mut c = if wasm {
            let mut c = Command::new("node");
            c.arg(concat!(env!("CARGO_MANIFEST_DIR"), "/../wasm/run.js")).arg(WASM.as_ref().expect("MC_WASM"));
            c
        } else {
            Command::new(std::env::var("MC_WEBAPI").expect("MC_WEBAPI"))
        };
        let mut c = c
            .env_remove("SOURCE_DATE_EPOCH")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("webapi");
        let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        Web(c, i, o)
    }
    fn ask(&mut self, kind: u8, b: &[u8]) -> std::io::Result<Out> {
        let mut head = vec![kind];
        head.extend((b.len() as u64).to_le_bytes());
        self.1.write_all(&head)?;
        self.1.write_all(b)?;
        self.1.flush()?;
        let mut a = [0; 9];
        self.2.read_exact(&mut a)?;
        let mut v = vec![0; u64::from_le_bytes(a[1..].try_into().unwrap()) as usize];
        self.2.read_exact(&mut v)?;
        let text = String::from_utf8_lossy(&v).into_owned();
        Ok(match a[0] {
            b'o' => Out::Ok(v),
            b'e' => Out::Err("", text, 0),
            _ => Out::Panic(text),
        })
    }
}
impl Drop for Web {
    fn drop(&mut self) {
        self.0.kill().ok();
        self.0.wait().ok();
    }
}

fn ask(wasm: bool, kind: u8, b: &[u8]) -> Out {
    thread_local!(static WEB: RefCell<[Option<Web>; 2]> = const { RefCell::new([None, None]) });
    WEB.with_borrow_mut(|w| {
        let w = &mut w[wasm as usize];
        let r = w.get_or_insert_with(|| Web::new(wasm)).ask(kind, b);
        r.unwrap_or_else(|e| {
            *w = None;
            Out::Panic(format!("the process ended: {e}"))
        })
    })
}

/// The interface compiled for WebAssembly, where that was possible
static WASM: LazyLock<Option<std::ffi::OsString>> = LazyLock::new(|| std::env::var_os("MC_WASM"));

/// What the documentation says about the default of each setting
pub fn documented() -> Opts {
    Opts { vendor: Vendor::AppendTag, delete_fields: false, randomize: true, offset: 0, ignore_start: false, error_no_vorbis: true, verify_crc: true }
}

/// Everything but serials and, hence, checksums
fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(a), Out::Ok(b)) => match (canonical(a), canonical(b)) {
            (Ok(x), Ok(y)) => x == y,
            _ => false,
        },
        (Out::Err(_, a, _), Out::Err(_, b, _)) => a == b,
        // For another property to judge
        (Out::Panic(_), Out::Panic(_)) => true,
        _ => false,
    }
}

fn eval(c: &Case) -> Verdict {
    let o = documented();
    let mut v = Verdict { nontrivial: true, steps: 1, hash: fnv(&c.input), ..Default::default() };
    let spelled = remux(&c.input, &o);
    v.outcome = match &spelled {
        Out::Ok(_) => "remuxed",
        Out::Err(..) => "rejected",
        Out::Panic(_) => "panic",
    };
    let mut issues = vec![];
    let mut bad = |k: &str, m: String| issues.push((k.to_string(), format!("{}: {m}", c.note)));
    let default = ask(false, b'd', &c.input);
    if !same(&default, &spelled) {
        bad("defaults", format!("the default settings give {}, and the documented ones {}", brief(&default), brief(&spelled)));
    }
    for (kind, what) in [(b'k', "an instance of the WebAssembly interface for all files"), (b'n', "a new instance of the WebAssembly interface")] {
        let web = ask(false, kind, &c.input);
        v.steps += 1;
        if !same(&web, &spelled) {
            bad("web", format!("{what} gives {}, and the library {}", brief(&web), brief(&spelled)));
        }
    }
    if WASM.is_some() {
        for (kind, what) in [(b'd', "the library"), (b'k', "an instance for all files"), (b'n', "a new instance")] {
            let web = ask(true, kind, &c.input);
            v.steps += 1;
            if same(&web, &spelled) {
                continue;
            }
            if matches!(&web, Out::Err(_, m, _) if m.contains("Too big value for this platform")) {
                // Addresses have 32 bits there
                v.nontrivial = false;
            } else {
                bad("wasm", format!("compiled for WebAssembly, {what} gives {}, and the library {}", brief(&web), brief(&spelled)));
            }
        }
    }
    v.issues = issues;
    v
}

fn brief(o: &Out) -> String {
    match o {
        Out::Ok(b) => format!("{} bytes", b.len()),
        Out::Err(_, m, _) => format!("the error \"{m}\""),
        Out::Panic(m) => format!("a panic, \"{m}\""),
    }
}

pub fn c24(ctx: &mut Ctx) {
    // Settings matter to these, one by one
    let bs = bases();
    let gen = |ch: &mut Chooser| -> Option<Case> {
        let mut s = bs[ch.all(bs.len())].clone();
        s.serial = ch.each(&[0u32, 7, u32::MAX]);
        let start = ch.each(&[0i64, 1, 100_000, -50]);
        s.start = start;
        let mut input = match ch.all(5) {
            0 => s.bytes(),
            1 => {
                let mut t = s.clone();
                t.serial ^= 0x55;
                [s.bytes(), t.bytes()].concat()
            }
            2 => vec![],
            3 => b"OggS".to_vec(),
            _ => file(6).to_vec(),
        };
        let damage = ch.all(3);
        if damage > 0 {
            let at = if damage == 1 { 22 } else { input.len().checked_sub(1)? };
            *input.get_mut(at)? ^= 1;
        }
        Some(Case { note: format!("start {start}, serial {}, damage {damage}, {} bytes", s.serial, input.len()), input, opts: documented() })
    };
    run(ctx, Spec { name: "settings", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &Case| c.input.clone() });
    if WASM.is_none() {
        ctx.assumptions.push("the interface could not be compiled for WebAssembly this time, and was only run compiled for this machine".into());
    }
    // Numbers of vector lookup values about 2^32, with all, some or none of those that a count of
    // 32 bits would ask for
    let wide = |ch: &mut Chooser| -> Option<Case> {
        let entries = 1u64 << ch.each(&[16, 17, 18, 20]);
        let dims = ((1 << 32) / entries + ch.each(&[0, 1, 2]) - 1).min(65535);
        let lookup = ch.each(&[1u8, 2]);
        let count = entries * dims;
        let mut lens = vec![0; entries as usize];
        let at = ch.each(&[0, entries as usize - 2]);
        lens[at..at + 2].fill(1);
        let mut b = Codebook::scalar(&lens).with_dims(dims as u16);
        b.fmt = LenFmt::Sparse;
        b.lookup = lookup;
        b.value_bits = 1;
        let wrapped = (count as u32).min(1 << 20);
        b.mult = vec![1; ch.each(&[0, 1, wrapped as usize])];
        let mut st = tiny_setup(&[1, 1]);
        if ch.all(2) == 1 {
            st.books.push(b);
        } else {
            st.books[1] = b;
        }
        let note = format!("{entries} entries of {dims} dimensions, lookup type {lookup}");
        Some(Case { input: StreamB::new(1, &ident(1, 6, 8), &st).bytes(), note, opts: documented() })
    };
    run(ctx, Spec { name: "wide", bound: 0, gen: &wide, eval: &eval, bytes: &|c: &Case| c.input.clone() });
    let th = ctx.thorough;
    for (name, q, t) in [("files", 1, 1), ("comments", 1, 2), ("chains", 1, 2), ("headers", 1, 2), ("ident", 1, 2), ("setup", 1, 1), ("blocks", 0, 0), ("edits", 0, 0), ("drops", 0, 0), ("short", 0, 0), ("bytes", 0, 0), ("pages", 0, 0), ("repeats", 0, 0), ("junk", 1, 2), ("lookup1", 0, 0), ("floats", 1, 2), ("lens", 1, 1), ("freqs", 1, 2), ("deep", 1, 1), ("bigbooks", 0, 0), ("twins", 0, 0), ("symbols", 1, 1), ("modes", 1, 1), ("sizes", 0, 0), ("counts", 0, 0), ("cuts", 0, 0), ("flips", 0, 0)] {
        let d = SPACES.iter().find(|s| s.name == name).expect("space");
        let bound = ctx.t(q, t);
        run(ctx, Spec { name, bound, gen: &|ch| (d.gen)(ch, th), eval: &eval, bytes: &|c: &Case| c.input.clone() });
    }
}
