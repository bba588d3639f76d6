//! C07: eight times as much of something must not take much more than eight times as long.

use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces::*;
use crate::vorbis::*;

const KINDS: [&str; 23] = [
    "packets",
    "packets with pages of their own",
    "packets with 3 pages each",
    "empty packets",
    "foreign packets",
    "pages with junk in between",
    "distinct comments",
    "equal comments",
    "comments of distinct lengths",
    "empty comments",
    "bytes in one comment",
    "bytes of the vendor name",
    "bytes after an audio packet",
    "links",
    "foreign streams one after another",
    "foreign streams at once",
    "bytes of junk before the first page",
    "false beginnings of pages",
    "empty pages",
    "bytes after the setup",
    "entries of a codebook",
    "entries of a codebook, of two lengths",
    "unused entries of a codebook",
];

/// CPU time of this thread, which other processes do not count towards
fn now() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        panic!("no clock for threads");
    }
    t.0 as f64 + t.1 as f64 / 1e9
}

/// A file with about `n` of something
fn amount(kind: usize, n: usize) -> Vec<u8> {
    if kind < 6 {
        return super::memory::growth(kind as u8, 0, n);
    }
    let (id, st) = (ident(1, 6, 6), tiny_setup(&[1, 1]));
    let mut s = StreamB::new(3, &id, &st);
    add_audio(&mut s, &id, &st, &SCRIPT[..2]);
    let with = |fields: Vec<Vec<u8>>| Comments { vendor: b"v".to_vec(), fields }.encode();
    let mut before = vec![];
    match kind {
        6 => s.comment = with((0..n).map(|i| format!("TITLE={i:08}").into_bytes()).collect()),
        7 => s.comment = with(vec![b"TITLE=Title".to_vec(); n]),
        // Sizes that differ, and add up to about 32 bytes each
        8 => s.comment = with((0..n).map(|i| vec![b'a' + (i % 26) as u8; i % 64]).collect()),
        9 => s.comment = with(vec![vec![]; n]),
        10 => s.comment = with(vec![vec![b'='; n]]),
        11 => s.comment = Comments { vendor: vec![b'v'; n], fields: vec![] }.encode(),
        12 => s.audio[0].data.resize(n, 0x55),
        13 => {
            let mut v = vec![];
            for i in 0..n {
                s.serial = i as u32;
                v.extend(s.bytes());
            }
            return v;
        }
        14 | 15 => {
            for i in 0..n as u32 {
                for p in paginate(&Paginate { serial: 99 + i, max_segs: 255, bos: true, eos: true, first_seq: 0 }, &[(b"OpusHead".to_vec(), 0, kind == 14)]) {
                    p.write(&mut before);
                }
            }
            if kind == 15 {
                // Data of any of them follows
                let mut v = before;
                v.extend(s.bytes());
                for i in 0..n as u32 {
                    let mut p = paginate(&Paginate { serial: 99 + i, max_segs: 255, bos: false, eos: true, first_seq: 1 }, &[(b"data".to_vec(), 9, true)]);
                    p[0].flags &= !BOS;
                    p[0].write(&mut v);
                }
                return v;
            }
        }
        16 => before = vec![0xaa; n],
        17 => before = b"OggS\x01".repeat(n),
        18 => {
            let mut p = s.pages();
            let last = p.pop().expect("pages");
            let seq = last.seq;
            for i in 0..n as u32 {
                p.push(Page { flags: 0, granule: -1, serial: 3, seq: seq + i, lacing: vec![], body: vec![], crc: 0, crc_xor: 0 });
            }
            p.push(Page { seq: seq + n as u32, ..last });
            return write_pages(&p);
        }
        19 => s.setup.resize(s.setup.len() + n, 0),
        _ => {
            let big = n.ilog2() as u8;
            let n = 1 << big;
            let mut b = Codebook::scalar(&match kind {
                20 => vec![big; n],
                21 => (0..n).map(|i| big + (i % 2) as u8).collect::<Vec<_>>(),
                _ => vec![0; n],
            });
            b.fmt = [LenFmt::Ordered, LenFmt::Unordered, LenFmt::Sparse][kind - 20];
            let mut st = st.clone();
            st.books.push(b);
            s = StreamB::new(3, &id, &st);
            add_audio(&mut s, &id, &st, &SCRIPT[..2]);
        }
    }
    before.extend(s.bytes());
    before
}

const TIMES: usize = 8;

/// How much of it is enough to tell
fn enough(kind: usize, th: bool) -> usize {
    (match kind {
        10..=12 | 16 | 19 => 16_000_000,
        13 => 16_000,
        14 | 15 => 40_000,
        17 => 1_000_000,
        20..=22 => 1 << 18,
        2 => 400_000,
        _ => 160_000,
    }) * if th { 4 } else { 1 }
}

pub fn amounts(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let gen = |ch: &mut Chooser| -> Option<(usize, Opts)> {
        let kind = ch.all(KINDS.len());
        let o = Opts { verify_crc: ch.all(2) == 0, ignore_start: th && ch.all(2) == 1, ..Opts::default() };
        Some((kind, o))
    };
    let eval = |(kind, o): &(usize, Opts)| -> Verdict {
        let mut v = Verdict { nontrivial: true, steps: 2, hash: fnv(format!("{kind} {o:?}").as_bytes()), ..Default::default() };
        let n = enough(*kind, th);
        let (few, many) = (amount(*kind, n / TIMES), amount(*kind, n));
        let time = |b: &[u8]| {
            let at = now();
            let r = remux(b, o);
            (now() - at, r)
        };
        // The first execution may find caches cold
        time(&few);
        let (a, r) = time(&few);
        let (b, s) = time(&many);
        v.outcome = match (&r, &s) {
            (Out::Ok(_), Out::Ok(_)) => "remuxed",
            (Out::Err(..), Out::Err(..)) => "rejected",
            _ => "panicked, or results differ",
        };
        if std::env::var_os("MC_CAL").is_some() {
            println!("CAL {:40} {:9} {a:.4} {b:.4} {:5.1} {} {}", KINDS[*kind], many.len(), b / a, v.outcome, match &s { Out::Err(k, m, _) => format!("{k} {m}"), _ => String::new() });
        }
        if let Out::Panic(m) = r {
            v.issues.push(("panic".into(), format!("{} {}: {m}", n / TIMES, KINDS[*kind])));
        }
        if let Out::Panic(m) = s {
            v.issues.push(("panic".into(), format!("{n} {}: {m}", KINDS[*kind])));
        }
        if b > 0.8 && b > 3.0 * TIMES as f64 * a {
            v.issues.push(("slow".into(), format!("{} {} take {a:.3} s, and {n} of them, {} bytes, {b:.3} s", n / TIMES, KINDS[*kind], many.len())));
        }
        v
    };
    run(ctx, Spec { name: "amounts", bound: 0, gen: &gen, eval: &eval, bytes: &|(k, _): &(usize, Opts)| amount(*k, 200) });
}
