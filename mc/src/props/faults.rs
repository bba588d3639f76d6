//! C16: faults of the source and the sink; C14: page checksums.

use super::history::brief;
use super::serials::canonical;
use crate::explore::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces2::*;
use optivorbis::remuxer::ogg_to_ogg::RemuxError;
use optivorbis::Remuxer;
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// One byte only
    One,
    /// Half of the bytes
    Half,
    Interrupted,
    Fail(ErrorKind),
    Zero,
}

struct Src<'a> {
    c: Cursor<&'a [u8]>,
    plan: &'a [(usize, Act)],
    every: Option<Act>,
    op: usize,
    seen: &'a AtomicUsize,
    /// Number of the last seek operation
    rewind: &'a AtomicUsize,
}
impl Src<'_> {
    fn next(&mut self) -> Option<Act> {
        let i = self.op;
        self.op += 1;
        self.seen.store(self.op, Relaxed);
        self.plan.iter().find(|p| p.0 == i).map(|p| p.1).or(self.every)
    }
}
fn limit(a: Act, n: usize) -> io::Result<usize> {
    match a {
        Act::One => Ok(n.min(1)),
        Act::Half => Ok(n.div_ceil(2)),
        Act::Interrupted => Err(ErrorKind::Interrupted.into()),
        Act::Fail(k) => Err(io::Error::new(k, "injected")),
        Act::Zero => Ok(0),
    }
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = match self.next() {
            Some(a) => limit(a, b.len())?,
            None => b.len(),
        };
        self.c.read(&mut b[..n])
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.rewind.store(self.op, Relaxed);
        match self.next() {
            Some(Act::Fail(k)) => Err(io::Error::new(k, "injected")),
            _ => self.c.seek(p),
        }
    }
}

struct Snk<'a> {
    out: &'a mut Vec<u8>,
    plan: &'a [(usize, Act)],
    every: Option<Act>,
    op: usize,
    seen: &'a AtomicUsize,
}
impl Write for Snk<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let i = self.op;
        self.op += 1;
        self.seen.store(self.op, Relaxed);
        let n = match self.plan.iter().find(|p| p.0 == i).map(|p| p.1).or(self.every) {
            Some(a) => limit(a, b.len())?,
            None => b.len(),
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn io_kind(e: &RemuxError) -> Option<ErrorKind> {
    match e {
        RemuxError::IoError(e) => Some(e.kind()),
        RemuxError::OggError(optivorbis_ogg::OggReadError::ReadError(e)) => Some(e.kind()),
        _ => None,
    }
}
use ogg as optivorbis_ogg;

#[derive(Clone, Debug)]
struct Plan {
    input: usize,
    start: usize,
    src: Vec<(usize, Act)>,
    snk: Vec<(usize, Act)>,
    src_every: Option<Act>,
    snk_every: Option<Act>,
}

fn inputs() -> Vec<Vec<u8>> {
    let b = bases();
    let mut chain = b[0].bytes();
    let mut c = b[1].clone();
    c.serial = 99;
    c.max_segs = 2;
    chain.extend(c.bytes());
    vec![b[1].bytes(), chain, file(0).to_vec(), crate::spaces::size_stream_bytes(), b"no Ogg data at all".to_vec(), file(7).to_vec()]
}

/// Outcome without faults: output or error kind, and source and sink operations
struct Base {
    out: Result<Vec<u8>, &'static str>,
    src_ops: usize,
    snk_ops: usize,
    /// Source operations before the sink sees anything
    first_pass: usize,
}

fn go(input: &[u8], p: &Plan) -> (std::thread::Result<Result<(), RemuxError>>, Vec<u8>, usize, usize, usize) {
    let mut data: Vec<u8> = (0..p.start).map(|i| b"OggS\0\x02"[i % 6]).collect();
    data.extend_from_slice(input);
    let (rs, ws, rw) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let mut out = vec![];
    let mut src = Src { c: Cursor::new(&data), plan: &p.src, every: p.src_every, op: 0, seen: &rs, rewind: &rw };
    src.c.set_position(p.start as u64);
    let snk = Snk { out: &mut out, plan: &p.snk, every: p.snk_every, op: 0, seen: &ws };
    let inst = Opts::default().instance();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst.remux(src, snk).map(|_| ())));
    let (a, b) = (rs.into_inner(), ws.into_inner());
    (r, out, a, b, rw.into_inner())
}

pub fn c16(ctx: &mut Ctx) {
    let ins = inputs();
    let bases: Vec<Base> = ins
        .iter()
        .map(|i| {
            let p = Plan { input: 0, start: 0, src: vec![], snk: vec![], src_every: None, snk_every: None };
            // The first pass ends when the source is rewound
            let (r, out, a, b, first) = go(i, &p);
            Base {
                out: match r {
                    Ok(Ok(())) => Ok(out),
                    Ok(Err(e)) => Err(err_kind(&e)),
                    Err(_) => Err("panic"),
                },
                src_ops: a,
                snk_ops: b,
                first_pass: first,
            }
        })
        .collect();
    for (i, b) in bases.iter().enumerate() {
        if i < 4 && b.out.is_err() {
            ctx.violation("base", "faults", format!("input {i} fails without any fault: {:?}", b.out.as_ref().err()), ins[i].clone());
        }
    }
    let th = ctx.thorough;
    let gen = |ch: &mut Chooser| -> Option<Plan> {
        let input = ch.all(ins.len());
        let start = ch.of(&[0, 1, 5, 4096]);
        let b = &bases[input];
        // Plain reading of the larger inputs is not interesting beyond a point
        let mut p = Plan { input, start, src: vec![], snk: vec![], src_every: ch.of(&[None, Some(Act::One), Some(Act::Half)]), snk_every: ch.of(&[None, Some(Act::One), Some(Act::Half)]) };
        if p.src_every.is_some() && ins[input].len() > 1500 && !th {
            p.src_every = Some(Act::Half);
        }
        if p.src_every.is_none() {
            for i in 0..b.src_ops {
                let k = ch.pick(8);
                if k > 0 {
                    p.src.push((
                        i,
                        [
                            Act::One,
                            Act::Half,
                            Act::Interrupted,
                            Act::Fail(ErrorKind::Other),
                            Act::Fail(ErrorKind::UnexpectedEof),
                            Act::Fail(ErrorKind::WouldBlock),
                            Act::Fail(ErrorKind::InvalidData),
                        ][k - 1],
                    ));
                }
            }
        }
        if p.snk_every.is_none() {
            for i in 0..b.snk_ops {
                let k = ch.pick(8);
                if k > 0 {
                    p.snk.push((
                        i,
                        [
                            Act::One,
                            Act::Half,
                            Act::Interrupted,
                            Act::Zero,
                            Act::Fail(ErrorKind::Other),
                            Act::Fail(ErrorKind::StorageFull),
                            Act::Fail(ErrorKind::BrokenPipe),
                        ][k - 1],
                    ));
                }
            }
        }
        Some(p)
    };
    let eval = |p: &Plan| -> Verdict {
        let b = &bases[p.input];
        let (r, out, _, _, _) = go(&ins[p.input], p);
        let mut v = Verdict { nontrivial: true, hash: fnv(format!("{p:?}").as_bytes()), steps: 1, ..Default::default() };
        let mut bad = |k: &str, m: String| v.issues.push((k.into(), format!("{p:?}: {m}")));
        let none = vec![];
        let full = b.out.as_ref().unwrap_or(&none);
        if !full.starts_with(&out) {
            bad("prefix", format!("{} bytes written are not the beginning of the output without faults", out.len()));
        }
        let hard: Vec<ErrorKind> = p
            .src
            .iter()
            .filter_map(|x| if let Act::Fail(k) = x.1 { Some(k) } else { None })
            .chain(p.snk.iter().filter_map(|x| match x.1 {
                Act::Fail(k) => Some(k),
                Act::Zero => Some(ErrorKind::WriteZero),
                _ => None,
            }))
            .collect();
        let interrupted = p.src.iter().any(|x| x.1 == Act::Interrupted);
        match r {
            Err(e) => bad("panic", panic_msg(e)),
            Ok(Ok(())) => {
                v.outcome = "finished";
                // A fault that is planned for an operation that short reads moved is not reached
                if !hard.is_empty() && p.src.len() + p.snk.len() == 1 && b.out.is_ok() {
                    bad("swallowed", "the fault was not reported".into());
                }
                if &out != full || b.out.is_err() {
                    bad("output", format!("reported success after writing {} of {} bytes", out.len(), full.len()));
                }
            }
            Ok(Err(e)) => {
                v.outcome = "failed";
                let k = io_kind(&e);
                let explained = match k {
                    Some(k) => hard.contains(&k) || interrupted && k == ErrorKind::Interrupted,
                    None => false,
                };
                if b.out.is_ok() && !explained {
                    bad("error", format!("failed with {e}, and the injected faults are {hard:?}"));
                }
                if let Err(k) = b.out {
                    if !explained && err_kind(&e) != k {
                        bad("error", format!("failed with {e}, and without faults with {k}"));
                    }
                }
                // A fault in the first pass comes before anything is written
                if p.src.len() == 1 && p.snk.is_empty() && p.src[0].0 <= b.first_pass && !out.is_empty() {
                    bad("dirty", format!("{} bytes were written", out.len()));
                }
            }
        }
        v
    };
    let bytes = |p: &Plan| ins[p.input].clone();
    let bound = ctx.t(1, 2);
    run(ctx, Spec { name: "faults", bound, gen: &gen, eval: &eval, bytes: &bytes });
}

/// Every change of one or two bits of a page
pub fn c14(ctx: &mut Ctx) {
    let mut ins = vec![bases()[1].bytes(), bases()[0].bytes()];
    let mut c = bases()[1].clone();
    c.serial = 99;
    c.max_segs = 2;
    let mut chain = bases()[1].bytes();
    chain.extend(c.bytes());
    ins.push(chain);
    let mut f = bases()[1].bytes();
    // Followed by a stream that is not Vorbis
    f.extend(write_pages(&paginate(
        &Paginate { serial: 1, max_segs: 255, bos: true, eos: true, first_seq: 0 },
        &[(b"OpusHead".to_vec(), 0, true), (vec![7; 30], 0, true)],
    )));
    ins.push(f);
    ins.push(file(0).to_vec());
    let th = ctx.thorough;
    let starts: Vec<Vec<(usize, usize)>> = ins
        .iter()
        .map(|b| {
            let mut at = 0;
            parse_pages(b, true)
                .unwrap()
                .iter()
                .map(|p| {
                    let l = 27 + p.lacing.len() + p.body.len();
                    at += l;
                    (at - l, l)
                })
                .collect()
        })
        .collect();
    let clean: Vec<Vec<u8>> = ins
        .iter()
        .map(|b| match remux(b, &Opts::default()) {
            Out::Ok(o) => o,
            _ => vec![],
        })
        .collect();
    struct C {
        input: Vec<u8>,
        base: usize,
        verify: bool,
        /// Only checksum fields changed
        field: bool,
        note: String,
    }
    let gen = |ch: &mut Chooser| -> Option<C> {
        let base = ch.all(ins.len());
        let mut input = ins[base].clone();
        let verify = ch.all(2) == 0;
        let pg = ch.all(starts[base].len());
        let (s, l) = starts[base][pg];
        let lo = if verify { 4 * 8 } else { 22 * 8 };
        let hi = if verify { l * 8 } else { 26 * 8 };
        let a = lo + ch.all(hi - lo);
        input[s + a / 8] ^= 1 << (a % 8);
        let mut note = format!("input {base}, page {pg}, bit {a}");
        // A second bit: close by, or (thorough, small pages) anywhere in the page
        let window = if th && l < 120 { hi - lo } else if base < 4 { 8 } else { 1 };
        let d = ch.all(window);
        if d > 0 {
            if a + d >= hi {
                return None;
            }
            let b = a + d;
            input[s + b / 8] ^= 1 << (b % 8);
            note += &format!(" and {b}");
        }
        Some(C { input, base, verify, field: !verify, note })
    };
    let eval = |c: &C| -> Verdict {
        let mut v = Verdict { nontrivial: true, hash: fnv(&c.input) ^ c.verify as u64, steps: 1, ..Default::default() };
        let o = Opts { verify_crc: c.verify, ..Opts::default() };
        match remux(&c.input, &o) {
            Out::Panic(m) => v.issues.push(("panic".into(), format!("{}: {m}", c.note))),
            Out::Ok(out) => {
                v.outcome = "accepted";
                if !c.field {
                    v.issues.push(("undetected".into(), format!("{}: corrupt page accepted", c.note)));
                } else if out != clean[c.base] {
                    v.issues.push(("output".into(), format!("{}: output depends on ignored checksums", c.note)));
                }
            }
            Out::Err(k, m, n) => {
                v.outcome = k;
                if c.field {
                    v.issues.push(("rejected".into(), format!("{}: rejected although checksums are not verified: {m}", c.note)));
                }
                if k != "ogg" {
                    v.issues.push(("kind".into(), format!("{}: rejected with {k} error {m}", c.note)));
                }
                if n > 0 {
                    v.issues.push(("dirty".into(), format!("{}: {n} bytes were written", c.note)));
                }
            }
        }
        v
    };
    run(ctx, Spec { name: "checksums", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &C| c.input.clone() });

    // Every combination of settings
    struct S {
        input: Vec<u8>,
        opts: Opts,
        note: String,
    }
    let gen = |ch: &mut Chooser| -> Option<S> {
        let base = ch.all(ins.len());
        let pages = &starts[base];
        let pg = ch.all(pages.len().min(if th { 40 } else { 12 }));
        // The last one, too
        let pg = if pg == 11 { pages.len() - 1 } else { pg };
        let (s, l) = pages[pg];
        let at = ch.all(6);
        let at = match at {
            0 => 22 * 8,
            1 => 26 * 8 - 1,
            2 => 6 * 8,
            3 => 14 * 8 + 3,
            4 => 18 * 8 + 5,
            _ => l * 8 - 1,
        };
        let mut input = ins[base].clone();
        input[s + at / 8] ^= 1 << (at % 8);
        let vendor = ch.all(5);
        let opts = Opts {
            vendor: [Vendor::AppendTag, Vendor::Copy, Vendor::Replace, Vendor::AppendShortTag, Vendor::Empty][vendor],
            delete_fields: ch.all(2) == 1,
            randomize: ch.all(2) == 1,
            offset: ch.each(&[7, 0, u32::MAX]),
            ignore_start: ch.all(2) == 1,
            error_no_vorbis: ch.all(2) == 1,
            verify_crc: ch.all(2) == 1,
        };
        Some(S { input, opts, note: format!("input {base}, page {pg}, bit {at}") })
    };
    let eval = |c: &S| -> Verdict {
        let mut v = Verdict { nontrivial: true, hash: fnv(&c.input) ^ fnv(format!("{:?}", c.opts).as_bytes()), steps: 1, ..Default::default() };
        let got = remux(&c.input, &c.opts);
        if c.opts.verify_crc {
            v.outcome = "verified";
            if !matches!(got, Out::Err("ogg", _, 0)) {
                v.issues.push(("undetected".into(), format!("{}, {:?}: a corrupt page gives {}", c.note, c.opts, brief(&got))));
            }
            return v;
        }
        v.outcome = "not verified";
        // Writing a page computes its checksum
        let fixed = write_pages(&parse_pages(&c.input, false).expect("pages"));
        let want = remux(&fixed, &Opts { verify_crc: true, ..c.opts.clone() });
        let same = match (&got, &want) {
            (Out::Ok(a), Out::Ok(b)) if c.opts.randomize => canonical(a).is_ok() && canonical(a) == canonical(b),
            _ => got == want,
        };
        if !same {
            v.issues.push(("ignored".into(), format!("{}, {:?}: {} instead of {}, which the same input with right checksums gives", c.note, c.opts, brief(&got), brief(&want))));
        }
        v
    };
    run(ctx, Spec { name: "settings", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &S| c.input.clone() });
}
