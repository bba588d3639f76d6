//! Exhaustive comparison of the bit packing crate with a bit vector. The state of a writer is
//! the pending bits (255 of them), the state of a reader is what is left of the last byte.

use crate::bits::*;
use crate::io::{Error, ErrorKind, Read, Write};
use std::collections::HashSet;
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub issues: Vec<(String, String)>,
}

impl Report {
    fn bad(&mut self, key: &str, m: String) {
        if self.issues.iter().filter(|x| x.0 == key).count() < 3 {
            self.issues.push((key.into(), m));
        }
    }
    fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.states.extend(o.states);
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, m) in o.issues {
            self.bad(&k, m);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    U(u32, u8),
    S(i32, u8),
    Flag(bool),
    Float(f64, u32),
    Finalize,
    Flush,
}

fn w(n: u8) -> BitpackedIntegerWidth {
    BitpackedIntegerWidth::new(n).expect("width")
}

fn apply<W: Write>(b: &mut BitpackWriter<W>, op: Op) -> crate::io::Result<()> {
    match op {
        Op::U(v, n) => b.write_unsigned_integer(v, w(n)),
        Op::S(v, n) => b.write_signed_integer(v, w(n)),
        Op::Flag(f) => b.write_flag(f),
        Op::Float(f, _) => b.write_float32(f),
        Op::Finalize => b.finalize(),
        Op::Flush => b.flush(),
    }
}

fn model(b: &mut BW, op: Op) {
    match op {
        Op::U(v, n) => b.put(v as u64, n as u32),
        Op::S(v, n) => b.put(v as u32 as u64, n as u32),
        Op::Flag(f) => b.put(f as u64, 1),
        Op::Float(_, word) => b.put(word as u64, 32),
        Op::Finalize => b.nbits = b.bytes.len() * 8,
        Op::Flush => (),
    }
}

/// Complete bytes of the model
fn complete(m: &BW) -> &[u8] {
    &m.bytes[..m.nbits / 8]
}

fn pending(m: &BW) -> u64 {
    let n = m.nbits % 8;
    (n as u64) << 8 | if n > 0 { *m.bytes.last().unwrap() as u64 } else { 0 }
}

/// Sink that looks at what arrives, and can fail
#[derive(Default, Clone)]
struct Sink<'a> {
    got: Option<&'a std::cell::RefCell<Vec<u8>>>,
    /// Write call that fails, and how
    fail: Option<(usize, u8)>,
    calls: usize,
}

impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> crate::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let i = self.calls;
        self.calls += 1;
        if let Some((k, how)) = self.fail {
            match how {
                0 if i == k => return Err(Error::from(ErrorKind::Other)),
                1 if i == k => return Err(Error::from(ErrorKind::Interrupted)),
                2 if i == k => return Ok(0),
                _ => (),
            }
        }
        self.got.unwrap().borrow_mut().push(b[0]);
        // One byte at a time
        Ok(1)
    }
    fn flush(&mut self) -> crate::io::Result<()> {
        Ok(())
    }
}

fn run_ops(ops: &[Op], r: &mut Report, what: &str) {
    let cell = std::cell::RefCell::new(vec![]);
    let mut m = BW::new();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut b = BitpackWriter::new(Sink { got: Some(&cell), ..Default::default() });
        for (i, &op) in ops.iter().enumerate() {
            apply(&mut b, op).map_err(|_| format!("operation {i} failed"))?;
            model(&mut m, op);
            r.transitions += 1;
            r.states.insert(pending(&m));
            if cell.borrow()[..] != *complete(&m) {
                return Err(format!("after operation {i} {:02x?} was written instead of {:02x?}", cell.borrow(), complete(&m)));
            }
        }
        Ok(())
    }));
    // Dropping finalizes
    model(&mut m, Op::Finalize);
    r.evaluations += 1;
    r.traces += 1;
    match res {
        Err(_) => r.bad("panic", format!("writer panics on {ops:?}")),
        Ok(Err(e)) => r.bad(what, format!("{ops:?}: {e}")),
        Ok(Ok(())) if *cell.borrow() != m.bytes => {
            r.bad(what, format!("{ops:?}: {:02x?} was written instead of {:02x?}", cell.borrow(), m.bytes))
        }
        _ => (),
    }
}

fn values(n: u8) -> Vec<u32> {
    let m = if n == 32 { u32::MAX } else { (1u32 << n) - 1 };
    let mut v = vec![0, 1, m, m >> 1, !m, u32::MAX, 0x5555_5555, 0xaaaa_aaaa, 0x8000_0001, m ^ (m >> 1), 0x0123_4567, m.wrapping_add(1)];
    v.sort();
    v.dedup();
    v
}

fn in_threads(n: usize, f: impl Fn(usize, &mut Report) + Sync) -> Report {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut total = Report::default();
    std::thread::scope(|s| {
        let h: Vec<_> = (0..std::thread::available_parallelism().map_or(4, |n| n.get()))
            .map(|_| {
                s.spawn(|| {
                    let mut r = Report::default();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= n {
                            return r;
                        }
                        f(i, &mut r);
                    }
                })
            })
            .collect();
        for x in h {
            total.merge(x.join().expect("thread"));
        }
    });
    total
}

/// Every state of a writer, every operation
fn writer_transitions() -> Report {
    in_threads(255, |s, r| {
        // 2^n - 1 + value
        let n = (31 - (s as u32 + 1).leading_zeros()) as u8;
        let p = s as u32 + 1 - (1 << n);
        let mut ops = vec![Op::Finalize, Op::Flush, Op::Flag(true), Op::Flag(false), Op::Float(0.0, 0), Op::Float(-1.5, pack(1 << 20 | 1 << 19, -20) | 1 << 31)];
        for width in 0..=32 {
            for v in values(width) {
                ops.push(Op::U(v, width));
                ops.push(Op::S(v as i32, width));
            }
        }
        for &op in &ops {
            run_ops(&[Op::U(p, n), op], r, "write");
            // What comes next starts clean
            run_ops(&[Op::U(p, n), op, Op::U(0, 13), Op::Finalize, Op::U(0, 3)], r, "write");
            run_ops(&[Op::U(p, n), op, Op::Finalize, Op::U(0, 9), op], r, "write");
        }
    })
}

/// A word for the positive number m * 2^e, with m in 21 bits
fn pack(m: u32, e: i32) -> u32 {
    ((e + 788) as u32) << 21 | m
}

fn sequences(thorough: bool) -> Report {
    let mut alphabet = vec![Op::Finalize, Op::Flag(true)];
    for width in 0..=32u8 {
        let m = if width == 32 { u32::MAX } else { (1u32 << width) - 1 };
        for v in if thorough { vec![0, m, u32::MAX, 0x5a5a_5a5a] } else { vec![u32::MAX, 0x5a5a_5a5a] } {
            alphabet.push(Op::U(v, width));
        }
        alphabet.push(Op::S(-2, width));
    }
    in_threads(alphabet.len(), |i, r| {
        for &b in &alphabet {
            for &c in &alphabet {
                run_ops(&[alphabet[i], b, c, Op::U(0, 5)], r, "write sequence");
            }
        }
    })
}

fn sign(v: u64, n: u32) -> i32 {
    if n == 0 {
        return 0;
    }
    ((v as i64) << (64 - n) >> (64 - n)) as i32
}

struct Source<'a> {
    d: &'a [u8],
    interrupt: bool,
    armed: bool,
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> crate::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt {
            self.armed = !self.armed;
            if self.armed {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let Some((x, rest)) = self.d.split_first() else { return Ok(0) };
        b[0] = *x;
        self.d = rest;
        Ok(1)
    }
}

fn read_ops(data: &[u8], ops: &[(u8, u8)], interrupt: bool, r: &mut Report) {
    let mut m = BR::new(data);
    r.evaluations += 1;
    r.traces += 1;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut b = BitpackReader::new(Source { d: data, interrupt, armed: false });
        for (i, &(kind, n)) in ops.iter().enumerate() {
            let n = match kind {
                2 => 1,
                3 => 32,
                _ => n,
            } as u32;
            let want = m.get(n);
            r.transitions += 1;
            let (got, want): (Result<f64, Error>, Option<f64>) = match kind {
                0 => (b.read_unsigned_integer(w(n as u8)).map(|x| x as f64), want.map(|x| x as f64)),
                1 => (b.read_signed_integer(w(n as u8)).map(|x| x as f64), want.map(|x| sign(x, n) as f64)),
                2 => (b.read_flag().map(|x| x as u8 as f64), want.map(|x| x as f64)),
                _ => (b.read_float32(), want.map(|x| float32_unpack(x as u32))),
            };
            match (got, want) {
                (Ok(g), Some(w)) if g == w => (),
                (Err(e), None) => {
                    return if e.kind() == ErrorKind::UnexpectedEof {
                        Ok(())
                    } else {
                        Err(format!("operation {i} fails with the wrong kind of error"))
                    }
                }
                (g, w) => return Err(format!("operation {i} gives {:?} instead of {w:?}", g.ok())),
            }
            r.states.insert(1 << 20 | (m.pos as u64 % 8) << 8 | if m.pos % 8 > 0 { data[m.pos / 8] as u64 >> (m.pos % 8) } else { 0 });
        }
        let left = b.into_inner().d.len();
        let want = data.len() - m.pos.div_ceil(8);
        if left != want {
            return Err(format!("{left} bytes are left in the source instead of {want}"));
        }
        Ok(())
    }));
    match res {
        Err(_) => r.bad("panic", format!("reader panics on {data:02x?}, {ops:?}")),
        Ok(Err(e)) => r.bad("read", format!("reading {ops:?} (kind, width) from {data:02x?}: {e}")),
        Ok(Ok(())) => (),
    }
}

fn reader() -> Report {
    let mut total = in_threads(256, |b, r| {
        for start in 0..=8u8 {
            for tail in [[0u8; 5], [0xff; 5], [0x96, 0x5a, 0x3c, 0xc3, 0x81], [0x80, 0, 0xff, 1, 0x7f]] {
                let mut d = vec![b as u8];
                d.extend(tail);
                for n in 0..=32u8 {
                    for kind in 0..2 {
                        read_ops(&d, &[(0, start), (kind, n), (0, 5)], false, r);
                    }
                }
                read_ops(&d, &[(0, start), (2, 0), (2, 0)], false, r);
                read_ops(&d, &[(0, start), (3, 0), (1, 3)], true, r);
            }
        }
    });
    // Sequences, with sources of every length
    total.merge(in_threads(33, |a, r| {
        let pats: Vec<Vec<u8>> = vec![(0..14).map(|i| (i * 37 + 11) as u8).collect(), (0..14).map(|i| !(i * 91 + 5) as u8).collect()];
        for b in 0..=32u8 {
            for c in 0..=32u8 {
                for p in &pats {
                    for l in 0..=13 {
                        read_ops(&p[..l], &[(0, a as u8), (1, b), (0, c)], l % 3 == 0, r);
                    }
                }
            }
        }
    }));
    total
}

fn sink_faults() -> Report {
    let mut r = Report::default();
    for width in 0..=32u8 {
        for pre in 0..8u8 {
            for k in 0..6usize {
                for how in 0..3u8 {
                    r.evaluations += 1;
                    let cell = std::cell::RefCell::new(vec![]);
                    let mut m = BW::new();
                    let (mut before, mut failed) = (0, None);
                    {
                        let mut b = BitpackWriter::new(Sink { got: Some(&cell), fail: Some((k, how)), calls: 0 });
                        for op in [Op::U(0x15, pre), Op::U(0xdead_beef, width), Op::Finalize] {
                            model(&mut m, op);
                            let after = complete(&m).len();
                            let ok = apply(&mut b, op).is_ok();
                            r.transitions += 1;
                            // The write with number k happens in this operation
                            let hit = before <= k && k < after && how != 1;
                            if ok == hit {
                                failed = Some(format!("operation {op:?} with write {k} failing in way {how} gives {}", if ok { "success" } else { "an error" }));
                            }
                            before = after;
                            if hit {
                                break;
                            }
                        }
                        if failed.is_none() && (how == 1 || k >= m.bytes.len()) && *cell.borrow() != m.bytes {
                            failed = Some(format!("wrong bytes after an interrupted write {k}: {:02x?} instead of {:02x?}", cell.borrow(), m.bytes));
                        }
                    }
                    if let Some(f) = failed {
                        r.bad("sink fault", f);
                    }
                }
            }
        }
    }
    r
}

fn float_word(word: u32, r: &mut Report) {
    let want = float32_unpack(word);
    let b = word.to_le_bytes();
    r.evaluations += 1;
    let Ok(got) = BitpackReader::new(&b[..]).read_float32() else {
        return r.bad("float", format!("{word:#x} can't be read"));
    };
    if got != want {
        return r.bad("float", format!("{word:#x} is read as {got:e} instead of {want:e}"));
    }
    let mut out = [0u8; 8];
    {
        let mut wr = BitpackWriter::new(&mut out[..]);
        if wr.write_float32(want).is_err() {
            return r.bad("float", format!("{want:e} can't be written"));
        }
    }
    let back = float32_unpack(u32::from_le_bytes(out[..4].try_into().unwrap()));
    if back != want {
        r.bad("float", format!("{want:e}, which is {word:#x}, is written as {back:e}"));
    }
}

/// Numbers that can't be represented are written as one of its neighbors
fn float_inexact(r: &mut Report) {
    for e in -1021i32..=1023 {
        for m in [0u64, 1, 0xf_ffff_ffff_ffff, 1 << 31, (1 << 32) - 1, 1 << 32, 3 << 31, 0x8_0000_0000_0000, 0x7_ffff_ffff_ffff] {
            for s in [0u64, 1] {
                let f = f64::from_bits(s << 63 | ((e + 1023) as u64) << 52 | m);
                if e > 255 {
                    continue; // Too big for the format (2^21 * 2^235)
                }
                r.evaluations += 1;
                let mut out = [0u8; 4];
                let ok = BitpackWriter::new(&mut out[..]).write_float32(f).is_ok();
                let got = float32_unpack(u32::from_le_bytes(out));
                // Distance between representable numbers
                let ulp = 2f64.powi((e - 20).max(-788));
                if !ok || (got - f).abs() >= ulp || got != 0.0 && got.is_sign_negative() != f.is_sign_negative() {
                    r.bad("float", format!("{f:e} is written as {got:e}"));
                }
            }
        }
    }
}

fn floats(thorough: bool) -> Report {
    let mut r = Report::default();
    float_inexact(&mut r);
    let part = |i: usize, r: &mut Report| {
        // i: sign and exponent
        let top = (i as u32) << 21;
        if thorough || [0usize, 1, 19, 20, 21, 512, 787, 788, 1003, 1023].contains(&(i & 1023)) && i < 1024 {
            for m in 0..1 << 21 {
                float_word(top | m, r);
            }
        } else {
            for b in 0..=21 {
                for d in [-1i64, 0, 1, 0x155] {
                    let m = ((1i64 << b) + d) & 0x1f_ffff;
                    float_word(top | m as u32, r);
                }
            }
        }
    };
    r.merge(in_threads(2048, part));
    r
}

pub fn check(thorough: bool) -> Report {
    let mut r = Report::default();
    for n in 0..=255u8 {
        r.evaluations += 1;
        let got = BitpackedIntegerWidth::new(n).map(|w| w.get());
        if got != (n <= 32).then_some(n) {
            r.bad("width", format!("width {n} gives {got:?}"));
        }
    }
    r.merge(writer_transitions());
    r.merge(sequences(thorough));
    r.merge(reader());
    r.merge(sink_faults());
    r.merge(floats(thorough));
    r
}
