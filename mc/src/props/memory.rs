//! C23: how much memory a file may need.

use crate::alloc::{measure, Usage};
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces::*;
use crate::spaces2::*;
use crate::vorbis::*;
use optivorbis::Remuxer;
use std::cell::Cell;
use std::io::{self, Read, Seek, SeekFrom, Write};

/// What a file contains, as opposed to what its headers claim
#[derive(Clone, Copy, Debug, Default)]
struct Size {
    len: u64,
    /// Of all the header packets
    headers: u64,
    /// The biggest packet
    packet: u64,
    /// Entries of codebooks, which the specification lets a few bits declare
    entries: u64,
    /// Values of the biggest residue vector, and dimensions of a class book
    vector: u64,
    streams: u64,
    pages: u64,
    packets: u64,
}

fn size(input: &[u8]) -> Size {
    let mut s = Size { len: input.len() as u64, ..Default::default() };
    let pages = parse_pages(input, false).ok();
    let pk = pages.as_ref().and_then(|p| packets(p).ok());
    s.pages = pages.map_or(s.len / 27, |p| p.len() as u64);
    let Some(pk) = pk else {
        // Damaged. Anything could be a header.
        s.packet = s.len;
        s.headers = s.len;
        s.packets = s.len;
        let mut channels = 0u64;
        for i in 0..input.len().saturating_sub(7) {
            if input[i..].starts_with(b"\x01vorbis") {
                s.streams += 1;
                channels = channels.max(input.get(i + 11).map_or(0, |c| *c as u64));
            }
            if input[i..].starts_with(b"\x05vorbis") {
                let (n, dims) = declared(&input[i..]);
                s.entries += n;
                s.vector = s.vector.max(channels * (4096 + dims));
            }
        }
        return s;
    };
    let mut channels = 0u64;
    for p in &pk {
        s.packets += 1;
        s.packet = s.packet.max(p.data.len() as u64);
        s.streams += p.bos as u64;
        if p.data.starts_with(b"\x01vorbis") {
            channels = p.data.get(11).map_or(0, |c| *c as u64);
        }
        if p.bos || p.data.starts_with(b"\x03vorbis") || p.data.starts_with(b"\x05vorbis") {
            s.headers += p.data.len() as u64;
        }
        if p.data.starts_with(b"\x05vorbis") {
            let (n, dims) = declared(&p.data);
            s.entries += n;
            s.vector = s.vector.max(channels * (4096 + dims));
        }
    }
    s
}

#[derive(Default)]
struct Io {
    read: Cell<u64>,
    written: Cell<u64>,
    starts: Cell<u64>,
}

struct Src<'a>(&'a [u8], u64, &'a Io);
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let at = (self.1 as usize).min(self.0.len());
        let n = b.len().min(self.0.len() - at);
        b[..n].copy_from_slice(&self.0[at..at + n]);
        if at == 0 && n > 0 {
            self.2.starts.set(self.2.starts.get() + 1);
        }
        self.1 += n as u64;
        self.2.read.set(self.2.read.get() + n as u64);
        Ok(n)
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.0.len() as i64 + n,
            SeekFrom::Current(n) => self.1 as i64 + n,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.1 = n as u64;
        Ok(self.1)
    }
}
struct Snk<'a>(&'a Io);
impl Write for Snk<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.written.set(self.0.written.get() + b.len() as u64);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn go(c: &Case, io: &Io) -> (Option<Result<(), String>>, Usage) {
    measure(|| {
        let inst = c.opts.instance();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst.remux(Src(&c.input, 0, io), Snk(io)).map(|_| ()).map_err(|_| String::new())));
        r.ok()
    })
}

fn eval(c: &Case) -> Verdict {
    thread_local!(static WARM: Cell<bool> = const { Cell::new(false) });
    let mut v = Verdict { nontrivial: true, steps: 1, hash: fnv(&c.input) ^ fnv(format!("{:?}", c.opts).as_bytes()), ..Default::default() };
    let s = size(&c.input);
    if !WARM.replace(true) {
        // Whatever is made once for a thread
        go(c, &Io::default());
    }
    let io = Io::default();
    let (r, u) = go(c, &io);
    v.outcome = match r {
        None => "panic",
        Some(Err(_)) => "rejected",
        Some(Ok(())) => "remuxed",
    };
    if std::env::var_os("MC_CAL").is_some() {
        println!(
            "CAL {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
            s.len, s.headers, s.packet, s.entries, s.vector, s.streams, s.pages, s.packets, u.peak, u.total, u.times, u.left, io.read.get(), io.starts.get()
        );
    }
    let mut bad = |k: &str, m: String| v.issues.push((k.to_string(), format!("{}: {m}", c.note)));
    // The code at the time of writing needs less than a quarter of this for any of the cases
    let most = (512 << 10) + 600 * s.headers + 12 * s.packet + 32 * s.entries + 16 * s.vector + (16 << 10) * s.streams;
    if u.peak > most {
        bad("peak", format!("{} bytes of memory are in use at once, and {most} ought to be enough ({s:?})", u.peak));
    }
    let most = most + 32 * s.len + s.packets * ((16 << 10) + 8 * s.vector) + (256 << 10) * s.streams;
    if u.total > most {
        bad("total", format!("{} bytes of memory are asked for in all, and {most} ought to be enough ({s:?})", u.total));
    }
    // What the first execution of a thread leaves behind was made before
    if u.left > 4096 {
        bad("left", format!("{} bytes of memory are still in use afterwards", u.left));
    }
    // Up to 1024 bytes at a time are read again where junk comes before a page
    let again = || if parse_pages(&c.input, false).is_ok() { 0 } else { 1024 * c.input.windows(4).filter(|w| w == b"OggS").count() as u64 };
    if io.starts.get() > 2 || io.read.get() > 2 * s.len && io.read.get() > 2 * (s.len + again()) {
        bad("read", format!("{} bytes of a source of {} are read, from its beginning {} times", io.read.get(), s.len, io.starts.get()));
    }
    v
}

fn over(ctx: &mut Ctx, name: &str, bound: usize) {
    let d = SPACES.iter().find(|s| s.name == name).expect("space");
    let th = ctx.thorough;
    run(ctx, Spec { name: d.name, bound, gen: &|ch| (d.gen)(ch, th), eval: &eval, bytes: &|c: &Case| c.input.clone() });
}

/// Sets bits of a packet, in the order of the bitpacking convention
fn put(b: &mut [u8], at: usize, n: usize, v: u64) {
    for i in 0..n {
        let (at, bit) = (at + i, v >> i & 1);
        b[at / 8] = b[at / 8] & !(1 << (at % 8)) | (bit as u8) << (at % 8);
    }
}

const GROWTHS: [&str; 6] = ["packets", "packets with pages of their own", "packets with 3 pages each", "empty packets", "foreign packets", "pages with junk in between"];

/// A file with `n` of something
pub fn growth(kind: u8, links: u8, n: usize) -> Vec<u8> {
    let (id, st) = (ident(1, 6, 6), tiny_setup(&[1, 1]));
    let d = crate::dec::Dec::new(id.clone(), st.clone()).expect("decoder");
    let mut s = StreamB::new(3, &id, &st);
    let bs = [0, 1].map(|m| {
        let (data, a) = packet(&d, m, false, false, Pat::Silent, 0);
        (data, a.expect("silence").bs)
    });
    let many = |s: &mut StreamB, n: usize| {
        for i in 0..n {
            let (d, b) = bs[i % 2].clone();
            s.push(d, b);
        }
    };
    match kind {
        0 => many(&mut s, n),
        1 => {
            many(&mut s, n);
            s.max_segs = 1;
        }
        2 => {
            many(&mut s, n / 20);
            for a in &mut s.audio {
                a.data.resize(600, 0);
            }
            s.max_segs = 1;
        }
        3 => {
            many(&mut s, 2);
            for _ in 0..n {
                s.push(vec![], 0);
            }
            many(&mut s, 2);
        }
        _ => many(&mut s, 4),
    }
    let mut v = vec![];
    for l in 0..links as u32 + 1 {
        s.serial = 3 + l;
        let before = v.len();
        v.extend(s.bytes());
        match kind {
            4 => {
                let o: Vec<_> = std::iter::once((b"OpusHead".to_vec(), 0, true)).chain((0..n).map(|i| (vec![7u8; 5], 0, i % 3 == 0))).collect();
                v.extend(write_pages(&paginate(&Paginate { serial: 99 + l, max_segs: 255, bos: true, eos: true, first_seq: 0 }, &o)));
            }
            5 => {
                v.truncate(before);
                s.max_segs = 1;
                s.audio.truncate(0);
                many(&mut s, n);
                for p in s.pages() {
                    p.write(&mut v);
                    v.extend(b"junk");
                }
            }
            _ => (),
        }
    }
    v
}

pub fn c23(ctx: &mut Ctx) {
    let th = ctx.thorough;
    // Any bits of the headers may be a count
    let bs = bases();
    let gen = |ch: &mut Chooser| -> Option<Case> {
        let i = ch.all(bs.len());
        let mut s = bs[i].clone();
        let which = ch.all(3);
        let p = match which {
            0 => &mut s.ident,
            1 => &mut s.comment,
            _ => &mut s.setup,
        };
        let n = ch.each(&[8usize, 16, 24, 32]);
        let at = ch.all((p.len() * 8 + 1).checked_sub(56 + n)?) + 56;
        let v = if th { ch.each(&[u64::MAX, u64::MAX >> (65 - n), 1 << (n - 1), 1 << (n - 2), 3 << (n - 3)]) } else { ch.each(&[u64::MAX, u64::MAX >> (65 - n)]) };
        put(p, at, n, v);
        let cut = ch.all(if th { 6 } else { 2 });
        let left = (at + n).div_ceil(8) + (cut.max(1) - 1) * 3;
        if cut > 0 {
            if left >= p.len() {
                return None;
            }
            p.truncate(left);
        }
        let note = format!("stream {i}, {n} bits at {at} of header {which}, cut {cut}");
        Some(Case { input: s.bytes(), opts: Opts::default(), note })
    };
    run(ctx, Spec { name: "claims", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &Case| c.input.clone() });

    // Long files
    let gen = |ch: &mut Chooser| -> Option<Case> {
        let i = ch.all(bs.len());
        let n = if th { ch.each(&[100usize, 1000, 10000, 100000]) } else { ch.each(&[100usize, 1000, 10000]) };
        let pad = ch.each(&[0usize, 1, 100, 700]);
        let segs = ch.each(&[255usize, 20, 1]);
        let links = ch.each(&[1usize, 2, 4, 0]);
        let mut s = bs[i].clone();
        s.max_segs = segs;
        let a: Vec<_> = s.audio.iter().filter(|a| a.bs > 0).cloned().collect();
        s.audio = a.iter().cycle().take(n).cloned().collect();
        for a in &mut s.audio {
            let len = a.data.len();
            a.data.resize(len + pad, 0);
        }
        let mut input = vec![];
        if links == 0 {
            // A foreign stream, then this one
            let o = vec![vec![7u8; 300]; n];
            let v: Vec<_> = std::iter::once(b"OpusHead".to_vec()).chain(o).map(|d| (d, 0, false)).collect();
            input = write_pages(&paginate(&Paginate { serial: 99, max_segs: segs, bos: true, eos: true, first_seq: 0 }, &v));
            input.extend(s.bytes());
        }
        for l in 0..links {
            s.serial = l as u32;
            input.extend(s.bytes());
        }
        Some(Case { input, opts: Opts::default(), note: format!("stream {i}, {links} times {n} packets with {pad} bytes of padding, up to {segs} segments per page") })
    };
    run(ctx, Spec { name: "long", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &Case| c.input.clone() });

    // What is needed at once does not depend on how long a file is
    let gen = |ch: &mut Chooser| -> Option<(u8, u8, Opts)> {
        let kind = ch.all(GROWTHS.len()) as u8;
        let links = ch.all(if th { 3 } else { 2 }) as u8;
        let o = Opts { ignore_start: ch.all(2) == 1, verify_crc: ch.all(2) == 0, ..Opts::default() };
        Some((kind, links, o))
    };
    let sizes = if th { [20_000, 3_000_000] } else { [20_000, 400_000] };
    let eval_growth = |(kind, links, o): &(u8, u8, Opts)| -> Verdict {
        let mut v = Verdict { nontrivial: true, steps: 2, hash: fnv(format!("{kind} {links} {o:?}").as_bytes()), outcome: GROWTHS[*kind as usize], ..Default::default() };
        let peaks: Vec<_> = sizes
            .iter()
            .map(|n| {
                let c = Case { input: growth(*kind, *links, *n), opts: o.clone(), note: String::new() };
                let io = Io::default();
                go(&Case { input: growth(*kind, *links, 10), opts: o.clone(), note: String::new() }, &Io::default());
                let (r, u) = go(&c, &io);
                (r.map(|r| r.is_ok()), u.peak)
            })
            .collect();
        if peaks.iter().any(|p| p.0 != Some(true)) {
            v.issues.push(("rejected".into(), format!("{}: {peaks:?}", v.outcome)));
        }
        if peaks[1].1 > peaks[0].1 + (48 << 10) {
            v.issues.push(("growth".into(), format!("{} of {}: {} bytes of memory are in use at once, and {} for {} of them", sizes[1], v.outcome, peaks[1].1, peaks[0].1, sizes[0])));
        }
        v
    };
    run(ctx, Spec { name: "growth", bound: 0, gen: &gen, eval: &eval_growth, bytes: &|(k, l, _): &(u8, u8, Opts)| growth(*k, *l, 2_000) });

    let list = [("counts", 0, 0), ("bigbooks", 0, 0), ("deep", 0, 0), ("comments", 1, 2), ("setup", 1, 2), ("lookup1", 1, 1), ("edits", 0, 0), ("flips", 0, 0), ("files", 1, 2), ("chains", 1, 2), ("modes", 1, 1), ("headers", 1, 2), ("ident", 1, 2), ("cuts", 0, 0), ("short", 0, 0), ("bytes", 0, 0), ("pages", 0, 0), ("junk", 1, 2)];
    for (name, q, t) in list {
        let b = ctx.t(q, t);
        over(ctx, name, b);
    }
}
