//! C13: an instance carries nothing over; C15: a second optimization changes nothing.

use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces::*;
use crate::spaces2::*;
use optivorbis::Remuxer;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

/// Sink that fails after some bytes
struct Full(usize, Vec<u8>);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.1.len() + b.len() > self.0 {
            return Err(io::ErrorKind::StorageFull.into());
        }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Source that fails from an offset on when it is read for the second time
struct Flaky(Cursor<Vec<u8>>, u64, bool);
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.2 && self.0.position() >= self.1 {
            return Err(io::ErrorKind::Other.into());
        }
        self.0.read(b)
    }
}
impl Seek for Flaky {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.2 |= matches!(p, SeekFrom::Start(_));
        self.0.seek(p)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Plain,
    SinkFull(usize),
    Flaky(u64),
    BadStart,
}

fn go(inst: &OggToOgg, input: &[u8], how: How) -> Out {
    use std::panic::*;
    let mut sink = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| match how {
        How::Plain => inst.remux(Cursor::new(input), &mut sink).map(|_| ()),
        How::SinkFull(n) => inst.remux(Cursor::new(input), Full(n, vec![])).map(|_| ()),
        How::Flaky(n) => inst.remux(Flaky(Cursor::new(input.to_vec()), n, false), &mut sink).map(|_| ()),
        How::BadStart => {
            let mut c = Cursor::new(input);
            c.set_position(3);
            inst.remux(c, &mut sink).map(|_| ())
        }
    }));
    match r {
        Err(p) => Out::Panic(panic_msg(p)),
        Ok(Ok(())) => Out::Ok(sink),
        Ok(Err(e)) => Out::Err(err_kind(&e), e.to_string(), sink.len()),
    }
}

pub fn c13(ctx: &mut Ctx) {
    let b = bases();
    let mut other = b[0].clone();
    other.serial = 1000;
    other.comment = Comments2::long();
    other.start = 4000;
    let mut chain = b[1].bytes();
    let mut x = b[2].clone();
    x.serial = 6;
    chain.extend(x.bytes());
    let mut broken = b[0].clone();
    let n = broken.setup.len();
    broken.setup.truncate(n / 2);
    let mut grouped = b[1].pages();
    let mut g2 = b[0].pages();
    g2.iter_mut().for_each(|p| p.serial = 77);
    grouped.insert(1, g2[0].clone());
    let mut badaudio = b[2].clone();
    badaudio.audio[1].data[0] = 0b110;
    let ops: Vec<(&str, Vec<u8>, How)> = vec![
        ("two channels", b[0].bytes(), How::Plain),
        ("one channel", b[1].bytes(), How::Plain),
        ("same serial, other contents", b[2].bytes(), How::Plain),
        ("start offset", other.bytes(), How::Plain),
        ("chain", chain, How::Plain),
        ("broken setup", broken.bytes(), How::Plain),
        ("sink full during headers", b[0].bytes(), How::SinkFull(100)),
        ("grouped", crate::oggio::write_pages(&grouped), How::Plain),
        ("no Vorbis", file(7).to_vec(), How::Plain),
        ("invalid audio packet", badaudio.bytes(), How::Plain),
        ("sink full at the end", b[2].bytes(), How::SinkFull(550)),
        ("source lost in the second pass", b[0].bytes(), How::Flaky(200)),
        ("starts amid a page", b[0].bytes(), How::BadStart),
        ("nothing", vec![], How::Plain),
        ("file", file(6).to_vec(), How::Plain),
    ];
    let optss: Vec<Opts> = vec![
        Opts::default(),
        Opts { offset: 0, ignore_start: true, delete_fields: true, vendor: Vendor::AppendShortTag, error_no_vorbis: false, ..Opts::default() },
        Opts { verify_crc: false, vendor: Vendor::Replace, ..Opts::default() },
    ];
    // Model: the result of an operation is a function of the operation and the options only
    let want: Vec<Vec<Out>> = optss.iter().map(|o| ops.iter().map(|(_, i, h)| go(&o.instance(), i, *h)).collect()).collect();
    let depth = ctx.t(3, 4);
    let nops = ops.len();
    let gen = |ch: &mut Chooser| -> Option<Vec<usize>> {
        let mut v = vec![ch.all(optss.len())];
        for _ in 0..depth {
            v.push(ch.all(nops));
        }
        Some(v)
    };
    let eval = |c: &Vec<usize>| -> Verdict {
        let mut v = Verdict { nontrivial: true, hash: fnv(format!("{c:?}").as_bytes()), trace: true, outcome: "history", ..Default::default() };
        let inst = optss[c[0]].instance();
        let mut st = vec![c[0]];
        for (k, &o) in c[1..].iter().enumerate() {
            let got = go(&inst, &ops[o].1, ops[o].2);
            v.steps += 1;
            st.push(o);
            v.states.push(fnv(format!("{st:?}").as_bytes()));
            if got != want[c[0]][o] {
                let h: Vec<&str> = c[1..=k + 1].iter().map(|&o| ops[o].0).collect();
                v.issues.push((
                    "history".into(),
                    format!("after {h:?} with options {} the last operation gives {} instead of {}", c[0], brief(&got), brief(&want[c[0]][o])),
                ));
                break;
            }
        }
        if v.hash % 997 == 0 {
            v.sample = Some(format!("{:?}", c[1..].iter().map(|&o| ops[o].0).collect::<Vec<_>>()));
        }
        v
    };
    run(ctx, Spec { name: "histories", bound: 0, gen: &gen, eval: &eval, bytes: &|_| vec![] });

    // The outcome without any history has to be right as well
    for (i, o) in optss.iter().enumerate() {
        for (j, op) in ops.iter().enumerate() {
            if op.2 == How::Plain && !op.1.is_empty() {
                for (t, m) in oracle(&model(&op.1, o), &want[i][j], o) {
                    if t != Tag::Trunc {
                        ctx.violation(&format!("{t:?}"), "histories", format!("{} with options {i}: {m}", op.0), op.1.clone());
                    }
                }
            }
        }
    }

    // Concurrent use of several instances, as far as the operating system cares to interleave
    let rounds = ctx.t(4, 40);
    for _ in 0..rounds {
        let r: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..6usize)
                .map(|t| {
                    let (ops, optss, want) = (&ops, &optss, &want);
                    s.spawn(move || {
                        (0..nops).find_map(|k| {
                            let o = (k * 7 + t * 5) % nops;
                            let got = go(&optss[t % 3].instance(), &ops[o].1, ops[o].2);
                            (got != want[t % 3][o]).then(|| format!("thread {t}: {} gives {}", ops[o].0, brief(&got)))
                        })
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
        });
        for m in r {
            ctx.violation("threads", "threads", m, vec![]);
        }
    }
}

pub fn brief(o: &Out) -> String {
    match o {
        Out::Ok(b) => format!("{} bytes with hash {:x}", b.len(), fnv(b)),
        x => format!("{x:?}"),
    }
}

struct Comments2;
impl Comments2 {
    fn long() -> Vec<u8> {
        let mut c = comments();
        c.fields = (0..300).map(|i| format!("FIELD{i}={}", "x".repeat(i)).into_bytes()).collect();
        c.encode()
    }
}

/// Where the last page with audio of a stream is also its first one, its granule position may be
/// due to either a start offset or a trimmed end. It does not count.
fn unambiguous(b: &[u8]) -> Vec<Page> {
    let mut pages = parse_pages(b, true).expect("output pages");
    let mut early = true;
    for p in &mut pages {
        early |= p.flags & BOS != 0;
        let ambiguous = early && p.flags & EOS != 0;
        early &= p.granule <= 0;
        if ambiguous {
            p.granule = 0;
            p.crc = 0;
        }
    }
    pages
}

/// Optimizing the output once more, with the same options, gives the same bytes
pub fn c15(ctx: &mut Ctx) {
    let th = ctx.thorough;
    for (name, q, t) in [
        ("symbols", 0, 0),
        ("freqs", 0, 0),
        ("lens", 0, 0),
        ("floats", 1, 1),
        ("lookup1", 1, 1),
        ("modes", 1, 2),
        ("blocks", 0, 0),
        ("sizes", 1, 2),
        ("comments", 1, 2),
        ("drops", 0, 0),
        ("chains", 1, 2),
        ("headers", 2, 3),
        ("counts", 0, 0),
        ("files", 1, 2),
        ("setup", 1, 2),
        ("bigbooks", 0, 0),
        ("edits", 0, 0),
        ("pages", 0, 0),
        ("bytes", 0, 0),
        ("junk", 1, 2),
    ] {
        let d = space(name);
        let bound = if th { t } else { q };
        let eval = |c: &Case| -> Verdict {
            let mut v = Verdict { hash: fnv(&c.input) ^ fnv(format!("{:?}", c.opts).as_bytes()), outcome: "rejected", ..Default::default() };
            if let Out::Ok(a) = remux(&c.input, &c.opts) {
                if a.is_empty() {
                    v.outcome = "nothing";
                    return v;
                }
                // Decoding of truncated packets is a finding of another property
                if let Ok(m) = model(&c.input, &c.opts) {
                    // (a floor that is cut is dropped by decoders, whatever the padding is read as, but
                    // with a codebook without entries the padding can't be read at all)
                    let empty = |s: &crate::model::ExpStream| s.dec.as_ref().is_some_and(|d| d.setup.books.iter().any(|b| b.lens.iter().all(|&l| l == 0)));
                    if m.iter().any(|s| s.pkts.iter().any(|p| p.audio.end != crate::dec::End::Complete && (p.audio.end != crate::dec::End::Floor || empty(s)))) {
                        v.outcome = "has truncated packets";
                        return v;
                    }
                    // The vendor string was cut, so it is left empty, and the tag is added next time
                    let tags = !matches!(c.opts.vendor, Vendor::Copy | Vendor::Empty);
                    if m.iter().any(|s| s.interleaved || s.dec.is_none() || tags && s.comments.as_ref().is_some_and(|c| c.vendor.is_empty())) {
                        v.outcome = "incomplete";
                        return v;
                    }
                }
                v.outcome = "optimized";
                v.nontrivial = true;
                v.steps = 1;
                match remux(&a, &c.opts) {
                    Out::Ok(b) if a == b => (),
                    Out::Ok(b) if unambiguous(&a) == unambiguous(&b) => v.outcome = "optimized, with an ambiguous granule position",
                    Out::Ok(b) => {
                        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        v.issues.push(("fixpoint".into(), format!("{}: {} bytes become {}, first difference at {at}", c.note, a.len(), b.len())))
                    }
                    x => v.issues.push(("fixpoint".into(), format!("{}: output can't be optimized again: {x:?}", c.note))),
                }
            }
            v
        };
        let sname = format!("again-{name}");
        run(ctx, Spec { name: &sname, bound, gen: &|ch| (d.gen)(ch, th), eval: &eval, bytes: &|c: &Case| c.input.clone() });
    }
}
