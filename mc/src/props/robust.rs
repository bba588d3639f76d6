//! C07: no input makes the code panic or hang, and what it writes is well formed. Also the PCM
//! comparison of C01, and spaces dedicated to listed findings.

use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces::*;
use crate::spaces2::*;
use crate::vorbis::*;

fn sane(c: &Case) -> Verdict {
    let mut v = Verdict { nontrivial: true, steps: 1, hash: fnv(&c.input) ^ fnv(format!("{:?}", c.opts).as_bytes()), ..Default::default() };
    let t = std::time::Instant::now();
    let r = remux(&c.input, &c.opts);
    let took = t.elapsed().as_secs_f64();
    // Quadratic behavior is a hang for inputs that are not that small
    if took > 20.0 {
        v.issues.push(("slow".into(), format!("{}: {} bytes took {took:.1} s", c.note, c.input.len())));
    }
    let mut bad = |k: &str, m: String| v.issues.push((k.into(), format!("{}: {m}", c.note)));
    match r {
        Out::Panic(m) => {
            v.outcome = "panic";
            bad("panic", m);
        }
        Out::Err(k, ..) => v.outcome = k,
        Out::Ok(out) => {
            v.outcome = "remuxed";
            match split_streams(&out) {
                Err(e) => bad("pages", format!("output is not well formed: {e}")),
                Ok(s) => {
                    for (serial, pk) in s {
                        let id = match Ident::parse(&pk[0].data) {
                            Ok(Some(i)) => i,
                            x => {
                                bad("ident", format!("stream {serial}: identification header {x:?}"));
                                continue;
                            }
                        };
                        if let Some(p) = pk.get(1) {
                            if !Comments::parse_lenient(&p.data).is_ok_and(|(v, f)| Comments { vendor: v.unwrap_or_default(), fields: f }.encode() == p.data) {
                                bad("comment", format!("stream {serial}: comment header does not conform"));
                            }
                        }
                        if let Some(p) = pk.get(2) {
                            match Setup::parse(&p.data, id.channels) {
                                Ok((_, bad_parts)) if bad_parts.is_empty() => (),
                                Ok((_, b)) => bad("setup", format!("stream {serial}: setup header does not conform: {b:?}")),
                                Err(e) => bad("setup", format!("stream {serial}: setup header can't be parsed: {e:?}")),
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn c07(ctx: &mut Ctx) {
    let th = ctx.thorough;
    for name in ["bytes", "pages", "repeats", "junk"] {
        let d = space(name);
        run(ctx, Spec { name, bound: ctx.t(d.quick, d.thorough), gen: &|ch| (d.gen)(ch, th), eval: &sane, bytes: &|c: &Case| c.input.clone() });
    }

    // Real files cut at every byte, and with every byte changed
    let gen = |ch: &mut Chooser| -> Option<Case> {
        let i = ch.each(if th { &[0usize, 1, 6, 4][..] } else { &[0][..] });
        let mut b = file(i).to_vec();
        let at = ch.all(b.len());
        let k = ch.all(4);
        match k {
            0 => b.truncate(at),
            1 => b[at] ^= 0xff,
            2 => b[at] = 0,
            _ => b[at] ^= 1 << (at % 8),
        }
        let o = Opts { verify_crc: false, error_no_vorbis: false, ..Opts::default() };
        Some(Case { input: b, opts: o, note: format!("{}, edit {k} at {at}", FILES[i]) })
    };
    run(ctx, Spec { name: "real-bytes", bound: 0, gen: &gen, eval: &sane, bytes: &|c: &Case| c.input.clone() });

    // Small files that describe a lot
    let gen = |ch: &mut Chooser| -> Option<Case> {
        let k = ch.all(if th { 11 } else { 8 });
        let id = ident(if k == 5 { 255 } else { 1 }, 6, if k == 5 { 13 } else { 7 });
        let mut st = tiny_setup(&[1, 1]);
        let big = if th { 20 } else { 17 };
        let note;
        match k {
            0 => {
                note = "codebook with many entries of the same length";
                let mut b = Codebook::scalar(&vec![big as u8; 1 << big]);
                b.fmt = LenFmt::Ordered;
                st.books.push(b);
            }
            1 => {
                note = "many codebooks of 2^14 entries";
                for _ in 0..60 {
                    let mut b = Codebook::scalar(&vec![14; 1 << 14]);
                    b.fmt = LenFmt::Ordered;
                    st.books.push(b);
                }
            }
            2 => {
                note = "codebook of unused entries";
                let mut b = Codebook::scalar(&vec![0; 1 << big]);
                b.fmt = LenFmt::Sparse;
                st.books.push(b);
            }
            3 => {
                note = "codebook with increasing lengths, and many of 32 bits";
                let mut l: Vec<u8> = (1..=20).collect();
                l.extend(vec![32; 1 << 12]);
                st.books.push(Codebook::scalar(&l));
            }
            4 => {
                note = "codebook with decreasing lengths";
                let mut l: Vec<u8> = vec![big as u8 + 1; 1 << big];
                l.extend(vec![2; 1]);
                l.extend(vec![3; 1]);
                st.books.push(Codebook::scalar(&l));
            }
            5 => {
                note = "many tiny packets with many channels";
                st = rich_setup(255);
            }
            6 => {
                note = "codebook with alternating lengths";
                let l: Vec<u8> = (0..1 << (big - 1)).map(|i| if i % 2 == 0 { big as u8 } else { big as u8 + 1 }).collect();
                st.books.push(Codebook::scalar(&l));
            }
            7 => {
                note = "incomplete codebook of many entries";
                st.books.push(Codebook::scalar(&vec![32; 1 << (big - 1)]));
            }
            8 => {
                note = "lookup table with many values";
                st.books.push(Codebook::scalar(&vec![16; 1 << 16]).with_dims(255).vq(2, 1));
            }
            9 => {
                note = "lookup table of as many values as entries";
                let mut b = Codebook::scalar(&vec![20; 1 << 20]).vq(1, 16);
                b.fmt = LenFmt::Ordered;
                st.books.push(b);
            }
            _ => {
                note = "ordered codebook of 2^23 entries";
                let mut b = Codebook::scalar(&vec![23; 1 << 23]);
                b.fmt = LenFmt::Ordered;
                st.books.push(b);
            }
        }
        let mut s = StreamB::new(1, &id, &st);
        if k == 5 {
            for _ in 0..3000 {
                s.push(vec![0], 64);
            }
        } else {
            add_audio(&mut s, &id, &st, &SCRIPT[..2]);
        }
        Some(Case { input: s.bytes(), opts: Opts::default(), note: note.into() })
    };
    run(ctx, Spec { name: "huge", bound: 0, gen: &gen, eval: &sane, bytes: &|c: &Case| c.input.clone() });
    super::amounts::amounts(ctx);
}

/// Samples of every stream, decoded by an independent decoder
fn pcm(input: &[u8]) -> Result<Vec<Vec<Vec<f32>>>, String> {
    let pages = parse_pages(input, true)?;
    let mut streams: Vec<(u32, Vec<Pkt>)> = vec![];
    for p in packets(&pages)? {
        match streams.iter_mut().find(|s| s.0 == p.serial) {
            Some(s) => s.1.push(p),
            None => streams.push((p.serial, vec![p])),
        }
    }
    let mut out = vec![];
    for (_, pk) in streams {
        if pk.len() < 3 || !pk[0].data.starts_with(b"\x01vorbis") {
            continue;
        }
        let r = std::panic::catch_unwind(|| -> Result<Vec<Vec<f32>>, String> {
            let id = lewton::header::read_header_ident(&pk[0].data).map_err(|e| format!("{e:?}"))?;
            let st = lewton::header::read_header_setup(&pk[2].data, id.audio_channels, (id.blocksize_0, id.blocksize_1)).map_err(|e| format!("{e:?}"))?;
            let mut pwr = lewton::audio::PreviousWindowRight::new();
            let mut ch = vec![vec![]; id.audio_channels as usize];
            for p in &pk[3..] {
                if p.data.is_empty() {
                    continue;
                }
                let x: Vec<Vec<f32>> = lewton::audio::read_audio_packet_generic(&id, &st, &p.data, &mut pwr).map_err(|e| format!("{e:?}"))?;
                for (c, s) in ch.iter_mut().zip(x) {
                    c.extend(s);
                }
            }
            Ok(ch)
        });
        out.push(r.map_err(|_| "the other decoder panicked".to_string())??);
    }
    Ok(out)
}

pub fn pcm_check(ctx: &mut Ctx) {
    let th = ctx.thorough;
    for (name, q, t) in [("files", 1, 2), ("modes", 1, 2), ("symbols", 0, 0), ("freqs", 0, 0), ("floats", 1, 1), ("setup", 1, 2)] {
        let d = space(name);
        let bound = if th { t } else { q };
        let eval = |c: &Case| -> Verdict {
            let mut v = Verdict { outcome: "not decoded", hash: fnv(&c.input), ..Default::default() };
            // The other decoder wants strict headers, and it is the judge of valid audio only
            let Ok(a) = pcm(&c.input) else { return v };
            if a.iter().all(|x| x.iter().all(|x| x.is_empty())) {
                return v;
            }
            let whole = model(&c.input, &c.opts).is_ok_and(|m| m.iter().all(|s| s.pkts.iter().all(|p| matches!(p.audio.end, crate::dec::End::Complete | crate::dec::End::Floor))));
            if !whole {
                return v;
            }
            // Zero times a big power of two is zero, but that decoder overflows to infinity first
            if a.iter().any(|x| x.iter().any(|x| x.iter().any(|x| x.is_nan()))) {
                v.outcome = "not a number";
                return v;
            }
            let Out::Ok(out) = remux(&c.input, &c.opts) else { return v };
            v.outcome = "compared";
            v.nontrivial = true;
            v.steps = 1;
            match pcm(&out) {
                Err(e) => v.issues.push(("pcm".into(), format!("{}: output can't be decoded: {e}", c.note))),
                Ok(b) => {
                    let bits = |x: &Vec<Vec<Vec<f32>>>| x.iter().map(|x| x.iter().map(|x| x.iter().map(|x| if x.is_nan() { u32::MAX } else { x.to_bits() }).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>();
                    if bits(&a) != bits(&b) {
                        v.issues.push(("pcm".into(), format!("{}: samples differ", c.note)));
                    }
                }
            }
            v
        };
        let sname = format!("pcm-{name}");
        run(ctx, Spec { name: &sname, bound, gen: &|ch| (d.gen)(ch, th), eval: &eval, bytes: &|c: &Case| c.input.clone() });
    }
}

/// Chains whose links end with a page without packets
pub fn nil_eos(ctx: &mut Ctx) {
    let gen = |ch: &mut Chooser| -> Option<Case> {
        let links = ch.all(2) + 1;
        let mut pages = vec![];
        for l in 0..links {
            let mut s = bases()[l % 2].clone();
            s.serial = 10 + l as u32;
            s.eos = false;
            let mut p = s.pages();
            if ch.all(2) == 1 {
                let mut e = p.last().unwrap().clone();
                e.seq += 1;
                e.lacing.clear();
                e.body.clear();
                e.flags = EOS;
                p.push(e);
            } else {
                p.last_mut().unwrap().flags |= EOS;
            }
            pages.extend(p);
        }
        Some(Case { input: write_pages(&pages), opts: Opts::default(), note: format!("{links} links") })
    };
    let eval = |c: &Case| -> Verdict {
        let mut v = Verdict { nontrivial: true, outcome: "chain", steps: 1, hash: fnv(&c.input), ..Default::default() };
        let links = parse_pages(&c.input, true).unwrap().iter().filter(|p| p.flags & BOS != 0).count();
        match remux(&c.input, &c.opts) {
            Out::Ok(b) => {
                let n = split_streams(&b).map_or(0, |s| s.len());
                if n != links {
                    v.issues.push(("nil EOS page".into(), format!("{}: {n} streams written", c.note)));
                }
            }
            Out::Err(k, _, 0) if k == "multiplexing" => v.issues.push(("nil EOS page and multiplexing".into(), format!("{}: the next link is taken as a grouped bitstream", c.note))),
            x => v.issues.push(("nil EOS page".into(), format!("{}: chain whose first link ends with an empty EOS page gives {x:?}", c.note))),
        }
        v
    };
    run(ctx, Spec { name: "nileos", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &Case| c.input.clone() });
}

/// Streams whose first audio page holds more packets than the first page of the output has room for
pub fn first_page(ctx: &mut Ctx) {
    use crate::dec::{Dec, K};
    use crate::vorbis::*;
    let gen = |ch: &mut Chooser| -> Option<(Case, i64)> {
        let first = ch.each(&[126usize, 127, 128, 200, 255]);
        let late = ch.each(&[1usize, 256, 300]);
        let start = ch.each(&[0i64, 1, 40_000, -7]);
        let ignore = ch.all(2) == 1;
        // The codeword of the class that packets of the first page use grows by a bit if it is
        // used less than the others, so packets of 254 bytes become packets of 255 bytes.
        let id = ident(1, 6, 9);
        let mut st = tiny_setup(&[1, 1]);
        st.books[0] = Codebook::scalar(&[1, 2, 2]);
        st.books[1] = Codebook::scalar(&[8; 256]).vq(1, 8);
        let mut c = [None; 8];
        c[0] = Some(1);
        st.residues = vec![Residue { ty: 1, begin: 0, end: 250, psize: 25, classbook: 0, books: vec![c; 3], long_cascade: false }];
        st.mappings = vec![Mapping { ty: 0, submaps: vec![Submap { time: 0, floor: 0, residue: 0 }], long_submaps: false, coupling: vec![], reserved: 0, mux: vec![0] }];
        st.modes = vec![Mode { big: true, window: 0, transform: 0, mapping: 0 }; 2];
        let d = Dec::new(id.clone(), st.clone()).ok().expect("setup");
        let mut s = StreamB::new(5, &id, &st);
        s.start = start;
        let mut next = 0u64;
        for i in 0..first + late {
            let class = if i < first { 0 } else { 1 + (i % 16 == 0) as u64 };
            let (w, a) = d.generate(|k, n| match k {
                K::Nonzero(_) => 1,
                K::Class(_) => class,
                K::Vq(_) => {
                    next += 1;
                    next % n
                }
                _ => 0,
            });
            s.push(w.bytes, a.ok()?.bs);
        }
        s.audio[first - 1].brk = true;
        let opts = Opts { ignore_start: ignore, ..Opts::default() };
        let (a, b) = (s.audio[0].data.len(), s.audio[first].data.len());
        Some((Case { input: s.bytes(), opts, note: format!("{first} packets of {a} bytes in the first page, {late} packets of {b} bytes in others, start {start}, ignore {ignore}") }, start))
    };
    let eval = |c: &(Case, i64)| -> Verdict {
        let mut v = Verdict { nontrivial: true, outcome: "stream", steps: 1, hash: fnv(&c.0.input) ^ c.0.opts.ignore_start as u64, ..Default::default() };
        let pkts = |b: &[u8]| packets(&parse_pages(b, true).unwrap_or_default()).unwrap_or_default();
        let input = pkts(&c.0.input);
        let Out::Ok(b) = remux(&c.0.input, &c.0.opts) else {
            v.issues.push(("rejected".into(), c.0.note.clone()));
            return v;
        };
        let out = pkts(&b);
        if out.len() != input.len() {
            v.issues.push(("packets".into(), format!("{}: {} packets become {}", c.0.note, input.len(), out.len())));
        }
        let first = input.iter().skip(3).position(|p| p.last_in_page).unwrap_or(0);
        let start = if c.0.opts.ignore_start { 0 } else { c.1 };
        let mut early = false;
        for (n, p) in out.iter().skip(3).enumerate() {
            let decoded = n as i64 * 256;
            if p.last_in_page && n < first {
                early = true;
            }
            if p.last_in_page && p.granule != start + decoded {
                let k = if n < first && p.granule == decoded { "start offset missing in pages before the end of the first original one" } else { "granule" };
                v.issues.push((k.into(), format!("{}: page that ends at packet {n} has granule position {} instead of {}", c.0.note, p.granule, start + decoded)));
            }
            v.states.push(fnv(format!("{n} {} {}", p.granule, p.last_in_page).as_bytes()));
        }
        v.trace = true;
        if early {
            v.outcome = "stream whose first page ends early";
        }
        v
    };
    run(ctx, Spec { name: "firstpage", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &(Case, i64)| c.0.input.clone() });
}
