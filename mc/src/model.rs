//! Reference model of the remux operation, and the oracle that compares the output of the
//! real code with it.

use crate::bits::*;
use crate::dec::*;
use crate::oggio::{self, *};
use crate::vorbis::*;
use optivorbis::remuxer::ogg_to_ogg::{self, OggVorbisStreamPassthroughMangler as Passthrough, RemuxError};
use optivorbis::{
    Remuxer, VorbisCommentFieldsAction, VorbisOptimizerSettings, VorbisVendorStringAction,
    OPTIVORBIS_SHORT_VERSION_TAG, OPTIVORBIS_VERSION_TAG,
};
use std::io::Cursor;

pub type OggToOgg = optivorbis::OggToOgg<Passthrough>;
pub type Settings = ogg_to_ogg::Settings<Passthrough>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Vendor {
    AppendTag,
    Copy,
    Replace,
    AppendShortTag,
    Empty,
}
pub const VENDORS: [Vendor; 5] = [Vendor::AppendTag, Vendor::Copy, Vendor::Replace, Vendor::AppendShortTag, Vendor::Empty];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Opts {
    pub vendor: Vendor,
    pub delete_fields: bool,
    pub randomize: bool,
    pub offset: u32,
    pub ignore_start: bool,
    pub error_no_vorbis: bool,
    pub verify_crc: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            vendor: Vendor::AppendTag,
            delete_fields: false,
            randomize: false,
            offset: 7,
            ignore_start: false,
            error_no_vorbis: true,
            verify_crc: true,
        }
    }
}

impl Opts {
    pub fn optimizer(&self) -> VorbisOptimizerSettings {
        let mut s = VorbisOptimizerSettings::default();
        s.vendor_string_action = match self.vendor {
            Vendor::Copy => VorbisVendorStringAction::Copy,
            Vendor::Replace => VorbisVendorStringAction::Replace,
            Vendor::AppendTag => VorbisVendorStringAction::AppendTag,
            Vendor::AppendShortTag => VorbisVendorStringAction::AppendShortTag,
            Vendor::Empty => VorbisVendorStringAction::Empty,
        };
        s.comment_fields_action =
            if self.delete_fields { VorbisCommentFieldsAction::Delete } else { VorbisCommentFieldsAction::Copy };
        s
    }
    pub fn remuxer(&self) -> Settings {
        let mut s = Settings::default();
        s.randomize_stream_serials = self.randomize;
        s.first_stream_serial_offset = self.offset;
        s.ignore_start_sample_offset = self.ignore_start;
        s.error_on_no_vorbis_streams = self.error_no_vorbis;
        s.verify_ogg_page_checksums = self.verify_crc;
        s
    }
    pub fn instance(&self) -> OggToOgg {
        OggToOgg::new(self.remuxer(), self.optimizer())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(Vec<u8>),
    /// Error kind, message, bytes that reached the sink
    Err(&'static str, String, usize),
    Panic(String),
}

pub fn err_kind(e: &RemuxError) -> &'static str {
    match e {
        RemuxError::OggError(_) => "ogg",
        RemuxError::OptimizerError(_) => "optimizer",
        RemuxError::UnsupportedStreamMultiplexing => "multiplexing",
        RemuxError::NoVorbisStreamFound => "no-vorbis",
        RemuxError::IoError(_) => "io",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

pub fn run_on(inst: &OggToOgg, input: &[u8]) -> Out {
    let mut sink = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst.remux(Cursor::new(input), &mut sink).map(|_| ())));
    match r {
        Err(p) => Out::Panic(panic_msg(p)),
        Ok(Ok(())) => Out::Ok(sink),
        Ok(Err(e)) => Out::Err(err_kind(&e), e.to_string(), sink.len()),
    }
}

pub fn remux(input: &[u8], o: &Opts) -> Out {
    run_on(&o.instance(), input)
}

#[derive(Clone, Debug)]
pub struct ExpPkt {
    pub data: Vec<u8>,
    pub audio: Audio,
    pub granule: i64,
}

#[derive(Clone)]
pub struct ExpStream {
    pub ident: Ident,
    pub comments: Option<Comments>,
    pub dec: Option<Dec>,
    pub pkts: Vec<ExpPkt>,
    pub freqs: Vec<Vec<u64>>,
    /// The input has packets of an older stream after those of a newer one
    pub interleaved: bool,
}

impl ExpStream {
    pub fn packet_count(&self) -> usize {
        1 + self.comments.is_some() as usize + self.dec.is_some() as usize + self.pkts.len()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rej {
    Multiplexing,
    NoVorbis,
    Optimizer(String),
    Ogg(String),
}
impl Rej {
    pub fn kind(&self) -> &'static str {
        match self {
            Rej::Multiplexing => "multiplexing",
            Rej::NoVorbis => "no-vorbis",
            Rej::Optimizer(_) => "optimizer",
            Rej::Ogg(_) => "ogg",
        }
    }
}

pub fn expected_vendor(raw: Option<&[u8]>, v: Vendor) -> Vec<u8> {
    let Some(raw) = raw else { return vec![] };
    let append = |tag: &str| {
        let tagged = |t: &str| raw.ends_with(format!("; {t}").as_bytes());
        if tagged(OPTIVORBIS_VERSION_TAG) || tagged(OPTIVORBIS_SHORT_VERSION_TAG) {
            raw.to_vec()
        } else {
            [raw, b"; ", tag.as_bytes()].concat()
        }
    };
    match v {
        Vendor::Copy => raw.to_vec(),
        Vendor::Replace => OPTIVORBIS_VERSION_TAG.as_bytes().to_vec(),
        Vendor::AppendTag => append(OPTIVORBIS_VERSION_TAG),
        Vendor::AppendShortTag => append(OPTIVORBIS_SHORT_VERSION_TAG),
        Vendor::Empty => vec![],
    }
}

struct InStream {
    serial: u32,
    ident: Ident,
    comments: Option<Comments>,
    dec: Option<Dec>,
    /// Kept audio packets, with whether they are the last of their page and its granule
    kept: Vec<(Vec<u8>, Audio, bool, i64)>,
}

/// Granule positions that the output has to carry, from the block sizes of the kept packets,
/// and whether each of them is the last packet of its original page and its granule position.
pub fn model_granules(k: &[(u32, bool, i64)], ignore: bool) -> Vec<i64> {
    let n = k.len();
    let first_end = k.iter().position(|x| x.1);
    let mut out = vec![];
    let mut last = 0i64;
    let mut offset = 0i64;
    for i in 0..n {
        let calc = if i == 0 { 0 } else { last.wrapping_add((k[i - 1].0 as i64 + k[i].0 as i64) / 4) };
        let g = if i > 0 && i == n - 1 {
            let orig = k[i].2;
            let undo = if ignore { offset } else { 0 };
            let (lo, hi) = (last.wrapping_add(undo).wrapping_add(1), calc.wrapping_add(undo));
            if lo <= orig && orig <= hi {
                orig.wrapping_sub(undo)
            } else {
                calc
            }
        } else if first_end == Some(i) {
            offset = k[i].2.saturating_sub(calc);
            calc.wrapping_add(if ignore { 0 } else { offset })
        } else {
            calc
        };
        out.push(g);
        last = g;
    }
    out
}

pub fn model(input: &[u8], o: &Opts) -> Result<Vec<ExpStream>, Rej> {
    let (pages, damaged) = read_pages(input, o.verify_crc);
    let (pkts, misplaced) = packets_until(&pages);
    let r = model_packets(&pkts, o);
    match (misplaced.or(damaged), r) {
        // Whatever comes first
        (Some(e), Ok(_) | Err(Rej::NoVorbis)) => Err(Rej::Ogg(e)),
        (_, r) => r,
    }
}

pub fn model_packets(pkts: &[Pkt], o: &Opts) -> Result<Vec<ExpStream>, Rej> {
    let bad = |m: &str| Rej::Optimizer(m.to_string());
    let rej = |e: E| match e {
        E::Eop => Rej::Optimizer("end of packet".into()),
        E::Bad(m) => Rej::Optimizer(m.into()),
    };
    let mut ss: Vec<InStream> = vec![];
    let mut reading = false;
    let mut interleaved = false;
    for p in pkts {
        if p.bos {
            if let Some(ident) = Ident::parse(&p.data).map_err(rej)? {
                if reading {
                    return Err(Rej::Multiplexing);
                }
                reading = true;
                ss.push(InStream { serial: p.serial, ident, comments: None, dec: None, kept: vec![] });
            }
            continue;
        }
        let Some(si) = ss.iter().position(|s| s.serial == p.serial) else { continue };
        interleaved |= si + 1 < ss.len();
        let s = &mut ss[si];
        reading = !p.eos;
        if s.comments.is_none() {
            let (v, f) = Comments::parse_lenient(&p.data).map_err(rej)?;
            s.comments = Some(Comments {
                vendor: expected_vendor(v.as_deref(), o.vendor),
                fields: if o.delete_fields { vec![] } else { f },
            });
        } else if s.dec.is_none() {
            let (setup, _) = Setup::parse(&p.data, s.ident.channels).map_err(rej)?;
            s.dec = Some(Dec::new(s.ident.clone(), setup).map_err(bad)?);
        } else {
            match s.dec.as_ref().unwrap().decode(&p.data).map_err(bad)? {
                None => (),
                Some(a) => s.kept.push((p.data.clone(), a, p.last_in_page, p.granule)),
            }
        }
    }
    if ss.is_empty() && o.error_no_vorbis {
        return Err(Rej::NoVorbis);
    }
    Ok(ss
        .into_iter()
        .map(|s| {
            let gs = model_granules(&s.kept.iter().map(|k| (k.1.bs, k.2, k.3)).collect::<Vec<_>>(), o.ignore_start);
            let mut freqs: Vec<Vec<u64>> =
                s.dec.iter().flat_map(|d| d.setup.books.iter().map(|b| vec![0; b.lens.len()])).collect();
            for k in &s.kept {
                for &(b, e) in &k.1.syms {
                    freqs[b as usize][e as usize] += 1;
                }
            }
            let mut ident = s.ident;
            ident.framing = 1;
            ident.trailing = vec![];
            ExpStream {
                ident,
                comments: s.comments,
                dec: s.dec,
                pkts: s
                    .kept
                    .into_iter()
                    .zip(gs)
                    .map(|((data, audio, _, _), granule)| ExpPkt { data, audio, granule })
                    .collect(),
                freqs,
                interleaved,
            }
        })
        .collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tag {
    /// Panic
    Panic,
    /// Valid input was rejected
    Rejected,
    /// Invalid input was accepted, or the error is of the wrong kind
    Accepted,
    /// Something reached the sink although the operation failed during analysis
    Dirty,
    Pages,
    Streams,
    Serial,
    Ident,
    Comment,
    Setup,
    Strict,
    Huff,
    Packets,
    Padding,
    Audio,
    Trunc,
    Granule,
}

pub type Issues = Vec<(Tag, String)>;

/// Length in bits of the optimal prefix code for the (nonzero) frequencies, and the length of the
/// longest codeword of the shallowest such code
pub fn huffman_cost(f: &[u64]) -> (u128, u32) {
    use std::cmp::Reverse;
    let mut h: std::collections::BinaryHeap<Reverse<(u128, u32)>> =
        f.iter().filter(|&&x| x > 0).map(|&x| Reverse((x as u128, 0))).collect();
    if h.len() == 1 {
        return (h.pop().unwrap().0 .0, 1);
    }
    let (mut cost, mut depth) = (0, 0);
    while h.len() > 1 {
        let (a, b) = (h.pop().unwrap().0, h.pop().unwrap().0);
        cost += a.0 + b.0;
        depth = a.1.max(b.1) + 1;
        h.push(Reverse((a.0 + b.0, depth)));
    }
    (cost, depth)
}

/// Length in bits of the optimal prefix code for the frequencies whose codewords have `max` bits
/// at most (package-merge: the cost is the weight of the 2n - 2 lightest items of the last list)
pub fn limited_cost(f: &[u64], max: u32) -> u128 {
    let mut leaves: Vec<u128> = f.iter().filter(|&&x| x > 0).map(|&x| x as u128).collect();
    leaves.sort_unstable();
    let mut list = leaves.clone();
    for _ in 1..max {
        let mut next: Vec<u128> = list.chunks_exact(2).map(|p| p[0] + p[1]).chain(leaves.iter().copied()).collect();
        next.sort_unstable();
        list = next;
    }
    list.iter().take(2 * leaves.len() - 2).sum()
}

/// Compares outcome of the code under test with the expectation
pub fn oracle(exp: &Result<Vec<ExpStream>, Rej>, got: &Out, o: &Opts) -> Issues {
    let mut is: Issues = vec![];
    match (exp, got) {
        (_, Out::Panic(m)) => is.push((Tag::Panic, format!("panic: {m}"))),
        (Ok(_), Out::Err(k, m, _)) => is.push((Tag::Rejected, format!("rejected with {k} error: {m}"))),
        (Err(r), Out::Ok(b)) => {
            is.push((Tag::Accepted, format!("accepted ({} bytes written), expected {r:?}", b.len())))
        }
        (Err(r), Out::Err(k, m, n)) => {
            if r.kind() != *k {
                is.push((Tag::Accepted, format!("failed with {k} error ({m}), expected {r:?}")));
            }
            if *n > 0 {
                is.push((Tag::Dirty, format!("{n} bytes were written before failing with {m}")));
            }
        }
        (Ok(exp), Out::Ok(out)) => compare(exp, out, o, &mut is),
    }
    is
}

pub fn compare(exp: &[ExpStream], out: &[u8], o: &Opts, is: &mut Issues) {
    let pages = match parse_pages(out, true) {
        Ok(p) => p,
        Err(e) => return is.push((Tag::Pages, e)),
    };
    let pkts = match packets(&pages) {
        Ok(p) => p,
        Err(e) => return is.push((Tag::Pages, e)),
    };
    // Logical streams have to be contiguous
    let interleaved = exp.iter().any(|e| e.interleaved);
    let mut serials: Vec<u32> = vec![];
    for p in &pages {
        if serials.last() != Some(&p.serial) {
            if serials.contains(&p.serial) {
                // Packets that come after the end of their stream stay where they were
                if interleaved {
                    continue;
                }
                is.push((Tag::Streams, format!("pages of stream {:#x} are not contiguous", p.serial)));
            }
            serials.push(p.serial);
        }
    }
    if serials.len() != exp.len() {
        is.push((Tag::Streams, format!("{} streams written, expected {}", serials.len(), exp.len())));
        return;
    }
    for (i, (s, e)) in serials.iter().zip(exp).enumerate() {
        if !o.randomize && *s != o.offset.wrapping_add(i as u32) {
            is.push((Tag::Serial, format!("stream {i} has serial {s:#x}")));
        }
        let sp: Vec<&Page> = pages.iter().filter(|p| p.serial == *s).collect();
        let sk: Vec<&Pkt> = pkts.iter().filter(|p| p.serial == *s).collect();
        let n0 = is.len();
        check_pages(&sp, &sk, is);
        compare_stream(e, &sk, is);
        for x in &mut is[n0..] {
            x.1 = format!("stream {i}: {}", x.1);
        }
    }
}

/// Page level rules for one output logical stream
pub fn check_pages(pages: &[&Page], pkts: &[&Pkt], is: &mut Issues) {
    let mut add = |m: String| is.push((Tag::Pages, m));
    // Packets completed up to and including every page
    let mut done = 0;
    for (i, p) in pages.iter().enumerate() {
        let last = i + 1 == pages.len();
        if p.seq != i as u32 {
            add(format!("page {i} has sequence number {}", p.seq));
        }
        if (p.flags & BOS != 0) != (i == 0) {
            add(format!("page {i} of {} has wrong BOS flag", pages.len()));
        }
        if (p.flags & EOS != 0) != last {
            add(format!("page {i} of {} has wrong EOS flag", pages.len()));
        }
        if p.flags & !7 != 0 {
            add(format!("page {i} has unknown flags {:#x}", p.flags));
        }
        if p.lacing.is_empty() {
            add(format!("page {i} is empty"));
        }
        let n = p.lacing.iter().filter(|&&l| l < 255).count();
        let before = done;
        done += n;
        if n == 0 && p.granule != -1 {
            add(format!("page {i} completes no packet but has granule {}", p.granule));
        }
        if i == 0 && (n != 1 || p.lacing.last() == Some(&255)) {
            add("the first page does not hold the identification header only".into());
        }
        if before < 3 && done >= 3 && (done > 3 || p.lacing.last() == Some(&255)) {
            add(format!("page {i} holds audio data along with headers"));
        }
        if n > 0 && done <= 3 && p.granule != 0 {
            add(format!("header page {i} has granule {}", p.granule));
        }
        let may_be_short = i == 0 || last || done == 3 && before < 3;
        if !may_be_short && p.lacing.len() != 255 {
            add(format!("page {i} of {} is ended early, with {} segments", pages.len(), p.lacing.len()));
        }
        if p.lacing.len() > 255 {
            add("too many segments".into());
        }
    }
    if done != pkts.len() {
        add("packet count".into());
    }
}

pub fn compare_stream(e: &ExpStream, pkts: &[&Pkt], is: &mut Issues) {
    if pkts.len() != e.packet_count() {
        is.push((Tag::Packets, format!("{} packets written, expected {}", pkts.len(), e.packet_count())));
    }
    let Some(p) = pkts.first() else { return };
    if p.data != e.ident.encode() {
        is.push((Tag::Ident, format!("identification header is {:02x?}, expected {:02x?}", p.data, e.ident.encode())));
    }
    let (Some(c), Some(p)) = (&e.comments, pkts.get(1)) else { return };
    if p.data != c.encode() {
        is.push((Tag::Comment, format!("comment header is {:?}, expected {:?}", show(&p.data), show(&c.encode()))));
    }
    let (Some(d), Some(p)) = (&e.dec, pkts.get(2)) else { return };
    let (setup, nonconforming) = match Setup::parse(&p.data, e.ident.channels) {
        Ok(s) => s,
        Err(x) => return undecodable(e, format!("setup header can't be parsed: {x:?}"), is),
    };
    for m in nonconforming {
        is.push((Tag::Strict, format!("setup header does not conform: {m}")));
    }
    if setup.semantic() != d.setup.semantic() {
        is.push((Tag::Setup, setup_diff(&setup.semantic(), &d.setup.semantic())));
    }
    let od = match Dec::new(e.ident.clone(), setup.clone()) {
        Ok(d) => d,
        Err(m) => return undecodable(e, format!("setup header has a bad codebook: {m}"), is),
    };
    for (i, b) in setup.books.iter().enumerate() {
        let Some(f) = e.freqs.get(i).filter(|f| f.len() == b.lens.len()) else { continue };
        check_lengths(i, f, &b.lens, is);
    }
    // Match packets. When the count is wrong the first difference is what matters.
    for (i, x) in e.pkts.iter().enumerate() {
        let Some(p) = pkts.get(3 + i) else { break };
        let cut = x.audio.end != End::Complete;
        let tag = if cut { Tag::Trunc } else { Tag::Audio };
        // Every value that could be read from a truncated packet was written and nothing else, but
        // bits that complete the last byte may be decoded as well
        let pad = if cut && d.transcode(&x.data, &od).as_ref() == Some(&p.data) { "[zero padding decoded] " } else { "" };
        match od.decode(&p.data) {
            Err(m) => is.push((tag, format!("audio packet {i}: {pad}can't be decoded: {m}"))),
            Ok(None) => is.push((tag, format!("audio packet {i} is empty or cut short"))),
            Ok(Some(a)) => {
                if let Some(m) = audio_diff(&x.audio, &a) {
                    is.push((tag, format!("audio packet {i}: {pad}{m}")));
                } else if !cut {
                    let spare = p.data.len() * 8 - a.bits;
                    if spare >= 8 {
                        is.push((Tag::Padding, format!("audio packet {i} has {spare} unused bits at its end")));
                    }
                    let mut r = BR::new(&p.data);
                    r.pos = a.bits;
                    if (0..spare).any(|_| r.bit() == Some(true)) {
                        is.push((Tag::Padding, format!("audio packet {i} has nonzero padding")));
                    }
                }
            }
        }
        let ends_page = p.last_in_page;
        if ends_page && p.granule != x.granule {
            is.push((
                Tag::Granule,
                format!("page ending with audio packet {i} of {} has granule {}, expected {}", e.pkts.len(), p.granule, x.granule),
            ));
        }
    }
}

/// No decoder can be built from the setup header written: its codewords and the audio are lost too
fn undecodable(e: &ExpStream, why: String, is: &mut Issues) {
    is.push((Tag::Setup, why.clone()));
    is.push((Tag::Huff, why.clone()));
    if e.pkts.iter().any(|x| x.audio.end == End::Complete) {
        is.push((Tag::Audio, why));
    }
}

fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(120).flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
    format!("{s} ({} bytes)", b.len())
}

pub fn setup_diff(got: &Setup, want: &Setup) -> String {
    let f = |n: &str, a: String, b: String| (a != b).then(|| format!("{n} changed: {a} instead of {b}"));
    let mut v = vec![];
    v.extend(f("codebook count", got.books.len().to_string(), want.books.len().to_string()));
    for (i, (a, b)) in got.books.iter().zip(&want.books).enumerate() {
        if a != b {
            let c = |x: &Codebook| {
                format!(
                    "dims {} entries {} lookup {} min {:#x} delta {:#x} bits {} seq {} mult {:?}",
                    x.dims,
                    x.lens.len(),
                    x.lookup,
                    x.min,
                    x.delta,
                    x.value_bits,
                    x.seq,
                    &x.mult[..x.mult.len().min(12)]
                )
            };
            v.push(format!("codebook {i} changed: {} instead of {}", c(a), c(b)));
        }
    }
    v.extend(f("floors", format!("{:?}", got.floors), format!("{:?}", want.floors)));
    v.extend(f("residues", format!("{:?}", got.residues), format!("{:?}", want.residues)));
    v.extend(f("mappings", format!("{:?}", got.mappings), format!("{:?}", want.mappings)));
    v.extend(f("modes", format!("{:?}", got.modes), format!("{:?}", want.modes)));
    v.extend(f("times", format!("{:?}", got.times), format!("{:?}", want.times)));
    let mut s = v.join("; ");
    if s.len() > 1500 {
        s.truncate(s.char_indices().take(1500).last().map_or(0, |x| x.0));
    }
    s
}

pub fn check_lengths(book: usize, f: &[u64], lens: &[u8], is: &mut Issues) {
    let mut add = |m: String| is.push((Tag::Huff, format!("codebook {book}: {m}")));
    let used = f.iter().filter(|&&x| x > 0).count();
    let mut cost = 0u128;
    for (e, (&n, &l)) in f.iter().zip(lens).enumerate() {
        if n > 0 && l == 0 {
            return add(format!("entry {e}, used {n} times, has no codeword"));
        }
        if n == 0 && l > 0 {
            return add(format!("entry {e} is never used, but it has a codeword"));
        }
        cost += n as u128 * l as u128;
    }
    if used == 1 && cost != f.iter().sum::<u64>() as u128 {
        return add("the only used entry does not have a codeword length of one bit".into());
    }
    if used > 1 && kraft(lens) != KRAFT_ONE {
        return add("codewords are not complete".into());
    }
    let (best, depth) = huffman_cost(f);
    // Vorbis codewords are at most 32 bits long
    let best = if depth <= 32 { best } else { limited_cost(f, 32) };
    if cost != best {
        add(format!("codewords take {cost} bits, and the optimum is {best} (uses {f:?}, lengths {lens:?})"));
    }
}

pub fn audio_diff(want: &Audio, got: &Audio) -> Option<String> {
    let f = |n: &str, a: String, b: String| Some(format!("{n} is {a} instead of {b}"));
    if want.mode != got.mode {
        return f("mode", got.mode.to_string(), want.mode.to_string());
    }
    if (want.prev, want.next) != (got.prev, got.next) {
        return f("window shape", format!("{:?}", (got.prev, got.next)), format!("{:?}", (want.prev, want.next)));
    }
    if want.bs != got.bs {
        return f("block size", got.bs.to_string(), want.bs.to_string());
    }
    if want.end != End::Floor || got.end != End::Floor {
        if (want.end == End::Floor) != (got.end == End::Floor) {
            return f("decode end", format!("{:?}", got.end), format!("{:?}", want.end));
        }
        if want.end == End::Complete && got.end != End::Complete {
            return f("decode end", format!("{:?}", got.end), format!("{:?}", want.end));
        }
        for (c, (a, b)) in got.floors.iter().zip(&want.floors).enumerate() {
            if a != b {
                return f(&format!("floor of channel {c}"), format!("{a:?}"), format!("{b:?}"));
            }
        }
        for (c, (a, b)) in got.residues.iter().zip(&want.residues).enumerate() {
            let z = vec![];
            // A vector that is not decoded is a vector of zeroes
            let a = if a.iter().all(|x| *x == 0.0) { &z } else { a };
            let b = if b.iter().all(|x| *x == 0.0) { &z } else { b };
            if a != b {
                let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
                return f(&format!("residue of channel {c} (first at {i})"), format!("{:?}", a.get(i)), format!("{:?}", b.get(i)));
            }
        }
    }
    None
}

/// Output packets grouped by stream, in order
pub fn split_streams(out: &[u8]) -> Result<Vec<(u32, Vec<Pkt>)>, String> {
    let pages = parse_pages(out, true)?;
    let mut v: Vec<(u32, Vec<Pkt>)> = vec![];
    for p in oggio::packets(&pages)? {
        match v.iter_mut().find(|x| x.0 == p.serial) {
            Some(x) => x.1.push(p),
            None => v.push((p.serial, vec![p])),
        }
    }
    Ok(v)
}
