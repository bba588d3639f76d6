//! Spaces that start from whole files and mutate them at the packet level, so that the reference
//! model still tells what has to happen.

use crate::dec::*;
use crate::explore::Chooser;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::spaces::*;
use crate::vorbis::*;
use std::sync::OnceLock;

pub const FILES: [&str; 10] = [
    "8khz_500ms_mono_400hz_sine_wave",
    "8khz_2x500ms_mono_400hz_sine_wave_chained",
    "44100hz_500ms_stereo_uncoupled_400hz_sine_wave",
    "44100hz_500ms_stereo_400hz_sine_wave_aotuv",
    "44100hz_500ms_stereo_400hz_sine_wave_skeleton",
    "44100hz_500ms_6ch_sine_waves",
    "8khz_500ms_mono_400hz_sine_wave_comments",
    "44100hz_500ms_mono_440hz_sine_wave_ogg_opus",
    "crc_mismatch_8khz_500ms_mono_400hz_sine_wave",
    "zero_bytes_last_audio_packet",
];

pub fn file_path(i: usize) -> String {
    format!("/repo/packages/optivorbis/resources/test/{}.ogg", FILES[i])
}

pub fn file(i: usize) -> &'static [u8] {
    static F: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    &F.get_or_init(|| (0..FILES.len()).map(|i| std::fs::read(file_path(i)).expect("test resource")).collect())[i]
}

/// Pages of a file with other serials
fn reserial(pages: &mut [Page], x: u32) {
    for p in pages {
        p.serial ^= x;
    }
}

pub fn files_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let i = ch.all(FILES.len());
    let mut opts = Opts::default();
    opts.vendor = ch.of(&VENDORS);
    opts.delete_fields = ch.flag();
    opts.ignore_start = ch.flag();
    opts.verify_crc = !ch.flag();
    opts.error_no_vorbis = !ch.flag();
    opts.offset = ch.of(&[7, 0, u32::MAX]);
    let mut note = FILES[i].to_string();
    let big = i == 9;
    let k = ch.pick(7);
    if k == 0 {
        return Some(Case { input: file(i).to_vec(), opts, note });
    }
    let mut pages = parse_pages(file(i), false).ok()?;
    match k {
        // Another file before or after it
        1 => {
            let j = ch.all(if thorough { FILES.len() } else { 8 });
            let mut o = parse_pages(file(j), false).ok()?;
            reserial(&mut o, 0x55);
            note += &format!(" + {}", FILES[j]);
            if ch.all(2) == 1 {
                std::mem::swap(&mut o, &mut pages);
            }
            pages.extend(o);
        }
        // No EOS
        2 => {
            for p in &mut pages {
                p.flags &= !EOS;
            }
            note += " without EOS";
        }
        // Streams whose beginning was lost, but not their headers
        3 if !big => {
            let first_audio = pages.iter().position(|p| p.granule > 0 && p.flags & BOS == 0)?;
            let n = ch.all(4) + 1;
            let mut cut = 0;
            let j = first_audio;
            while cut < n {
                if j + 1 >= pages.len() || pages[j].serial != pages[first_audio].serial {
                    return None;
                }
                pages.remove(j);
                cut += 1;
            }
            if pages[j].flags & CONT != 0 {
                return None;
            }
            note += &format!(" without {n} pages");
        }
        // Other page layouts
        4 if !big => {
            let segs = ch.each(&[1usize, 2, 3, 17, 255]);
            pages = relayout(&pages, |_, _| true, segs)?;
            note += &format!(" with {segs} segments per page");
        }
        // Padded packets
        5 if !big => {
            let n = ch.each(&[1usize, 255, 300]);
            let b = ch.each(&[0u8, 0xff]);
            pages = relayout(
                &pages,
                |_, d| {
                    if d.first().map_or(false, |x| x & 1 == 0) {
                        d.extend(vec![b; n]);
                    }
                    true
                },
                255,
            )?;
            note += &format!(" padded with {n} bytes {b:#x}");
        }
        // Packets lost one at a time
        6 if !big => {
            let n = packets(&pages).ok()?.len();
            let lost = ch.all(n.min(60));
            pages = relayout(&pages, |i, _| i != lost, 255)?;
            note += &format!(" without packet {lost}");
        }
        _ => return None,
    }
    Some(Case { input: write_pages(&pages), opts, note })
}

/// Rewrites the packets of a physical stream of contiguous logical streams, keeping page ends
fn relayout(pages: &[Page], mut f: impl FnMut(usize, &mut Vec<u8>) -> bool, max_segs: usize) -> Option<Vec<Page>> {
    let pk = packets(pages).ok()?;
    let mut out = vec![];
    let mut i = 0;
    let mut n = 0;
    while i < pk.len() {
        let serial = pk[i].serial;
        let mut v = vec![];
        while i < pk.len() && pk[i].serial == serial {
            let mut d = pk[i].data.clone();
            if f(n, &mut d) {
                v.push((d, pk[i].granule, pk[i].last_in_page));
            } else if pk[i].last_in_page && v.len() > 1 {
                let g = pk[i].granule;
                let l: &mut (Vec<u8>, i64, bool) = v.last_mut().unwrap();
                l.1 = g;
                l.2 = true;
            }
            n += 1;
            i += 1;
        }
        if v.is_empty() {
            return None;
        }
        let bos = pages.iter().find(|p| p.serial == serial)?.flags & BOS != 0;
        // Interleaved streams can't be told from contiguous ones this way
        if out.iter().any(|p: &Page| p.serial == serial) {
            return None;
        }
        out.extend(paginate(&Paginate { serial, max_segs, bos, eos: true, first_seq: 0 }, &v));
    }
    Some(out)
}

/// Small valid streams used as the base of mutations
pub fn bases() -> &'static [StreamB] {
    static B: OnceLock<Vec<StreamB>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v = vec![];
        // 0: feature rich, two channels
        let id = ident(2, 6, 8);
        let st = rich_setup(2);
        let mut s = StreamB::new(5, &id, &st);
        assert!(add_audio(&mut s, &id, &st, &SCRIPT[..4]));
        v.push(s);
        // 1: as small as possible
        let id = ident(1, 6, 7);
        let st = tiny_setup(&[1, 2, 2]);
        let mut s = StreamB::new(5, &id, &st);
        assert!(add_audio(&mut s, &id, &st, &SCRIPT[..3]));
        v.push(s);
        // 2: three modes, sparse and ordered codebooks, several floors, submaps
        let id = ident(3, 6, 7);
        let mut st = rich_setup(3);
        st.books[0] = Codebook::scalar(&[1, 0, 2, 2]).with_dims(2);
        st.books[0].fmt = LenFmt::Sparse;
        st.books[2] = Codebook::scalar(&[1, 2, 3, 3]);
        st.books[2].fmt = LenFmt::Ordered;
        st.books[4].lens = vec![0, 1, 0, 2, 2];
        st.books[4].fmt = LenFmt::Sparse;
        st.books[4] = st.books[4].clone().vq(1, 3);
        st.floors.push(Floor { mult: 4, ..st.floors[0].clone() });
        st.residues.push(Residue { ty: 2, end: 40, ..st.residues[0].clone() });
        st.mappings[0].submaps.push(Submap { time: 0, floor: 1, residue: 1 });
        st.mappings[0].mux = vec![0, 1, 0];
        st.modes.push(Mode { big: true, ..st.modes[0].clone() });
        let mut s = StreamB::new(5, &id, &st);
        assert!(add_audio(&mut s, &id, &st, &[(0, false, false, Pat::Mix), (2, true, false, Pat::Mix), (1, false, true, Pat::Partial(6))]));
        s.audio[0].brk = true;
        v.push(s);
        v
    })
}

fn packet_of(s: &mut StreamB, i: usize) -> &mut Vec<u8> {
    match i {
        0 => &mut s.ident,
        1 => &mut s.comment,
        2 => &mut s.setup,
        _ => &mut s.audio[i - 3].data,
    }
}

/// Every single bit of every packet flipped, and (thorough) every pair of bits of a packet
pub fn flips_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let b = ch.all(bases().len());
    let mut s = bases()[b].clone();
    let pi = ch.all(3 + s.audio.len());
    let p = packet_of(&mut s, pi);
    let bit = ch.all(p.len() * 8);
    p[bit / 8] ^= 1 << (bit % 8);
    let mut note = format!("base {b}, packet {pi}, bit {bit}");
    if thorough && ch.all(2) == 1 {
        let other = ch.all(p.len() * 8);
        if other <= bit {
            return None;
        }
        p[other / 8] ^= 1 << (other % 8);
        note += &format!(" and {other}");
    }
    let mut opts = Opts::default();
    opts.vendor = Vendor::Copy;
    Some(Case { input: s.bytes(), opts, note })
}

/// Bytes of packets overwritten, inserted and removed; (thorough) pairs of such edits in headers
pub fn edits_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let b = ch.all(bases().len());
    let mut s = bases()[b].clone();
    let pi = ch.all(3 + s.audio.len());
    let mut note = format!("base {b}, packet {pi}");
    let p = packet_of(&mut s, pi);
    let n = if thorough && b == 1 { ch.all(2) + 1 } else { 1 };
    let mut from = 0;
    for _ in 0..n {
        if from >= p.len() {
            return None;
        }
        let at = from + ch.all(p.len() - from);
        let k = ch.all(4);
        match k {
            0 => {
                p.remove(at);
            }
            1 => p.insert(at, ch.each(&[0, 0xff])),
            2 => p[at] = if n == 1 { ch.all(256) as u8 } else { ch.each(&[0, 1, 0x7f, 0x80, 0xff]) },
            _ => p.truncate(at),
        }
        note += &format!(", edit {k} at {at}");
        from = at + 1;
    }
    let mut opts = Opts::default();
    opts.vendor = Vendor::Copy;
    Some(Case { input: s.bytes(), opts, note })
}

/// Every audio packet of up to two bytes between two normal ones; (thorough) every one of three
/// bytes, in groups
pub fn short_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let which = ch.all(3);
    let (id, st) = match which {
        0 => (ident(1, 6, 7), tiny_setup(&[1, 2, 2])),
        1 => (ident(1, 6, 8), rich_setup(1)),
        _ => {
            let mut st = rich_setup(2);
            st.modes = (0..37).map(|i| Mode { big: i % 2 == 1, ..st.modes[0].clone() }).collect();
            (ident(2, 7, 7), st)
        }
    };
    let mut s = StreamB::new(5, &id, &st);
    add_audio(&mut s, &id, &st, &SCRIPT[..1]);
    let bs = 1 << id.bs0;
    let len = ch.all(if thorough { 4 } else { 3 });
    let a = ch.all(if len > 0 { 256 } else { 1 }) as u8;
    let b = ch.all(if len > 1 { 256 } else { 1 }) as u8;
    match len {
        0 => {
            s.push(vec![], bs);
        }
        1 => {
            s.push(vec![a], bs);
        }
        2 => {
            s.push(vec![a, b], bs);
        }
        _ => {
            // Such packets make the whole stream invalid and hide what follows
            let d = Dec::new(id.clone(), st.clone()).ok()?;
            for c in 0..=255 {
                let p = vec![a, b, c];
                if d.decode(&p).is_ok() {
                    s.push(p, bs);
                }
            }
        }
    }
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let (data, x) = packet(&d, 1, true, false, Pat::Mix, 3);
    s.push(data, x.ok()?.bs);
    s.push(vec![], 0);
    finish2(&s, format!("setup {which}, packet of {len} bytes {a:#04x} {b:#04x}"))
}

fn finish2(s: &StreamB, note: String) -> Option<Case> {
    Some(Case { input: s.bytes(), opts: Opts::default(), note })
}

/// Numbers of things around powers of two, up to the most that the format allows
pub fn counts_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    const AROUND: [usize; 4] = [65535, 65536, 65537, 65540];
    let id = ident(1, 6, 7);
    match ch.all(11) {
        0 => {
            // Audio packets
            let n = ch.each(&AROUND) - 3;
            let st = tiny_setup(&[1, 1]);
            let d = Dec::new(id.clone(), st.clone()).ok()?;
            let mut s = StreamB::new(5, &id, &st);
            s.start = ch.each(&[0, 9]);
            for i in 0..n {
                let (data, a) = packet(&d, (i % 3 == 1) as u64, false, false, Pat::Silent, 0);
                s.push(data, a.ok()?.bs);
            }
            s.eos = ch.all(2) == 0;
            let opts = Opts { ignore_start: ch.all(2) == 1, ..Opts::default() };
            Some(Case { input: s.bytes(), opts, note: format!("{n} audio packets") })
        }
        1 => {
            // Comments
            let n = ch.each(&AROUND);
            let st = tiny_setup(&[1, 1]);
            let mut s = StreamB::new(5, &id, &st);
            add_audio(&mut s, &id, &st, &SCRIPT[..2]);
            let long = ch.all(2) == 1;
            s.comment = Comments { vendor: b"v".to_vec(), fields: (0..n).map(|i| if long { format!("K={i}").into_bytes() } else { vec![] }).collect() }.encode();
            let opts = Opts { delete_fields: ch.all(2) == 1, ..Opts::default() };
            Some(Case { input: s.bytes(), opts, note: format!("{n} comments") })
        }
        2 => {
            // Links
            let n = ch.each(if thorough { &[255usize, 256, 257, 300, 4097][..] } else { &[255, 256, 257][..] });
            let foreign = ch.all(2) == 1;
            let mut pages = vec![];
            for l in 0..n {
                if foreign && l + 1 < n {
                    pages.extend(paginate(
                        &Paginate { serial: 1000 + l as u32, max_segs: 255, bos: true, eos: true, first_seq: 0 },
                        &[(b"OpusHead".to_vec(), 0, true), (vec![7; 30], 0, true)],
                    ));
                    continue;
                }
                let st = tiny_setup(&[1, 1]);
                let mut s = StreamB::new(1000 + l as u32, &id, &st);
                add_audio(&mut s, &id, &st, &SCRIPT[..1 + l % 2]);
                pages.extend(s.pages());
            }
            let opts = Opts { offset: ch.each(&[7, u32::MAX - 255]), ..Opts::default() };
            Some(Case { input: write_pages(&pages), opts, note: format!("{n} links, foreign: {foreign}") })
        }
        3 => {
            // Entries
            let at = ch.each(if thorough { &[32767usize, 32768, 65535, 65536, 131071, 131072, 262143, 1 << 20, (1 << 22) + 1][..] } else { &[32768, 65535, 65536, 131072, 262143][..] });
            let (before, after) = (ch.all(2), ch.each(&[0, 1, 70_000]));
            let vq = ch.all(2) == 1;
            // A few used entries around one, and entry 0
            let mut lens = vec![0u8; at + 1 + after];
            let mut used = vec![0, at];
            if before == 1 {
                used.push(at - 1);
            }
            if after > 0 {
                used.push(at + after);
            }
            used.sort();
            for (i, &u) in used.iter().enumerate() {
                lens[u] = if i + 1 == used.len() { i as u8 } else { i as u8 + 1 };
            }
            let mut b = Codebook::scalar(&lens);
            b.fmt = LenFmt::Sparse;
            let mut st = tiny_setup(&[1, 1]);
            if vq {
                // As many values as entries
                b = b.vq(1, 16);
                b.fmt = LenFmt::Sparse;
                st.books[1] = b;
            } else {
                // A class book, with as many class words as fit
                let cl = 2u64;
                let mut dims = 1u16;
                while cl.pow(dims as u32 + 1) <= lens.len() as u64 {
                    dims += 1;
                }
                st.books[0] = b.with_dims(dims);
                let c = st.residues[0].books[1];
                st.residues[0].books = vec![[None; 8], c];
            }
            let mut s = StreamB::new(5, &id, &st);
            add_audio(&mut s, &id, &st, &SCRIPT[..3]);
            finish(&s, format!("{} entries, vq {vq}, used {used:?}", lens.len()))
        }
        4 => {
            // Lookup values, and dimensions
            let (entries, dims) = ch.each(&[(2usize, 32767u16), (2, 32768), (2, 32769), (1, 65535), (3, 65535), (257, 255), (256, 256), (255, 257), (65536, 1), (65537, 1), (4096, 16)]);
            let bits = ch.each(&[1u8, 16]);
            let lookup = ch.each(&[1u8, 2]);
            let mut lens = vec![0u8; entries];
            for (i, l) in lens.iter_mut().enumerate() {
                *l = (i == 0 || i + 1 == entries) as u8;
            }
            let mut b = Codebook::scalar(&lens).with_dims(dims).vq(lookup, bits);
            b.fmt = LenFmt::Sparse;
            let mut st = tiny_setup(&[1, 1]);
            st.residues[0].psize = dims as u32;
            st.books[1] = b;
            let id = ident(1, 6, 13);
            let mut s = StreamB::new(5, &id, &st);
            add_audio(&mut s, &id, &st, &SCRIPT[..3]);
            finish(&s, format!("{entries} entries of {dims} dimensions, lookup type {lookup}"))
        }
        5 => {
            // The last of as many as there may be of each thing
            let mut st = tiny_setup(&[1, 1]);
            let n = ch.each(&[256usize, 128, 129, 255]);
            let (b0, b1) = (st.books[0].clone(), st.books[1].clone());
            for i in 2..n {
                st.books.push(if i % 2 == 0 { b0.clone() } else { b1.clone() });
            }
            let (cls, vq) = if n % 2 == 0 { (n - 2, n - 1) } else { (n - 1, n - 2) };
            st.residues[0].classbook = cls as u8;
            st.residues[0].books[1][0] = Some(vq as u8);
            // Subclass books are stored plus one
            let sub = (n - 2).min(254) as i16;
            st.floors[0].parts = vec![0];
            st.floors[0].classes = vec![FClass { dim: 1, sub: 1, master: (n - 1) as u8, books: vec![sub, -1] }];
            st.floors[0].xs = vec![7];
            let what = ch.all(5);
            let many = ch.each(&[64usize, 63, 33, 32]);
            match what {
                1 => {
                    for i in 1..many {
                        let mut f = st.floors[0].clone();
                        f.mult = 1 + (i % 4) as u8;
                        st.floors.push(f);
                    }
                    st.mappings[0].submaps[0].floor = many as u8 - 1;
                }
                2 => {
                    for i in 1..many {
                        let mut r = st.residues[0].clone();
                        r.ty = (i % 3) as u16;
                        r.end = 1 + i as u32;
                        st.residues.push(r);
                    }
                    st.mappings[0].submaps[0].residue = many as u8 - 1;
                }
                3 => {
                    for i in 1..many {
                        let mut m = st.mappings[0].clone();
                        m.long_submaps = i % 2 == 0;
                        st.mappings.push(m);
                    }
                    st.modes.iter_mut().for_each(|m| m.mapping = many as u8 - 1);
                }
                4 => {
                    st.times = vec![0; many];
                    for _ in 2..many {
                        st.modes.push(st.modes[1].clone());
                    }
                }
                _ => (),
            }
            let mut s = StreamB::new(5, &id, &st);
            let last = st.modes.len() as u64 - 1;
            add_audio(&mut s, &id, &st, &[(0, false, true, Pat::Mix), (1, true, false, Pat::Max), (last, true, true, Pat::Mix)]);
            finish(&s, format!("{n} codebooks, {many} of {what}"))
        }
        6 => {
            // Submaps and coupling steps
            let n = ch.each(&[16usize, 15, 9, 8]);
            let channels = ch.each(&[255u8, 16, 128]);
            let steps = ch.each(&[256usize, 255, 128, 1]);
            let mut st = rich_setup(channels);
            let m = &mut st.mappings[0];
            for i in 1..n {
                let mut f = st.floors[0].clone();
                f.mult = 1 + (i % 4) as u8;
                st.floors.push(f);
                let mut r = st.residues[0].clone();
                r.ty = (i % 3) as u16;
                st.residues.push(r);
                m.submaps.push(Submap { time: 0, floor: i as u8, residue: i as u8 });
            }
            m.mux = (0..channels).map(|c| ((c as usize * 7) % n) as u8).collect();
            m.coupling = (0..steps).map(|i| ((i % channels as usize) as u8, ((i * 3 + 1) % channels as usize) as u8)).filter(|(a, b)| a != b).collect();
            let id = ident(channels, 6, 7);
            let mut s = StreamB::new(5, &id, &st);
            add_audio(&mut s, &id, &st, &[(0, false, true, Pat::Mix), (1, true, false, Pat::Partial(0x11)), (1, true, true, Pat::Partial(0x80))]);
            finish(&s, format!("{n} submaps, {channels} channels, {steps} coupling steps"))
        }
        7 => {
            // Vectors: channels times block size
            let channels = ch.each(&[15u8, 16, 17, 32, 33, 64, 255]);
            let (bs0, bs1) = ch.each(&[(13u8, 13u8), (6, 12), (6, 13)]);
            let mut st = rich_setup(channels);
            let r = &mut st.residues[0];
            r.ty = ch.each(&[2, 1, 0]);
            r.end = 0xff_ffff;
            r.psize = ch.each(&[4096u32, 60, 128]);
            r.books[0] = [None; 8];
            r.books[1] = [None; 8];
            r.books[1][1] = Some(4);
            let id = ident(channels, bs0, bs1);
            let mut s = StreamB::new(5, &id, &st);
            add_audio(&mut s, &id, &st, &[(1, false, true, Pat::Partial(0x91)), (0, true, false, Pat::Partial(1))]);
            finish(&s, format!("{channels} channels, block sizes {bs0} {bs1}"))
        }
        8 => {
            // Entries of the book of a floor class, which choose several books each
            let bits = ch.each(if thorough { &[16u32, 17, 18, 20, 22][..] } else { &[17u32, 18][..] });
            let sub = ch.each(&[3u8, 2, 1]);
            let mut st = tiny_setup(&[1, 1]);
            st.books.push(Codebook::scalar(&vec![bits as u8; 1 << bits]));
            st.books.push(Codebook::scalar(&[1, 2, 3, 3]));
            let books = (0..1 << sub).map(|i: i16| [0, 3, -1, 0, -1, 3, 0, -1][(i + sub as i16) as usize % 8]).collect();
            st.floors[0].classes = vec![FClass { dim: 8, sub, master: 2, books }];
            st.floors[0].parts = vec![0];
            st.floors[0].xs = (1..9).collect();
            let top = 1u64 << (bits - 1);
            let values = [top, 0xffff, 0x10000, top | 1, 2 * top - 1, 0x12345, 0, top | 0x0f0f, top | 0x5555];
            let d = Dec::new(id.clone(), st.clone()).ok()?;
            let mut s = StreamB::new(5, &id, &st);
            for (i, v) in values.iter().enumerate() {
                let mut j = 0;
                let (w, a) = d.generate(|k, n| match k {
                    K::Mode => i as u64 % 2 % n,
                    K::Nonzero(_) => 1,
                    K::Master(_) => v % n,
                    K::Sub(_) => {
                        j += 1;
                        (i as u64 + j) % n
                    }
                    _ => 0,
                });
                s.push(w.bytes, a.ok()?.bs);
            }
            finish(&s, format!("class book of {bits} bits, {sub} bits of each"))
        }
        9 => {
            // Entries of class books, all used
            let (classes, dims) = ch.each(if thorough { &[(2u64, 17u16), (2, 18), (3, 11), (4, 9), (5, 7), (7, 6), (16, 4), (64, 3), (2, 20), (64, 2)][..] } else { &[(2u64, 17u16), (3, 11), (4, 9), (64, 3)][..] });
            let n = classes.pow(dims as u32);
            let bits = u64::BITS - (n - 1).leading_zeros();
            // As short as complete
            let short = (1u64 << bits) - n;
            let lens: Vec<u8> = (0..n).map(|i| (bits - (i < short) as u32) as u8).collect();
            let mut st = tiny_setup(&[1, 1]);
            st.books[0] = Codebook::scalar(&lens).with_dims(dims);
            let c = st.residues[0].books[1];
            st.residues[0].ty = ch.each(&[0, 2]);
            st.residues[0].books = (0..classes).map(|i| if i % 3 == 1 { c } else { [None; 8] }).collect();
            let d = Dec::new(id.clone(), st.clone()).ok()?;
            let mut s = StreamB::new(5, &id, &st);
            for (i, v) in [n - 1, 0xffff, 0x10000, n / 2, n / 3, 0x12345, 1, 0xfffe].iter().enumerate() {
                let (w, a) = d.generate(|k, m| match k {
                    K::Mode => i as u64 % 2 % m,
                    K::Nonzero(_) => 1,
                    K::Class(_) => v % m,
                    K::Vq(_) => i as u64 % m,
                    _ => 0,
                });
                s.push(w.bytes, a.ok()?.bs);
            }
            finish(&s, format!("{classes} classes, {dims} at a time"))
        }
        _ => {
            // Partitions and class words, around the sizes of buffers
            let total = ch.each(&[126u32, 127, 128, 129, 130, 255, 256, 257]);
            let channels = ch.each(&[1u8, 2, 3]);
            let dims = ch.each(&[1u16, 2, 7, 100, 65535]);
            let mut st = rich_setup(channels);
            st.books[0] = Codebook::scalar(&[1, 2, 3, 3]).with_dims(dims);
            let r = &mut st.residues[0];
            r.ty = ch.each(&[0, 2]);
            let parts = (total / channels as u32).saturating_sub(dims as u32).max(1);
            r.begin = 3;
            r.psize = 4;
            if dims > 2 {
                // The book has to have an entry for every sequence of classes
                r.books = vec![r.books[0]];
            }
            r.end = r.begin + parts * r.psize;
            let id = ident(channels, 6, 13);
            let mut s = StreamB::new(5, &id, &st);
            add_audio(&mut s, &id, &st, &[(1, false, true, Pat::Mix), (0, true, false, Pat::Partial(1)), (1, true, true, Pat::Max)]);
            finish(&s, format!("{channels} channels, {parts} partitions, {dims} dimensions"))
        }
    }
}
