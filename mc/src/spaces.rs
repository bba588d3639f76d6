//! Spaces of well formed Ogg physical streams shared by several checks.

use crate::bits::*;
use crate::dec::*;
use crate::explore::Chooser;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::vorbis::*;

pub type Gen = fn(&mut Chooser, bool) -> Option<Case>;

pub struct SpaceDef {
    pub name: &'static str,
    pub gen: Gen,
    pub quick: usize,
    pub thorough: usize,
    /// What varies
    pub about: &'static str,
}

pub const SPACES: &[SpaceDef] = &[
    SpaceDef { name: "setup", gen: setup_space, quick: 2, thorough: 3, about: "every field of the headers, over a feature rich stream" },
    SpaceDef { name: "floats", gen: float_space, quick: 1, thorough: 1, about: "codebook minimum and delta values over an alphabet of 32-bit words" },
    SpaceDef { name: "lookup1", gen: lookup1_space, quick: 1, thorough: 1, about: "dimensions and entries of implicitly populated VQ codebooks" },
    SpaceDef { name: "lens", gen: lens_space, quick: 0, thorough: 0, about: "every codeword length assignment of small codebooks, complete or not, with unused entries, in every encoding" },
    SpaceDef { name: "freqs", gen: freqs_space, quick: 0, thorough: 0, about: "every vector of small codeword use counts" },
    SpaceDef { name: "deep", gen: deep_space, quick: 0, thorough: 0, about: "Fibonacci-like use counts whose unrestricted Huffman code has codewords around 32 bits long" },
    SpaceDef { name: "twins", gen: twins_space, quick: 0, thorough: 0, about: "codebooks and links that only differ in how often entries are used" },
    SpaceDef { name: "bigbooks", gen: bigbook_space, quick: 0, thorough: 0, about: "codebooks with many entries and boundary sizes" },
    SpaceDef { name: "symbols", gen: symbols_space, quick: 0, thorough: 0, about: "every sequence of floor and residue symbols of a small packet" },
    SpaceDef { name: "modes", gen: modes_space, quick: 1, thorough: 2, about: "number of modes and their use, channel counts, window flags" },
    SpaceDef { name: "blocks", gen: blocks_space, quick: 0, thorough: 0, about: "block size sequences, page breaks and granule positions" },
    SpaceDef { name: "sizes", gen: sizes_space, quick: 1, thorough: 2, about: "packet sizes around lacing and page boundaries" },
    SpaceDef { name: "comments", gen: comments_space, quick: 2, thorough: 3, about: "comment header contents, truncation and actions" },
    SpaceDef { name: "ident", gen: ident_space, quick: 2, thorough: 3, about: "identification header fields" },
    SpaceDef { name: "drops", gen: drops_space, quick: 0, thorough: 0, about: "packets that have to be discarded among normal and padded ones" },
    SpaceDef { name: "cuts", gen: cuts_space, quick: 0, thorough: 0, about: "audio packets truncated at every byte" },
    SpaceDef { name: "chains", gen: chain_space, quick: 2, thorough: 3, about: "chained and grouped Vorbis and foreign streams" },
    SpaceDef { name: "files", gen: crate::spaces2::files_space, quick: 1, thorough: 2, about: "real files under every option, re-paginated, chained, padded, and with lost pages or packets" },
    SpaceDef { name: "flips", gen: crate::spaces2::flips_space, quick: 0, thorough: 0, about: "every bit of every packet of three streams flipped; pairs of bits in the thorough tier" },
    SpaceDef { name: "edits", gen: crate::spaces2::edits_space, quick: 0, thorough: 0, about: "every byte of every packet of three streams removed, duplicated, overwritten and cut at" },
    SpaceDef { name: "short", gen: crate::spaces2::short_space, quick: 0, thorough: 0, about: "every audio packet of up to two bytes (three in the thorough tier)" },
    SpaceDef { name: "counts", gen: crate::spaces2::counts_space, quick: 0, thorough: 0, about: "numbers of packets, comments, links, entries, values, channels and parts of the setup around powers of two, and the most there may be" },
    SpaceDef { name: "bytes", gen: crate::spaces3::bytes_space, quick: 0, thorough: 0, about: "every byte of four physical streams overwritten, removed, duplicated, cut before and cut after, with and without checksum verification" },
    SpaceDef { name: "pages", gen: crate::spaces3::pages_space, quick: 0, thorough: 0, about: "up to two (three) edits of the pages of four physical streams: flags, granule positions, sequence numbers, serials, lacing, order" },
    SpaceDef { name: "repeats", gen: crate::spaces3::repeats_space, quick: 0, thorough: 0, about: "chains whose links may share serial numbers and be cut short" },
    SpaceDef { name: "junk", gen: crate::spaces3::junk_space, quick: 2, thorough: 3, about: "junk before, between and after pages" },
    SpaceDef { name: "passes", gen: crate::spaces3::passes_space, quick: 0, thorough: 0, about: "books that are suitable for residues, and others, in every pass" },
    SpaceDef { name: "refs", gen: crate::spaces3::refs_space, quick: 0, thorough: 0, about: "every reference of a setup header to a codebook, floor, residue, mapping, submap or channel, with every value around what exists; numbers and values of floor points" },
    SpaceDef { name: "headers", gen: headers_space, quick: 2, thorough: 3, about: "how header packets are laid out in pages, and streams without audio" },
];

/// Use counts are the Fibonacci numbers, so the deepest leaf of a Huffman tree is as deep as possible
fn deep_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let depth: usize = ch.each(if thorough { &[33, 12, 31, 32, 34][..] } else { &[33, 12][..] });
    let rising = if thorough { ch.all(2) == 1 } else { true };
    let n = depth + 1;
    let mut counts = vec![1u64, 1];
    while counts.len() < n {
        counts.push(counts[counts.len() - 1] + counts[counts.len() - 2]);
    }
    // Short codewords for the most used entries, and four bits more for the rest
    let mut lens: Vec<u8> = (0..n).rev().map(|rank| if rank < 20 { rank as u8 + 1 } else { 24 }).collect();
    if !rising {
        lens.reverse();
        counts.reverse();
    }
    let mut st = tiny_setup(&[1, 1]);
    st.books[0] = Codebook::scalar(&[1]);
    st.books[1] = Codebook::scalar(&lens).vq(1, 8);
    st.residues[0] =
        Residue { ty: 1, begin: 0, end: 4096, psize: 4096, classbook: 0, books: vec![[Some(1); 8]], long_cascade: false };
    let id = ident(1, 6, 13);
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let big = st.modes.iter().position(|m| m.big)? as u64;
    let mut s = StreamB::new(1, &id, &st);
    let most = if rising { n - 1 } else { 0 };
    let mut left = counts.clone();
    let mut cur = 0;
    let mut more = true;
    while more {
        let (w, a) = d.generate(|k, _| match k {
            K::Mode => big,
            K::Nonzero(_) => 1,
            K::Vq(_) => {
                while cur < n && left[cur] == 0 {
                    cur += 1;
                }
                if cur == n {
                    more = false;
                    return most as u64;
                }
                left[cur] -= 1;
                cur as u64
            }
            _ => 0,
        });
        s.push(w.bytes, a.ok()?.bs);
    }
    finish(&s, format!("Fibonacci use counts for a depth of {depth}, rising {rising}"))
}

pub fn space(name: &str) -> &'static SpaceDef {
    SPACES.iter().find(|s| s.name == name).unwrap_or_else(|| panic!("no space {name}"))
}

/// Appends audio packets until the setup does not allow to do so; returns whether it always did
pub fn add_audio(s: &mut StreamB, id: &Ident, setup: &Setup, script: &[(u64, bool, bool, Pat)]) -> bool {
    let Ok(d) = Dec::new(id.clone(), setup.clone()) else { return false };
    for (i, &(m, p, n, pat)) in script.iter().enumerate() {
        let m = m.min(setup.modes.len() as u64 - 1);
        let (data, a) = packet(&d, m, p, n, pat, i as u64);
        match a {
            Ok(a) => {
                s.push(data, a.bs);
            }
            Err(_) => {
                s.push(data, 0);
                return false;
            }
        }
    }
    true
}

pub const SCRIPT: &[(u64, bool, bool, Pat)] = &[
    (0, false, false, Pat::Mix),
    (1, false, true, Pat::Mix),
    (1, true, false, Pat::Partial(1)),
    (0, false, false, Pat::Max),
    (0, false, false, Pat::Partial(2)),
    (1, true, true, Pat::Mix),
    (0, false, false, Pat::Silent),
    (1, false, false, Pat::Zero),
];

pub fn finish(s: &StreamB, note: String) -> Option<Case> {
    Some(Case { input: s.bytes(), opts: Opts::default(), note })
}

fn setup_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let channels: u8 = ch.of(&[2, 1, 3, 4, 9, 17]);
    let (b0, b1) = ch.of(&[(6, 7), (6, 6), (7, 7), (6, 9), (6, 13)]);
    let mut id = ident(channels, b0, b1);
    id.framing = ch.of(&[1, 0, 0xfe, 3]);
    let mut st = rich_setup(channels);
    // Codebooks
    for bi in 0..st.books.len() {
        let b = &mut st.books[bi];
        b.sync = ch.of(&[0x564342, 0]);
        let alts: &[&[u8]] = match b.lens.len() {
            4 => &[
                &[1, 0, 2, 2],
                &[3, 3, 2, 1],
                &[2, 2, 2, 0],
                &[1, 2, 3, 4],
                &[32, 31, 30, 1],
                &[2, 2, 1, 0, 0, 0],
                &[3, 3, 3, 3, 3, 3, 3, 3],
                &[0, 0, 1, 0, 0],
                &[0, 0, 2, 0, 0, 0],
                &[1, 1, 1],
                &[0, 0, 0, 0],
                &[5, 5, 5, 5, 5],
            ],
            _ => &[&[2, 2, 1], &[0, 1, 0, 1], &[3, 3, 2, 1, 0], &[1, 2], &[0, 0, 1], &[1], &[], &[2, 3, 4]],
        };
        let k = ch.pick(alts.len() + 1);
        if k > 0 {
            b.lens = alts[k - 1].to_vec();
            b.fmt = if b.lens.contains(&0) { LenFmt::Sparse } else { LenFmt::Unordered };
            let (l, vb) = (b.lookup, b.value_bits);
            if l > 0 {
                *b = b.clone().vq(l, vb);
            }
        }
        match ch.pick(3) {
            1 => {
                let sorted = b.lens.windows(2).all(|w| w[0] <= w[1]);
                if b.lens.contains(&0) || !sorted {
                    return None;
                }
                b.fmt = LenFmt::Ordered;
            }
            2 => b.fmt = LenFmt::Sparse,
            _ => (),
        }
        let d = ch.of(&[b.dims, 1, 3, 4, 8, 0]);
        let relookup = ch.pick(4);
        let vb = ch.of(&[b.value_bits, 1, 8, 15, 16]);
        let l = if relookup > 0 { [0, 1, 2][relookup - 1] } else { b.lookup };
        if (d, l, vb) != (b.dims, b.lookup, b.value_bits) {
            if d == 0 && l == 1 {
                return None; // 2^32 - 1 multiplicands
            }
            b.dims = d;
            b.lookup = 0;
            b.mult = vec![];
            if l > 0 {
                *b = b.clone().vq(l, vb);
            }
        }
        if b.lookup > 0 {
            b.seq = ch.flag();
            b.min = ch.of(&[b.min, 0, pack_norm(-3, 0), pack_norm(1, 10), pack_exact(0x1f_ffff, 3)]);
            b.delta = ch.of(&[b.delta, 0, pack_norm(1, 0), pack_norm(-1, -4), pack_exact(5, 0)]);
            if ch.flag() {
                let m = ((1u32 << b.value_bits) - 1) as u32;
                b.mult.iter_mut().for_each(|x| *x = m);
            }
        } else {
            ch.pick(1);
        }
    }
    // More codebooks
    let extra = ch.of(&[0usize, 1, 250, 251]);
    for i in 0..extra {
        st.books.push(Codebook::scalar(if i % 3 == 0 { &[1, 1] } else { &[0, 1, 2, 2] }));
    }
    st.times = ch.of(&[vec![0], vec![0, 0], vec![5], (0..64).map(|i| i * 1021).collect()]);
    // Floors
    let f = &mut st.floors[0];
    f.ty = ch.of(&[1, 0, 2]);
    f.mult = ch.of(&[2, 1, 3, 4]);
    match ch.pick(7) {
        1 => {
            f.parts = vec![];
            f.classes = vec![];
        }
        2 => f.parts = vec![1],
        3 => f.parts = vec![1, 1, 1, 1, 1, 1, 1],
        4 => {
            // Class numbers up to 15, with gaps
            f.parts = vec![15, 0, 3];
            f.classes.resize(16, FClass { dim: 1, sub: 0, master: 0, books: vec![-1] });
            f.classes[15] = FClass { dim: 3, sub: 2, master: 2, books: vec![3, -1, 2, 3] };
        }
        5 => f.parts = vec![1; 31],
        6 => f.parts = vec![0; 31],
        _ => (),
    }
    if !f.classes.is_empty() {
        let c = &mut f.classes[0];
        c.dim = ch.of(&[c.dim, 1, 3, 5, 8]);
        let sub = ch.of(&[c.sub, 0, 2, 3]);
        if sub != c.sub {
            c.sub = sub;
            c.books = (0..1 << sub).map(|i| [3, -1, 2, 3, 2, -1, -1, 3][i]).collect();
        }
        c.master = ch.of(&[c.master, 3, 0, 1, 4, 5]);
        let b = ch.of(&[c.books[0], -1, 0, 1, 2, 4, 5]);
        c.books[0] = b;
    }
    f.range_bits = ch.of(&[6, 5, 8, 15, 0, 1]);
    {
        let n: usize = f.parts.iter().map(|&p| f.classes[p as usize].dim as usize).sum();
        let m = (1u64 << f.range_bits) as u32;
        f.xs = (0..n as u32).map(|i| (5 + i * 28 + i * i) % m).collect();
        let distinct = |v: &[u32]| v.iter().enumerate().all(|(i, x)| !v[..i].contains(x));
        if !distinct(&f.xs) && n as u32 <= m {
            f.xs = (0..n as u32).map(|i| (m - 1 - i) % m).collect();
        }
        match ch.pick(7) {
            1 if n > 1 => f.xs[1] = f.xs[0],
            2 if n > 0 => f.xs[n - 1] = 0,
            k @ 3..=6 if f.classes.len() > 1 => {
                // Around the limit of 65 points, two of them implicit
                let n = 60 + k;
                f.classes[0].dim = 8;
                f.parts = vec![0; (n - 1) / 8];
                f.parts.push(1);
                f.classes[1].dim = (n - (n - 1) / 8 * 8) as u8;
                f.range_bits = 7;
                f.xs = (1..=n as u32).rev().collect();
            }
            0 => (),
            _ => return None,
        }
    }
    // Residues
    let r = &mut st.residues[0];
    r.ty = ch.of(&[1, 0, 2, 3]);
    r.begin = ch.of(&[0, 4, 3, 25, 100_000, 0xff_ffff]);
    r.end = ch.of(&[24, 23, 64, 200_000, 0xff_ffff, 2, 0]);
    r.psize = ch.of(&[4, 1, 2, 8, 12, 3, 64, 1 << 24]);
    r.classbook = ch.of(&[0, 2, 3, 1, 5]);
    r.long_cascade = ch.flag();
    match ch.pick(9) {
        1 => r.books[0][0] = None,
        2 => r.books[0][7] = Some(4),
        3 => r.books[0] = [Some(1), Some(4), Some(1), Some(1), Some(4), Some(1), Some(1), Some(4)],
        4 => r.books[1][3] = Some(1),
        5 => r.books[1][0] = Some(2),
        6 => r.books[1][0] = Some(5),
        7 => r.books = vec![r.books[0]],
        8 => {
            r.books = (0..64u8).map(|i| if i % 3 == 0 { r.books[0] } else { r.books[1] }).collect();
            r.classbook = 5;
            st.books.push(Codebook::scalar(&[6; 64]));
        }
        _ => (),
    }
    // Mappings
    let m = &mut st.mappings[0];
    m.ty = ch.of(&[0, 1]);
    m.long_submaps = ch.flag();
    m.reserved = ch.of(&[0, 1, 3]);
    match ch.pick(7) {
        1 => m.coupling = vec![],
        2 => m.coupling = vec![(1, 0)],
        3 => m.coupling = vec![(channels - 1, 0)],
        4 => m.coupling = vec![(0, 1), (1, 0)],
        5 => m.coupling = (0..256u32).map(|i| ((i % channels as u32) as u8, ((i + 1) % channels as u32) as u8)).collect(),
        6 => m.coupling = vec![(0, 0)],
        _ => (),
    }
    if !m.coupling.is_empty() {
        let w = ilog(channels as i64 - 1);
        if m.coupling.iter().any(|&(a, b)| a as u32 >> w != 0 || b as u32 >> w != 0) {
            return None;
        }
    }
    m.submaps[0].time = ch.of(&[0, 1, 255]);
    let nsub = ch.of(&[1usize, 2, 3, 16]);
    if nsub > 1 {
        let mut f2 = st.floors[0].clone();
        f2.mult = f2.mult % 4 + 1;
        st.floors.push(f2);
        let mut r2 = st.residues[0].clone();
        r2.ty = (r2.ty + 1) % 3;
        r2.end = r2.end.saturating_sub(8).max(r2.begin);
        st.residues.push(r2);
        let m = &mut st.mappings[0];
        m.submaps = (0..nsub).map(|i| Submap { time: i as u8, floor: i as u8 % 2, residue: (i as u8 / 2) % 2 }).collect();
        let k = ch.pick(3);
        m.mux = (0..channels)
            .map(|c| match k {
                0 => c % nsub as u8,
                1 => nsub as u8 - 1,
                _ => 0,
            })
            .collect();
        if ch.flag() {
            m.mux[0] = nsub as u8; // does not exist
            if nsub == 16 {
                return None;
            }
        }
    }
    let m = &mut st.mappings[0];
    m.submaps[0].floor = ch.of(&[0, st.floors.len() as u8]);
    m.submaps[0].residue = ch.of(&[0, st.residues.len() as u8]);
    // More of everything
    match ch.pick(4) {
        1 => st.floors.resize(64, st.floors[0].clone()),
        2 => st.residues.resize(64, st.residues[0].clone()),
        3 => {
            st.mappings.resize(64, st.mappings[0].clone());
            st.modes[1].mapping = 63;
        }
        _ => (),
    }
    // Modes
    let nmodes = ch.of(&[2usize, 1, 3, 4, 5, 64]);
    st.modes = (0..nmodes).map(|i| Mode { big: i % 2 == 1, ..st.modes[i.min(1)].clone() }).collect();
    st.modes[0].window = ch.of(&[0, 1, 0xffff]);
    st.modes[0].transform = ch.of(&[0, 1, 0xffff]);
    st.modes[0].big = ch.flag();
    let nm = st.mappings.len() as u8;
    st.modes[0].mapping = ch.of(&[0, nm]);
    if nmodes > 1 {
        let k = nmodes - 1;
        st.modes[k].mapping = ch.of(&[st.modes[k].mapping, nm - 1, nm, 255]);
    }
    st.framing = !ch.flag();
    st.trailing = ch.of(&[vec![], vec![0], vec![1, 2, 3], vec![0; 300]]);
    if st.books.len() > 256 {
        return None;
    }
    let mut s = StreamB::new(0x1234, &id, &st);
    // The base stream has to be valid for the audio to make sense; anything that a decoder
    // rejects still has to be rejected
    let valid = Setup::parse(&s.setup, channels).is_ok();
    let k = ch.pick(3);
    let script: Vec<_> = match k {
        0 => SCRIPT.to_vec(),
        1 => SCRIPT.iter().map(|x| (x.0, x.1, x.2, Pat::Mix)).collect(),
        _ => (0..if thorough { 64 } else { 20 }).map(|i| ((i * 3) % nmodes as u64, i % 2 == 0, i % 3 == 0, SCRIPT[i as usize % 8].3)).collect(),
    };
    let all = valid && add_audio(&mut s, &id, &st, &script);
    finish(&s, format!("{} audio packets, valid setup {valid}, audio ok {all}", s.audio.len()))
}

fn float_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    // Both fields over the same alphabet, in two codebooks
    let ms: &[u32] = &[0, 1, 2, 3, 0x10_0000, 0x10_0001, 0x0f_ffff, 0x1f_ffff, 0x15_5555, 0x8_0000];
    let es: &[u32] = &[0, 1, 5, 19, 20, 21, 22, 100, 254, 255, 256, 257, 300, 534, 767, 768, 788, 789, 800, 1000, 1021, 1022, 1023];
    let s = ch.all(2) as u32;
    let m = ch.each(ms);
    let e = if thorough { ch.all(1024) as u32 } else { ch.each(es) };
    let w = s << 31 | e << 21 | m;
    let mut st = rich_setup(1);
    if ch.all(2) == 0 {
        st.books[1].min = w;
        st.books[4].delta = w;
    } else {
        st.books[1].delta = w;
        st.books[4].min = w;
    }
    let id = ident(1, 6, 7);
    let mut s = StreamB::new(1, &id, &st);
    add_audio(&mut s, &id, &st, &SCRIPT[..3]);
    finish(&s, format!("float word {w:#x}"))
}

fn lookup1_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let dims = ch.each(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 32]);
    // Around every perfect power
    let max: u64 = if thorough { 70_000 } else { 7_000 };
    let mut ns: Vec<u64> = vec![1, 2, 3];
    for b in 2u64.. {
        let p = b.checked_pow(dims as u32).unwrap_or(u64::MAX);
        if p > max {
            break;
        }
        if dims == 1 && b > 40 && b % 500 != 0 {
            continue;
        }
        ns.extend([p - 1, p, p + 1]);
    }
    ns.sort();
    ns.dedup();
    let n = ch.each(&ns) as usize;
    // Only a few entries are used, so that the tree is small
    let mut lens = vec![0u8; n];
    let used = [0, n / 2, n - 1];
    lens[used[0]] = 1;
    if n > 1 {
        lens[n - 1] = 2;
        lens[n / 2] = if n / 2 == n - 1 { 2 } else { 2 };
        if n / 2 == 0 {
            lens[0] = 1;
        }
    }
    let vb = 4;
    let mut b = Codebook::scalar(&lens).with_dims(dims).vq(1, vb);
    b.fmt = LenFmt::Sparse;
    let mut st = tiny_setup(&[1, 1]);
    st.books[1] = b;
    // As many scalars as dimensions per partition
    st.residues[0].psize = dims as u32;
    st.residues[0].end = 4096;
    let id = ident(1, 6, 7);
    let mut s = StreamB::new(1, &id, &st);
    add_audio(&mut s, &id, &st, &[(0, false, false, Pat::Max), (1, false, false, Pat::Mix)]);
    finish(&s, format!("lookup 1, {n} entries, {dims} dimensions"))
}

/// Every vector of codeword lengths of up to N entries with lengths up to 4
fn lens_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let n = ch.all(if thorough { 6 } else { 5 }) + 1;
    let maxl = if n >= 5 { 4 } else { 5 };
    let mut lens = vec![];
    for _ in 0..n {
        lens.push(ch.all(maxl + 1) as u8);
        if kraft(&lens) > KRAFT_ONE && lens.len() < n {
            // Already overspecified: a single representative is enough
            lens.resize(n, 1);
            break;
        }
    }
    let mut st = tiny_setup(&[1, 1]);
    let mut b = Codebook::scalar(&lens).vq(2, 8);
    if lens.contains(&0) {
        b.fmt = LenFmt::Sparse;
    } else {
        let sorted = lens.windows(2).all(|w| w[0] <= w[1]);
        b.fmt = if sorted { ch.each(&[LenFmt::Unordered, LenFmt::Sparse, LenFmt::Ordered]) } else { ch.each(&[LenFmt::Unordered, LenFmt::Sparse]) };
    }
    st.books[1] = b;
    let id = ident(1, 6, 6);
    let mut s = StreamB::new(1, &id, &st);
    let Ok(d) = Dec::new(id.clone(), st.clone()) else { return finish(&s, format!("overspecified {lens:?}")) };
    let used: Vec<usize> = (0..n).filter(|&i| lens[i] > 0).collect();
    // Which entries are used: all of them, or all but the last, or only the first one
    let k = ch.all(4);
    if used.is_empty() && k > 0 {
        return None;
    }
    let script: Vec<u64> = match k {
        0 => vec![],
        1 => (0..used.len() as u64).collect(),
        2 => (0..used.len() as u64 * 2).map(|i| i % (used.len() as u64).max(2) / 2).collect(),
        _ => vec![0; 5],
    };
    let mut i = 0;
    let (w, a) = d.generate(|kd, n| match kd {
        K::Nonzero(_) => 1,
        K::Class(_) => {
            i += 1;
            (i <= script.len()) as u64
        }
        K::Vq(_) => {
            i += 1;
            script[(i - 1) % script.len()] % n
        }
        _ => 0,
    });
    // Classes come before the VQ symbols
    let _ = &mut i;
    let a = a.ok()?;
    s.push(w.bytes, a.bs);
    // A codeword that is not in the tree
    if ch.all(2) == 1 {
        // Last packet decodes bits that may not be defined
        let mut w = BW::new();
        w.bit(false);
        w.bit(true); // mode 1
        w.put(0, 2);
        w.bit(true); // nonzero
        w.put(0, 12);
        w.put(u64::MAX, 32);
        w.put(u64::MAX, 32);
        w.put(u64::MAX, 32);
        s.push(w.bytes, 64);
    }
    finish(&s, format!("lengths {lens:?} use {k}"))
}

/// Use counts
fn freqs_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let n = ch.all(if thorough { 8 } else { 6 }) + 1;
    let maxf = match (n, thorough) {
        (1..=4, true) => 12,
        (5, true) => 8,
        (6, true) => 6,
        (7, true) => 4,
        (8, true) => 3,
        (1..=3, _) => 9,
        (4, _) => 7,
        (5, _) => 5,
        _ => 3,
    };
    let f: Vec<u64> = (0..n).map(|_| ch.all(maxf + 1) as u64).collect();
    freq_stream(&f)
}

/// Codebooks, or links of a chain, that only differ in how often entries are used
fn twins_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let n = ch.each(if thorough { &[2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129, 256, 257, 300, 513, 1000][..] } else { &[2, 3, 4, 5, 8, 9, 33, 65, 129, 257, 300][..] });
    let kind = ch.all(5);
    let base: Vec<u64> = (0..n as u64)
        .map(|i| match kind {
            0 => 1 + (i == 0) as u64 * 40,
            1 => 1 + i % 3,
            2 => 1 + n as u64 / (i + 1),
            3 => (i % 3 != 1) as u64 * (1 + i % 4),
            _ => 1 << i.min(6),
        })
        .collect();
    let same = |f: &[u64], how: usize| -> Vec<u64> {
        let mut f = f.to_vec();
        match how {
            0 => f.reverse(),
            1 => f.rotate_right(1),
            2 => f.swap(0, 1),
            3 => f.swap(n / 2, n - 1),
            _ => (),
        }
        f
    };
    let how = ch.all(5);
    let place = ch.all(3);
    let values = ch.all(2);
    let copies = if place == 0 { 1 + ch.all(3) } else { 2 };
    let uses: Vec<Vec<u64>> = (0..copies + 1).scan(base, |f, _| Some(std::mem::replace(f, same(f, how)))).collect();
    let l = (ilog(n as i64 - 1) as u8).max(1);
    let mut b = Codebook::scalar(&vec![l; n]).vq(2, 8);
    b.fmt = LenFmt::Ordered;
    let mut setup = tiny_setup(&[1, 1]);
    setup.books.pop();
    let id = ident(1, 6, 13);
    let mut streams: Vec<(Setup, Vec<Vec<u64>>)> = vec![];
    if place == 0 {
        // All in one cascade
        for k in 0..uses.len() {
            let mut b = b.clone();
            if values == 1 {
                b.delta = pack_norm(1 + k as i64, -2);
            }
            setup.books.push(b);
            setup.residues[0].books[1][k] = Some(1 + k as u8);
        }
        streams.push((setup, uses));
    } else {
        // Links, with the same or other values
        for (k, u) in uses.into_iter().enumerate() {
            let mut b = b.clone();
            if values == 1 {
                b.delta = pack_norm(1 + k as i64, -2);
            }
            let mut st = setup.clone();
            if place == 2 && k > 0 {
                // Another codebook before it
                st.books.insert(0, Codebook::scalar(&[1, 1]));
                st.residues[0].classbook = 1;
                st.residues[0].books[1][0] = Some(2);
            }
            st.books.push(b);
            streams.push((st, vec![u]));
        }
    }
    let mut input = vec![];
    for (k, (st, uses)) in streams.iter().enumerate() {
        let d = Dec::new(id.clone(), st.clone()).ok()?;
        let mut s = StreamB::new(1 + k as u32, &id, st);
        let seqs: Vec<Vec<u64>> = uses.iter().map(|f| f.iter().enumerate().flat_map(|(e, &k)| std::iter::repeat(e as u64).take(k as usize)).collect()).collect();
        for at in (0..seqs[0].len()).step_by(4096) {
            let now = (seqs[0].len() - at).min(4096);
            let (mut c, mut v) = (0, 0);
            let (w, a) = d.generate(|kd, _| match kd {
                K::Mode | K::Nonzero(_) => 1,
                K::Class(_) => {
                    c += 1;
                    (c <= now) as u64
                }
                K::Vq(_) => {
                    v += 1;
                    seqs[(v - 1) / now][at + (v - 1) % now]
                }
                _ => 0,
            });
            s.push(w.bytes, a.ok()?.bs);
        }
        input.extend(s.bytes());
    }
    Some(Case { input, opts: Opts::default(), note: format!("{n} entries, use {kind}, permutation {how}, place {place}, {copies} copies") })
}

pub fn freq_stream(f: &[u64]) -> Option<Case> {
    let n = f.len();
    // Balanced tree for the input
    let l = (ilog(n as i64 - 1) as u8).max(1);
    let mut b = Codebook::scalar(&vec![l; n]).vq(2, 8);
    b.fmt = LenFmt::Ordered;
    let mut st = tiny_setup(&[1, 1]);
    st.books[1] = b;
    let id = ident(1, 6, 13);
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(1, &id, &st);
    let seq: Vec<u64> = f.iter().enumerate().flat_map(|(e, &k)| std::iter::repeat(e as u64).take(k as usize)).collect();
    let mut rest = &seq[..];
    loop {
        let big = rest.len() > 32;
        let cap = if big { 4096 } else { 32 };
        let (now, later) = rest.split_at(rest.len().min(cap));
        let (mut c, mut v) = (0, 0);
        let (w, a) = d.generate(|kd, _| match kd {
            K::Mode => big as u64,
            K::Nonzero(_) => 1,
            K::Class(_) => {
                c += 1;
                (c <= now.len()) as u64
            }
            K::Vq(_) => {
                v += 1;
                now[v - 1]
            }
            _ => 0,
        });
        s.push(w.bytes, a.ok()?.bs);
        rest = later;
        if rest.is_empty() {
            break;
        }
    }
    finish(&s, format!("uses {f:?}"))
}

fn bigbook_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let shapes: &[usize] = if thorough {
        &[127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 3000, 4095, 4096]
    } else {
        &[127, 128, 129, 255, 256, 257, 512, 1024, 1025]
    };
    let n = ch.each(shapes);
    let kind = ch.all(7);
    let holes = ch.all(3);
    // Use counts
    let f: Vec<u64> = (0..n as u64)
        .map(|i| match kind {
            0 => 1,
            1 => 1 + i % 3,
            2 => 1 + (i == 0) as u64 * 4000,
            3 => (i % 2 == 0) as u64,
            4 => (i >= n as u64 - 3) as u64 * (i - (n as u64 - 3).min(i) + 1),
            5 => 1 + (n as u64 / (i + 1)),
            _ => {
                // Fibonacci like, to get a deep tree
                let mut a = (1u64, 1u64);
                for _ in 0..(i % 18) {
                    a = (a.1, a.0 + a.1);
                }
                if i < 18 {
                    a.0
                } else {
                    0
                }
            }
        })
        .collect();
    let mut f = f;
    match holes {
        1 => f.insert(0, 0),
        2 => f.extend(vec![0; 70_000]),
        _ => (),
    }
    if holes == 2 {
        // 65536 or more entries, most of them unused
        let mut lens = vec![0u8; f.len()];
        let l = ilog(n as i64 - 1) as u8;
        for e in 0..n {
            lens[e] = l;
        }
        return big_sparse(&f, &lens);
    }
    freq_stream(&f)
}

fn big_sparse(f: &[u64], lens: &[u8]) -> Option<Case> {
    let mut b = Codebook::scalar(lens).with_dims(1);
    b.lookup = 1;
    b.min = pack_norm(-1, 0);
    b.delta = pack_norm(1, -2);
    b.value_bits = 3;
    // One dimension: as many multiplicands as entries
    b.mult = (0..lens.len()).map(|i| (i % 8) as u32).collect();
    b.fmt = LenFmt::Sparse;
    let mut st = tiny_setup(&[1, 1]);
    st.books[1] = b;
    let id = ident(1, 6, 13);
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(1, &id, &st);
    let used: Vec<usize> = (0..lens.len()).filter(|&i| lens[i] > 0).collect();
    let seq: Vec<u64> = used.iter().enumerate().flat_map(|(k, &e)| std::iter::repeat(k as u64).take(f[e] as usize)).collect();
    for now in seq.chunks(4096) {
        let (mut c, mut v) = (0, 0);
        let (w, a) = d.generate(|kd, _| match kd {
            K::Mode => 1,
            K::Nonzero(_) => 1,
            K::Class(_) => {
                c += 1;
                (c <= now.len()) as u64
            }
            K::Vq(_) => {
                v += 1;
                now[v - 1]
            }
            _ => 0,
        });
        s.push(w.bytes, a.ok()?.bs);
    }
    finish(&s, format!("{} entries, {} used", lens.len(), used.len()))
}

/// All symbol sequences of a packet with very few symbols
fn symbols_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let ty = ch.all(3) as u16;
    let mut st = rich_setup(2);
    st.residues[0].ty = ty;
    st.residues[0].begin = ch.each(&[0, 1]);
    st.residues[0].end = st.residues[0].begin + if thorough { 12 } else { 8 } + ch.all(2) as u32;
    st.floors[0].parts = vec![0];
    st.floors[0].classes.truncate(1);
    st.floors[0].xs = vec![5, 33];
    let id = ident(2, 6, 6);
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(1, &id, &st);
    // The first packet is enumerated, a fixed one follows
    let mut left = if thorough { 9 } else { 7 };
    let (w, a) = d.generate(|k, n| match k {
        K::Mode | K::Prev | K::Next => 0,
        K::Y(_) => n - 1,
        K::Nonzero(_) => ch.all(2) as u64,
        _ if left > 0 => {
            left -= 1;
            ch.all(n as usize) as u64
        }
        _ => 0,
    });
    s.push(w.bytes, a.ok()?.bs);
    let (data, a) = packet(&d, 0, false, false, Pat::Mix, 1);
    s.push(data, a.ok()?.bs);
    finish(&s, format!("residue type {ty}"))
}

fn modes_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let n = ch.each(if thorough { &[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64][..] } else { &[1, 2, 3, 4, 5, 8, 9, 32, 33, 64][..] });
    let channels = ch.of(&[1u8, 2, 3, 5, 8, 9, 16, 64, 128, 129, 254, 255]);
    let id = ident(channels, ch.of(&[6, 8, 13]), 13);
    let mut st = rich_setup(channels);
    match ch.pick(3) {
        1 => st.residues[0].ty = 0,
        2 => st.residues[0].ty = 2,
        _ => (),
    }
    if channels > 2 {
        let c = channels;
        st.mappings[0].coupling = match ch.pick(4) {
            0 => vec![(0, c - 1)],
            1 => (0..c / 2).map(|i| (2 * i, 2 * i + 1)).collect(),
            2 => vec![(c - 1, c - 2), (0, 1)],
            _ => vec![],
        };
        if ch.flag() {
            st.floors.push(st.floors[0].clone());
            st.residues.push(Residue { ty: 2, ..st.residues[0].clone() });
            st.mappings[0].submaps.push(Submap { time: 0, floor: 1, residue: 1 });
            st.mappings[0].mux = (0..c).map(|i| (i % 3 == 0) as u8).collect();
        }
    }
    st.modes = (0..n).map(|i| Mode { big: (i / 2) % 2 == 1, ..st.modes[0].clone() }).collect();
    let mut s = StreamB::new(9, &id, &st);
    let k = ch.pick(3);
    let script: Vec<_> = (0..n as u64)
        .map(|i| {
            let p = match k {
                0 => [Pat::Mix, Pat::Partial(0xa5), Pat::Silent][i as usize % 3],
                1 => Pat::Partial(1),
                _ => Pat::Partial(0x80),
            };
            (n as u64 - 1 - i, i & 1 != 0, i & 2 != 0, p)
        })
        .collect();
    add_audio(&mut s, &id, &st, &script);
    // A mode number that does not exist
    if n.count_ones() != 1 && ch.flag() {
        let mut w = BW::new();
        w.bit(false);
        w.put(n as u64, ilog(n as i64 - 1));
        w.put(0, 20);
        s.push(w.bytes, 0);
    }
    finish(&s, format!("{n} modes, {channels} channels"))
}

/// Block sizes x page breaks x granule positions
fn blocks_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let n = ch.all(if thorough { 6 } else { 5 });
    let mut opts = Opts::default();
    opts.ignore_start = ch.all(2) == 1;
    let id = ident(1, 6, if thorough { ch.each(&[7, 11]) } else { 11 });
    let st = tiny_setup(&[1, 1]);
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(3, &id, &st);
    let mut breaks = vec![];
    for i in 0..n {
        let kind = ch.all(if i + 1 < n { 3 } else { 2 });
        // 0 small, 1 big, 2 has to be dropped
        if kind == 2 {
            s.push(vec![], 0);
        } else {
            let (data, a) = packet(&d, kind as u64, false, false, Pat::Silent, 0);
            s.push(data, a.ok()?.bs);
        }
        if i + 1 < n && ch.all(2) == 1 {
            s.audio[i].brk = true;
            breaks.push(i);
        }
    }
    // Granule positions: where the stream starts, what the end trims
    const B: &[i64] = &[0, 1, 100, -1, -7, -100_000, 1 << 40, i64::MAX, i64::MIN, i64::MAX - 100];
    s.start = ch.each(&B[..if thorough { B.len() } else { 9 }]);
    if n > 0 {
        let last = s.audio[n - 1].bs as i64;
        let prev = s.audio[..n - 1].iter().rev().find(|a| a.bs > 0).map_or(0, |a| a.bs as i64);
        let dur = (last + prev) / 4;
        let e = ch.all(8);
        s.audio[n - 1].gdelta = match e {
            0 => 0,
            1 => -1,
            2 => 1,
            3 => -(dur - 1),
            4 => -dur,
            5 => -(dur + 1),
            6 => 1 << 50,
            _ => -(1 << 62),
        };
        // The first page may be wrong as well
        if let Some(&f) = breaks.first() {
            if f != n - 1 {
                s.audio[f].gdelta = ch.each(&[0, 5, -5]);
            }
        }
    }
    Some(Case { input: s.bytes(), opts, note: format!("{n} packets, breaks {breaks:?}, start {}", s.start) })
}

/// Streams whose output packets have sizes under control: every residue symbol is used as often
/// as any other, so that codewords keep their length
fn size_stream(sizes: &[usize], serial: u32) -> Option<StreamB> {
    let l = 8u8;
    let n = 1usize << l;
    let mut st = tiny_setup(&[1, 1]);
    // All entries, eight bits each; no classification overhead
    st.books[0] = Codebook::scalar(&[1]);
    st.books[1] = Codebook::scalar(&vec![l; n]).vq(1, 8);
    let mut c = [None; 8];
    c[0] = Some(1);
    st.residues[0] = Residue { ty: 1, begin: 0, end: 0, psize: 1, classbook: 0, books: vec![c], long_cascade: false };
    // Submaps share the floor and have residues with several lengths, selected by mode
    let mut lens: Vec<usize> = sizes.to_vec();
    lens.sort();
    lens.dedup();
    if lens.len() > 64 {
        return None;
    }
    let id = ident(1, 6, 13);
    // Packet bits: type 1, mode m, flags 2, nonzero 1, floor 12, then residue. The residue has
    // one partition holding k symbols, and one bit for its class.
    let mode_bits = ilog(lens.len() as i64 - 1) as usize;
    let overhead = 1 + mode_bits + 2 + 1 + 12 + 1;
    st.residues = vec![];
    st.mappings = vec![];
    st.modes = vec![];
    for (i, &sz) in lens.iter().enumerate() {
        let bits = sz * 8;
        // k symbols of 8 bits: the packet is ceil((overhead + 8k) / 8) bytes long
        if bits < overhead {
            return None;
        }
        let k = (bits - overhead) / 8;
        let passes = (k + 4095) / 4096;
        if passes > 8 {
            return None;
        }
        let per = if passes == 0 { 0 } else { k / passes };
        if passes > 0 && per * passes != k {
            // Split in even passes only
            return None;
        }
        let mut c = [None; 8];
        for p in c.iter_mut().take(passes) {
            *p = Some(1);
        }
        st.residues.push(Residue {
            ty: 1,
            begin: 0,
            end: per.max(1) as u32,
            psize: per.max(1) as u32,
            classbook: 0,
            books: vec![c],
            long_cascade: false,
        });
        st.mappings.push(Mapping {
            ty: 0,
            submaps: vec![Submap { time: 0, floor: 0, residue: i as u8 }],
            long_submaps: false,
            coupling: vec![],
            reserved: 0,
            mux: vec![0],
        });
        st.modes.push(Mode { big: true, window: 0, transform: 0, mapping: i as u8 });
    }
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(serial, &id, &st);
    // Symbols are dealt in rounds; a last packet makes counts even
    let mut next = 0u64;
    for &sz in sizes {
        let m = lens.iter().position(|&l| l == sz)? as u64;
        let (w, a) = d.generate(|k, n| match k {
            K::Mode => m,
            K::Nonzero(_) => 1,
            K::Vq(_) => {
                next += 1;
                (next - 1) % n
            }
            _ => 0,
        });
        s.push(w.bytes, a.ok()?.bs);
    }
    Some(s)
}

/// A stream whose packets span pages
pub fn size_stream_bytes() -> Vec<u8> {
    let mut sizes = vec![4000; 17];
    sizes.extend([3, 254, 510, 3]);
    sizes.rotate_right(2);
    size_stream(&sizes, 5).expect("sizes").bytes()
}

fn sizes_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    // Sizes of a few interesting packets, and how many times the list is repeated
    let all: &[usize] = &[3, 4, 253, 254, 255, 256, 257, 509, 510, 511, 764, 765, 766];
    let reps = ch.each(if thorough { &[1usize, 2, 50, 84, 85, 86, 127, 128, 254, 255, 256, 257, 300][..] } else { &[1usize, 85, 127, 254, 255, 256][..] });
    let a = ch.each(all);
    let b = ch.of(&[3usize, 254, 255, 510, 1019, 32640]);
    let mut sizes: Vec<usize> = vec![a; reps];
    match ch.pick(4) {
        1 => sizes.insert(0, b),
        2 => sizes.push(b),
        3 => sizes = (0..reps).flat_map(|_| [a, b]).collect(),
        _ => (),
    }
    // Packets that span several pages
    match ch.pick(6) {
        1 => sizes.push(16_320),
        2 => sizes.insert(0, 16_320),
        3 => sizes.extend([254 * 255, 3, 254 * 255 + 2]),
        4 => sizes.extend([32_700 - 12, 5]),
        5 => sizes.insert(reps / 2, 20_000),
        _ => (),
    }
    let mut s = size_stream(&sizes, 5)?;
    match ch.pick(4) {
        1 => s.max_segs = 3,
        2 => s.max_segs = 1,
        3 => s.audio.iter_mut().for_each(|a| a.brk = true),
        _ => (),
    }
    s.eos = !ch.flag();
    s.start = ch.of(&[0, 12345]);
    finish(&s, format!("{} packets, first sizes {:?}", sizes.len(), &sizes[..sizes.len().min(4)]))
}

fn comments_space(ch: &mut Chooser, _thorough: bool) -> Option<Case> {
    let tag = optivorbis::OPTIVORBIS_VERSION_TAG;
    let short = optivorbis::OPTIVORBIS_SHORT_VERSION_TAG;
    let mut opts = Opts::default();
    opts.vendor = ch.each(&VENDORS);
    opts.delete_fields = ch.all(2) == 1;
    let vendors: Vec<Vec<u8>> = vec![
        b"enc 1.0".to_vec(),
        vec![],
        format!("x; {tag}").into_bytes(),
        format!("x; {short}").into_bytes(),
        tag.as_bytes().to_vec(),
        short.as_bytes().to_vec(),
        format!("; {tag}").into_bytes(),
        format!("; {short}").into_bytes(),
        format!("x;{tag}").into_bytes(),
        format!("x, {tag}").into_bytes(),
        format!("x; {tag} ").into_bytes(),
        format!("x; {short} y").into_bytes(),
        format!("x; {tag}; {tag}").into_bytes(),
        format!("x; {short}; y").into_bytes(),
        format!("{tag}; {short}").into_bytes(),
        b"x; ".to_vec(),
        b"; ".to_vec(),
        format!("x; {}", &tag[..tag.len() - 1]).into_bytes(),
        vec![0xff, 0xfe, 0, 0x80],
        vec![b'v'; 300],
        vec![b'v'; 70_000],
    ];
    let c = Comments {
        vendor: ch.of(&vendors),
        fields: ch.of(&[
            vec![b"TITLE=a".to_vec()],
            vec![],
            vec![b"A=1".to_vec(), vec![], b"noequals".to_vec(), b"A=1".to_vec()],
            vec![vec![0xff; 5], b"=".to_vec(), vec![0; 3]],
            (0..300u32).map(|i| format!("K{i}=v").into_bytes()).collect(),
            vec![vec![b'p'; 66_000], b"B=2".to_vec()],
            vec![vec![]; 70],
        ]),
    };
    let mut p = c.encode();
    let n = p.len();
    // Truncation, framing, trailing bytes, lengths that lie
    match ch.pick(8) {
        1 => {
            // At any byte of a short header
            if n > 120 {
                return None;
            }
            let at = ch.all(n);
            p.truncate(at);
            if at > 0 && at < 7 {
                // Still fine: too short to even have a signature
            }
            if p.is_empty() {
                // An empty packet, not a missing one
            }
        }
        2 => *p.last_mut().unwrap() = 0,
        3 => *p.last_mut().unwrap() = 0xfe,
        4 => p.extend([0; 40]),
        5 => p[7..11].copy_from_slice(&0xffff_ffffu32.to_le_bytes()),
        6 => {
            let at = 11 + c.vendor.len();
            let v = ch.each(&[0xffff_ffffu32, c.fields.len() as u32 + 1, 0]);
            p[at..at + 4].copy_from_slice(&v.to_le_bytes());
        }
        7 => {
            if c.fields.is_empty() {
                return None;
            }
            let at = 15 + c.vendor.len();
            let v = ch.each(&[0xffff_ffffu32, 0x7fff_ffff, c.fields[0].len() as u32 + 3, 0]);
            p[at..at + 4].copy_from_slice(&v.to_le_bytes());
        }
        _ => (),
    }
    match ch.pick(5) {
        1 if p.len() >= 7 => p[0] = 5,
        2 if p.len() >= 7 => p[3] ^= 0x20,
        3 if p.len() >= 7 => p[0] = 1,
        4 if p.len() >= 7 => p[0] = 7,
        0 => (),
        _ => return None,
    }
    let id = ident(1, 6, 7);
    let st = rich_setup(1);
    let mut s = StreamB::new(8, &id, &st);
    s.comment = p;
    add_audio(&mut s, &id, &st, &SCRIPT[..2]);
    Some(Case { input: s.bytes(), opts, note: "comments".into() })
}

fn ident_space(ch: &mut Chooser, _thorough: bool) -> Option<Case> {
    let mut id = ident(1, 6, 7);
    id.version = ch.of(&[0, 1, 0x0100_0000, u32::MAX]);
    id.channels = ch.of(&[1, 0, 2, 255]);
    id.rate = ch.of(&[8000, 0, 1, 44100, 192_000, u32::MAX]);
    id.br_max = ch.of(&[0, -1, 1, i32::MAX, i32::MIN]);
    id.br_nom = ch.of(&[64000, 0, -1, i32::MAX, i32::MIN]);
    id.br_min = ch.of(&[-1, 0, 5, i32::MAX, i32::MIN]);
    id.bs0 = ch.of(&[6, 0, 1, 5, 7, 8, 13, 14, 15]);
    id.bs1 = ch.of(&[7, 0, 5, 6, 8, 13, 14, 15]);
    id.framing = ch.of(&[1, 0, 2, 3, 255]);
    id.trailing = ch.of(&[vec![], vec![0], vec![7; 300], vec![1, 1]]);
    let mut p = id.encode();
    match ch.pick(4) {
        1 => {
            let n = ch.all(30);
            p.truncate(n);
        }
        2 => p[0] = ch.each(&[0, 3, 5, 2, 255]),
        3 => p[ch.all(6) + 1] ^= 0x20,
        _ => (),
    }
    let mut opts = Opts::default();
    opts.error_no_vorbis = !ch.flag();
    let st = rich_setup(id.channels.max(1));
    let mut s = StreamB::new(8, &id, &st);
    s.ident = p;
    if matches!(Ident::parse(&s.ident), Ok(Some(_))) {
        add_audio(&mut s, &id, &st, &SCRIPT[..2]);
    } else {
        s.push(vec![0], 0);
    }
    Some(Case { input: s.bytes(), opts, note: format!("{id:?}") })
}

fn drops_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let n = ch.all(if thorough { 6 } else { 5 }) + 1;
    let id = ident(1, 6, 8);
    let mut st = rich_setup(1);
    let modes = ch.each(&[2usize, 64]);
    st.modes = (0..modes).map(|i| Mode { big: i % 2 == 1, ..st.modes[0].clone() }).collect();
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(77, &id, &st);
    let mut desc = vec![];
    for i in 0..n {
        let k = ch.all(6);
        desc.push(k);
        match k {
            0 | 1 => {
                let (data, a) = packet(&d, k as u64, i % 2 == 0, i % 3 == 0, Pat::Mix, i as u64);
                s.push(data, a.ok()?.bs);
            }
            // Empty
            2 => {
                s.push(vec![], 0);
            }
            // Ends before the window flags of mode 63
            3 => {
                if modes != 64 {
                    return None;
                }
                s.push(vec![0b0111_1110], 0);
            }
            // Padded with zeroes, ones or a lot of bytes
            4 => {
                let (mut data, a) = packet(&d, 1, false, false, Pat::Mix, i as u64);
                data.extend(vec![0; if i % 2 == 0 { 1 } else { 700 }]);
                s.push(data, a.ok()?.bs);
            }
            _ => {
                let (mut data, a) = packet(&d, 0, false, false, Pat::Max, i as u64);
                let a = a.ok()?;
                let used = a.bits;
                if used % 8 != 0 {
                    let l = data.len();
                    data[l - 1] |= 0xffu8 << (used % 8);
                }
                data.extend([0xff, 0xff]);
                s.push(data, a.bs);
            }
        }
    }
    match ch.all(3) {
        1 => s.audio.iter_mut().for_each(|a| a.brk = true),
        2 => s.audio[0].brk = true,
        _ => (),
    }
    s.start = ch.each(&[0, 500]);
    finish(&s, format!("{modes} modes, {desc:?}"))
}

fn cuts_space(ch: &mut Chooser, thorough: bool) -> Option<Case> {
    let channels = ch.all(2) as u8 + 1;
    let id = ident(channels, 6, 8);
    let mut st = rich_setup(channels);
    st.residues[0].ty = ch.all(3) as u16;
    let d = Dec::new(id.clone(), st.clone()).ok()?;
    let mut s = StreamB::new(77, &id, &st);
    let which = ch.all(3);
    let pat = ch.each(if thorough { &[Pat::Mix, Pat::Max, Pat::Partial(1), Pat::Zero][..] } else { &[Pat::Mix, Pat::Max][..] });
    let mode = ch.all(2) as u64;
    for i in 0..3 {
        let (mut data, a) = packet(&d, if i == which { mode } else { 1 }, true, false, pat, i as u64);
        let bs = a.ok()?.bs;
        if i == which {
            let at = ch.all(data.len());
            data.truncate(at + 1);
            if thorough {
                // And every value of the bits that are left in the last byte
                let keep = ch.all(8);
                let l = data.len();
                data[l - 1] &= 0xff >> keep;
            }
        }
        s.push(data, bs);
    }
    finish(&s, format!("packet {which} cut"))
}

/// With another version, without channels, and with block sizes in the wrong order
const BAD_IDENTS: [&[u8]; 3] = [
    b"\x01vorbis\x01\0\0\0\x01\x40\x1f\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x86\x01",
    b"\x01vorbis\0\0\0\0\0\x40\x1f\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x86\x01",
    b"\x01vorbis\0\0\0\0\x01\x40\x1f\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x67\x01",
];

/// Physical streams made of Vorbis and other logical streams, chained or grouped
fn chain_space(ch: &mut Chooser, _thorough: bool) -> Option<Case> {
    let links = ch.all(4);
    let mut opts = Opts::default();
    opts.error_no_vorbis = ch.all(2) == 0;
    opts.offset = ch.of(&[7, 0, u32::MAX, 0x8000_0000]);
    opts.verify_crc = !ch.flag();
    let mut streams: Vec<Vec<Page>> = vec![];
    for l in 0..links {
        let kind = ch.all(3);
        let serial = ch.of(&[100 + l as u32, u32::MAX - l as u32, l as u32, 100, 102]);
        if kind < 2 {
            let channels = 1 + (l % 2) as u8;
            let id = ident(channels, 6, 7 + l as u8);
            let mut st = rich_setup(channels);
            st.residues[0].ty = l as u16 % 3;
            let mut s = StreamB::new(serial, &id, &st);
            add_audio(&mut s, &id, &st, &SCRIPT[..if kind == 0 { 3 } else { 1 }]);
            s.start = 100 * l as i64;
            s.eos = !ch.flag();
            match ch.pick(4) {
                1 => s.audio.iter_mut().for_each(|a| a.brk = true),
                2 => s.max_segs = 2,
                3 => s.audio.clear(),
                _ => (),
            }
            let mut pages = s.pages();
            if ch.flag() {
                // EOS in the middle of the stream as well
                let m = pages.len() / 2;
                pages[m].flags |= EOS;
            }
            if ch.flag() {
                pages[0].flags |= EOS;
            }
            streams.push(pages);
        } else {
            // Something else
            let first = ch.of(&[&b"OpusHead"[..], b"", b"\x01vorbi", b"\x01vorbiS and more data to make it long enough", b"\x03vorbis comment looking packet that is long", b"\x05vorbis", b"\x02vorbis...........................", b"\x80theora", b"\x01vorbis", BAD_IDENTS[0], BAD_IDENTS[1], BAD_IDENTS[2]]);
            let n = ch.of(&[2usize, 0, 1]);
            let mut pk = vec![(first.to_vec(), 0, true)];
            for i in 0..n {
                pk.push((vec![i as u8; 300], i as i64, i % 2 == 0));
            }
            let o = Paginate { serial, max_segs: 255, bos: true, eos: !ch.flag(), first_seq: 0 };
            streams.push(paginate(&o, &pk));
        }
    }
    // Interleaving: chained by default; other merges of the page sequences
    let pages = match ch.pick(5) {
        0 => streams.concat(),
        1 => {
            // BOS pages first, then alternate
            let mut v: Vec<Page> = streams.iter().map(|s| s[0].clone()).collect();
            let mx = streams.iter().map(|s| s.len()).max().unwrap_or(0);
            for i in 1..mx {
                for s in &streams {
                    v.extend(s.get(i).cloned());
                }
            }
            v
        }
        2 => {
            // BOS pages first, then one stream after the other
            let mut v: Vec<Page> = streams.iter().map(|s| s[0].clone()).collect();
            for s in &streams {
                v.extend(s[1..].iter().cloned());
            }
            v
        }
        k => {
            // The last page of a stream comes after the first (or second) of the next one
            let mut v: Vec<Page> = vec![];
            let mut held: Option<Page> = None;
            for s in &streams {
                for (i, p) in s.iter().enumerate() {
                    if i == s.len() - 1 && s.len() > 1 {
                        if let Some(h) = held.take() {
                            v.push(h);
                        }
                        held = Some(p.clone());
                    } else {
                        v.push(p.clone());
                        if i == k - 3 {
                            v.extend(held.take());
                        }
                    }
                }
            }
            v.extend(held);
            v
        }
    };
    let mut pages = pages;
    // A page with no data at all, which demuxers skip
    if !pages.is_empty() && ch.flag() {
        let i = ch.all(pages.len());
        if i > 0 {
            let mut e = pages[i].clone();
            e.lacing.clear();
            e.body.clear();
            e.flags = if pages[i].flags & CONT != 0 { CONT } else { 0 };
            if pages[i].flags & BOS != 0 {
                return None;
            }
            e.granule = -1;
            pages.insert(i, e);
        }
    }
    if pages.is_empty() {
        // Without a single page there is nothing to find a capture pattern in
        return None;
    }
    Some(Case { input: write_pages(&pages), opts, note: format!("{links} links") })
}

/// Layout of headers, streams with only headers
fn headers_space(ch: &mut Chooser, _thorough: bool) -> Option<Case> {
    let id = ident(1, 6, 7);
    let st = rich_setup(1);
    let mut s = StreamB::new(4, &id, &st);
    let naudio = ch.all(4);
    let ok = add_audio(&mut s, &id, &st, &SCRIPT[..naudio]);
    assert!(ok);
    s.header_break = ch.flag();
    s.max_segs = ch.of(&[255, 1, 2, 3]);
    s.eos = !ch.flag();
    if ch.flag() {
        s.comment = Comments { vendor: vec![b'v'; 255 * 255 - 7 - 4], fields: vec![vec![b'x'; 65_025 * 2]] }.encode();
    }
    let g = s.granules();
    let breaks = ch.pick(4);
    let mut v = vec![
        (s.ident.clone(), 0i64, breaks != 3),
        (s.comment.clone(), 0, s.header_break),
        // Audio data may share a page with the setup header
        (s.setup.clone(), 0, breaks == 0),
    ];
    for (a, g) in s.audio.iter().zip(g) {
        v.push((a.data.clone(), g, breaks == 2));
    }
    // Number of packets present
    let keep = ch.pick(4);
    if keep > 0 {
        v.truncate(keep);
    }
    let o = Paginate { serial: 4, max_segs: s.max_segs, bos: true, eos: s.eos, first_seq: ch.of(&[0, 5]) };
    let mut pages = paginate(&o, &v);
    if ch.flag() {
        // Gap in sequence numbers
        for p in pages.iter_mut().skip(2) {
            p.seq += 3;
        }
    }
    if ch.flag() {
        // Header pages with another granule position
        pages[0].granule = 99;
    }
    let mut opts = Opts::default();
    opts.ignore_start = ch.flag();
    Some(Case { input: write_pages(&pages), opts, note: format!("{naudio} audio packets, keep {keep}") })
}
