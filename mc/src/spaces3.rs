//! Spaces of physical streams that are not well formed, down to their bytes. The reference model
//! still tells which of them have to be accepted, and with what result.

use crate::explore::Chooser;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::spaces2::*;
use crate::vorbis::*;
use std::sync::OnceLock;

/// Two streams, a chain, and a stream grouped after a foreign one
fn base_files() -> &'static [Vec<u8>] {
    static F: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    F.get_or_init(|| {
        let b = bases();
        let mut chain = b[1].clone().bytes();
        let mut c = b[2].clone();
        c.serial = 6;
        c.max_segs = 2;
        chain.extend(c.bytes());
        let mut f = paginate(
            &Paginate { serial: 1, max_segs: 255, bos: true, eos: true, first_seq: 0 },
            &[(b"OpusHead".to_vec(), 0, true), (vec![7; 30], 0, true)],
        );
        f.extend(b[0].pages());
        vec![b[1].bytes(), b[0].bytes(), chain, write_pages(&f)]
    })
}

/// Bytes changed, lost and added, with and without checksum verification
pub fn bytes_space(ch: &mut Chooser, th: bool) -> Option<Case> {
    let fs = base_files();
    let i = ch.all(fs.len());
    let mut b = fs[i].clone();
    let at = ch.all(b.len());
    let mut note = format!("file {i}");
    let k = ch.all(5);
    match k {
        0 => b[at] = if th { ch.all(256) as u8 } else { ch.each(&[0, 1, 2, 4, 0x7f, 0x80, 0xfe, 0xff, b'O']) },
        1 => b.truncate(at),
        2 => {
            b.remove(at);
        }
        3 => b.insert(at, ch.each(&[0, 0xff, b'O'])),
        _ => {
            // The beginning is lost
            b.drain(..at);
        }
    }
    note += &format!(", edit {k} at {at}");
    if th && k == 0 && i == 0 {
        let d = ch.all(8);
        if d > 0 && at + d < b.len() {
            b[at + d] = ch.each(&[0, 1, 0xff]);
            note += &format!(" and {}", at + d);
        }
    }
    let mut o = Opts::default();
    o.verify_crc = ch.all(2) == 1;
    o.error_no_vorbis = o.verify_crc;
    Some(Case { input: b, opts: o, note })
}

/// Pages changed, lost, repeated and moved, with valid checksums
pub fn pages_space(ch: &mut Chooser, th: bool) -> Option<Case> {
    let fs = base_files();
    let i = ch.all(fs.len());
    let mut p = parse_pages(&fs[i], true).ok()?;
    let n = ch.all(if th { 4 } else { 3 });
    let mut note = format!("file {i}");
    for _ in 0..n {
        if p.is_empty() {
            return None;
        }
        let at = ch.all(p.len());
        let k = ch.all(13);
        note += &format!(", edit {k} of page {at}");
        match k {
            0 => {
                p.remove(at);
            }
            1 => {
                let x = p[at].clone();
                p.insert(at, x);
            }
            2 => {
                let x = p.remove(at);
                p.push(x);
            }
            3 => p[at].flags ^= CONT,
            4 => p[at].flags ^= BOS,
            5 => p[at].flags ^= EOS,
            6 => p[at].granule = i64::MIN,
            7 => p[at].granule = i64::MAX,
            8 => p[at].serial ^= 1,
            9 => p[at].seq = p[at].seq.wrapping_sub(1),
            10 => {
                // The last packet does not end here
                let l = p[at].lacing.len();
                if l == 0 {
                    return None;
                }
                let old = p[at].lacing[l - 1];
                p[at].lacing[l - 1] = 255;
                let grow = 255 - old as usize;
                p[at].body.extend(vec![0; grow]);
            }
            11 => {
                p[at].lacing.clear();
                p[at].body.clear();
            }
            _ => {
                p[at].lacing.insert(0, 0);
            }
        }
    }
    Some(Case { input: write_pages(&p), opts: Opts { error_no_vorbis: false, ..Opts::default() }, note })
}

/// Chains whose links share serial numbers, which the Ogg specification forbids, but which plain
/// concatenation of files gives
pub fn repeats_space(ch: &mut Chooser, th: bool) -> Option<Case> {
    let links = ch.all(if th { 3 } else { 2 }) + 2;
    let mut pages: Vec<Page> = vec![];
    let mut note = String::new();
    for l in 0..links {
        let k = ch.all(6);
        let mut s = bases()[k % 3].clone();
        s.serial = 5 + ch.all(2) as u32;
        if k >= 3 {
            s.audio.truncate(1);
        }
        let mut p = s.pages();
        match ch.all(3) {
            1 => {
                p.truncate(2);
            }
            2 => {
                p.pop();
            }
            _ => (),
        }
        note += &format!("{l}: {k} ");
        pages.extend(p);
    }
    Some(Case { input: write_pages(&pages), opts: Opts { error_no_vorbis: false, ..Opts::default() }, note })
}

/// What is not a page, before, between and after pages
pub fn junk_space(ch: &mut Chooser, th: bool) -> Option<Case> {
    let fs = base_files();
    let i = ch.all(fs.len());
    let pages = parse_pages(&fs[i], true).ok()?;
    let mut out = vec![];
    let mut note = format!("file {i}");
    for (n, p) in pages.iter().map(Some).chain([None]).enumerate() {
        let mut fake = vec![];
        let mut template = pages[0].clone();
        let k = ch.pick(16);
        match k {
            0 => (),
            1 => out.push(b'O'),
            2 => out.extend(b"Og"),
            3 => out.extend(b"OgOgg"),
            4 => out.extend(b"Oggg"),
            5 => out.extend(b"OggS"),
            6 => out.extend([0; 23]),
            7 => out.extend([0; 26]),
            8 => out.extend([b'O'; 27]),
            9 => out.extend([0xff; 1023]),
            10 => out.extend(b"Ogg".iter().copied().cycle().take(1025)),
            11 => out.extend(vec![b'S'; 100_000]),
            // The header of a page that does not follow
            12 => {
                template.lacing = vec![255; 255];
                template.body = vec![];
                template.write(&mut fake);
                out.extend(&fake[..27]);
            }
            // An empty page of another logical stream
            13 => {
                template.serial ^= 0x77;
                template.lacing = vec![];
                template.body = vec![];
                template.flags = BOS | EOS;
                template.write(&mut out);
            }
            // And one of another version
            14 => {
                template.serial ^= 0x77;
                template.write(&mut fake);
                fake[4] = ch.each(&[1, 0xff]);
                out.extend(fake);
            }
            // A page whose beginning was lost
            _ => {
                pages[ch.all(pages.len())].write(&mut fake);
                out.extend(&fake[ch.each(&[1, 3, 4, 27])..]);
            }
        }
        if k > 0 {
            note += &format!(", junk {k} before page {n}");
        }
        if let Some(p) = p {
            p.write(&mut out);
        }
    }
    let mut o = Opts::default();
    o.verify_crc = if th { ch.all(2) == 1 } else { true };
    Some(Case { input: out, opts: o, note })
}

/// Books of every pass of a residue, suitable and not
pub fn passes_space(ch: &mut Chooser, th: bool) -> Option<Case> {
    let id = ident(1, 6, 6);
    let mut st = tiny_setup(&[1, 2, 2]);
    let psize = ch.each(&[1u32, 2, 3, 4, 6]);
    let r = &mut st.residues[0];
    r.ty = ch.each(&[0, 1, 2]);
    r.end = 12;
    r.psize = psize;
    let kind = ch.all(8);
    let book = match kind {
        0 => Codebook::scalar(&[1, 2, 2]),
        1 => Codebook::scalar(&[1, 2, 2]).vq(1, 4),
        2 => Codebook::scalar(&[1, 2, 2]).with_dims(2).vq(2, 4),
        3 => Codebook::scalar(&[1, 2, 2]).with_dims(3).vq(2, 4),
        4 => Codebook::scalar(&[1, 2, 2]).with_dims(0).vq(2, 4),
        5 => Codebook::scalar(&[1, 2, 2]).with_dims(12).vq(2, 4),
        6 => Codebook::scalar(&[0, 0, 0]).vq(2, 4),
        _ => Codebook::scalar(&[0, 1, 0]).vq(2, 4),
    };
    st.books.push(book);
    let n = st.books.len() as u8 - 1;
    // Which passes have the book in question, and which have another
    let at = ch.all(8);
    let others = if th { ch.all(128) as u8 } else { ch.each(&[0u8, 1, 0x40, 0x2a, 0x7f]) };
    let class = ch.all(2);
    let mut c = [None; 8];
    let mut o = others;
    for (p, b) in c.iter_mut().enumerate() {
        if p == at {
            *b = Some(n);
        } else {
            if o & 1 == 1 {
                *b = Some(1);
            }
            o >>= 1;
        }
    }
    st.residues[0].books[class] = c;
    let mut s = StreamB::new(5, &id, &st);
    let script = ch.each(&[&[Pat::Mix][..], &[Pat::Zero], &[Pat::Max], &[Pat::Silent, Pat::Silent, Pat::Mix, Pat::Max]]);
    let script: Vec<_> = script.iter().map(|p| (0, false, false, *p)).collect();
    crate::spaces::add_audio(&mut s, &id, &st, &script);
    // What would have been read next, too
    if ch.all(2) == 1 {
        let a = s.audio.last_mut()?;
        a.data.extend([0x5a; 3]);
    }
    crate::spaces::finish(&s, format!("book of kind {kind} in pass {at} of class {class}, others {others:#x}, partitions of {psize}"))
}

/// Calls `f` with the width, in bits, and the value of everything in a setup that refers to
/// something else
fn references(st: &mut Setup, channels: u8, mut f: impl FnMut(u32, i16) -> i16) {
    fn byte(x: &mut u8, width: u32, f: &mut impl FnMut(u32, i16) -> i16) {
        *x = f(width, *x as i16) as u8;
    }
    let f = &mut f;
    for l in &mut st.floors {
        let used = l.parts.iter().copied().max().map_or(0, |m| m as usize + 1);
        for c in l.classes.iter_mut().take(used) {
            if c.sub > 0 {
                byte(&mut c.master, 8, f);
            }
            for b in &mut c.books {
                *b = f(8, *b + 1) - 1;
            }
        }
    }
    for r in &mut st.residues {
        byte(&mut r.classbook, 8, f);
        for b in r.books.iter_mut().flatten().flatten() {
            byte(b, 8, f);
        }
    }
    let bits = 8 - (channels - 1).leading_zeros();
    for m in &mut st.mappings {
        for s in &mut m.submaps {
            byte(&mut s.floor, 8, f);
            byte(&mut s.residue, 8, f);
        }
        for (a, b) in &mut m.coupling {
            byte(a, bits, f);
            byte(b, bits, f);
        }
        if m.submaps.len() > 1 {
            for x in &mut m.mux {
                byte(x, 4, f);
            }
        }
    }
    for m in &mut st.modes {
        byte(&mut m.mapping, 8, f);
    }
}

/// Every reference of a setup, to what is there and what is not; numbers and values of floor points
pub fn refs_space(ch: &mut Chooser, th: bool) -> Option<Case> {
    let channels = 5;
    let mut st = rich_setup(channels);
    let mut note;
    match ch.all(3) {
        0 => {
            let mut fl = st.floors[0].clone();
            fl.parts = vec![2, 0, 3, 1];
            fl.classes = vec![
                FClass { dim: 2, sub: 1, master: 2, books: vec![3, -1] },
                FClass { dim: 1, sub: 0, master: 0, books: vec![3] },
                FClass { dim: 3, sub: 2, master: 2, books: vec![-1, 3, 2, 3] },
                FClass { dim: 2, sub: 3, master: 2, books: vec![3, 3, -1, 2, 3, -1, 2, 3] },
            ];
            fl.xs = (1..=8).map(|x| x * 7 % 64).collect();
            st.floors.extend([fl.clone(), fl]);
            let mut r = st.residues[0].clone();
            r.books[0] = [Some(1); 8];
            r.books[1][7] = Some(4);
            st.residues.extend([r.clone(), r]);
            let mut m = st.mappings[0].clone();
            m.coupling = vec![(0, 1), (2, 0), (3, 4)];
            m.submaps = (0..3).map(|i| Submap { time: 0, floor: i, residue: i }).collect();
            m.mux = vec![0, 2, 1, 1, 0];
            st.mappings.extend([m.clone(), m]);
            for i in 1..4 {
                st.modes.push(Mode { big: i % 2 == 0, window: 0, transform: 0, mapping: i % 3 });
            }
            let mut n = 0;
            references(&mut st, channels, |_, v| {
                n += 1;
                v
            });
            let at = ch.all(n);
            let to = if th { ch.all(256) as i16 } else { ch.each(&[0i16, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 64, 128, 254, 255]) };
            let (mut i, mut fits) = (0, true);
            references(&mut st, channels, |w, v| {
                i += 1;
                if i - 1 != at {
                    return v;
                }
                fits = to < 1 << w;
                to
            });
            if !fits {
                return None;
            }
            note = format!("reference {at} of {n} is {to}");
        }
        1 => {
            // Points of a floor, up to the most there may be, and more
            let n = ch.each(&[1usize, 31, 61, 62, 63, 64, 65, 66, 100, 127, 248]);
            let range_bits = ch.all(16) as u8;
            let mult = ch.all(4) as u8 + 1;
            let i = ch.all(3);
            if (1usize << range_bits) <= n {
                return None;
            }
            let dim = (1..=8).rev().find(|d| n % d == 0 && n / d <= 31)?;
            let fl = Floor {
                ty: 1,
                parts: vec![0; n / dim],
                classes: vec![FClass { dim: dim as u8, sub: 0, master: 0, books: vec![3] }],
                mult,
                range_bits,
                xs: (1..=n as u32).collect(),
            };
            let plain = st.floors[0].clone();
            st.floors = vec![plain; 3];
            st.floors[i] = fl;
            st.mappings[0].submaps[0].floor = i as u8;
            note = format!("floor {i} of {n} points of {range_bits} bits");
        }
        _ => {
            // Points that are equal
            let i = ch.all(3);
            let plain = st.floors[0].clone();
            st.floors = vec![plain; 3];
            let f = &mut st.floors[i];
            f.parts = vec![0, 1, 0, 0];
            let used = 7;
            f.xs = vec![5, 33, 12, 60, 20, 1, 63];
            let (a, b) = (ch.all(used), ch.all(used + 1));
            f.xs[a] = if b == used { 0 } else { f.xs[b] };
            note = format!("point {a} of floor {i} is like point {b}");
        }
    }
    let id = ident(channels, 6, 6);
    let mut s = StreamB::new(5, &id, &st);
    let script: Vec<_> = (0..st.modes.len() as u64).map(|m| (m, false, false, Pat::Mix)).collect();
    if Setup::parse(&s.setup, channels).is_ok() {
        crate::spaces::add_audio(&mut s, &id, &st, &script);
    }
    // There is audio even if it can't be known what it is
    if s.audio.is_empty() {
        s.push(vec![0; 8], 64);
        note += ", any audio";
    }
    crate::spaces::finish(&s, note)
}
