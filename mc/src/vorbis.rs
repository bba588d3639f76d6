//! Independent model of the Vorbis I headers: structures, encoder and parser.
//! Written from the Vorbis I specification; error conditions mirror the documented
//! leniency of the code under test (see DESIGN.md, "reference model").

use crate::bits::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    /// End of packet
    Eop,
    Bad(&'static str),
}
pub type R<T> = Result<T, E>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ident {
    pub version: u32,
    pub channels: u8,
    pub rate: u32,
    pub br_max: i32,
    pub br_nom: i32,
    pub br_min: i32,
    pub bs0: u8,
    pub bs1: u8,
    pub framing: u8,
    pub trailing: Vec<u8>,
}

impl Ident {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = b"\x01vorbis".to_vec();
        v.extend(self.version.to_le_bytes());
        v.push(self.channels);
        v.extend(self.rate.to_le_bytes());
        v.extend(self.br_max.to_le_bytes());
        v.extend(self.br_nom.to_le_bytes());
        v.extend(self.br_min.to_le_bytes());
        v.push(self.bs0 | self.bs1 << 4);
        v.push(self.framing);
        v.extend(&self.trailing);
        v
    }
    /// `Ok(None)`: not a Vorbis identification header at all
    pub fn parse(p: &[u8]) -> R<Option<Ident>> {
        if p.len() < 7 || p[0] != 1 || &p[1..7] != b"vorbis" {
            return Ok(None);
        }
        if p.len() < 30 {
            return Err(E::Bad("short ident"));
        }
        let u = |i: usize| u32::from_le_bytes(p[i..i + 4].try_into().unwrap());
        let id = Ident {
            version: u(7),
            channels: p[11],
            rate: u(12),
            br_max: u(16) as i32,
            br_nom: u(20) as i32,
            br_min: u(24) as i32,
            bs0: p[28] & 15,
            bs1: p[28] >> 4,
            framing: p[29],
            trailing: p[30..].to_vec(),
        };
        if id.version != 0 {
            return Err(E::Bad("ident version"));
        }
        if id.channels == 0 {
            return Err(E::Bad("ident channels"));
        }
        if id.rate == 0 {
            return Err(E::Bad("ident rate"));
        }
        if id.bs0 < 6 || id.bs0 > 13 || id.bs1 < 6 || id.bs1 > 13 || id.bs0 > id.bs1 {
            return Err(E::Bad("ident blocksizes"));
        }
        Ok(Some(id))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LenFmt {
    Unordered,
    Sparse,
    Ordered,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Codebook {
    pub dims: u16,
    pub lens: Vec<u8>,
    pub fmt: LenFmt,
    pub lookup: u8,
    pub min: u32,
    pub delta: u32,
    pub value_bits: u8,
    pub seq: bool,
    pub mult: Vec<u32>,
    /// Sync pattern as written
    pub sync: u32,
}

impl Codebook {
    pub fn scalar(lens: &[u8]) -> Self {
        Codebook {
            dims: 1,
            lens: lens.to_vec(),
            fmt: if lens.contains(&0) { LenFmt::Sparse } else { LenFmt::Unordered },
            lookup: 0,
            min: 0,
            delta: 0,
            value_bits: 1,
            seq: false,
            mult: vec![],
            sync: 0x564342,
        }
    }
    pub fn lookup_count(&self) -> u64 {
        match self.lookup {
            1 => lookup1_values(self.lens.len() as u32, self.dims as u32),
            2 => self.lens.len() as u64 * self.dims as u64,
            _ => 0,
        }
    }
    pub fn with_dims(mut self, d: u16) -> Self {
        self.dims = d;
        self
    }
    /// Turns this in a VQ book with default looking values
    pub fn vq(mut self, lookup: u8, value_bits: u8) -> Self {
        self.lookup = lookup;
        self.min = pack_exact(-1, 0);
        self.delta = pack_exact(1, -1);
        self.value_bits = value_bits;
        let n = self.lookup_count();
        let m = (1u64 << value_bits) - 1;
        self.mult = (0..n).map(|i| ((i * 5 + 1) & m) as u32).collect();
        self
    }
}

/// Vorbis float32 word for `m * 2^e` with no normalisation
pub fn pack_exact(m: i32, e: i32) -> u32 {
    let s = if m < 0 { 0x8000_0000u32 } else { 0 };
    s | (((e + 788) as u32) << 21) | (m.unsigned_abs() & 0x1f_ffff)
}

/// Vorbis float32 words of the kind encoders write: normalised, 21 bit mantissa
pub fn pack_norm(mut m: i64, mut e: i32) -> u32 {
    if m == 0 {
        return 0;
    }
    let s = m < 0;
    m = m.abs();
    while m >= 1 << 21 {
        m >>= 1;
        e += 1;
    }
    while m < 1 << 20 {
        m <<= 1;
        e -= 1;
    }
    (if s { 0x8000_0000u32 } else { 0 }) | (((e + 788) as u32) << 21) | m as u32
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FClass {
    pub dim: u8,
    pub sub: u8,
    pub master: u8,
    /// -1: no book
    pub books: Vec<i16>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Floor {
    pub ty: u16,
    pub parts: Vec<u8>,
    pub classes: Vec<FClass>,
    pub mult: u8,
    pub range_bits: u8,
    pub xs: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Residue {
    pub ty: u16,
    pub begin: u32,
    pub end: u32,
    pub psize: u32,
    pub classbook: u8,
    /// One row per classification
    pub books: Vec<[Option<u8>; 8]>,
    /// Write the high bits flag even if no high bit is set
    pub long_cascade: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Submap {
    pub time: u8,
    pub floor: u8,
    pub residue: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mapping {
    pub ty: u16,
    pub submaps: Vec<Submap>,
    /// Write the submap flag even if there is a single submap
    pub long_submaps: bool,
    pub coupling: Vec<(u8, u8)>,
    pub reserved: u8,
    pub mux: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mode {
    pub big: bool,
    pub window: u16,
    pub transform: u16,
    pub mapping: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Setup {
    pub books: Vec<Codebook>,
    pub times: Vec<u16>,
    pub floors: Vec<Floor>,
    pub residues: Vec<Residue>,
    pub mappings: Vec<Mapping>,
    pub modes: Vec<Mode>,
    pub framing: bool,
    pub trailing: Vec<u8>,
}

impl Setup {
    pub fn encode(&self, channels: u8) -> Vec<u8> {
        self.encode_to(channels).bytes
    }
    pub fn encode_to(&self, channels: u8) -> BW {
        let mut w = BW::new();
        w.put_bytes(b"\x05vorbis");
        w.put(self.books.len() as u64 - 1, 8);
        for b in &self.books {
            enc_book(b, &mut w);
        }
        w.put(self.times.len() as u64 - 1, 6);
        for &t in &self.times {
            w.put(t as u64, 16);
        }
        w.put(self.floors.len() as u64 - 1, 6);
        for f in &self.floors {
            w.put(f.ty as u64, 16);
            w.put(f.parts.len() as u64, 5);
            for &p in &f.parts {
                w.put(p as u64, 4);
            }
            for c in &f.classes {
                w.put(c.dim as u64 - 1, 3);
                w.put(c.sub as u64, 2);
                if c.sub > 0 {
                    w.put(c.master as u64, 8);
                }
                for &b in &c.books {
                    w.put((b + 1) as u64, 8);
                }
            }
            w.put(f.mult as u64 - 1, 2);
            w.put(f.range_bits as u64, 4);
            for &x in &f.xs {
                w.put(x as u64, f.range_bits as u32);
            }
        }
        w.put(self.residues.len() as u64 - 1, 6);
        for r in &self.residues {
            w.put(r.ty as u64, 16);
            w.put(r.begin as u64, 24);
            w.put(r.end as u64, 24);
            w.put(r.psize as u64 - 1, 24);
            w.put(r.books.len() as u64 - 1, 6);
            w.put(r.classbook as u64, 8);
            for row in &r.books {
                let mut m = 0u64;
                for (i, b) in row.iter().enumerate() {
                    m |= (b.is_some() as u64) << i;
                }
                w.put(m & 7, 3);
                let hi = m >> 3 != 0 || r.long_cascade;
                w.bit(hi);
                if hi {
                    w.put(m >> 3, 5);
                }
            }
            for row in &r.books {
                for b in row.iter().flatten() {
                    w.put(*b as u64, 8);
                }
            }
        }
        w.put(self.mappings.len() as u64 - 1, 6);
        for m in &self.mappings {
            w.put(m.ty as u64, 16);
            let sf = m.submaps.len() > 1 || m.long_submaps;
            w.bit(sf);
            if sf {
                w.put(m.submaps.len() as u64 - 1, 4);
            }
            w.bit(!m.coupling.is_empty());
            if !m.coupling.is_empty() {
                w.put(m.coupling.len() as u64 - 1, 8);
                let n = ilog(channels as i64 - 1);
                for &(a, b) in &m.coupling {
                    w.put(a as u64, n);
                    w.put(b as u64, n);
                }
            }
            w.put(m.reserved as u64, 2);
            if m.submaps.len() > 1 {
                for &x in &m.mux {
                    w.put(x as u64, 4);
                }
            }
            for s in &m.submaps {
                w.put(s.time as u64, 8);
                w.put(s.floor as u64, 8);
                w.put(s.residue as u64, 8);
            }
        }
        w.put(self.modes.len() as u64 - 1, 6);
        for m in &self.modes {
            w.bit(m.big);
            w.put(m.window as u64, 16);
            w.put(m.transform as u64, 16);
            w.put(m.mapping as u64, 8);
        }
        w.bit(self.framing);
        if !self.trailing.is_empty() {
            while w.nbits % 8 != 0 {
                w.bit(false);
            }
            w.put_bytes(&self.trailing);
        }
        w
    }

    /// Returns the setup, and the list of places where the packet departs from what the
    /// specification mandates, although a lenient decoder can ignore that.
    pub fn parse(p: &[u8], channels: u8) -> R<(Setup, Vec<String>)> {
        if p.len() < 7 {
            return Err(E::Eop);
        }
        if p[0] != 5 {
            return Err(E::Bad("setup packet type"));
        }
        if &p[1..7] != b"vorbis" {
            return Err(E::Bad("setup signature"));
        }
        let mut nc: Vec<String> = vec![];
        let mut r = BR::new(&p[7..]);
        macro_rules! get {
            ($n:expr) => {
                r.get($n as u32).ok_or(E::Eop)?
            };
        }
        let nbooks = get!(8) + 1;
        let mut books = vec![];
        for i in 0..nbooks {
            let b = parse_book(&mut r)?;
            if b.sync != 0x564342 {
                nc.push(format!("codebook {i} sync pattern"));
            }
            // Codebook trees are built as they are parsed
            crate::dec::Tree::new(&b.lens).map_err(E::Bad)?;
            books.push(b);
        }
        let ntimes = get!(6) + 1;
        let mut times = vec![];
        for _ in 0..ntimes {
            let t = get!(16) as u16;
            if t != 0 {
                nc.push("time domain transform not zero".into());
            }
            times.push(t);
        }
        let nfloors = get!(6) + 1;
        let mut floors = vec![];
        for _ in 0..nfloors {
            let ty = get!(16) as u16;
            if ty != 1 {
                return Err(E::Bad("floor type"));
            }
            let np = get!(5);
            let mut parts = vec![];
            for _ in 0..np {
                parts.push(get!(4) as u8);
            }
            let ncls = parts.iter().map(|&c| c as usize + 1).max().unwrap_or(0);
            let mut classes = vec![];
            for _ in 0..ncls {
                let dim = get!(3) as u8 + 1;
                let sub = get!(2) as u8;
                let mut master = 0;
                if sub > 0 {
                    master = get!(8) as u8;
                    if master as usize >= books.len() {
                        return Err(E::Bad("floor masterbook"));
                    }
                }
                let mut bs = vec![];
                for _ in 0..1 << sub {
                    let b = get!(8) as i16 - 1;
                    if b >= books.len() as i16 {
                        return Err(E::Bad("floor subclass book"));
                    }
                    bs.push(b);
                }
                classes.push(FClass { dim, sub, master, books: bs });
            }
            let mult = get!(2) as u8 + 1;
            let range_bits = get!(4) as u8;
            let mut xs = vec![];
            for &c in &parts {
                for _ in 0..classes[c as usize].dim {
                    let x = get!(range_bits) as u32;
                    // The first two points are implicit: 0 and 1 << range_bits
                    if x == 0 || xs.contains(&x) {
                        return Err(E::Bad("floor repeated x"));
                    }
                    xs.push(x);
                }
            }
            if xs.len() + 2 > 65 {
                return Err(E::Bad("floor too many points"));
            }
            floors.push(Floor { ty, parts, classes, mult, range_bits, xs });
        }
        let nres = get!(6) + 1;
        let mut residues = vec![];
        for i in 0..nres {
            let ty = get!(16) as u16;
            if ty > 2 {
                return Err(E::Bad("residue type"));
            }
            let begin = get!(24) as u32;
            let end = get!(24) as u32;
            if end < begin {
                nc.push(format!("residue {i} end before begin"));
            }
            let psize = get!(24) as u32 + 1;
            let ncl = get!(6) as usize + 1;
            let classbook = get!(8) as u8;
            let Some(cb) = books.get(classbook as usize) else {
                return Err(E::Bad("residue classbook"));
            };
            let mut need: u128 = 1;
            for _ in 0..cb.dims {
                need *= ncl as u128;
                if need > u32::MAX as u128 || ncl == 1 {
                    break;
                }
            }
            if need > cb.lens.len() as u128 {
                return Err(E::Bad("residue classbook too small"));
            }
            let mut casc = vec![];
            let mut long_cascade = false;
            for _ in 0..ncl {
                let lo = get!(3);
                let hi = if get!(1) == 1 {
                    let h = get!(5);
                    long_cascade |= h == 0;
                    h
                } else {
                    0
                };
                casc.push(hi << 3 | lo);
            }
            let mut rows = vec![];
            for c in casc {
                let mut row = [None; 8];
                for (j, e) in row.iter_mut().enumerate() {
                    if c >> j & 1 == 1 {
                        let b = get!(8) as u8;
                        if b as usize >= books.len() {
                            return Err(E::Bad("residue book"));
                        }
                        *e = Some(b);
                    }
                }
                rows.push(row);
            }
            residues.push(Residue { ty, begin, end, psize, classbook, books: rows, long_cascade });
        }
        let nmap = get!(6) + 1;
        let mut mappings = vec![];
        for _ in 0..nmap {
            let ty = get!(16) as u16;
            if ty != 0 {
                return Err(E::Bad("mapping type"));
            }
            let sf = get!(1) == 1;
            let ns = if sf { get!(4) + 1 } else { 1 };
            let mut coupling = vec![];
            if get!(1) == 1 {
                let n = get!(8) + 1;
                let w = ilog(channels as i64 - 1);
                for _ in 0..n {
                    let a = get!(w) as u8;
                    let b = get!(w) as u8;
                    if a == b || a >= channels || b >= channels {
                        return Err(E::Bad("coupling channels"));
                    }
                    coupling.push((a, b));
                }
            }
            let reserved = get!(2) as u8;
            if reserved != 0 {
                nc.push("mapping reserved field not zero".into());
            }
            let mut mux = vec![0u8; channels as usize];
            if ns > 1 {
                for m in &mut mux {
                    *m = get!(4) as u8;
                    if *m as u64 >= ns {
                        return Err(E::Bad("mux submap"));
                    }
                }
            }
            let mut submaps = vec![];
            for _ in 0..ns {
                let time = get!(8) as u8;
                let floor = get!(8) as u8;
                if floor as usize >= floors.len() {
                    return Err(E::Bad("submap floor"));
                }
                let residue = get!(8) as u8;
                if residue as usize >= residues.len() {
                    return Err(E::Bad("submap residue"));
                }
                submaps.push(Submap { time, floor, residue });
            }
            mappings.push(Mapping { ty, submaps, long_submaps: sf && ns == 1, coupling, reserved, mux });
        }
        let nmodes = get!(6) + 1;
        let mut modes = vec![];
        for _ in 0..nmodes {
            let big = get!(1) == 1;
            let window = get!(16) as u16;
            let transform = get!(16) as u16;
            let mapping = get!(8) as u8;
            if mapping as usize >= mappings.len() {
                return Err(E::Bad("mode mapping"));
            }
            if window != 0 || transform != 0 {
                nc.push("mode window or transform type not zero".into());
            }
            modes.push(Mode { big, window, transform, mapping });
        }
        let framing = match r.bit() {
            Some(b) => b,
            None => {
                nc.push("framing flag missing".into());
                false
            }
        };
        if !framing {
            nc.push("framing flag not set".into());
        }
        while r.pos % 8 != 0 {
            if r.bit() == Some(true) {
                nc.push("padding bits not zero".into());
                break;
            }
        }
        r.pos = (r.pos + 7) / 8 * 8;
        let trailing = r.d[(r.pos / 8).min(r.d.len())..].to_vec();
        if !trailing.is_empty() {
            nc.push("trailing bytes after setup".into());
        }
        Ok((Setup { books, times, floors, residues, mappings, modes, framing, trailing }, nc))
    }

    /// The setup that decodes the same, without anything that a decoder ignores and with
    /// codeword lengths removed
    pub fn semantic(&self) -> Setup {
        let mut s = self.clone();
        for b in &mut s.books {
            b.sync = 0x564342;
            b.fmt = LenFmt::Unordered;
            b.lens = vec![0; b.lens.len()];
            if b.lookup == 0 {
                b.min = 0;
                b.delta = 0;
                b.value_bits = 1;
                b.seq = false;
            }
            // The same number can be written in several ways
            b.min = canon_float(b.min);
            b.delta = canon_float(b.delta);
        }
        s.times = vec![0];
        for r in &mut s.residues {
            r.end = r.end.max(r.begin);
            r.long_cascade = false;
        }
        for m in &mut s.mappings {
            m.long_submaps = false;
            m.reserved = 0;
            for x in &mut m.submaps {
                x.time = 0;
            }
        }
        for m in &mut s.modes {
            m.window = 0;
            m.transform = 0;
        }
        s.framing = true;
        s.trailing = vec![];
        s
    }
}

/// Canonical representative of the words that unpack to the same number
pub fn canon_float(w: u32) -> u32 {
    let s = w & 0x8000_0000;
    let mut m = w & 0x1f_ffff;
    let mut e = (w >> 21) & 0x3ff;
    if m == 0 {
        return 0;
    }
    while m & 0x10_0000 == 0 && e > 0 {
        m <<= 1;
        e -= 1;
    }
    s | e << 21 | m
}

pub fn enc_book(b: &Codebook, w: &mut BW) {
    w.put(b.sync as u64, 24);
    w.put(b.dims as u64, 16);
    w.put(b.lens.len() as u64, 24);
    match b.fmt {
        LenFmt::Ordered => {
            w.bit(true);
            let mut cur = b.lens.first().copied().unwrap_or(1);
            w.put(cur as u64 - 1, 5);
            let mut i = 0;
            while i < b.lens.len() {
                let n = b.lens[i..].iter().take_while(|&&l| l == cur).count();
                w.put(n as u64, ilog((b.lens.len() - i) as i64));
                i += n;
                cur += 1;
                assert!(cur <= 34 && (i == b.lens.len() || b.lens[i] >= cur));
            }
        }
        LenFmt::Unordered => {
            w.bit(false);
            w.bit(false);
            for &l in &b.lens {
                w.put(l as u64 - 1, 5);
            }
        }
        LenFmt::Sparse => {
            w.bit(false);
            w.bit(true);
            for &l in &b.lens {
                w.bit(l > 0);
                if l > 0 {
                    w.put(l as u64 - 1, 5);
                }
            }
        }
    }
    w.put(b.lookup as u64, 4);
    if b.lookup > 0 {
        w.put(b.min as u64, 32);
        w.put(b.delta as u64, 32);
        w.put(b.value_bits as u64 - 1, 4);
        w.bit(b.seq);
        for &m in &b.mult {
            w.put(m as u64, b.value_bits as u32);
        }
    }
}

/// Codebook entries that a setup packet declares before it stops making sense, and most dimensions
pub fn declared(p: &[u8]) -> (u64, u64) {
    let Some(p) = p.get(7..).filter(|p| !p.is_empty()) else { return (0, 0) };
    let mut r = BR::new(p);
    let n = r.get(8).unwrap_or(0) + 1;
    let (mut sum, mut most) = (0, 0);
    for _ in 0..n {
        let mut at = r.clone();
        let d = at.get(24).and_then(|_| at.get(16));
        sum += at.get(24).unwrap_or(0);
        most = most.max(d.unwrap_or(0));
        if parse_book(&mut r).is_err() {
            break;
        }
    }
    (sum, most)
}

fn parse_book(r: &mut BR) -> R<Codebook> {
    macro_rules! get {
        ($n:expr) => {
            r.get($n as u32).ok_or(E::Eop)?
        };
    }
    let sync = get!(24) as u32;
    let dims = get!(16) as u16;
    let n = get!(24) as usize;
    let mut lens = vec![0u8; n];
    let fmt;
    if get!(1) == 1 {
        fmt = LenFmt::Ordered;
        let mut l = get!(5) as u8 + 1;
        let mut i = 0;
        while i < n {
            if l > 32 {
                return Err(E::Bad("codeword length"));
            }
            let c = get!(ilog((n - i) as i64)) as usize;
            if i + c > n {
                return Err(E::Bad("ordered run"));
            }
            lens[i..i + c].fill(l);
            i += c;
            l += 1;
        }
    } else if get!(1) == 1 {
        fmt = LenFmt::Sparse;
        for l in &mut lens {
            if get!(1) == 1 {
                *l = get!(5) as u8 + 1;
            }
        }
    } else {
        fmt = LenFmt::Unordered;
        for l in &mut lens {
            *l = get!(5) as u8 + 1;
        }
    }
    let lookup = get!(4) as u8;
    let mut b = Codebook { dims, lens, fmt, lookup, min: 0, delta: 0, value_bits: 1, seq: false, mult: vec![], sync };
    if lookup > 2 {
        return Err(E::Bad("lookup type"));
    }
    if lookup > 0 {
        b.min = get!(32) as u32;
        b.delta = get!(32) as u32;
        b.value_bits = get!(4) as u8 + 1;
        b.seq = get!(1) == 1;
        for _ in 0..b.lookup_count() {
            b.mult.push(get!(b.value_bits) as u32);
        }
    }
    Ok(b)
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Comments {
    pub vendor: Vec<u8>,
    pub fields: Vec<Vec<u8>>,
}

impl Comments {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = b"\x03vorbis".to_vec();
        v.extend((self.vendor.len() as u32).to_le_bytes());
        v.extend(&self.vendor);
        v.extend((self.fields.len() as u32).to_le_bytes());
        for f in &self.fields {
            v.extend((f.len() as u32).to_le_bytes());
            v.extend(f);
        }
        v.push(1);
        v
    }
    /// Reads as much as possible. `None` vendor: not even the vendor could be read.
    pub fn parse_lenient(p: &[u8]) -> R<(Option<Vec<u8>>, Vec<Vec<u8>>)> {
        let body = if p.len() < 7 {
            &[][..]
        } else {
            if p[0] != 3 {
                return Err(E::Bad("comment packet type"));
            }
            if &p[1..7] != b"vorbis" {
                return Err(E::Bad("comment signature"));
            }
            &p[7..]
        };
        let mut i = 0usize;
        let mut take = |n: usize| -> Option<&[u8]> {
            let s = body.get(i..i.checked_add(n)?)?;
            i += n;
            Some(s)
        };
        let u = |s: &[u8]| u32::from_le_bytes(s.try_into().unwrap());
        let mut fields = vec![];
        let Some(n) = take(4).map(u) else { return Ok((None, fields)) };
        let Some(v) = take(n as usize).map(|v| v.to_vec()) else { return Ok((None, fields)) };
        let Some(n) = take(4).map(u) else { return Ok((Some(v), fields)) };
        for _ in 0..n {
            let Some(l) = take(4).map(u) else { break };
            let Some(f) = take(l as usize) else { break };
            fields.push(f.to_vec());
        }
        Ok((Some(v), fields))
    }
}
