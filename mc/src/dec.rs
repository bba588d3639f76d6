//! Independent Vorbis I audio packet decoder (Vorbis I, sections 3.2.1, 4.3, 7.2 and 8.6),
//! generic over the source of bits so that it also drives the packet generator.

use crate::bits::*;
use crate::vorbis::*;
use std::collections::BTreeMap;

/// Huffman decision tree with codewords assigned as in Vorbis I, section 3.2.1: every entry
/// takes the lowest valued codeword of its length that is still free.
#[derive(Clone, Debug)]
pub struct Tree {
    /// 0: nothing, positive: node, negative: -(entry + 1)
    nodes: Vec<[i32; 2]>,
    /// Most significant bit first
    pub codes: Vec<Option<(u32, u8)>>,
    pub single: bool,
}

impl Tree {
    pub fn new(lens: &[u8]) -> Result<Tree, &'static str> {
        let mut t = Tree { nodes: vec![[0, 0]], codes: vec![None; lens.len()], single: false };
        let used: Vec<usize> = (0..lens.len()).filter(|&i| lens[i] > 0).collect();
        if used.len() == 1 && lens[used[0]] == 1 {
            // Vorbis I, section 3.2.1: a codebook with a single used entry has a codeword
            // length of one bit, and either bit value decodes to that entry
            let e = -(used[0] as i32 + 1);
            t.nodes[0] = [e, e];
            t.codes[used[0]] = Some((0, 1));
            t.single = true;
            return Ok(t);
        }
        // Free subtrees: leftmost 32-bit aligned codeword -> depth of the subtree root
        let mut free: BTreeMap<u64, u8> = BTreeMap::from([(0, 0)]);
        for e in used {
            let l = lens[e];
            let (start, d) = free.iter().find(|(_, &d)| d <= l).map(|(s, d)| (*s, *d)).ok_or("overspecified")?;
            free.remove(&start);
            for k in d + 1..=l {
                free.insert(start + (1u64 << (32 - k)), k);
            }
            let code = (start >> (32 - l)) as u32;
            t.codes[e] = Some((code, l));
            let mut n = 0usize;
            for k in (0..l).rev() {
                let b = (code >> k & 1) as usize;
                if k == 0 {
                    t.nodes[n][b] = -(e as i32 + 1);
                } else {
                    if t.nodes[n][b] == 0 {
                        t.nodes.push([0, 0]);
                        t.nodes[n][b] = t.nodes.len() as i32 - 1;
                    }
                    n = t.nodes[n][b] as usize;
                }
            }
        }
        Ok(t)
    }
    pub fn read(&self, r: &mut BR) -> R<u32> {
        let mut n = 0usize;
        loop {
            let b = r.bit().ok_or(E::Eop)? as usize;
            match self.nodes[n][b] {
                0 => return Err(E::Bad("underspecified")),
                x if x > 0 => n = x as usize,
                x => return Ok((-x - 1) as u32),
            }
        }
    }
}

pub fn kraft(lens: &[u8]) -> u128 {
    lens.iter().filter(|&&l| l > 0).map(|&l| 1u128 << (64 - l)).sum()
}
pub const KRAFT_ONE: u128 = 1 << 64;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Type,
    Mode,
    Prev,
    Next,
    Nonzero(u8),
    Y(u8),
    Master(u8),
    Sub(u8),
    Class(u8),
    Vq(u8),
}

pub trait Src {
    fn bits(&mut self, k: K, n: u32) -> R<u64>;
    fn sym(&mut self, k: K, book: u8) -> R<u32>;
    fn pos(&self) -> usize;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Complete,
    /// Nominal end of packet while decoding floors
    Floor,
    /// Nominal end of packet while decoding residues
    Residue,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Audio {
    pub mode: u8,
    pub prev: bool,
    pub next: bool,
    pub bs: u32,
    pub floors: Vec<Option<Vec<u32>>>,
    pub residues: Vec<Vec<f64>>,
    pub syms: Vec<(u8, u32)>,
    pub end: End,
    pub bits: usize,
}

#[derive(Clone)]
pub struct Dec {
    pub ident: Ident,
    pub setup: Setup,
    pub trees: Vec<Tree>,
}

pub struct BitSrc<'a> {
    pub r: BR<'a>,
    pub trees: &'a [Tree],
}
impl Src for BitSrc<'_> {
    fn bits(&mut self, _: K, n: u32) -> R<u64> {
        self.r.get(n).ok_or(E::Eop)
    }
    fn sym(&mut self, _: K, book: u8) -> R<u32> {
        self.trees[book as usize].read(&mut self.r)
    }
    fn pos(&self) -> usize {
        self.r.pos
    }
}

/// Writes a packet while the decoder "reads" it: every value is chosen by `pick`
pub struct GenSrc<'a, F: FnMut(K, u64) -> u64> {
    pub w: BW,
    pub trees: &'a [Tree],
    /// Kind of value and number of alternatives; returns the alternative to use. For symbols,
    /// alternatives are the used entries in order
    pub pick: F,
    pub used: Vec<Vec<u32>>,
}
impl<F: FnMut(K, u64) -> u64> Src for GenSrc<'_, F> {
    fn bits(&mut self, k: K, n: u32) -> R<u64> {
        let v = (self.pick)(k, 1 << n);
        assert!(v < 1 << n, "bad choice {v} for {n} bits of {k:?}");
        self.w.put(v, n);
        Ok(v)
    }
    fn sym(&mut self, k: K, book: u8) -> R<u32> {
        let u = &self.used[book as usize];
        if self.w.nbits > 1 << 24 {
            return Err(E::Bad("endless packet"));
        }
        if u.is_empty() {
            return Err(E::Bad("no used entries"));
        }
        let e = u[(self.pick)(k, u.len() as u64) as usize];
        let (c, l) = self.trees[book as usize].codes[e as usize].unwrap();
        for i in (0..l).rev() {
            self.w.bit(c >> i & 1 == 1);
        }
        Ok(e)
    }
    fn pos(&self) -> usize {
        self.w.nbits
    }
}

/// Reads a packet with some codebooks while writing the same values with other ones
struct Transcode<'a> {
    r: BitSrc<'a>,
    w: BW,
    out: &'a [Tree],
}
impl Src for Transcode<'_> {
    fn bits(&mut self, k: K, n: u32) -> R<u64> {
        let v = self.r.bits(k, n)?;
        self.w.put(v, n);
        Ok(v)
    }
    fn sym(&mut self, k: K, book: u8) -> R<u32> {
        let e = self.r.sym(k, book)?;
        let (c, l) = self.out[book as usize].codes[e as usize].ok_or(E::Bad("no codeword"))?;
        for i in (0..l).rev() {
            self.w.bit(c >> i & 1 == 1);
        }
        Ok(e)
    }
    fn pos(&self) -> usize {
        self.r.pos()
    }
}

impl Dec {
    /// Decodes a packet and encodes its values with the codebooks of another setup
    pub fn transcode(&self, p: &[u8], out: &Dec) -> Option<Vec<u8>> {
        let mut s = Transcode { r: BitSrc { r: BR::new(p), trees: &self.trees }, w: BW::new(), out: &out.trees };
        s.bits(K::Type, 1).ok()?;
        self.run(&mut s).ok()??;
        Some(s.w.bytes)
    }
    pub fn new(ident: Ident, setup: Setup) -> Result<Dec, &'static str> {
        let trees = setup.books.iter().map(|b| Tree::new(&b.lens)).collect::<Result<_, _>>()?;
        Ok(Dec { ident, setup, trees })
    }

    /// `Ok(None)`: the packet has to be discarded
    pub fn decode(&self, p: &[u8]) -> Result<Option<Audio>, &'static str> {
        let mut s = BitSrc { r: BR::new(p), trees: &self.trees };
        match s.bits(K::Type, 1) {
            Err(_) => return Ok(None),
            Ok(1) => return Err("not an audio packet"),
            _ => (),
        }
        self.run(&mut s)
    }

    /// Generates a complete packet. If the setup does not allow to do so, returns why and the
    /// packet so far.
    pub fn generate(&self, pick: impl FnMut(K, u64) -> u64) -> (BW, Result<Audio, &'static str>) {
        let used = self
            .setup
            .books
            .iter()
            .map(|b| (0..b.lens.len() as u32).filter(|&i| b.lens[i as usize] > 0).collect())
            .collect();
        let mut g = GenSrc { w: BW::new(), trees: &self.trees, pick, used };
        g.w.bit(false);
        let r = self.run(&mut g);
        (g.w, r.map(|a| a.unwrap()))
    }

    pub fn run<S: Src>(&self, s: &mut S) -> Result<Option<Audio>, &'static str> {
        let mode_bits = ilog(self.setup.modes.len() as i64 - 1);
        let eop = |e: E| match e {
            E::Eop => None,
            E::Bad(m) => Some(m),
        };
        macro_rules! first {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => match eop(e) {
                        None => return Ok(None),
                        Some(m) => return Err(m),
                    },
                }
            };
        }
        let mode = first!(s.bits(K::Mode, mode_bits)) as u8;
        let m = self.setup.modes.get(mode as usize).ok_or("invalid mode")?;
        let (mut prev, mut next) = (false, false);
        if m.big {
            prev = first!(s.bits(K::Prev, 1)) == 1;
            next = first!(s.bits(K::Next, 1)) == 1;
        }
        let bs = 1u32 << if m.big { self.ident.bs1 } else { self.ident.bs0 };
        let ch = self.ident.channels as usize;
        let mut a = Audio {
            mode,
            prev,
            next,
            bs,
            floors: vec![None; ch],
            residues: vec![],
            syms: vec![],
            end: End::Floor,
            bits: 0,
        };
        match self.body(s, m.mapping as usize, &mut a) {
            Ok(()) => a.end = End::Complete,
            Err(E::Eop) => (),
            Err(E::Bad(m)) => return Err(m),
        }
        a.bits = s.pos();
        Ok(Some(a))
    }

    fn body<S: Src>(&self, s: &mut S, mapping: usize, a: &mut Audio) -> R<()> {
        let map = &self.setup.mappings[mapping];
        let ch = self.ident.channels as usize;
        let mut nores = vec![true; ch];
        for c in 0..ch {
            let f = &self.setup.floors[map.submaps[map.mux[c] as usize].floor as usize];
            if s.bits(K::Nonzero(c as u8), 1)? == 0 {
                continue;
            }
            nores[c] = false;
            let range = [256, 128, 86, 64][f.mult as usize - 1];
            let n = ilog(range - 1);
            let mut y = vec![s.bits(K::Y(0), n)? as u32, s.bits(K::Y(1), n)? as u32];
            for &p in &f.parts {
                let cl = &f.classes[p as usize];
                let mut cval = 0;
                if cl.sub > 0 {
                    cval = s.sym(K::Master(c as u8), cl.master)?;
                    a.syms.push((cl.master, cval));
                }
                for _ in 0..cl.dim {
                    let b = cl.books[(cval & ((1 << cl.sub) - 1)) as usize];
                    cval >>= cl.sub;
                    if b >= 0 {
                        let e = s.sym(K::Sub(c as u8), b as u8)?;
                        a.syms.push((b as u8, e));
                        y.push(e);
                    } else {
                        y.push(0);
                    }
                }
            }
            a.floors[c] = Some(y);
        }
        for &(m, g) in &map.coupling {
            if !nores[m as usize] || !nores[g as usize] {
                nores[m as usize] = false;
                nores[g as usize] = false;
            }
        }
        a.end = End::Residue;
        let n2 = a.bs as usize / 2;
        a.residues = vec![vec![]; ch];
        for c in 0..ch {
            if !nores[c] {
                a.residues[c] = vec![0.0; n2];
            }
        }
        for (i, sm) in map.submaps.iter().enumerate() {
            let chans: Vec<usize> = (0..ch).filter(|&c| map.mux[c] as usize == i).collect();
            if chans.iter().all(|&c| nores[c]) {
                continue;
            }
            let res = &self.setup.residues[sm.residue as usize];
            if res.ty == 2 {
                let mut v = vec![vec![0.0; n2 * chans.len()]];
                let r = self.residue(s, res, &mut v, &[true], &mut a.syms);
                // Everything is decoded as soon as something is
                for (k, &c) in chans.iter().enumerate() {
                    a.residues[c] = (0..n2).map(|x| v[0][x * chans.len() + k]).collect();
                }
                r?;
            } else {
                let mut v: Vec<Vec<f64>> = chans.iter().map(|&c| std::mem::take(&mut a.residues[c])).collect();
                let dec: Vec<bool> = chans.iter().map(|&c| !nores[c]).collect();
                let r = self.residue(s, res, &mut v, &dec, &mut a.syms);
                for (&c, v) in chans.iter().zip(v) {
                    a.residues[c] = v;
                }
                r?;
            }
        }
        Ok(())
    }

    fn residue<S: Src>(&self, s: &mut S, res: &Residue, v: &mut [Vec<f64>], dec: &[bool], syms: &mut Vec<(u8, u32)>) -> R<()> {
        let size = v.iter().map(|x| x.len()).max().unwrap_or(0);
        let begin = (res.begin as usize).min(size);
        let end = (res.end.max(res.begin) as usize).min(size);
        let cb = &self.setup.books[res.classbook as usize];
        let per = cb.dims as usize;
        let todo = (end - begin) / res.psize as usize;
        if end == begin {
            return Ok(());
        }
        let ncl = res.books.len() as u32;
        let mut cls = vec![vec![0u32; todo + per]; v.len()];
        for pass in 0..8 {
            let mut p = 0;
            while p < todo {
                if pass == 0 {
                    for j in 0..v.len() {
                        if !dec[j] {
                            continue;
                        }
                        let mut t = s.sym(K::Class(j as u8), res.classbook)?;
                        syms.push((res.classbook, t));
                        for i in (0..per).rev() {
                            cls[j][p + i] = t % ncl;
                            t /= ncl;
                        }
                    }
                }
                for _ in 0..per {
                    if p >= todo {
                        break;
                    }
                    for j in 0..v.len() {
                        if !dec[j] {
                            continue;
                        }
                        if let Some(b) = res.books[cls[j][p] as usize][pass] {
                            let book = &self.setup.books[b as usize];
                            if book.lookup == 0 {
                                return Err(E::Bad("scalar book in VQ context"));
                            }
                            let d = book.dims as usize;
                            let ps = res.psize as usize;
                            if d == 0 || ps % d != 0 {
                                return Err(E::Bad("partition size not multiple of dimensions"));
                            }
                            let off = begin + p * ps;
                            let step = ps / d;
                            for i in 0..step {
                                let e = s.sym(K::Vq(pass as u8), b)?;
                                syms.push((b, e));
                                let vec = vq_vector(book, e);
                                for (k, x) in vec.iter().enumerate() {
                                    let at = if res.ty == 0 { off + i + k * step } else { off + i * d + k };
                                    v[j][at] += x;
                                }
                            }
                        }
                    }
                    p += 1;
                }
            }
        }
        Ok(())
    }
}

pub fn vq_vector(b: &Codebook, entry: u32) -> Vec<f64> {
    let (min, delta) = (float32_unpack(b.min), float32_unpack(b.delta));
    let mut last = 0.0;
    let mut out = Vec::with_capacity(b.dims as usize);
    let lv = b.lookup_count() as u128;
    let mut div: u128 = 1;
    for i in 0..b.dims as usize {
        let off = if b.lookup == 1 {
            let o = (entry as u128 / div) % lv;
            div = (div * lv).min(1 << 64);
            o as usize
        } else {
            entry as usize * b.dims as usize + i
        };
        let x = b.mult[off] as f64 * delta + min + last;
        if b.seq {
            last = x;
        }
        out.push(x);
    }
    out
}
