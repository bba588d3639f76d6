//! Building blocks for the spaces: streams, audio packet scripts, page layouts.

use crate::dec::*;
use crate::model::Opts;
use crate::oggio::*;
use crate::vorbis::*;

#[derive(Clone, Debug)]
pub struct Case {
    pub input: Vec<u8>,
    pub opts: Opts,
    pub note: String,
}

pub fn ident(channels: u8, bs0: u8, bs1: u8) -> Ident {
    Ident {
        version: 0,
        channels,
        rate: 8000,
        br_max: 0,
        br_nom: 64000,
        br_min: -1,
        bs0,
        bs1,
        framing: 1,
        trailing: vec![],
    }
}

pub fn comments() -> Comments {
    Comments { vendor: b"enc 1.0".to_vec(), fields: vec![b"TITLE=a".to_vec()] }
}

/// A setup that uses most features of the format, for `channels` channels
pub fn rich_setup(channels: u8) -> Setup {
    let books = vec![
        Codebook::scalar(&[1, 2, 3, 3]).with_dims(2),
        Codebook::scalar(&[2, 2, 2, 2]).with_dims(2).vq(1, 3),
        Codebook::scalar(&[2, 1, 3, 3]),
        Codebook::scalar(&[1, 2, 2]),
        Codebook::scalar(&[1, 2, 2]).with_dims(4).vq(2, 4),
    ];
    let floor = Floor {
        ty: 1,
        parts: vec![0, 1, 0],
        classes: vec![
            FClass { dim: 2, sub: 1, master: 2, books: vec![3, -1] },
            FClass { dim: 1, sub: 0, master: 0, books: vec![3] },
        ],
        mult: 2,
        range_bits: 6,
        xs: vec![5, 33, 12, 60, 20],
    };
    let mut c0 = [None; 8];
    c0[0] = Some(1);
    let mut c1 = [None; 8];
    c1[1] = Some(4);
    let res = Residue { ty: 1, begin: 0, end: 24, psize: 4, classbook: 0, books: vec![c0, c1], long_cascade: false };
    let map = Mapping {
        ty: 0,
        submaps: vec![Submap { time: 0, floor: 0, residue: 0 }],
        long_submaps: false,
        coupling: if channels > 1 { vec![(0, 1)] } else { vec![] },
        reserved: 0,
        mux: vec![0; channels as usize],
    };
    Setup {
        books,
        times: vec![0],
        floors: vec![floor],
        residues: vec![res],
        mappings: vec![map],
        modes: vec![
            Mode { big: false, window: 0, transform: 0, mapping: 0 },
            Mode { big: true, window: 0, transform: 0, mapping: 0 },
        ],
        framing: true,
        trailing: vec![],
    }
}

/// The smallest setup that still has floor, residue and both block sizes. Book 0 classifies
/// in {nothing, book 1}; book 1 is a one dimensional VQ book with the given lengths.
pub fn tiny_setup(lens: &[u8]) -> Setup {
    let books = vec![Codebook::scalar(&[1, 1]), Codebook::scalar(lens).vq(2, 8)];
    let floor = Floor { ty: 1, parts: vec![], classes: vec![], mult: 4, range_bits: 5, xs: vec![] };
    let mut c1 = [None; 8];
    c1[0] = Some(1);
    let res = Residue { ty: 0, begin: 0, end: 1 << 20, psize: 1, classbook: 0, books: vec![[None; 8], c1], long_cascade: false };
    Setup {
        books,
        times: vec![0],
        floors: vec![floor],
        residues: vec![res],
        mappings: vec![Mapping {
            ty: 0,
            submaps: vec![Submap { time: 0, floor: 0, residue: 0 }],
            long_submaps: false,
            coupling: vec![],
            reserved: 0,
            mux: vec![0],
        }],
        modes: vec![
            Mode { big: false, window: 0, transform: 0, mapping: 0 },
            Mode { big: true, window: 0, transform: 0, mapping: 0 },
        ],
        framing: true,
        trailing: vec![],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pat {
    /// Every value in turn
    Mix,
    Zero,
    Max,
    /// Like `Mix`, with some channels silent
    Partial(u8),
    Silent,
}

/// One complete audio packet
pub fn packet(d: &Dec, mode: u64, prev: bool, next: bool, p: Pat, salt: u64) -> (Vec<u8>, Result<Audio, &'static str>) {
    let mut i = salt * 5;
    let (w, a) = d.generate(|k, n| {
        i += 1;
        let v = match k {
            K::Mode => mode,
            K::Prev => prev as u64,
            K::Next => next as u64,
            K::Nonzero(c) => match p {
                Pat::Silent => 0,
                Pat::Partial(m) => (m >> (c % 8) & 1) as u64,
                _ => 1,
            },
            _ => match p {
                Pat::Zero => 0,
                Pat::Max => n - 1,
                _ => {
                    // Skewed: lower values are more frequent
                    let x = (i * 7 + i / 3) % (n * 2);
                    if x < n {
                        x
                    } else {
                        (x - n) / 2
                    }
                }
            },
        };
        v % n
    });
    (w.bytes, a)
}

#[derive(Clone, Debug)]
pub struct AudioPkt {
    pub data: Vec<u8>,
    /// Block size, 0 if it does not count for granule positions
    pub bs: u32,
    /// Page break after this packet
    pub brk: bool,
    /// Added to the granule position that a page ending with this packet has
    pub gdelta: i64,
}

#[derive(Clone, Debug)]
pub struct StreamB {
    pub serial: u32,
    pub ident: Vec<u8>,
    pub comment: Vec<u8>,
    pub setup: Vec<u8>,
    pub audio: Vec<AudioPkt>,
    pub start: i64,
    pub eos: bool,
    pub header_break: bool,
    pub max_segs: usize,
}

impl StreamB {
    pub fn new(serial: u32, id: &Ident, setup: &Setup) -> Self {
        StreamB {
            serial,
            ident: id.encode(),
            comment: comments().encode(),
            setup: setup.encode(id.channels),
            audio: vec![],
            start: 0,
            eos: true,
            header_break: false,
            max_segs: 255,
        }
    }
    pub fn push(&mut self, data: Vec<u8>, bs: u32) -> &mut AudioPkt {
        self.audio.push(AudioPkt { data, bs, brk: false, gdelta: 0 });
        self.audio.last_mut().unwrap()
    }
    /// Granule positions with the usual rules
    /// They wrap around
    pub fn granules(&self) -> Vec<i64> {
        let mut last: Option<(i64, u32)> = None;
        self.audio
            .iter()
            .map(|a| {
                if a.bs > 0 {
                    let g = last.map_or(self.start, |(g, b)| g.wrapping_add((b as i64 + a.bs as i64) / 4));
                    last = Some((g, a.bs));
                }
                last.map_or(0, |l| l.0).wrapping_add(a.gdelta)
            })
            .collect()
    }
    pub fn pages(&self) -> Vec<Page> {
        let g = self.granules();
        let mut v = vec![
            (self.ident.clone(), 0, true),
            (self.comment.clone(), 0, self.header_break),
            (self.setup.clone(), 0, true),
        ];
        for (a, g) in self.audio.iter().zip(g) {
            v.push((a.data.clone(), g, a.brk));
        }
        paginate(
            &Paginate {
                serial: self.serial,
                max_segs: self.max_segs,
                bos: true,
                eos: self.eos,
                first_seq: 0,
            },
            &v,
        )
    }
    pub fn bytes(&self) -> Vec<u8> {
        write_pages(&self.pages())
    }
}

/// Used to describe cases in samples
pub fn summary(input: &[u8]) -> String {
    let Ok(p) = parse_pages(input, false) else { return format!("{} bytes, not a sequence of pages", input.len()) };
    let n = packets(&p).map_or(0, |k| k.len());
    let mut s: Vec<u32> = p.iter().map(|p| p.serial).collect();
    s.sort();
    s.dedup();
    format!("{} bytes, {} pages, {} packets, {} logical streams", input.len(), p.len(), n, s.len())
}
