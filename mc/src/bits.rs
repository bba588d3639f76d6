//! Independent implementation of the Vorbis bit packing convention (Vorbis I, section 2):
//! integers are packed LSb first into bytes filled from the least significant bit.
//! Deliberately bit-at-a-time and boring: this is the reference.

#[derive(Clone, Default, Debug)]
pub struct BW {
    pub bytes: Vec<u8>,
    pub nbits: usize,
}

impl BW {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn bit(&mut self, b: bool) {
        if self.nbits % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.nbits % 8);
        }
        self.nbits += 1;
    }
    pub fn put(&mut self, v: u64, n: u32) {
        for i in 0..n {
            self.bit(v >> i & 1 == 1);
        }
    }
    /// Fast path used when byte aligned
    pub fn put_bytes(&mut self, b: &[u8]) {
        if self.nbits % 8 == 0 {
            self.bytes.extend_from_slice(b);
            self.nbits += b.len() * 8;
        } else {
            for &x in b {
                self.put(x as u64, 8);
            }
        }
    }
}

#[derive(Clone)]
pub struct BR<'a> {
    pub d: &'a [u8],
    pub pos: usize,
}

impl<'a> BR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Self { d, pos: 0 }
    }
    /// `None` means end of packet
    pub fn bit(&mut self) -> Option<bool> {
        let byte = *self.d.get(self.pos / 8)?;
        let b = byte >> (self.pos % 8) & 1 == 1;
        self.pos += 1;
        Some(b)
    }
    pub fn get(&mut self, n: u32) -> Option<u64> {
        if self.pos + n as usize > self.d.len() * 8 {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            if self.bit()? {
                v |= 1 << i;
            }
        }
        Some(v)
    }
}

/// Vorbis I, section 9.2.1
pub fn ilog(n: i64) -> u32 {
    let mut r = 0;
    let mut x = n;
    while x > 0 {
        r += 1;
        x >>= 1;
    }
    r
}

/// Vorbis I, section 9.2.2
pub fn float32_unpack(x: u32) -> f64 {
    let mantissa = (x & 0x1f_ffff) as f64;
    let exponent = (x & 0x7fe0_0000) >> 21;
    let m = if x & 0x8000_0000 != 0 { -mantissa } else { mantissa };
    m * 2f64.powi(exponent as i32 - 788)
}

/// Vorbis I, section 9.2.3: the greatest integer `r` such that `r^dims <= entries`
pub fn lookup1_values(entries: u32, dims: u32) -> u64 {
    if dims == 0 {
        return u32::MAX as u64;
    }
    let fits = |r: u64| -> bool {
        let mut acc: u128 = 1;
        for _ in 0..dims {
            acc *= r as u128;
            if acc > entries as u128 {
                return false;
            }
            if r <= 1 {
                break;
            }
        }
        acc <= entries as u128
    };
    if entries == 0 {
        return 0;
    }
    let (mut lo, mut hi) = (1u64, entries as u64 + 1);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if fits(mid) {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo
}
