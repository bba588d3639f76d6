//! Independent Ogg (RFC 3533) page writer and strict page/packet reader.

pub fn crc(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut r = i << 24;
            for _ in 0..8 {
                r = if r & 0x8000_0000 != 0 { (r << 1) ^ 0x04c1_1db7 } else { r << 1 };
            }
            t[i as usize] = r;
        }
        t
    });
    let mut c = 0u32;
    for &b in data {
        c = (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize];
    }
    c
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Page {
    pub flags: u8,
    pub granule: i64,
    pub serial: u32,
    pub seq: u32,
    pub lacing: Vec<u8>,
    pub body: Vec<u8>,
    /// CRC field as found; recomputed on write unless `crc_xor` is not zero
    pub crc: u32,
    pub crc_xor: u32,
}

pub const CONT: u8 = 1;
pub const BOS: u8 = 2;
pub const EOS: u8 = 4;

impl Page {
    pub fn write(&self, out: &mut Vec<u8>) {
        let start = out.len();
        out.extend_from_slice(b"OggS\0");
        out.push(self.flags);
        out.extend_from_slice(&self.granule.to_le_bytes());
        out.extend_from_slice(&self.serial.to_le_bytes());
        out.extend_from_slice(&self.seq.to_le_bytes());
        out.extend_from_slice(&[0; 4]);
        out.push(self.lacing.len() as u8);
        out.extend_from_slice(&self.lacing);
        out.extend_from_slice(&self.body);
        let c = crc(&out[start..]) ^ self.crc_xor;
        out[start + 22..start + 26].copy_from_slice(&c.to_le_bytes());
    }
}

/// Parses a physical bitstream made of back-to-back pages without anything in between.
pub fn parse_pages(d: &[u8], check_crc: bool) -> Result<Vec<Page>, String> {
    let mut pages = vec![];
    let mut i = 0;
    while i < d.len() {
        let at = |m: &str| format!("page {} at byte {}: {}", pages.len(), i, m);
        let h = d.get(i..i + 27).ok_or_else(|| at("truncated header"))?;
        if &h[..4] != b"OggS" {
            return Err(at("no capture pattern"));
        }
        if h[4] != 0 {
            return Err(at("bad version"));
        }
        let n = h[26] as usize;
        let lacing = d.get(i + 27..i + 27 + n).ok_or_else(|| at("truncated lacing"))?;
        let len: usize = lacing.iter().map(|&x| x as usize).sum();
        let body = d
            .get(i + 27 + n..i + 27 + n + len)
            .ok_or_else(|| at("truncated body"))?;
        let c = u32::from_le_bytes(h[22..26].try_into().unwrap());
        if check_crc {
            let mut raw = d[i..i + 27 + n + len].to_vec();
            raw[22..26].fill(0);
            if crc(&raw) != c {
                return Err(at("CRC mismatch"));
            }
        }
        pages.push(Page {
            flags: h[5],
            granule: i64::from_le_bytes(h[6..14].try_into().unwrap()),
            serial: u32::from_le_bytes(h[14..18].try_into().unwrap()),
            seq: u32::from_le_bytes(h[18..22].try_into().unwrap()),
            lacing: lacing.to_vec(),
            body: body.to_vec(),
            crc: c,
            crc_xor: 0,
        });
        i += 27 + n + len;
    }
    Ok(pages)
}

/// The pages of any sequence of bytes, up to the first one that is damaged. What is not part of
/// a page is skipped, as players do, and nothing that follows the last capture pattern matters
/// unless it is long enough to be the header of a page.
pub fn read_pages(d: &[u8], check_crc: bool) -> (Vec<Page>, Option<String>) {
    let mut pages: Vec<Page> = vec![];
    let mut i = 0;
    loop {
        let found = d[i..].windows(4).position(|w| w == b"OggS").map(|k| i + k);
        let Some(at) = found.filter(|&at| at + 27 <= d.len()) else {
            return if pages.is_empty() { (pages, Some("no page".into())) } else { (pages, None) };
        };
        let n = d[at + 26] as usize;
        let len = d.get(at + 27..at + 27 + n).map_or(0, |l| l.iter().map(|&x| x as usize).sum());
        let end = at + 27 + n + len;
        let Some(raw) = d.get(at..end) else {
            return (pages, Some(format!("page at byte {at} is cut short")));
        };
        match parse_pages(raw, check_crc) {
            Ok(p) => pages.extend(p),
            Err(e) => return (pages, Some(e)),
        }
        i = end;
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pkt {
    pub data: Vec<u8>,
    pub serial: u32,
    /// First packet of a BOS page
    pub bos: bool,
    /// Last completed packet of its page
    pub last_in_page: bool,
    /// Completes on a page with EOS flag and it is its last completed packet
    pub eos: bool,
    pub granule: i64,
    pub page_index: usize,
    pub start_page_index: usize,
}

/// Splits pages in packets, for every logical stream, in physical completion order.
/// The packets of the pages, up to the first page that must not be where it is
pub fn packets_until(pages: &[Page]) -> (Vec<Pkt>, Option<String>) {
    use std::collections::HashMap;
    let mut partial: HashMap<u32, (Vec<u8>, usize)> = HashMap::new();
    let mut seen: HashMap<u32, bool> = HashMap::new();
    let mut out = vec![];
    for (pi, p) in pages.iter().enumerate() {
        let is_bos = p.flags & BOS != 0;
        if is_bos && seen.contains_key(&p.serial) {
            return (out, Some(format!("page {pi}: repeated BOS for serial")));
        }
        if !is_bos && !seen.contains_key(&p.serial) {
            return (out, Some(format!("page {pi}: no BOS for serial")));
        }
        seen.insert(p.serial, true);
        let cont = p.flags & CONT != 0;
        if cont != partial.contains_key(&p.serial) {
            return (out, Some(format!("page {pi}: continuation flag mismatch")));
        }
        let (mut cur, mut start) = partial.remove(&p.serial).unwrap_or((vec![], pi));
        let mut off = 0;
        let first_out = out.len();
        let mut open = cont;
        for &l in &p.lacing {
            cur.extend_from_slice(&p.body[off..off + l as usize]);
            off += l as usize;
            open = true;
            if l < 255 {
                out.push(Pkt {
                    data: std::mem::take(&mut cur),
                    serial: p.serial,
                    bos: is_bos && out.len() == first_out,
                    last_in_page: false,
                    eos: false,
                    granule: p.granule,
                    page_index: pi,
                    start_page_index: start,
                });
                start = pi;
                open = false;
            }
        }
        if open {
            partial.insert(p.serial, (cur, start));
        }
        if out.len() > first_out {
            let l = out.last_mut().unwrap();
            l.last_in_page = true;
            l.eos = p.flags & EOS != 0;
        }
    }
    // A packet without end is no packet
    (out, None)
}

/// The packets of a well-formed stream, none of which is left without an end
pub fn packets(pages: &[Page]) -> Result<Vec<Pkt>, String> {
    let mut open: std::collections::BTreeMap<u32, bool> = Default::default();
    for p in pages {
        open.insert(p.serial, p.lacing.last().map_or(p.flags & CONT != 0, |&l| l == 255));
    }
    match packets_until(pages) {
        (_, None) if open.values().any(|&o| o) => Err("unfinished packet at end of stream".into()),
        (p, None) => Ok(p),
        (_, Some(e)) => Err(e),
    }
}

pub fn lace(len: usize) -> Vec<u8> {
    let mut v = vec![255u8; len / 255];
    v.push((len % 255) as u8);
    v
}

/// Splits `packets`, of which the i-th has the given granule, in pages. `breaks[i]` forces
/// a page end after packet `i`; pages hold at most `max_segs` segments.
#[derive(Clone)]
pub struct Paginate {
    pub serial: u32,
    pub max_segs: usize,
    pub bos: bool,
    pub eos: bool,
    pub first_seq: u32,
}

pub fn paginate(o: &Paginate, packets: &[(Vec<u8>, i64, bool)]) -> Vec<Page> {
    let mut pages: Vec<Page> = vec![];
    let mut seq = o.first_seq;
    let mut cur = new_page(o, seq, false);
    let mut first = true;
    let mut flush = |cur: &mut Page, cont_next: bool, pages: &mut Vec<Page>| {
        if first && o.bos {
            cur.flags |= BOS;
        }
        first = false;
        seq = seq.wrapping_add(1);
        let done = std::mem::replace(cur, new_page(o, seq, cont_next));
        pages.push(done);
    };
    for (data, gr, brk) in packets {
        let l = lace(data.len());
        let mut off = 0;
        for (si, &s) in l.iter().enumerate() {
            if cur.lacing.len() == o.max_segs {
                flush(&mut cur, si > 0, &mut pages);
            }
            cur.lacing.push(s);
            cur.body.extend_from_slice(&data[off..off + s as usize]);
            off += s as usize;
            if s < 255 {
                cur.granule = *gr;
            }
        }
        if *brk {
            flush(&mut cur, false, &mut pages);
        }
    }
    if !cur.lacing.is_empty() {
        flush(&mut cur, false, &mut pages);
    }
    if o.eos {
        if let Some(p) = pages.last_mut() {
            p.flags |= EOS;
        }
    }
    pages
}

fn new_page(o: &Paginate, seq: u32, cont: bool) -> Page {
    Page {
        flags: if cont { CONT } else { 0 },
        granule: -1,
        serial: o.serial,
        seq,
        lacing: vec![],
        body: vec![],
        crc: 0,
        crc_xor: 0,
    }
}

pub fn write_pages(pages: &[Page]) -> Vec<u8> {
    let mut v = vec![];
    for p in pages {
        p.write(&mut v);
    }
    v
}
