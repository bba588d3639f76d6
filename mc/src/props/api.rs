//! C18: call sequences of the low level optimizer; C19: manglers.

use super::history::brief;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces::*;
use crate::spaces2::*;
use crate::vorbis::*;
use ogg::{PacketWriteEndInfo, PacketWriter};
use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamMangler, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizer};
use std::cell::RefCell;
use std::io::Cursor;
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

fn fake(data: &[u8], bos: bool) -> Pkt {
    Pkt { data: data.to_vec(), serial: 1, bos, last_in_page: false, eos: false, granule: -1, page_index: 0, start_page_index: 0 }
}

pub fn c18(ctx: &mut Ctx) {
    let mut id = ident(1, 6, 8);
    id.framing = 0;
    id.trailing = vec![9, 9];
    let mut st = rich_setup(1);
    st.modes = (0..64).map(|i| Mode { big: i % 2 == 1, ..st.modes[0].clone() }).collect();
    let mut s = StreamB::new(1, &id, &st);
    assert!(add_audio(&mut s, &id, &st, &SCRIPT[..2]));
    let mut good = comments().encode();
    good.extend([1, 2]);
    let mut cut = comments().encode();
    cut.truncate(20);
    let mut bad_setup = s.setup.clone();
    bad_setup.truncate(30);
    let mut padded = s.audio[0].data.clone();
    padded.extend([0xff; 3]);
    let alphabet: Vec<(&str, Vec<u8>)> = vec![
        ("comment", good),
        ("setup", s.setup.clone()),
        ("short block", padded),
        ("long block", s.audio[1].data.clone()),
        ("empty", vec![]),
        ("ends in window flags", vec![0b0111_1110]),
        ("no comment signature", b"\x03vorbiz".to_vec()),
        ("truncated comment", cut),
        ("truncated setup", bad_setup),
        ("not audio", vec![1, 2, 3]),
        ("identification", s.ident.clone()),
        ("other comment", Comments { vendor: b"".to_vec(), fields: vec![] }.encode()),
        ("other setup", {
            let mut o = st.clone();
            o.books[0] = Codebook::scalar(&[3, 3, 2, 1]).with_dims(2);
            o.modes.truncate(2);
            o.encode(1)
        }),
    ];
    let idents: Vec<(Vec<u8>, bool)> = vec![
        (s.ident.clone(), true),
        (s.ident[..29].to_vec(), false),
        (vec![], false),
        (s.setup.clone(), false),
    ];
    let optss = [Opts::default(), Opts { vendor: Vendor::Empty, delete_fields: true, ..Opts::default() }];
    let depth = ctx.t(5, 6);
    let gen = |ch: &mut Chooser| -> Option<(usize, usize, Vec<usize>)> {
        let i = ch.all(idents.len());
        let o = ch.all(2);
        let mut v = vec![];
        if idents[i].1 {
            let n = ch.all(depth + 1);
            for _ in 0..n {
                v.push(ch.all(alphabet.len()));
            }
        }
        Some((i, o, v))
    };
    let eval = |c: &(usize, usize, Vec<usize>)| -> Verdict {
        let o = &optss[c.1];
        let mut v = Verdict { nontrivial: true, trace: true, hash: fnv(format!("{c:?}").as_bytes()), outcome: "finished", ..Default::default() };
        let name = |k: usize| c.2[..k].iter().map(|&x| alphabet[x].0).collect::<Vec<_>>();
        let mut issues: Vec<(String, String)> = vec![];
        let settings = o.optimizer();
        let ident = &idents[c.0].0;
        let mut opt = match catch_unwind(AssertUnwindSafe(|| VorbisOptimizer::new(&settings, ident))) {
            Err(p) => {
                v.issues.push(("panic".into(), format!("new: {}", panic_msg(p))));
                return v;
            }
            Ok(Err(e)) => {
                v.outcome = "not Vorbis";
                if idents[c.0].1 {
                    v.issues.push(("new".into(), format!("identification header rejected: {e}")));
                }
                return v;
            }
            Ok(Ok(o)) => o,
        };
        if !idents[c.0].1 {
            v.issues.push(("new".into(), format!("identification header {} accepted", c.0)));
            return v;
        }
        // Analysis
        let mut pk = vec![fake(ident, true)];
        // The packets that were not rejected: those that are do as if they had not been there
        let mut ok: Vec<usize> = vec![];
        let mut kept = 0;
        let mut failed = false;
        for (k, &x) in c.2.iter().enumerate() {
            let data = &alphabet[x].1;
            pk.push(fake(data, false));
            let want: Result<Option<u16>, Rej> = model_packets(&pk, o).map(|s| {
                let n = s[0].pkts.len();
                if n > kept {
                    kept = n;
                    s[0].pkts.last().map(|p| p.audio.bs as u16)
                } else {
                    None
                }
            });
            // Every other packet is owned by the callee
            let got = catch_unwind(AssertUnwindSafe(|| if k % 2 == 0 { opt.analyze_packet(data) } else { opt.analyze_packet(data.clone()) }));
            v.steps += 1;
            v.states.push(fnv(format!("{:?}{}", (c.0, c.1, &c.2[..=k]), want.is_ok()).as_bytes()));
            match (got, want) {
                (Err(p), _) => {
                    issues.push(("panic".into(), format!("analysis of {:?}: {}", name(k + 1), panic_msg(p))));
                    failed = true;
                }
                (Ok(Ok(g)), Ok(w)) if g == w => ok.push(x),
                (Ok(Err(_)), Err(_)) => {
                    pk.pop();
                    v.outcome = "invalid packet";
                }
                (Ok(g), w) => {
                    issues.push(("analysis".into(), format!("analysis of {:?} gives {g:?} instead of {w:?}", name(k + 1))));
                    failed = true;
                }
            }
            if failed {
                v.issues = issues;
                return v;
            }
        }
        // Optimization
        let exp = model_packets(&pk, o).expect("model");
        let mut all = vec![ident.as_slice()];
        all.extend(ok.iter().map(|&x| alphabet[x].1.as_slice()));
        let mut out: Vec<(Vec<u8>, Option<u16>)> = vec![];
        for (k, data) in all.iter().enumerate() {
            let owned = k % 2 == 1;
            let got = catch_unwind(AssertUnwindSafe(|| {
                if owned {
                    opt.optimize_packet(data.to_vec()).map(|x| x.map(|(p, b)| (p.into_owned(), b)))
                } else {
                    opt.optimize_packet(*data).map(|x| x.map(|(p, b)| (p.into_owned(), b)))
                }
            }));
            v.steps += 1;
            v.states.push(fnv(format!("{c:?}opt{k}").as_bytes()));
            match got {
                Err(p) => {
                    issues.push(("panic".into(), format!("optimization of packet {k} of {:?}: {}", name(c.2.len()), panic_msg(p))));
                    break;
                }
                Ok(Err(e)) => {
                    issues.push(("optimize".into(), format!("optimization of packet {k} of {:?} fails with {e}", name(c.2.len()))));
                    break;
                }
                Ok(Ok(x)) => {
                    // What is dropped was dropped in the analysis as well
                    let audio = k > 2;
                    if x.is_none() && !audio {
                        issues.push(("optimize".into(), format!("header {k} of {:?} is dropped", name(c.2.len()))));
                    }
                    if let Some((p, b)) = x {
                        if b.is_some() != audio {
                            issues.push(("optimize".into(), format!("packet {k} of {:?} has block size {b:?}", name(c.2.len()))));
                        }
                        out.push((p, b));
                    }
                }
            }
        }
        let want_bs: Vec<u16> = exp[0].pkts.iter().map(|p| p.audio.bs as u16).collect();
        let got_bs: Vec<u16> = out.iter().filter_map(|x| x.1).collect();
        if want_bs != got_bs {
            issues.push(("optimize".into(), format!("block sizes of {:?} are {got_bs:?} instead of {want_bs:?}", name(c.2.len()))));
        }
        let fk: Vec<Pkt> = out.iter().map(|x| fake(&x.0, false)).collect();
        let mut is = vec![];
        compare_stream(&exp[0], &fk.iter().collect::<Vec<_>>(), &mut is);
        issues.extend(is.into_iter().map(|(t, m)| (format!("{t:?}"), format!("{:?}: {m}", name(c.2.len())))));
        // There is no way back to the analysis
        if issues.is_empty() && catch_unwind(AssertUnwindSafe(|| opt.analyze_packet(&alphabet[0].1).map(|_| ()))).is_ok() {
            issues.push(("phase".into(), format!("analysis after optimizing {:?} does not panic", name(c.2.len()))));
        }
        v.issues = issues;
        if v.hash % 997 == 0 {
            v.sample = Some(format!("{:?}", name(c.2.len())));
        }
        v
    };
    run(ctx, Spec { name: "calls", bound: 0, gen: &gen, eval: &eval, bytes: &|_| vec![] });
}

#[derive(Clone, Debug, Default)]
struct Plan {
    input: usize,
    ignore_start: bool,
    freq: Option<u32>,
    /// (minimum, nominal, maximum); those that are None are left alone
    rates: [Option<i32>; 3],
    serial: u8,
    end: Vec<(usize, u8)>,
    granule: u8,
}

#[derive(Default)]
struct Log {
    freq: Vec<u32>,
    rates: Vec<(i32, i32, i32)>,
    serial: Vec<(u32, usize, bool)>,
    end: Vec<(u8, usize, bool)>,
    granule: Vec<(i64, usize, bool, bool)>,
}

fn code(e: &PacketWriteEndInfo) -> u8 {
    match e {
        PacketWriteEndInfo::NormalPacket => 0,
        PacketWriteEndInfo::EndPage => 1,
        PacketWriteEndInfo::EndStream => 2,
    }
}
fn decode(c: u8) -> PacketWriteEndInfo {
    match c {
        0 => PacketWriteEndInfo::NormalPacket,
        1 => PacketWriteEndInfo::EndPage,
        _ => PacketWriteEndInfo::EndStream,
    }
}

impl Plan {
    fn m_rates(&self, a: i32, b: i32, c: i32) -> (i32, i32, i32) {
        let [x, y, z] = self.rates;
        (x.unwrap_or(a), y.unwrap_or(b), z.unwrap_or(c))
    }
    fn m_serial(&self, s: u32, n: usize) -> u32 {
        match self.serial {
            0 => s,
            1 => s ^ 0xdead_0000,
            2 => s.wrapping_sub(8),
            _ => {
                if n >= 3 {
                    s
                } else {
                    s
                }
            }
        }
    }
    fn m_end(&self, e: u8, n: usize) -> u8 {
        self.end.iter().find(|x| x.0 == n).map_or(e, |x| x.1)
    }
    fn m_granule(&self, g: i64, n: usize, header: bool, last: bool) -> i64 {
        match self.granule {
            0 => g,
            1 => g + 1000,
            2 => {
                if header {
                    g
                } else {
                    -5
                }
            }
            3 => n as i64 * 10 + last as i64,
            _ => i64::MAX,
        }
    }
}

struct Recorder(Plan, Rc<RefCell<Log>>);
impl OggVorbisStreamMangler for Recorder {
    fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
        self.1.borrow_mut().freq.push(f.get());
        self.0.freq.and_then(NonZeroU32::new).unwrap_or(f)
    }
    fn mangle_bitrates(&mut self, a: i32, b: i32, c: i32) -> (i32, i32, i32) {
        self.1.borrow_mut().rates.push((a, b, c));
        self.0.m_rates(a, b, c)
    }
    fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
        self.1.borrow_mut().serial.push((s, n, last));
        self.0.m_serial(s, n)
    }
    fn mangle_packet_page_end_info(&mut self, e: PacketWriteEndInfo, n: usize, last: bool) -> PacketWriteEndInfo {
        self.1.borrow_mut().end.push((code(&e), n, last));
        let c = self.0.m_end(code(&e), n);
        decode(c)
    }
    fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
        self.1.borrow_mut().granule.push((g, n, header, last));
        self.0.m_granule(g, n, header, last)
    }
}

/// Overrides nothing
struct Nothing;
impl OggVorbisStreamMangler for Nothing {}

fn remux_with<M: OggVorbisStreamMangler>(input: &[u8], m: M, ignore_start: bool) -> Out {
    let s = Settings {
        randomize_stream_serials: false,
        first_stream_serial_offset: 7,
        ignore_start_sample_offset: ignore_start,
        error_on_no_vorbis_streams: true,
        verify_ogg_page_checksums: true,
        vorbis_stream_mangler: m,
    };
    let inst = OggToOgg::new(s, Opts::default().optimizer());
    let mut sink = vec![];
    match catch_unwind(AssertUnwindSafe(|| inst.remux(Cursor::new(input), &mut sink).map(|_| ()))) {
        Err(p) => Out::Panic(panic_msg(p)),
        Ok(Ok(())) => Out::Ok(sink),
        Ok(Err(e)) => Out::Err(err_kind(&e), e.to_string(), sink.len()),
    }
}

pub fn c19(ctx: &mut Ctx) {
    let mut ins: Vec<Vec<u8>> = vec![];
    let mut a = bases()[0].clone();
    a.start = 500;
    a.audio[1].brk = true;
    ins.push(a.bytes());
    let mut drops = bases()[1].clone();
    drops.audio.insert(1, AudioPkt { data: vec![], bs: 0, brk: false, gdelta: 0 });
    drops.audio.push(AudioPkt { data: vec![], bs: 0, brk: false, gdelta: 0 });
    ins.push(drops.bytes());
    let mut chain = bases()[2].bytes();
    let mut x = bases()[1].clone();
    x.serial = 88;
    x.start = -20;
    x.eos = false;
    chain.extend(x.bytes());
    ins.push(chain);
    let mut headers = bases()[1].clone();
    headers.audio.clear();
    ins.push(headers.bytes());
    ins.push(size_stream_bytes());
    let n = ins.len();
    // Numbers of packets that don't fit in 8 and 16 bits
    let long = [300usize, 66_000];
    for k in long {
        let (id, st) = (ident(1, 6, 6), tiny_setup(&[1, 1]));
        let d = crate::dec::Dec::new(id.clone(), st.clone()).expect("decoder");
        let mut s = StreamB::new(3, &id, &st);
        for i in 0..k {
            let (data, a) = packet(&d, i as u64 % 2, false, false, Pat::Silent, 0);
            s.push(data, a.expect("silence").bs);
        }
        ins.push(s.bytes());
    }
    let many = |ch: &mut Chooser| -> Option<Plan> {
        let i = ch.all(long.len());
        let mut p = Plan { input: n + i, ignore_start: ch.all(2) == 1, ..Default::default() };
        p.serial = ch.each(&[0, 1]);
        p.granule = ch.all(5) as u8;
        if ch.all(2) == 1 {
            p.end = [3, 255, 256, 257, 258, 259, 65535, 65536, 65537, 65538, 65539].into_iter().filter(|k| *k < long[i]).zip([0u8, 1].into_iter().cycle()).collect();
        }
        Some(p)
    };
    let gen = |ch: &mut Chooser| -> Option<Plan> {
        let mut p = Plan { input: ch.all(n), ..Default::default() };
        p.ignore_start = ch.flag();
        p.freq = ch.of(&[None, Some(1), Some(44100), Some(u32::MAX)]);
        p.rates = ch.of(&[
            [None; 3],
            [Some(1), Some(2), Some(3)],
            [Some(-1), Some(0), Some(i32::MAX)],
            [Some(0); 3],
            [Some(i32::MIN), Some(64000), Some(-1)],
            [Some(77), None, None],
            [None, Some(77), None],
            [None, None, Some(77)],
            [None, Some(-5), Some(0)],
            [Some(-5), None, Some(0)],
            [Some(-5), Some(0), None],
        ]);
        p.serial = ch.pick(3) as u8;
        let npk = 3 + bases().iter().map(|b| b.audio.len()).max().unwrap() + 3;
        for i in 0..npk {
            let k = ch.pick(4);
            if k > 0 {
                p.end.push((i, k as u8 - 1));
            }
        }
        p.granule = ch.pick(5) as u8;
        Some(p)
    };
    let eval = |p: &Plan| -> Verdict {
        let mut v = Verdict { nontrivial: true, outcome: "mangled", hash: fnv(format!("{p:?}").as_bytes()), ..Default::default() };
        let o = Opts { ignore_start: p.ignore_start, ..Opts::default() };
        let mut bad = |k: &str, m: String| v.issues.push((k.into(), format!("{p:?}: {m}")));
        let input = &ins[p.input];
        let exp = model(input, &o).expect("valid input");
        let plain = remux(input, &o);
        let Out::Ok(plain_b) = &plain else {
            bad("rejected", format!("{plain:?}"));
            return v;
        };
        let streams = split_streams(plain_b).unwrap_or_default();
        if remux_with(input, Nothing, p.ignore_start) != plain {
            bad("default", "a mangler with the default methods changes the output".into());
        }
        let log = Rc::new(RefCell::new(Log::default()));
        let got = remux_with(input, Recorder(p.clone(), log.clone()), p.ignore_start);
        let log = log.borrow();
        // Calls
        let ids: Vec<&Ident> = exp.iter().map(|e| &e.ident).collect();
        if log.freq != ids.iter().map(|i| i.rate).collect::<Vec<_>>() {
            bad("calls", format!("sampling frequencies {:?}", log.freq));
        }
        if log.rates != ids.iter().map(|i| (i.br_min, i.br_nom, i.br_max)).collect::<Vec<_>>() {
            bad("calls", format!("bitrates {:?}", log.rates));
        }
        let mut want = Log::default();
        let mut buf = vec![];
        let mut w = PacketWriter::new(&mut buf);
        for (i, (e, (_, pk))) in exp.iter().zip(&streams).enumerate() {
            let n = e.packet_count();
            for (k, d) in pk.iter().enumerate() {
                let last = k + 1 == n;
                let s = 7 + i as u32;
                let end = if last { 2 } else { (k == 0 || k == 2) as u8 };
                let g = if k < 3 { 0 } else { e.pkts.get(k - 3).map_or(0, |x| x.granule) };
                want.serial.push((s, k, last));
                want.end.push((end, k, last));
                want.granule.push((g, k, k < 3, last));
                let mut data = d.data.clone();
                if k == 0 {
                    let mut id = e.ident.clone();
                    id.rate = p.freq.unwrap_or(id.rate);
                    (id.br_min, id.br_nom, id.br_max) = p.m_rates(id.br_min, id.br_nom, id.br_max);
                    data = id.encode();
                }
                w.write_packet(data, p.m_serial(s, k), decode(p.m_end(end, k)), p.m_granule(g, k, k < 3, last) as u64).expect("write");
                v.steps += 1;
            }
        }
        drop(w);
        if log.serial != want.serial {
            bad("calls", format!("serials {:?} instead of {:?}", log.serial, want.serial));
        }
        if log.end != want.end {
            bad("calls", format!("page end information {:?} instead of {:?}", log.end, want.end));
        }
        if log.granule != want.granule {
            bad("calls", format!("granule positions {:?} instead of {:?}", log.granule, want.granule));
        }
        let want = Out::Ok(buf);
        if got != want {
            bad("output", format!("output is {} instead of {}", brief(&got), brief(&want)));
        }
        v
    };
    let bound = ctx.t(2, 3);
    run(ctx, Spec { name: "manglers", bound, gen: &gen, eval: &eval, bytes: &|p: &Plan| ins[p.input].clone() });
    run(ctx, Spec { name: "many packets", bound: 0, gen: &many, eval: &eval, bytes: &|p: &Plan| ins[p.input].clone() });
}
