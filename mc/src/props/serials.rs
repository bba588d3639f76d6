//! C12: stream serials and SOURCE_DATE_EPOCH.

use crate::explore::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces2::*;
use std::path::{Path, PathBuf};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// Remuxes files one after the other, each with its own instance
pub fn child(args: &[String]) -> i32 {
    let prefix = &args[0];
    let mut o = Opts { offset: args[1].parse().unwrap(), randomize: args[2] == "1", ..Opts::default() };
    o.vendor = Vendor::Copy;
    for (i, f) in args[3..].iter().enumerate() {
        match remux(&std::fs::read(f).unwrap(), &o) {
            Out::Ok(b) => {
                std::fs::write(format!("{prefix}.{i}"), b).unwrap();
                println!("ok");
            }
            Out::Err(k, m, n) => println!("err {k} {n} {m}"),
            Out::Panic(m) => println!("panic {m}"),
        }
    }
    0
}

fn many(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        let mut s = bases()[1].clone();
        s.serial = (i as u32).wrapping_mul(0x0101_0101);
        v.extend(s.bytes());
    }
    v
}

pub fn scratch(name: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-{name}-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Child {
    res: Vec<Result<Vec<u8>, String>>,
}

fn spawn(dir: &Path, tag: &str, epoch: Option<&std::ffi::OsStr>, offset: u32, randomize: bool, ins: &[&PathBuf]) -> Child {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("child");
    spawn_as(c, dir, tag, epoch, offset, randomize, ins)
}

fn spawn_as(mut c: Command, dir: &Path, tag: &str, epoch: Option<&std::ffi::OsStr>, offset: u32, randomize: bool, ins: &[&PathBuf]) -> Child {
    let prefix = dir.join(format!("out-{tag}"));
    c.arg(&prefix).arg(offset.to_string()).arg(if randomize { "1" } else { "0" });
    for i in ins {
        c.arg(i);
    }
    c.env_remove("SOURCE_DATE_EPOCH");
    if let Some(e) = epoch {
        c.env("SOURCE_DATE_EPOCH", e);
    }
    let o = c.output().expect("child");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut res: Vec<Result<Vec<u8>, String>> = text
        .lines()
        .enumerate()
        .map(|(i, l)| {
            if l == "ok" {
                let p = dir.join(format!("out-{tag}.{i}"));
                let b = std::fs::read(&p).unwrap();
                std::fs::remove_file(&p).ok();
                Ok(b)
            } else {
                Err(l.to_string())
            }
        })
        .collect();
    res.resize(ins.len(), Err("no answer".into()));
    Child { res }
}

/// A process whose random numbers are given
struct Entropy {
    child: std::process::Child,
}
impl Entropy {
    fn new(bin: &str, epoch: Option<&str>) -> Self {
        let mut c = Command::new(bin);
        c.env_remove("SOURCE_DATE_EPOCH").stdin(Stdio::piped()).stdout(Stdio::piped());
        if let Some(e) = epoch {
            c.env("SOURCE_DATE_EPOCH", e);
        }
        Self { child: c.spawn().expect("entropy") }
    }
    /// What the library does, and the number of random bytes that it asked for
    fn remux(&mut self, offset: u32, random: Option<&[u8]>, data: &[u8]) -> (Result<Vec<u8>, String>, u8) {
        let mut q = offset.to_le_bytes().to_vec();
        q.push(random.map_or(255, |r| r.len() as u8));
        q.extend(random.unwrap_or_default());
        q.extend((data.len() as u32).to_le_bytes());
        q.extend(data);
        let mut go = || -> std::io::Result<(u8, u8, Vec<u8>)> {
            self.child.stdin.as_mut().unwrap().write_all(&q)?;
            let o = self.child.stdout.as_mut().unwrap();
            let mut head = [0; 6];
            o.read_exact(&mut head)?;
            let mut b = vec![0; u32::from_le_bytes(head[2..].try_into().unwrap()) as usize];
            o.read_exact(&mut b)?;
            Ok((head[0], head[1], b))
        };
        match go() {
            Ok((b'o', n, b)) => (Ok(b), n),
            Ok((b'e', n, b)) => (Err(String::from_utf8_lossy(&b).into_owned()), n),
            Ok((_, n, _)) => (Err("panic".into()), n),
            Err(e) => (Err(format!("no answer: {e}")), 0),
        }
    }
}
impl Drop for Entropy {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        self.child.wait().ok();
    }
}

pub fn serials(b: &[u8]) -> Option<Vec<u32>> {
    let mut v: Vec<u32> = vec![];
    for p in parse_pages(b, true).ok()? {
        if v.last() != Some(&p.serial) {
            v.push(p.serial);
        }
    }
    Some(v)
}

/// The same pages with serials replaced by the order of appearance of their stream
pub fn canonical(b: &[u8]) -> Result<Vec<Page>, String> {
    let mut pages = parse_pages(b, true)?;
    let mut seen: Vec<u32> = vec![];
    for p in &mut pages {
        if !seen.contains(&p.serial) {
            seen.push(p.serial);
        }
        p.serial = seen.iter().position(|s| *s == p.serial).unwrap() as u32;
        p.crc = 0;
    }
    Ok(pages)
}

pub fn c12(ctx: &mut Ctx) {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let dir = scratch("serials");
    let data: Vec<Vec<u8>> = vec![
        bases()[0].bytes(),
        bases()[1].bytes(),
        many(2),
        many(40),
        file(0).to_vec(),
        file(1).to_vec(),
        file(6).to_vec(),
        many(if ctx.thorough { 700 } else { 300 }),
    ];
    let paths: Vec<PathBuf> = data
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let p = dir.join(format!("in{i}"));
            std::fs::write(&p, d).unwrap();
            p
        })
        .collect();
    let plain: Vec<Vec<Page>> = data
        .iter()
        .map(|d| match remux(d, &Opts { vendor: Vendor::Copy, ..Opts::default() }) {
            Out::Ok(b) => canonical(&b).unwrap_or_default(),
            _ => vec![],
        })
        .collect();

    // Sequential serials, in this process
    {
        let offs: Vec<u32> = vec![0, 1, 7, 0x7fff_ffff, 0x8000_0000, u32::MAX - 38, u32::MAX - 1, u32::MAX];
        let gen = |ch: &mut Chooser| Some((ch.all(data.len()), ch.each(&offs)));
        let eval = |c: &(usize, u32)| -> Verdict {
            let mut v = Verdict { nontrivial: true, outcome: "sequential", steps: 1, hash: fnv(format!("{c:?}").as_bytes()), ..Default::default() };
            let o = Opts { offset: c.1, vendor: Vendor::Copy, ..Opts::default() };
            match remux(&data[c.0], &o) {
                Out::Ok(b) => {
                    let s = serials(&b).unwrap_or_default();
                    let want: Vec<u32> = (0..s.len() as u32).map(|i| c.1.wrapping_add(i)).collect();
                    if s != want {
                        v.issues.push(("sequential".into(), format!("input {} with offset {}: serials {:x?}", c.0, c.1, &s[..s.len().min(50)])));
                    }
                    if canonical(&b) != Ok(plain[c.0].clone()) {
                        v.issues.push(("contents".into(), format!("input {}: offset {} changes more than serials", c.0, c.1)));
                    }
                }
                x => v.issues.push(("rejected".into(), format!("{x:?}"))),
            }
            v
        };
        run(ctx, Spec { name: "sequential", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &(usize, u32)| data[c.0].clone() });
    }

    // Randomized ones, in processes with their own environment
    #[derive(Clone, Debug)]
    struct C {
        epoch: Option<Vec<u8>>,
        valid: bool,
        offset: u32,
        order: Vec<usize>,
        randomize: bool,
    }
    let orders: Vec<Vec<usize>> = vec![vec![0, 1, 2, 3, 4, 5, 6, 7], vec![3, 3], vec![0], vec![1], vec![4, 0], vec![6], vec![5, 2, 5]];
    let epochs: Vec<(Option<Vec<u8>>, bool)> = vec![
        (Some(b"1700000000".to_vec()), true),
        (None, true),
        (Some(b"0".to_vec()), true),
        (Some(b"1".to_vec()), true),
        (Some(b"-1".to_vec()), true),
        (Some(b"-62135596800".to_vec()), true),
        (Some(b"4294967296".to_vec()), true),
        (Some(b"9223372036854775807".to_vec()), true),
        (Some(b"253402300799".to_vec()), true),
        (Some(b"18446744073709551615".to_vec()), true),
        (Some(b"-9223372036854775808".to_vec()), true),
        (Some(b"".to_vec()), false),
        (Some(b"abc".to_vec()), false),
        (Some(b"1.5".to_vec()), false),
        (Some(b"0x10".to_vec()), false),
        (Some(b"1e3".to_vec()), false),
        (Some(b" 1".to_vec()), false),
        (Some(b"1 ".to_vec()), false),
        (Some(b"1\n".to_vec()), false),
        (Some(b"--1".to_vec()), false),
        (Some(b"2026-01-01".to_vec()), false),
        (Some(vec![0x31, 0xff]), false),
        (Some("\u{0661}".as_bytes().to_vec()), false),
    ];
    let gen = |ch: &mut Chooser| -> Option<C> {
        let e = ch.all(epochs.len());
        Some(C {
            epoch: epochs[e].0.clone(),
            valid: epochs[e].1,
            offset: ch.each(&[0, 1, 0xffff_fff0]),
            order: ch.each(&orders),
            randomize: ch.all(2) == 0,
        })
    };
    let n = std::sync::atomic::AtomicUsize::new(0);
    let firsts: std::sync::Mutex<Vec<(String, usize, u32)>> = std::sync::Mutex::new(vec![]);
    let eval = |c: &C| -> Verdict {
        let k = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut v = Verdict { nontrivial: true, steps: 1, hash: fnv(format!("{c:?}").as_bytes()), ..Default::default() };
        let ep = c.epoch.as_deref().map(OsStr::from_bytes);
        let ins: Vec<&PathBuf> = c.order.iter().map(|&i| &paths[i]).collect();
        let a = spawn(&dir, &format!("{k}a"), ep, c.offset, c.randomize, &ins);
        let mut bad = |key: &str, m: String| v.issues.push((key.into(), format!("{c:?}: {m}")));
        if !c.valid && c.randomize {
            for r in &a.res {
                match r {
                    Ok(_) => bad("epoch", "invalid value accepted".into()),
                    Err(e) if !e.starts_with("err other 0 ") => bad("epoch", format!("invalid value gives {e}")),
                    _ => (),
                }
            }
            v.outcome = "rejected";
            return v;
        }
        for (r, &i) in a.res.iter().zip(&c.order) {
            match r {
                Err(e) => bad("rejected", e.clone()),
                Ok(b) => {
                    match canonical(b) {
                        Ok(p) if p == plain[i] => (),
                        Ok(_) => bad("contents", format!("input {i}: more than serials changes")),
                        Err(e) => bad("pages", format!("input {i}: {e}")),
                    }
                    let s = serials(b).unwrap_or_default();
                    let mut d = s.clone();
                    d.sort();
                    d.dedup();
                    if d.len() != s.len() {
                        bad("unique", format!("input {i}: repeated serials {:x?}", &s[..s.len().min(50)]));
                    }
                    if !c.randomize && s.iter().enumerate().any(|(j, s)| *s != c.offset.wrapping_add(j as u32)) {
                        bad("sequential", format!("serials {:x?}", &s[..s.len().min(50)]));
                    }
                    if c.randomize && c.offset == 0 {
                        firsts.lock().unwrap().push((format!("{:?}{:?}", c.epoch, c.order), i, s.first().copied().unwrap_or(0)));
                    }
                }
            }
        }
        v.outcome = if c.randomize { "random" } else { "sequential" };
        if c.epoch.is_some() || !c.randomize {
            // Reproducible in another process
            let b = spawn(&dir, &format!("{k}b"), ep, c.offset, c.randomize, &ins);
            v.steps += 1;
            if a.res != b.res {
                bad("reproducible", "two processes give different outputs".into());
            }
        }
        if c.epoch.is_some() && c.offset != 0 && c.randomize {
            let z = spawn(&dir, &format!("{k}z"), ep, 0, true, &ins);
            v.steps += 1;
            for (x, y) in a.res.iter().zip(&z.res) {
                if let (Ok(x), Ok(y)) = (x, y) {
                    let (x, y) = (serials(x).unwrap_or_default(), serials(y).unwrap_or_default());
                    if x.len() != y.len() || x.iter().zip(&y).any(|(x, y)| *x != y.wrapping_add(c.offset)) {
                        bad("offset", format!("serials {:x?} are not those without offset, {:x?}, plus it", &x[..x.len().min(3)], &y[..y.len().min(3)]));
                    }
                }
            }
        }
        v
    };
    run(ctx, Spec { name: "epochs", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &C| data[c.order[0]].clone() });

    // Without the feature, the variable means nothing
    let eval = |c: &C| -> Verdict {
        let k = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut v = Verdict { nontrivial: true, steps: 2, outcome: "variable ignored", hash: fnv(format!("{c:?}").as_bytes()), ..Default::default() };
        let ep = c.epoch.as_deref().map(OsStr::from_bytes);
        let ins: Vec<&PathBuf> = c.order.iter().map(|&i| &paths[i]).collect();
        let go = |t: &str| {
            let bin = Command::new(std::env::var("MC_NOFEATURE").expect("MC_NOFEATURE"));
            spawn_as(bin, &dir, &format!("{k}{t}"), ep, c.offset, c.randomize, &ins).res
        };
        let (a, b) = (go("n"), go("m"));
        let mut bad = |key: &str, m: String| v.issues.push((key.into(), format!("no feature, {c:?}: {m}")));
        let mut all = vec![];
        for (r, &i) in a.iter().zip(&c.order) {
            match r {
                Err(e) => bad("rejected", e.clone()),
                Ok(b) => {
                    if canonical(b) != Ok(plain[i].clone()) {
                        bad("contents", format!("input {i}: more than serials changes"));
                    }
                    let s = serials(b).unwrap_or_default();
                    let mut d = s.clone();
                    d.sort();
                    d.dedup();
                    if d.len() != s.len() {
                        bad("unique", format!("input {i}: repeated serials {:x?}", &s[..s.len().min(50)]));
                    }
                    if !c.randomize && s.iter().enumerate().any(|(j, s)| *s != c.offset.wrapping_add(j as u32)) {
                        bad("sequential", format!("serials {:x?}", &s[..s.len().min(50)]));
                    }
                    all.push(s);
                }
            }
        }
        if c.randomize && a == b {
            bad("random", format!("two processes give the same serials {all:x?}"));
        }
        // Operations draw serials of their own
        if c.randomize && all.len() > 1 && all.iter().all(|s| s.first() == all[0].first()) {
            bad("operation", format!("operations share serials {all:x?}"));
        }
        v
    };
    run(ctx, Spec { name: "nofeature", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &C| data[c.order[0]].clone() });

    // What the system gives as random numbers, if it does
    let bin = std::env::var("MC_ENTROPY").expect("MC_ENTROPY");
    #[derive(Clone, Debug)]
    struct E {
        at: usize,
        offset: u32,
        input: usize,
    }
    const POSITIONS: usize = 8;
    let asked = std::sync::Mutex::new(vec![]);
    let gen = |ch: &mut Chooser| Some(E { at: ch.all(POSITIONS + 1), offset: ch.each(&[0, 1, 0x8000_0000, 0xffff_fff0]), input: ch.each(&[0, 2, 3]) });
    let check = |s: &[u32], b: &[u8], i: usize| -> Option<String> {
        if canonical(b) != Ok(plain[i].clone()) {
            return Some(format!("input {i}: more than serials changes"));
        }
        let mut d = s.to_vec();
        d.sort();
        d.dedup();
        (d.len() != s.len()).then(|| format!("input {i}: repeated serials {:x?}", &s[..s.len().min(50)]))
    };
    let eval = |c: &E| -> Verdict {
        let mut v = Verdict { nontrivial: true, outcome: "random", hash: fnv(format!("{c:?}").as_bytes()), ..Default::default() };
        let mut p = Entropy::new(&bin, None);
        let mut first = vec![];
        let mut reads = 0;
        for x in 0..=255u8 {
            // One byte after the other takes every value, and then all of them
            let random: Vec<u8> = (0..POSITIONS).map(|k| if k == c.at || c.at == POSITIONS { x } else { 0x40 }).collect();
            v.steps += 2;
            let (r, n) = p.remux(c.offset, Some(&random), &data[c.input]);
            reads = reads.max(n);
            match (r, p.remux(0, Some(&random), &data[c.input]).0) {
                (Ok(a), Ok(b)) => {
                    let (s, z) = (serials(&a).unwrap_or_default(), serials(&b).unwrap_or_default());
                    if let Some(m) = check(&s, &a, c.input) {
                        v.issues.push(("entropy".into(), format!("random bytes {random:x?}, offset {:#x}: {m}", c.offset)));
                    }
                    // As long as what the system gives is all that they depend on
                    if n > 0 && (s.len() != z.len() || s.iter().zip(&z).any(|(s, z)| *s != z.wrapping_add(c.offset))) {
                        v.issues.push(("offset".into(), format!("random bytes {random:x?}: serials {:x?} are not those without offset, {:x?}, plus {:#x}", &s[..s.len().min(3)], &z[..z.len().min(3)], c.offset)));
                    }
                    first.push(s.first().copied().unwrap_or(0));
                }
                (a, b) => {
                    let m = [a, b].into_iter().find_map(|r| r.err()).unwrap_or_default();
                    v.issues.push(("rejected".into(), format!("random bytes {random:x?}, offset {:#x}: {m}", c.offset)));
                }
            }
            if v.issues.len() > 5 {
                break;
            }
        }
        first.sort();
        first.dedup();
        asked.lock().unwrap().push((c.at, reads, first.len()));
        v
    };
    run(ctx, Spec { name: "entropy", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &E| data[c.input].clone() });

    // Operations of one process, some of which get no random numbers
    type H = (Vec<(bool, usize)>, Option<&'static str>);
    let deepest = ctx.t(3, 5);
    let gen = |ch: &mut Chooser| -> Option<H> {
        let n = 1 + ch.all(deepest);
        Some(((0..n).map(|_| (ch.all(2) == 0, ch.each(&[2, 0]))).collect(), ch.each(&[None, Some("1700000000"), Some("never")])))
    };
    let eval = |c: &H| -> Verdict {
        let mut v = Verdict { nontrivial: true, outcome: "not random", hash: fnv(format!("{c:?}").as_bytes()), steps: c.0.len() as u64, ..Default::default() };
        let go = |given: bool| {
            let mut p = Entropy::new(&bin, c.1);
            let ops = c.0.iter().enumerate();
            ops.map(|(i, (fails, input))| p.remux(0, (!*fails || given).then_some(&[i as u8, 7, 2, 1, 5, 6, 7, 8]), &data[*input]).0).collect::<Vec<_>>()
        };
        let a = go(false);
        let mut bad = |key: &str, m: String| v.issues.push((key.into(), format!("{c:?}: {m}")));
        let mut firsts: Vec<u32> = vec![];
        for (r, (_, i)) in a.iter().zip(&c.0) {
            match r {
                Ok(_) if c.1 == Some("never") => bad("epoch", "invalid value accepted".into()),
                Err(_) if c.1 == Some("never") => (),
                Err(m) => bad("rejected", m.clone()),
                Ok(b) => {
                    let s = serials(b).unwrap_or_default();
                    if let Some(m) = check(&s, b, *i) {
                        bad("entropy", m);
                    }
                    firsts.extend(s.first());
                }
            }
        }
        let n = firsts.len();
        firsts.sort();
        firsts.dedup();
        if firsts.len() != n {
            bad("operation", "operations share serials".into());
        }
        if c.1.is_some() && a != go(true) {
            bad("reproducible", "the outputs depend on what the system gives".into());
        }
        v
    };
    run(ctx, Spec { name: "no entropy", bound: 0, gen: &gen, eval: &eval, bytes: &|c: &H| data[c.0[0].1].clone() });
    if ctx.replay.is_none() {
        // At least four bytes matter
        let asked = asked.into_inner().unwrap();
        let enough = (0..POSITIONS).filter(|k| asked.iter().filter(|x| x.0 == *k).all(|x| x.2 >= 128)).count();
        if asked.iter().any(|x| x.1 > 0) && enough < 4 {
            ctx.violation("random", "entropy", format!("serials depend on {enough} random bytes"), vec![]);
        }
    }

    // Serials have to depend on the epoch, on the input, and on the operation
    let f = firsts.into_inner().unwrap();
    if ctx.replay.is_none() {
        let distinct = |v: Vec<u32>| {
            let mut d = v;
            d.sort();
            d.dedup();
            d.len()
        };
        let single: Vec<_> = f.iter().filter(|x| x.0.ends_with("[0]") && x.0.starts_with("Some")).map(|x| x.2).collect();
        if distinct(single.clone()) < 2 {
            ctx.violation("epoch", "epochs", format!("serials do not depend on the value of SOURCE_DATE_EPOCH: {single:x?}"), vec![]);
        }
        let e = format!("{:?}", Some(b"1700000000".to_vec()));
        let by_input: Vec<_> = f.iter().filter(|x| ["[0]", "[1]", "[6]"].iter().any(|o| x.0 == format!("{e}{o}"))).map(|x| x.2).collect();
        if distinct(by_input.clone()) < 3 {
            ctx.violation("input", "epochs", format!("files processed by different processes share serials: {by_input:x?}"), vec![]);
        }
        for (w, o) in [(e, "given"), ("None".to_string(), "not given")] {
            let twice: Vec<_> = f.iter().filter(|x| x.0 == format!("{w}[3, 3]")).map(|x| x.2).collect();
            if distinct(twice.clone()) < 2 {
                ctx.violation("operation", "epochs", format!("operations of a process share serials, epoch {o}: {twice:x?}"), vec![]);
            }
        }
        let r: Vec<_> = f.iter().filter(|x| x.0.starts_with("None")).map(|x| x.2).collect();
        if distinct(r.clone()) < 8 {
            ctx.violation("random", "epochs", format!("serials are not random: {r:x?}"), vec![]);
        }
    }
    std::fs::remove_dir_all(&dir).ok();
}
