//! C17: the command line program does what the library does.

use super::serials::*;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::oggio::*;
use crate::report::Ctx;
use crate::spaces2::*;
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq)]
enum Dest {
    Ext(&'static str),
    Stdout,
    NoDir,
    Full,
    ClosedPipe,
}

#[derive(Clone, Debug)]
struct C {
    input: usize,
    dest: Dest,
    verbosity: &'static str,
    remuxer: Option<&'static str>,
    vendor: Option<&'static str>,
    fields: Option<&'static str>,
    ropts: Vec<&'static str>,
    long: bool,
    extra: u8,
    /// The output file exists
    old: bool,
    epoch: Option<&'static str>,
    names: Names,
}

/// How the files are called
#[derive(Clone, Copy, Debug, PartialEq)]
enum Names {
    Absolute,
    Relative,
    /// Spaces and other characters
    Unicode,
    /// Arguments that are not UTF-8. May be refused
    BytesIn,
    BytesOut,
    /// Both begin with a hyphen, and come after two of them
    Hyphens,
    /// Two hyphens before the usual names
    AfterHyphens,
}

/// Longer than anything that is written here
const OLD: &[u8] = &[b'O'; 300_000];

fn parse_bool(s: &str) -> Option<bool> {
    match s {
        "true" => Some(true),
        "false" => Some(false),
        _ => None,
    }
}

/// Library options equivalent to the arguments; none if they are not valid
fn opts(c: &C) -> Option<Opts> {
    let mut o = Opts { offset: 0, randomize: true, ..Opts::default() };
    o.vendor = match c.vendor {
        None => Vendor::AppendTag,
        Some("copy") => Vendor::Copy,
        Some("replace") => Vendor::Replace,
        Some("appendTag") => Vendor::AppendTag,
        Some("appendShortTag") => Vendor::AppendShortTag,
        Some("empty") => Vendor::Empty,
        _ => return None,
    };
    o.delete_fields = match c.fields {
        None | Some("copy") => false,
        Some("delete") => true,
        _ => return None,
    };
    for r in &c.ropts {
        let Some((k, v)) = r.split_once('=') else { continue };
        match k {
            "randomize_stream_serials" => o.randomize = parse_bool(v)?,
            "ignore_start_sample_offset" => o.ignore_start = parse_bool(v)?,
            "error_on_no_vorbis_streams" => o.error_no_vorbis = parse_bool(v)?,
            "verify_ogg_page_checksums" => o.verify_crc = parse_bool(v)?,
            "first_stream_serial_offset" => o.offset = v.parse().ok()?,
            _ => (),
        }
    }
    Some(o)
}

pub fn c17(ctx: &mut Ctx) {
    let bin = std::env::var("MC_CLI").expect("MC_CLI");
    let dir = scratch("cli");
    let mut late = bases()[0].clone();
    late.start = 777;
    let mut big = bases()[1].clone();
    big.comment = Comments3::new(200_000);
    let ins: Vec<Option<Vec<u8>>> = vec![
        Some(late.bytes()),
        Some(file(1).to_vec()),
        Some(file(7).to_vec()),
        Some(file(8).to_vec()),
        Some(vec![]),
        None,
        Some(big.bytes()),
        Some(b"not Ogg".to_vec()),
    ];
    let paths: Vec<_> = ins
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let p = dir.join(format!("in{i}.ogg"));
            if let Some(d) = d {
                std::fs::write(&p, d).unwrap();
            }
            p
        })
        .collect();
    // The same files under other names
    let prefix = |n: Names| -> &[u8] {
        match n {
            Names::Unicode => "in = é ♫.oga ".as_bytes(),
            Names::BytesIn => b"in\xff\xfe",
            Names::Hyphens => b"-r",
            _ => b"in",
        }
    };
    let name = |n: Names, i: &str| std::ffi::OsString::from_vec([prefix(n), i.as_bytes()].concat());
    for n in [Names::Unicode, Names::BytesIn, Names::Hyphens] {
        for (i, d) in ins.iter().enumerate() {
            if let Some(d) = d {
                std::fs::write(dir.join(name(n, &format!("{i}.ogg"))), d).expect("scratch");
            }
        }
    }
    let gen = |ch: &mut Chooser| -> Option<C> {
        let input = ch.all(ins.len());
        let dest = ch.of(&[Dest::Ext("ogg"), Dest::Stdout, Dest::Ext("oga"), Dest::Ext("ogx"), Dest::Ext("bin"), Dest::Ext(""), Dest::NoDir, Dest::Full, Dest::ClosedPipe]);
        let verbosity = ch.of(&["", "-q", "-v", "-vv", "-qv", "--quiet", "--verbose", "-v --verbose -v", "--verbose --quiet"]);
        let rem = [Some("ogg2ogg"), Some("mkv2ogg"), Some("")];
        let k = ch.pick(4);
        // Without it nothing useful happens
        let implied = matches!(dest, Dest::Stdout | Dest::Full | Dest::ClosedPipe);
        let remuxer = if k == 0 { implied.then_some("ogg2ogg") } else if k == 1 && implied { None } else { rem[k - 1] };
        let vendor = ch.of(&[None, Some("copy"), Some("replace"), Some("appendTag"), Some("appendShortTag"), Some("empty"), Some("bad"), Some("Copy"), Some("")]);
        let fields = ch.of(&[None, Some("delete"), Some("copy"), Some("bad"), Some("")]);
        let ro = [
            "first_stream_serial_offset=41",
            "first_stream_serial_offset=0",
            "first_stream_serial_offset=4294967295",
            "first_stream_serial_offset=4294967296",
            "first_stream_serial_offset=-1",
            "first_stream_serial_offset=x",
            "ignore_start_sample_offset=true",
            "ignore_start_sample_offset=false",
            "ignore_start_sample_offset=1",
            "error_on_no_vorbis_streams=false",
            "error_on_no_vorbis_streams=true",
            "error_on_no_vorbis_streams=no",
            "verify_ogg_page_checksums=false",
            "verify_ogg_page_checksums=true",
            "verify_ogg_page_checksums=",
            "randomize_stream_serials=true",
            "randomize_stream_serials=false",
            "randomize_stream_serials=TRUE",
            // Nothing that exists
            "ignore=true",
            "ignore_start_sample_offsets=true",
            "IGNORE_START_SAMPLE_OFFSET=true",
            "ignore_start_sample_offset",
            "=true",
            "serial_offset=9",
            "first_stream_serial_offset",
            "error_on_no_vorbis_stream=false",
            "checksums=false",
        ];
        let mut ropts = vec![];
        let first = ch.pick(ro.len() + 1);
        if first > 0 {
            ropts.push(ro[first - 1]);
            let second = ch.pick(ro.len() + 1);
            if second > 0 {
                ropts.push(ro[second - 1]);
            }
        }
        // What happens with repeated options is not specified
        let names: Vec<_> = ropts.iter().map(|r: &&str| r.split('=').next().unwrap()).collect();
        if names.len() == 2 && names[0] == names[1] {
            return None;
        }
        let chosen = names.contains(&"randomize_stream_serials");
        if ch.pick(2) == 0 && !chosen {
            ropts.push("randomize_stream_serials=false");
        }
        let long = ch.flag();
        let extra = ch.of(&[0u8, 1, 2]);
        if extra > 0 && dest == Dest::ClosedPipe {
            return None;
        }
        let old = ch.flag();
        if old && !matches!(dest, Dest::Ext(_)) {
            return None;
        }
        let epoch = ch.of(&[None, Some("1700000000"), Some("yesterday")]);
        let names = ch.of(&[Names::Absolute, Names::Relative, Names::Unicode, Names::BytesIn, Names::BytesOut, Names::Hyphens, Names::AfterHyphens]);
        if names != Names::Absolute && (extra > 0 || dest == Dest::NoDir) || names == Names::BytesOut && !matches!(dest, Dest::Ext(_)) {
            return None;
        }
        Some(C { input, dest, verbosity, remuxer, vendor, fields, ropts, long, extra, old, epoch, names })
    };
    let n = std::sync::atomic::AtomicUsize::new(0);
    let eval = |c: &C| -> Verdict {
        let id = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut v = Verdict { nontrivial: true, steps: 1, hash: fnv(format!("{c:?}").as_bytes()), ..Default::default() };
        let mut cmd = Command::new(&bin);
        cmd.env_remove("SOURCE_DATE_EPOCH").current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if let Some(e) = c.epoch {
            cmd.env("SOURCE_DATE_EPOCH", e);
        }
        cmd.args(c.verbosity.split_whitespace());
        let mut opt = |short: &str, long: &str, val: Option<&str>| {
            if let Some(x) = val {
                if c.long {
                    cmd.arg(format!("--{long}={x}"));
                } else if !short.is_empty() {
                    cmd.args([short, x]);
                } else {
                    cmd.args([&format!("--{long}"), x]);
                }
            }
        };
        opt("-r", "remuxer", c.remuxer);
        opt("", "vendor_string_action", c.vendor);
        opt("", "comment_fields_action", c.fields);
        for r in &c.ropts {
            opt("", "remuxer_option", Some(r));
        }
        let outp = match &c.dest {
            Dest::Ext(e) => {
                let id = if e.is_empty() { format!("out{id}") } else { format!("out{id}.{e}") };
                Some(dir.join(name(if c.names == Names::BytesOut { Names::BytesIn } else { c.names }, &id)))
            }
            _ => None,
        };
        if let (true, Some(p)) = (c.old, &outp) {
            std::fs::write(p, OLD).expect("scratch");
        }
        if matches!(c.names, Names::Hyphens | Names::AfterHyphens) {
            cmd.arg("--");
        }
        match c.names {
            Names::Absolute | Names::BytesOut | Names::AfterHyphens => cmd.arg(&paths[c.input]),
            n => cmd.arg(name(n, &format!("{}.ogg", c.input))),
        };
        let dest: std::ffi::OsString = match &c.dest {
            // The working directory is that of all files
            Dest::Ext(_) if matches!(c.names, Names::Relative | Names::Unicode | Names::Hyphens) => outp.as_ref().unwrap().file_name().unwrap().into(),
            Dest::Ext(_) => outp.clone().unwrap().into(),
            Dest::Stdout | Dest::ClosedPipe => "-".into(),
            Dest::NoDir => dir.join("missing/out.ogg").into(),
            Dest::Full => "/dev/full".into(),
        };
        match c.extra {
            0 => {
                cmd.arg(&dest);
            }
            1 => (),
            _ => {
                cmd.arg(&dest).arg("another");
            }
        }
        let r = if c.dest == Dest::ClosedPipe {
            // Nobody reads the output
            let (r, w) = std::io::pipe().expect("pipe");
            drop(r);
            cmd.stdout(w).output().expect("CLI")
        } else {
            cmd.output().expect("CLI")
        };
        let mut bad = |key: &str, m: String| v.issues.push((key.into(), format!("{c:?}: {m}")));
        let code = r.status.code();
        let guessed = matches!(c.dest, Dest::Ext("ogg" | "oga" | "ogx") | Dest::NoDir);
        let valid = c.extra == 0
            && match c.remuxer {
                Some(x) => x == "ogg2ogg",
                None => guessed,
            };
        let expected: Option<Out> = match (valid, opts(c), &ins[c.input]) {
            (true, Some(o), Some(d)) if c.dest != Dest::NoDir => match remux(d, &o) {
                // Serials can't be made from something that is not a time
                Out::Ok(w) if !w.is_empty() && o.randomize && c.epoch == Some("yesterday") => None,
                r => Some(r),
            },
            _ => None,
        };
        let quiet = c.verbosity.contains('q');
        // May be ignored or rejected
        let known = ["randomize_stream_serials", "ignore_start_sample_offset", "error_on_no_vorbis_streams", "verify_ogg_page_checksums", "first_stream_serial_offset"];
        let unknown = c.ropts.iter().any(|r| !r.split_once('=').is_some_and(|(k, _)| known.contains(&k)));
        let written = outp.as_ref().and_then(|p| std::fs::read(p).ok());
        let err = String::from_utf8_lossy(&r.stderr).into_owned();
        match &expected {
            Some(_) if unknown && code == Some(1) => v.outcome = "unknown option",
            Some(_) if matches!(c.names, Names::BytesIn | Names::BytesOut) && code == Some(1) && !err.trim().is_empty() => v.outcome = "unsupported name",
            Some(Out::Ok(want)) if c.dest != Dest::Full && c.dest != Dest::ClosedPipe => {
                v.outcome = "success";
                if code != Some(0) {
                    bad("exit", format!("exit code {code:?} instead of 0: {err}"));
                }
                let got = if c.dest == Dest::Stdout { r.stdout.clone() } else { written.clone().unwrap_or_default() };
                let random = opts(c).map_or(false, |o| o.randomize);
                let same = if random { canonical(&got) == canonical(want) } else { &got == want };
                if !same {
                    bad("output", format!("{} bytes of output differ from the {} of the library", got.len(), want.len()));
                }
                if c.dest != Dest::Stdout {
                    if quiet && !r.stdout.is_empty() {
                        bad("quiet", "prints to standard output".into());
                    }
                }
                if quiet && !err.is_empty() {
                    bad("quiet", format!("prints {err}"));
                }
            }
            // The error shows up if there is something to write
            Some(Out::Ok(want)) if want.is_empty() => v.outcome = "nothing to write",
            _ => {
                v.outcome = "failure";
                // Writing to a closed pipe may end the process with a signal, too
                if code != Some(1) && !(c.dest == Dest::ClosedPipe && code.is_none()) {
                    bad("exit", format!("exit code {code:?} instead of 1"));
                }
                if err.trim().is_empty() && code.is_some() {
                    bad("message", "no error message".into());
                }
                if c.dest == Dest::Stdout && !matches!(expected, Some(Out::Ok(_))) && c.extra == 0 && !r.stdout.is_empty() {
                    bad("stdout", format!("{} bytes in standard output", r.stdout.len()));
                }
                if written.map_or(false, |w| !w.is_empty() && !(c.old && w == OLD)) {
                    bad("dirty", "something was written although the operation failed".into());
                }
            }
        }
        if let Some(p) = outp {
            std::fs::remove_file(p).ok();
        }
        v
    };
    let bound = ctx.t(2, 3);
    run(ctx, Spec { name: "arguments", bound, gen: &gen, eval: &eval, bytes: &|c: &C| ins[c.input].clone().unwrap_or_default() });

    // Information options neither need nor touch files
    for (args, what) in [(&["-h"][..], "Usage"), (&["--help"], "Usage"), (&["--version"], optivorbis::OPTIVORBIS_VERSION_TAG), (&["-q", "--version"], optivorbis::OPTIVORBIS_VERSION_TAG), (&["-h", "in0.ogg", "x.ogg"], "Usage")] {
        let r = Command::new(&bin).args(args).current_dir(&dir).output().expect("CLI");
        if r.status.code() != Some(0) || !String::from_utf8_lossy(&r.stdout).contains(what) || dir.join("x.ogg").exists() {
            ctx.violation("info", "information", format!("{args:?} does not work: {r:?}"), vec![]);
        }
    }
    // Wrong options, and files that can be opened, but not read or written
    for args in [
        &["--nope"][..],
        &["-r"],
        &[],
        &["-r", "ogg2ogg", "-r", "ogg2ogg", "in0.ogg", "y.ogg"],
        &[".", "z.ogg"],
        &["/proc/self/mem", "z.ogg"],
        &["in0.ogg", "."],
        &["-r", "ogg2ogg", "in0.ogg", "."],
        &["-q", "in0.ogg", "--", "x.ogg"],
    ] {
        let r = Command::new(&bin).args(args).current_dir(&dir).output().expect("CLI");
        if r.status.code() != Some(1) || r.stderr.is_empty() || dir.join("y.ogg").exists() {
            ctx.violation("info", "information", format!("{args:?} does not fail: {r:?}"), vec![]);
        }
    }
    std::fs::remove_dir_all(&dir).ok();
}

struct Comments3;
impl Comments3 {
    fn new(n: usize) -> Vec<u8> {
        let mut c = comments();
        c.fields.push(vec![b'z'; n]);
        c.encode()
    }
}

#[allow(dead_code)]
fn unused(_: Page) {}
