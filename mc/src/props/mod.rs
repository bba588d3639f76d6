use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::report::Ctx;
use crate::spaces::*;

pub mod amounts;
pub mod api;
pub mod bits;
pub mod cli;
pub mod faults;
pub mod history;
pub mod memory;
pub mod robust;
pub mod serials;
pub mod threads;
pub mod web;

/// Formats messages, and forgets them
struct Forget;
impl log::Log for Forget {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::io::Write;
        write!(std::io::sink(), "{}", r.args()).unwrap();
    }
    fn flush(&self) {}
}

/// From now on, whatever the code may log is formatted
fn log_everything() {
    log::set_logger(&Forget).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let file = i.location().map_or("", |l| l.file());
        if file.starts_with("src/") {
            eprintln!("{i}");
        }
    }));
}

/// Runs a shared space, and reports the given kinds of issues
pub fn shared(ctx: &mut Ctx, name: &str, tags: &[Tag], bound: Option<usize>) {
    let d = space(name);
    let th = ctx.thorough;
    let bound = bound.unwrap_or(ctx.t(d.quick, d.thorough));
    let eval = |c: &Case| -> Verdict { eval_case(c, tags, name) };
    run(
        ctx,
        Spec { name, bound, gen: &|ch| (d.gen)(ch, th), eval: &eval, bytes: &|c: &Case| c.input.clone() },
    );
}

pub fn eval_case(c: &Case, tags: &[Tag], name: &str) -> Verdict {
    let exp = model(&c.input, &c.opts);
    let got = remux(&c.input, &c.opts);
    let issues = oracle(&exp, &got, &c.opts);
    let mut v = Verdict { hash: fnv(&c.input) ^ fnv(format!("{:?}", c.opts).as_bytes()), ..Default::default() };
    match &exp {
        Ok(s) => {
            v.steps = s.iter().map(|s| s.packet_count() as u64).sum();
            v.nontrivial = s.iter().any(|s| !s.pkts.is_empty());
            if tags.contains(&Tag::Granule) {
                for s in s {
                    for (i, p) in s.pkts.iter().enumerate() {
                        v.states.push(fnv(format!("{i} {} {} {}", p.granule, p.audio.bs, i + 1 == s.pkts.len()).as_bytes()));
                    }
                }
                v.trace = v.nontrivial && matches!(got, Out::Ok(_));
            }
            v.outcome = if v.nontrivial { "remuxed" } else { "remuxed, no audio" };
        }
        Err(r) => {
            v.outcome = r.kind();
            if std::env::var_os("MC_REJ").is_some() {
                eprintln!("{}: {r:?}", c.note);
            }
            v.steps = 1;
            v.nontrivial = tags.contains(&Tag::Accepted);
        }
    }
    if v.nontrivial && v.hash % 97 == 0 {
        v.sample = Some(format!("{}: {}", c.note, summary(&c.input)));
    }
    v.issues = issues
        .into_iter()
        .filter(|(t, _)| tags.contains(t))
        .map(|(t, m)| (format!("{t:?}"), format!("{name}: {} -> {m}", c.note)))
        .collect();
    v
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub tags: &'static [Tag],
    /// Shared spaces, with overridden bounds for the tiers
    pub spaces: &'static [(&'static str, Option<(usize, usize)>)],
    pub extra: Option<fn(&mut Ctx)>,
}

use Tag::*;
pub const ALL_TAGS: &[Tag] = &[
    Panic, Rejected, Accepted, Dirty, Pages, Streams, Serial, Tag::Ident, Comment, Tag::Setup, Strict, Huff, Packets, Padding, Tag::Audio, Trunc, Granule,
];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        level: "exploration",
        rule: "the physical stream and the options are not equal to another case's, and at least an audio packet is decoded in full and compared; or decoded PCM was compared",
        tags: &[Panic, Rejected, Packets, Tag::Audio],
        spaces: &[
            ("counts", None),
            ("symbols", None),
            ("passes", None),
            ("lens", None),
            ("freqs", None),
            ("modes", None),
            ("drops", None),
            ("short", None),
            ("floats", None),
            ("lookup1", None),
            ("setup", Some((1, 2))),
            ("sizes", Some((1, 1))),
            ("bigbooks", None),
            ("twins", None),
            ("deep", None),
            ("flips", None),
            ("edits", None),
            ("files", None),
            ("pages", None),
            ("bytes", None),
        ],
        extra: Some(robust::pcm_check),
    },
    Prop {
        id: "C02",
        level: "exploration",
        rule: "distinct case with a setup header that is parsed, rewritten and compared field by field",
        tags: &[Panic, Tag::Setup, Strict, Tag::Ident],
        spaces: &[
            ("counts", None),
            ("setup", Some((2, 3))),
            ("floats", None),
            ("lookup1", None),
            ("lens", None),
            ("ident", None),
            ("modes", None),
            ("flips", None),
            ("edits", None),
            ("files", Some((1, 1))),
        ],
        extra: None,
    },
    Prop {
        id: "C03",
        level: "exploration",
        rule: "distinct case with codebooks whose entries are used a known number of times",
        tags: &[Panic, Huff, Padding],
        spaces: &[("counts", None), ("freqs", None), ("lens", None), ("deep", None), ("bigbooks", None), ("twins", None), ("symbols", None), ("setup", Some((1, 2))), ("modes", None), ("files", None)],
        extra: None,
    },
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "operation on a reader or writer in a given state (pending bits), compared with a vector of bits",
        tags: &[],
        spaces: &[],
        extra: Some(bits::c04),
    },
    Prop {
        id: "C05",
        level: "exploration",
        rule: "distinct case whose output has audio pages",
        tags: &[Panic, Pages],
        spaces: &[("counts", None), ("sizes", None), ("blocks", None), ("headers", None), ("chains", None), ("comments", Some((1, 2))), ("drops", None), ("files", None), ("pages", None)],
        extra: None,
    },
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "distinct case with audio packets; states are (position, granule position, block size, start offset) of the granule position model",
        tags: &[Panic, Granule],
        spaces: &[("counts", None), ("blocks", None), ("drops", None), ("files", None), ("headers", Some((1, 2))), ("short", None), ("pages", None), ("bytes", None)],
        extra: Some(robust::first_page),
    },
    Prop {
        id: "C07",
        level: "exploration",
        rule: "distinct input; all of them are meant to break the code",
        tags: &[Panic],
        spaces: &[("counts", None), ("edits", None), ("flips", None), ("short", None), ("setup", Some((1, 2))), ("ident", None), ("comments", Some((1, 2))), ("chains", Some((1, 2)))],
        extra: Some(robust::c07),
    },
    Prop {
        id: "C08",
        level: "exploration",
        rule: "distinct case that has to be repaired, or that is close to one",
        tags: &[Panic, Rejected, Strict, Tag::Ident, Comment],
        spaces: &[("comments", None), ("ident", None), ("drops", None), ("setup", Some((1, 2))), ("cuts", None), ("headers", None), ("files", Some((1, 1))), ("junk", None), ("pages", None)],
        extra: None,
    },
    Prop {
        id: "C09",
        level: "exploration",
        rule: "distinct comment header and action",
        tags: &[Panic, Comment],
        spaces: &[("counts", None), ("comments", None), ("files", Some((2, 2)))],
        extra: None,
    },
    Prop {
        id: "C10",
        level: "exploration",
        rule: "distinct sequence of packets to keep and to drop",
        tags: &[Panic, Packets, Padding],
        spaces: &[("counts", None), ("drops", None), ("short", None), ("files", None), ("edits", None), ("pages", None)],
        extra: None,
    },
    Prop {
        id: "C11",
        level: "exploration",
        rule: "distinct arrangement of logical streams",
        tags: &[Panic, Streams, Packets, Accepted, Rejected, Dirty, Serial],
        spaces: &[("counts", None), ("chains", None), ("headers", None), ("files", None), ("repeats", None), ("pages", None), ("junk", None)],
        extra: Some(robust::nil_eos),
    },
    Prop { id: "C12", level: "exploration", rule: "distinct input, offset, and value of SOURCE_DATE_EPOCH", tags: &[], spaces: &[], extra: Some(serials::c12) },
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "distinct history of operations on an instance; a state is the history so far",
        tags: &[],
        spaces: &[],
        extra: Some(history::c13),
    },
    Prop { id: "C14", level: "fault_enumeration", rule: "distinct corruption of a page", tags: &[], spaces: &[], extra: Some(faults::c14) },
    Prop { id: "C15", level: "exploration", rule: "distinct case that is optimized twice", tags: &[], spaces: &[], extra: Some(history::c15) },
    Prop { id: "C16", level: "fault_enumeration", rule: "distinct placement of faults in the operations of source and sink", tags: &[], spaces: &[], extra: Some(faults::c16) },
    Prop { id: "C17", level: "exploration", rule: "distinct command line", tags: &[], spaces: &[], extra: Some(cli::c17) },
    Prop {
        id: "C18",
        level: "model_checking",
        rule: "distinct sequence of calls; a state is the sequence of packets that were analyzed, and how many of them were optimized",
        tags: &[],
        spaces: &[],
        extra: Some(api::c18),
    },
    Prop { id: "C19", level: "exploration", rule: "distinct mangler and input", tags: &[], spaces: &[], extra: Some(api::c19) },
    Prop {
        id: "C20",
        level: "exploration",
        rule: "distinct packet cut at a byte, or made to end early",
        tags: &[Panic, Trunc, Packets, Rejected],
        spaces: &[("cuts", None), ("edits", None), ("short", None)],
        extra: None,
    },
    Prop {
        id: "C21",
        level: "exploration",
        rule: "distinct header or audio packet that a decoder has to reject, or that is close to one",
        tags: &[Panic, Accepted, Rejected, Dirty],
        spaces: &[("setup", Some((2, 3))), ("ident", None), ("lens", None), ("passes", None), ("refs", None), ("headers", None), ("comments", None), ("flips", None), ("edits", None), ("modes", None), ("short", None), ("bytes", None), ("pages", None), ("repeats", None), ("junk", None)],
        extra: None,
    },
    Prop {
        id: "C22",
        level: "model_checking",
        rule: "distinct schedule of operations; a state is the point of a schedule at which a preemption happens",
        tags: &[],
        spaces: &[],
        extra: Some(threads::c22),
    },
    Prop {
        id: "C23",
        level: "exploration",
        rule: "distinct file; what it needs is compared with what it contains",
        tags: &[],
        spaces: &[],
        extra: Some(memory::c23),
    },
    Prop {
        id: "C24",
        level: "exploration",
        rule: "distinct file; the results for default settings, spelled out ones, and the WebAssembly interface are compared",
        tags: &[],
        spaces: &[],
        extra: Some(web::c24),
    },
];

pub fn main(args: &[String]) -> i32 {
    quiet_panics();
    let id = args.first().expect("property").as_str();
    if id == "dump" {
        dump(&std::fs::read(&args[1]).expect("file"));
        return 0;
    }
    if id == "child" {
        return serials::child(&args[1..]);
    }
    if id == "sched" {
        return threads::child(&args[1..]);
    }
    if id == "huge" {
        let k: u32 = args[1].parse().unwrap();
        let id = ident(1, 6, 7);
        let mut st = tiny_setup(&[1, 1]);
        let mut b = crate::vorbis::Codebook::scalar(&vec![k as u8; 1 << k]);
        b.fmt = crate::vorbis::LenFmt::Ordered;
        st.books.push(b);
        let s = StreamB::new(1, &id, &st);
        let b = s.bytes();
        let t = std::time::Instant::now();
        let o = remux(&b, &Opts::default());
        println!("{} bytes {:?} {}", b.len(), t.elapsed(), match o { Out::Ok(v) => format!("{}", v.len()), x => format!("{x:?}") });
        return 0;
    }
    let mut ctx = Ctx::new(id, args.get(1).map(|s| s.as_str()) == Some("thorough"));
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        ctx.thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let c = args.get(3).map_or("", |s| s.as_str());
        ctx.replay = Some((args[2].clone(), c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect()));
    }
    if id == "ALL" {
        let only = args.get(2).map(|s| s.split(',').map(String::from).collect::<Vec<_>>());
        for s in SPACES.iter().filter(|s| only.as_ref().map_or(true, |o| o.iter().any(|x| x == s.name))) {
            shared(&mut ctx, s.name, ALL_TAGS, None);
        }
        return ctx.finish();
    }
    if id == "props" {
        for p in PROPS {
            println!("{}", p.id);
        }
        return 0;
    }
    let p = PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    ctx.level = p.level;
    ctx.rule = p.rule.into();
    if id == "C07" {
        log_everything();
    }
    for (name, b) in p.spaces {
        let b = b.map(|(q, t)| ctx.t(q, t));
        shared(&mut ctx, name, p.tags, b);
    }
    if let Some(f) = p.extra {
        f(&mut ctx);
    }
    ctx.finish()
}

fn dump(b: &[u8]) {
    use crate::oggio::*;
    use crate::vorbis as vb;
    match parse_pages(b, false) {
        Err(e) => println!("{e:?}"),
        Ok(p) => {
            for p in &p {
                println!("{p:?}");
            }
            for k in packets(&p).unwrap_or_default() {
                if k.data.starts_with(b"\x05vorbis") {
                    println!("{:#?}", vb::Setup::parse(&k.data, 2));
                }
            }
        }
    }
    match remux(b, &Opts { ..Default::default() }) {
        Out::Ok(o) => {
            std::fs::write("/tmp/out.ogg", &o).ok();
            println!("-> {} bytes in /tmp/out.ogg", o.len());
        }
        x => println!("-> {x:?}"),
    }
}
