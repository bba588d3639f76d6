//! C22: concurrent operations. Every schedule of two or three operations with a bounded number of
//! preemptions is run on the real code in a process of its own, where each operation has a thread,
//! and only one of them runs at any time. They hand over at
//! - every call of source, sink, mangler and log (space "schedules"),
//! - every access to an atomic variable, and thus every acquisition and release of a lock, within
//!   the library and its dependencies (space "atoms", see hooks.rs). Safe code has no other means
//!   of communication between threads, so code between two of these points is an atomic step.

use super::serials::*;
use crate::explore::*;
use crate::model::*;
use crate::report::Ctx;
use crate::spaces2::*;
use ogg::PacketWriteEndInfo;
use optivorbis::remuxer::ogg_to_ogg::OggVorbisStreamMangler;
use optivorbis::Remuxer;
use std::cell::Cell;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::process::Command;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

struct State {
    running: usize,
    alive: Vec<bool>,
    /// Waits for something that another thread has
    blocked: Vec<bool>,
    /// Waits for a futex at this address
    futex: Vec<Option<usize>>,
    mode: Mode,
    /// Atomic variables that anyone writes to, as offsets from the start of the program
    shared: Vec<usize>,
    /// Accesses to atomic variables: offset, written to, thread
    accesses: std::collections::BTreeSet<(usize, bool, usize)>,
    /// Points since the last change of thread
    run: usize,
    points: usize,
    /// Points at which a switch happens
    switches: Vec<usize>,
    /// How many threads further the k-th switch goes
    jumps: Vec<usize>,
    order: Vec<usize>,
    /// Who goes on when the running one ends
    plan: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// Points where control leaves the library, without and with log statements
    Io,
    Log,
    Atoms,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();
thread_local!(static ME: Cell<Option<usize>> = const { Cell::new(None) });
thread_local!(static INSIDE: Cell<bool> = const { Cell::new(false) });

impl State {
    /// The next thread alive, in cyclic order
    fn after(&self, t: usize, mut k: usize) -> Option<usize> {
        let n = self.alive.len();
        let mut i = t;
        for _ in 0..n * (k + 1) {
            i = (i + 1) % n;
            if self.alive[i] && i != t && self.futex[i].is_none() {
                if k <= 1 {
                    return Some(i);
                }
                k -= 1;
            }
        }
        None
    }
}

fn wait_turn(me: usize) {
    let mut g = STATE.lock().unwrap();
    loop {
        let s = g.as_mut().unwrap();
        if s.running == me {
            s.blocked[me] = false;
            return;
        }
        let seen = s.points;
        let who = s.running;
        let (h, t) = TURN.wait_timeout(g, Duration::from_millis(5000)).unwrap();
        g = h;
        let s = g.as_mut().unwrap();
        // The other thread waits for a lock that this one may have
        if t.timed_out() && s.points == seen && s.running == who && s.alive[who] {
            s.blocked[who] = true;
            if s.alive.iter().zip(&s.blocked).all(|(a, b)| !a || *b) {
                deadlock();
            }
            s.running = me;
        }
    }
}

fn deadlock() -> ! {
    println!("deadlock");
    std::process::exit(0);
}

/// Runs something as part of the scheduler
fn inside<T>(f: impl FnOnce(usize) -> T) -> Option<T> {
    let me = ME.get()?;
    if INSIDE.replace(true) {
        return None;
    }
    let r = f(me);
    INSIDE.set(false);
    Some(r)
}

/// An atomic variable is about to be accessed
#[cfg_attr(not(mc_sched), allow(unused))]
pub fn atom(addr: usize, write: bool) {
    extern "C" {
        static __executable_start: u8;
        static _end: u8;
    }
    inside(|me| {
        let (a, z) = unsafe { (&raw const __executable_start as usize, &raw const _end as usize) };
        // Those outside of the program have an address of their own in each process
        let at = if (a..z).contains(&addr) { addr - a } else { 0 };
        {
            let mut g = STATE.lock().unwrap();
            let s = g.as_mut().unwrap();
            s.accesses.insert((at, write, me));
            if s.mode != Mode::Atoms || !s.shared.contains(&at) {
                return;
            }
        }
        stop(me);
    });
}

/// Waits until someone wakes the waiters for this address
#[cfg_attr(not(mc_sched), allow(unused))]
pub fn futex_wait(addr: usize, value: u32, timed: bool) -> Option<i64> {
    const EAGAIN: i64 = 11;
    const ETIMEDOUT: i64 = 110;
    inside(|me| {
        if unsafe { std::ptr::read_volatile(addr as *const u32) } != value {
            return -EAGAIN;
        }
        {
            let mut g = STATE.lock().unwrap();
            let s = g.as_mut().unwrap();
            if !timed {
                s.futex[me] = Some(addr);
            }
            if s.running == me {
                match s.after(me, 1) {
                    Some(t) => {
                        s.running = t;
                        s.run = 0;
                        TURN.notify_all();
                    }
                    None if timed => return -ETIMEDOUT,
                    None => deadlock(),
                }
            }
        }
        wait_turn(me);
        if timed {
            -ETIMEDOUT
        } else {
            0
        }
    })
}

#[cfg_attr(not(mc_sched), allow(unused))]
pub fn futex_wake(addr: usize, most: i64) -> Option<i64> {
    inside(|_| {
        let mut g = STATE.lock().unwrap();
        let s = g.as_mut().unwrap();
        let mut n = 0;
        for f in &mut s.futex {
            if n < most && *f == Some(addr) {
                *f = None;
                n += 1;
            }
        }
        n
    })
}

/// The running thread may be preempted here
fn point() {
    inside(|me| {
        let skip = STATE.lock().unwrap().as_ref().unwrap().mode == Mode::Atoms;
        if !skip {
            stop(me);
        }
    });
}

fn stop(me: usize) {
    {
        let mut g = STATE.lock().unwrap();
        let s = g.as_mut().unwrap();
        if s.running == me {
            let p = s.points;
            s.points += 1;
            s.run += 1;
            // A thread that spins has to let others go on
            if s.run > 200_000 {
                if let Some(t) = s.after(me, 1) {
                    s.running = t;
                    s.run = 0;
                    TURN.notify_all();
                }
            }
            if let Some(k) = s.switches.iter().position(|x| *x == p) {
                let j = s.jumps.get(k).copied().unwrap_or(1);
                if let Some(t) = s.after(me, j) {
                    s.running = t;
                    s.run = 0;
                    TURN.notify_all();
                }
            }
            if s.running == me {
                return;
            }
        }
    }
    wait_turn(me);
}

fn finish(me: usize) {
    INSIDE.set(true);
    ME.set(None);
    let mut g = STATE.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.alive[me] = false;
    s.order.push(me);
    s.points += 1;
    s.run = 0;
    if s.running == me {
        if let Some(t) = s.plan.iter().copied().find(|&t| s.alive[t] && s.futex[t].is_none()).or(s.after(me, 1)) {
            s.running = t;
        } else if s.alive.contains(&true) {
            deadlock();
        }
        TURN.notify_all();
    }
}

struct Src(Cursor<Vec<u8>>);
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        point();
        self.0.read(b)
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        point();
        self.0.seek(p)
    }
}
struct Snk(Vec<u8>);
impl Write for Snk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        point();
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        point();
        Ok(())
    }
}
struct M;
impl OggVorbisStreamMangler for M {
    fn mangle_granule_position(&mut self, g: i64, _: usize, _: bool, _: bool) -> i64 {
        point();
        g
    }
    fn mangle_packet_page_end_info(&mut self, e: PacketWriteEndInfo, _: usize, _: bool) -> PacketWriteEndInfo {
        point();
        e
    }
}
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        point();
    }
    fn flush(&self) {}
}

/// `sched ORDER SWITCHES JUMPS MODE OFFSET RANDOMIZE SHARED FILE...`
pub fn child(args: &[String]) -> i32 {
    let list = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
    let plan = list(&args[0]);
    let files = &args[7..];
    let mode = [Mode::Io, Mode::Log, Mode::Atoms][args[3].parse::<usize>().unwrap()];
    let o = Opts { offset: args[4].parse().unwrap(), randomize: args[5] == "1", vendor: Vendor::Copy, ..Opts::default() };
    let data: Vec<Vec<u8>> = files.iter().map(|f| std::fs::read(f).unwrap()).collect();
    if mode == Mode::Log {
        log::set_logger(&Log).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let n = files.len();
    *STATE.lock().unwrap() =
        Some(State {
            running: plan[0],
            alive: vec![true; n],
            blocked: vec![false; n],
            futex: vec![None; n],
            mode,
            shared: list(&args[6]),
            accesses: Default::default(),
            run: 0,
            points: 0,
            switches: list(&args[1]),
            jumps: list(&args[2]),
            order: vec![],
            plan,
        });
    let hs: Vec<_> = data
        .into_iter()
        .enumerate()
        .map(|(t, d)| {
            let o = o.clone();
            std::thread::spawn(move || {
                wait_turn(t);
                ME.set(Some(t));
                let r = std::panic::catch_unwind(|| {
                    let mut s = optivorbis::remuxer::ogg_to_ogg::Settings {
                        randomize_stream_serials: o.randomize,
                        first_stream_serial_offset: o.offset,
                        ignore_start_sample_offset: false,
                        error_on_no_vorbis_streams: true,
                        verify_ogg_page_checksums: true,
                        vorbis_stream_mangler: M,
                    };
                    s.ignore_start_sample_offset = o.ignore_start;
                    optivorbis::OggToOgg::new(s, o.optimizer()).remux(Src(Cursor::new(d)), Snk(vec![]))
                });
                finish(t);
                match r {
                    Err(p) => format!("panic {}", panic_msg(p)),
                    Ok(Ok(s)) => {
                        format!("ok {} {:016x} {:x?} {:016x}", s.0.len(), fnv(&s.0), serials(&s.0).unwrap_or_default(), fnv(format!("{:?}", canonical(&s.0)).as_bytes()))
                    }
                    Ok(Err(e)) => format!("err {} {e}", err_kind(&e)),
                }
            })
        })
        .collect();
    for h in hs {
        println!("{}", h.join().unwrap());
    }
    let g = STATE.lock().unwrap();
    let s = g.as_ref().unwrap();
    println!("accesses {}", s.accesses.iter().map(|(a, w, t)| format!("{a}:{}:{t}", *w as u8)).collect::<Vec<_>>().join(","));
    println!("points {} order {:?}", s.points, s.order);
    0
}

#[derive(Clone, Debug)]
struct C {
    scenario: usize,
    order: Vec<usize>,
    switches: Vec<usize>,
    jumps: Vec<usize>,
    /// Points are accesses to atomic variables
    atoms: bool,
}

pub fn c22(ctx: &mut Ctx) {
    let dir = scratch("threads");
    let b = bases();
    let mut chain = b[1].bytes();
    let mut x = b[2].clone();
    x.serial = 6;
    chain.extend(x.bytes());
    let mut broken = b[0].clone();
    let n = broken.setup.len();
    broken.setup.truncate(n / 2);
    let ins = [b[1].bytes(), b[2].bytes(), chain, broken.bytes(), b[0].bytes(), file(7).to_vec()];
    let paths: Vec<_> = ins
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let p = dir.join(format!("in{i}"));
            std::fs::write(&p, d).unwrap();
            p
        })
        .collect();
    // Value of SOURCE_DATE_EPOCH, randomization, switches at log statements, inputs, and bounds
    type S = (Option<&'static str>, bool, bool, &'static [usize], usize, usize);
    let scen: &[S] = &[
        (None, false, true, &[0, 1], 1, 1),
        (Some("1700000000"), true, true, &[0, 1], 1, 2),
        (None, false, true, &[2, 4], 1, 1),
        (Some("1700000000"), true, true, &[2, 2], 1, 1),
        (None, false, false, &[0, 1], 2, 3),
        (Some("1700000000"), true, false, &[1, 0], 2, 3),
        (None, false, false, &[3, 0], 2, 3),
        (Some("x"), true, false, &[0, 1], 1, 2),
        (None, true, false, &[1, 1], 1, 2),
        (Some("5"), true, false, &[3, 1], 2, 2),
        (Some("5"), true, false, &[0, 1, 4], 1, 2),
        (None, false, false, &[1, 5, 0], 1, 2),
    ];
    let program = match std::env::var_os("MC_SCHED") {
        Some(p) => std::path::PathBuf::from(p),
        None => std::env::current_exe().unwrap(),
    };
    let shared = std::cell::RefCell::new(String::new());
    let go = |c: &C, shared: &str| -> Vec<String> {
        let s = &scen[c.scenario];
        let join = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let mut cmd = Command::new(&program);
        let mode = if c.atoms { "2" } else { ["0", "1"][s.2 as usize] };
        cmd.args(["sched", &join(&c.order), &join(&c.switches), &join(&c.jumps), mode, "9", if s.1 { "1" } else { "0" }, shared]);
        for i in s.3 {
            cmd.arg(&paths[*i]);
        }
        cmd.env_remove("SOURCE_DATE_EPOCH");
        if let Some(e) = s.0 {
            cmd.env("SOURCE_DATE_EPOCH", e);
        }
        String::from_utf8_lossy(&cmd.output().expect("child").stdout).lines().map(String::from).collect()
    };
    // Random serials are left out of the comparison if there is no epoch
    let seen = |c: &C, mut l: Vec<String>| -> Vec<String> {
        l.pop();
        l.pop();
        if scen[c.scenario].0.is_none() && scen[c.scenario].1 {
            for x in &mut l {
                let w: Vec<&str> = x.split(' ').collect();
                *x = format!("{} {} {}", w[0], w.get(1).unwrap_or(&""), w.last().unwrap());
            }
        }
        l
    };
    // Outcomes without preemption, in every order
    let perms = |n: usize| -> Vec<Vec<usize>> {
        if n == 2 {
            vec![vec![0, 1], vec![1, 0]]
        } else {
            vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]]
        }
    };
    let mut serial: Vec<Vec<Vec<String>>> = vec![];
    let mut points = vec![];
    let last = |l: &[String]| l.last().and_then(|x| x.split(' ').nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut accessed = std::collections::BTreeSet::new();
    for (k, s) in scen.iter().enumerate() {
        let mut outs = vec![];
        let mut most = 0;
        for order in perms(s.3.len()) {
            let c = C { scenario: k, order, switches: vec![], jumps: vec![], atoms: false };
            let l = go(&c, "");
            most = most.max(last(&l));
            if let Some(a) = l.len().checked_sub(2).and_then(|i| l[i].strip_prefix("accesses ")) {
                for x in a.split(',').filter(|x| !x.is_empty()) {
                    accessed.insert(x.split(':').map(|x| x.parse().unwrap()).collect::<Vec<usize>>());
                }
            }
            outs.push(seen(&c, l));
        }
        points.push(most);
        serial.push(outs);
    }
    // Atomic variables that nobody writes to tell nobody anything
    let vars: std::collections::BTreeSet<usize> = accessed.iter().filter(|x| x[0] != 0 && x[1] == 1).map(|x| x[0]).collect();
    // In the thorough tier, those that are not in static storage are included (offset 0)
    let vars: std::collections::BTreeSet<usize> = if ctx.thorough { vars.into_iter().chain([0]).collect() } else { vars };
    *shared.borrow_mut() = vars.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let shared = shared.into_inner();
    let mut atoms = vec![];
    for (k, s) in scen.iter().enumerate() {
        let mut most = 0;
        for (i, order) in perms(s.3.len()).into_iter().enumerate() {
            let c = C { scenario: k, order, switches: vec![], jumps: vec![], atoms: true };
            let l = go(&c, &shared);
            most = most.max(last(&l));
            if seen(&c, l) != serial[k][i] {
                ctx.violation("serial", "atoms", format!("{s:?}: the outcome of operations one after the other depends on log statements"), vec![]);
            }
        }
        atoms.push(most);
    }
    if std::env::var_os("MC_DEBUG").is_some() {
        eprintln!("{} shared variables: {vars:?}; accesses {}; points {points:?}; points at atomic variables {atoms:?}", vars.len(), accessed.len());
    }
    for (k, s) in scen.iter().enumerate() {
        let c = C { scenario: k, order: vec![0], switches: vec![points[k] / 3], jumps: vec![1], atoms: false };
        let (a, b) = (go(&c, ""), go(&c, ""));
        // Random serials aside, the same schedule gives the same outcome
        assert_eq!(seen(&c, a), seen(&c, b), "diverging replay of {s:?}");
        // Which operation is right on its own is what other properties are about
        for (i, &inp) in s.3.iter().enumerate() {
            let ok = matches!(remux(&ins[inp], &Opts { vendor: Vendor::Copy, offset: 9, ..Opts::default() }), Out::Ok(_));
            let want = ok && s.0 != Some("x");
            for o in &serial[k] {
                if !o.get(i).is_some_and(|x| x.starts_with(if want { "ok" } else { "err" })) {
                    ctx.violation("serial", "schedules", format!("{s:?}: operations one after the other give {o:?}"), vec![]);
                }
            }
        }
    }
    let th = ctx.thorough;
    let lists = |ch: &mut Chooser, c: &mut C, p: usize, most: usize| {
        let n = scen[c.scenario].3.len();
        let mut from = 0;
        while c.switches.len() < most && from < p {
            // Switches in increasing order; none ends the list
            let x = ch.all(p - from + 1);
            if x == 0 {
                break;
            }
            from += x;
            c.switches.push(from - 1);
            c.jumps.push(if n > 2 { 1 + ch.all(2) } else { 1 });
        }
    };
    let gen = |ch: &mut Chooser| -> Option<C> {
        let k = ch.all(scen.len());
        let mut c = C { scenario: k, order: vec![ch.all(scen[k].3.len())], switches: vec![], jumps: vec![], atoms: false };
        lists(ch, &mut c, points[k], if th { scen[k].5 } else { scen[k].4 });
        Some(c)
    };
    let gen_atoms = |ch: &mut Chooser| -> Option<C> {
        let k = ch.all(scen.len());
        if scen[k].2 && !scen[k].1 {
            // Same as others without log statements
            return None;
        }
        let mut c = C { scenario: k, order: vec![ch.all(scen[k].3.len())], switches: vec![], jumps: vec![], atoms: true };
        // Threads that wait for a lock get to more points than without preemptions
        lists(ch, &mut c, atoms[k] + 2, if th { 3 } else { 4 } - (scen[k].3.len() > 2) as usize);
        Some(c)
    };
    let eval = |c: &C| -> Verdict {
        let mut v = Verdict { nontrivial: true, outcome: "schedule", trace: true, hash: fnv(format!("{c:?}").as_bytes()), ..Default::default() };
        let l = go(c, &shared);
        v.steps = l.last().and_then(|x| x.split(' ').nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0);
        for s in &c.switches {
            v.states.push(fnv(format!("{} {} {} {s}", c.scenario, c.order[0], c.atoms).as_bytes()));
        }
        if l.last().is_some_and(|x| x == "deadlock") {
            v.issues.push(("deadlock".into(), format!("{c:?} of {:?}: operations wait for each other", scen[c.scenario])));
            return v;
        }
        let order = l.last().and_then(|x| x.split("order ").nth(1)).unwrap_or("").to_string();
        let got = seen(c, l);
        v.outcome = match order.as_str() {
            "[0, 1]" | "[0, 1, 2]" => "first operation ends first",
            "[1, 0]" => "second operation ends first",
            _ => "other order of ends",
        };
        if !serial[c.scenario].contains(&got) {
            v.issues.push((
                "schedule".into(),
                format!("{c:?} of {:?}: outcome {got:?} is none of those of operations one after the other: {:?}", scen[c.scenario], serial[c.scenario]),
            ));
        }
        v
    };
    run(ctx, Spec { name: "schedules", bound: 0, gen: &gen, eval: &eval, bytes: &|_| vec![] });
    run(ctx, Spec { name: "atoms", bound: 0, gen: &gen_atoms, eval: &eval, bytes: &|_| vec![] });
    std::fs::remove_dir_all(&dir).ok();
}
