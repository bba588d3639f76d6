//! Stateless exploration of a choice tree: a case generator asks the `Chooser` for every
//! decision; the explorer runs it for every sequence of decisions with at most `bound`
//! deviations from the default (`pick`), and without limit for free decisions (`all`).

use crate::report::Ctx;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
struct Pt {
    n: u32,
    pick: u32,
    cost: bool,
}

pub struct Chooser {
    prefix: Vec<u32>,
    trace: Vec<Pt>,
}

impl Chooser {
    pub fn replay(prefix: Vec<u32>) -> Self {
        Chooser { prefix, trace: vec![] }
    }
    fn go(&mut self, n: usize, cost: bool) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        let pick = self.prefix.get(i).copied().unwrap_or(0);
        assert!((pick as usize) < n, "diverging replay: choice {i} is {pick} of {n}");
        self.trace.push(Pt { n: n as u32, pick, cost });
        pick as usize
    }
    /// Choice 0 is the default, any other one counts as a deviation
    pub fn pick(&mut self, n: usize) -> usize {
        self.go(n, true)
    }
    /// Every choice is explored regardless of the bound
    pub fn all(&mut self, n: usize) -> usize {
        self.go(n, false)
    }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())].clone()
    }
    pub fn each<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.all(v.len())].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|p| p.pick).collect()
    }
}

#[derive(Default, Clone, Debug)]
pub struct Verdict {
    /// The case reaches what the property is about
    pub nontrivial: bool,
    /// Hash of the case, for counting distinct ones
    pub hash: u64,
    /// Steps of the real code that were compared with the model
    pub steps: u64,
    /// (key, message) for every violation
    pub issues: Vec<(String, String)>,
    /// Class of the outcome, to see that exploration is not vacuous
    pub outcome: &'static str,
    pub sample: Option<String>,
    /// Hashes of the model states visited, when there is an explicit model
    pub states: Vec<u64>,
    /// The implementation was driven along a trace of the model and agreed with it
    pub trace: bool,
}

pub struct Spec<'a, T> {
    pub name: &'a str,
    pub bound: usize,
    pub gen: &'a (dyn Fn(&mut Chooser) -> Option<T> + Sync),
    pub eval: &'a (dyn Fn(&T) -> Verdict + Sync),
    /// Bytes to keep in the replay artefact
    pub bytes: &'a (dyn Fn(&T) -> Vec<u8> + Sync),
}

#[derive(Default, Clone, Debug)]
pub struct SpaceStats {
    pub name: String,
    pub bound: usize,
    pub executions: u64,
    pub infeasible: u64,
    pub distinct: u64,
    pub distinct_nontrivial: u64,
    pub choice_points: u64,
    pub steps: u64,
    pub states: u64,
    pub traces: u64,
    pub complete: bool,
    pub by_deviations: Vec<u64>,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub key: String,
    pub message: String,
    pub space: String,
    pub choices: Vec<u32>,
    pub bytes: Vec<u8>,
    pub cost: usize,
}

const HANG: Duration = Duration::from_secs(90);

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

struct Queue {
    /// One stack per number of deviations: fewest first
    stacks: Vec<Vec<Vec<u32>>>,
    busy: usize,
}

pub fn run<T: Send>(ctx: &mut Ctx, s: Spec<T>) -> SpaceStats {
    if let Some((space, choices)) = &ctx.replay {
        if space == s.name {
            replay(&s, choices.clone(), ctx);
        }
        return SpaceStats { name: s.name.to_string(), complete: true, ..Default::default() };
    }
    let nthreads = threads();
    let q = Mutex::new(Queue { stacks: vec![vec![]; s.bound + 1], busy: 0 });
    q.lock().unwrap().stacks[0].push(vec![]);
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let (exec, infeasible, points, steps, nontriv) =
        (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let traces = AtomicU64::new(0);
    let states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let found: Mutex<BTreeMap<String, Found>> = Mutex::new(BTreeMap::new());
    let by_dev: Mutex<Vec<u64>> = Mutex::new(vec![0; s.bound + 1]);
    let outcomes: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let slots: Vec<Mutex<Option<(Instant, Vec<u32>)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    let live = AtomicUsize::new(nthreads);
    let deadline = ctx.deadline;
    let violations = AtomicUsize::new(0);
    let ctx_known: Vec<String> = ctx.known().into_iter().map(|x| x.0).collect();
    let ctx_known = &ctx_known;

    std::thread::scope(|sc| {
        for tid in 0..nthreads {
            let (q, cv, stop, exec, infeasible, points, steps, seen, found, by_dev, outcomes, samples, slots, live, nontriv, violations, traces, states) = (
                &q, &cv, &stop, &exec, &infeasible, &points, &steps, &seen, &found, &by_dev, &outcomes, &samples, &slots, &live, &nontriv, &violations, &traces, &states,
            );
            let s = &s;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut local_dev = vec![0u64; s.bound + 1];
                    let mut local_states: HashSet<u64> = HashSet::new();
                    let mut local_out: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        let mut g = q.lock().unwrap();
                        let prefix = loop {
                            if stop.load(Relaxed) {
                                break None;
                            }
                            if let Some(p) = g.stacks.iter_mut().find_map(|x| x.pop()) {
                                g.busy += 1;
                                break Some(p);
                            }
                            if g.busy == 0 {
                                break None;
                            }
                            g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                        };
                        drop(g);
                        let Some(prefix) = prefix else { break };
                        *slots[tid].lock().unwrap() = Some((Instant::now(), prefix.clone()));
                        let plen = prefix.len();
                        let mut ch = Chooser::replay(prefix);
                        let case = (s.gen)(&mut ch);
                        assert!(ch.trace.len() >= plen, "diverging replay in {}", s.name);
                        points.fetch_add(ch.trace.len() as u64, Relaxed);
                        let cost: usize = ch.trace.iter().filter(|p| p.cost && p.pick > 0).count();
                        // Alternatives
                        let mut new: Vec<(usize, Vec<u32>)> = vec![];
                        for i in plen..ch.trace.len() {
                            let p = ch.trace[i];
                            let c = cost + p.cost as usize;
                            if c <= s.bound {
                                let base: Vec<u32> = ch.trace[..i].iter().map(|p| p.pick).collect();
                                for alt in (1..p.n).rev() {
                                    let mut v = base.clone();
                                    v.push(alt);
                                    new.push((c, v));
                                }
                            }
                        }
                        if !new.is_empty() {
                            let mut g = q.lock().unwrap();
                            for (c, v) in new {
                                g.stacks[c].push(v);
                            }
                            drop(g);
                            cv.notify_all();
                        }
                        match case {
                            None => {
                                infeasible.fetch_add(1, Relaxed);
                            }
                            Some(case) => {
                                crate::alloc::set_case(s.name, ch.choices());
                                let v = (s.eval)(&case);
                                exec.fetch_add(1, Relaxed);
                                local_dev[cost] += 1;
                                steps.fetch_add(v.steps, Relaxed);
                                local_states.extend(&v.states);
                                traces.fetch_add(v.trace as u64, Relaxed);
                                *local_out.entry(v.outcome).or_default() += 1;
                                let fresh = seen[(v.hash >> 58) as usize].lock().unwrap().insert(v.hash);
                                if fresh && v.nontrivial {
                                    nontriv.fetch_add(1, Relaxed);
                                }
                                if let Some(x) = v.sample {
                                    let mut g = samples.lock().unwrap();
                                    if g.len() < 2 {
                                        g.push(format!("{}{:?}: {x}", s.name, ch.choices()));
                                    }
                                }
                                for (key, message) in v.issues {
                                    let known = ctx_known.iter().any(|m| format!("{key}|{}|{message}", s.name).contains(m.as_str()));
                                    let dkey = format!("{known}{}", dedup_key(&key, &message));
                                    let f = Found {
                                        key: key.clone(),
                                        message,
                                        space: s.name.to_string(),
                                        choices: ch.choices(),
                                        bytes: (s.bytes)(&case),
                                        cost,
                                    };
                                    let mut g = found.lock().unwrap();
                                    let better = g.get(&dkey).map_or(true, |o| {
                                        (f.cost, f.choices.len(), &f.choices) < (o.cost, o.choices.len(), &o.choices)
                                    });
                                    if better && (g.len() < 200 || g.contains_key(&dkey)) {
                                        g.insert(dkey, f);
                                    }
                                    if !known && violations.fetch_add(1, Relaxed) > 20_000 {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                        }
                        *slots[tid].lock().unwrap() = None;
                        let mut g = q.lock().unwrap();
                        g.busy -= 1;
                        if g.busy == 0 && g.stacks.iter().all(|x| x.is_empty()) {
                            cv.notify_all();
                        }
                        drop(g);
                        if Instant::now() > deadline {
                            stop.store(true, Relaxed);
                        }
                    }
                    states.lock().unwrap().extend(local_states);
                    let mut g = by_dev.lock().unwrap();
                    for (a, b) in g.iter_mut().zip(local_dev) {
                        *a += b;
                    }
                    let mut g = outcomes.lock().unwrap();
                    for (k, n) in local_out {
                        *g.entry(k).or_default() += n;
                    }
                    live.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // Watchdog
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(2));
            for sl in &slots {
                let g = sl.lock().unwrap();
                if let Some((t, p)) = &*g {
                    if t.elapsed() > HANG {
                        let mut ch = Chooser::replay(p.clone());
                        let bytes = (s.gen)(&mut ch).map(|c| (s.bytes)(&c)).unwrap_or_default();
                        let f = Found {
                            key: "hang".into(),
                            message: format!("no result after {} s", HANG.as_secs()),
                            space: s.name.to_string(),
                            choices: ch.choices(),
                            bytes,
                            cost: 0,
                        };
                        ctx.fatal_violation(f);
                    }
                }
            }
        }
    });
    let complete = q.lock().unwrap().stacks.iter().all(|x| x.is_empty());
    let st = SpaceStats {
        name: s.name.to_string(),
        bound: s.bound,
        executions: exec.into_inner(),
        infeasible: infeasible.into_inner(),
        distinct: seen.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
        distinct_nontrivial: nontriv.into_inner(),
        choice_points: points.into_inner(),
        steps: steps.into_inner(),
        states: states.into_inner().unwrap().len() as u64,
        traces: traces.into_inner(),
        complete,
        by_deviations: by_dev.into_inner().unwrap(),
        outcomes: outcomes.into_inner().unwrap(),
        samples: samples.into_inner().unwrap(),
    };
    ctx.add(st.clone(), found.into_inner().unwrap().into_values().collect());
    st
}

/// Runs one execution twice
fn replay<T: Send>(s: &Spec<T>, choices: Vec<u32>, ctx: &mut Ctx) {
    let mut ch = Chooser::replay(choices.clone());
    let case = (s.gen)(&mut ch).expect("infeasible case");
    let bytes = (s.bytes)(&case);
    let dir = crate::report::verif().join("replay");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(dir.join("case.bin"), &bytes).ok();
    crate::alloc::set_case(s.name, choices.clone());
    let v = (s.eval)(&case);
    let again = (s.eval)(&case);
    println!("outcome {} hash {:x}, {} issues, input in {}", v.outcome, v.hash, v.issues.len(), dir.join("case.bin").display());
    println!("deterministic: {}", v.issues == again.issues && v.outcome == again.outcome);
    let found = v
        .issues
        .into_iter()
        .map(|(key, message)| Found { key, message, space: s.name.into(), choices: choices.clone(), bytes: bytes.clone(), cost: 0 })
        .collect();
    ctx.add(SpaceStats { name: s.name.into(), complete: true, executions: 1, ..Default::default() }, found);
}

/// Violations that differ in numbers only are reported once
fn dedup_key(key: &str, message: &str) -> String {
    let m = message.rsplit(" -> ").next().unwrap_or(message);
    let m: String = m.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("{key}|{m}")
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    // Spread to the top bits as well
    h ^ h.rotate_left(31).wrapping_mul(0x9e3779b97f4a7c15)
}
