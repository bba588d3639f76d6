//! Collects what a check covered, matches violations with the known findings and writes the
//! evidence file.

use crate::explore::{Found, SpaceStats};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: i64,
    pub level: &'static str,
    pub start: Instant,
    pub deadline: Instant,
    pub spaces: Vec<SpaceStats>,
    pub found: Vec<Found>,
    pub assumptions: Vec<String>,
    pub rule: String,
    /// Explicit state model counters
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    /// Space and choices of the only execution to run
    pub replay: Option<(String, Vec<u32>)>,
    pub extra: BTreeMap<String, String>,
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Self {
        let start = Instant::now();
        let cap = std::env::var("MC_CAP_S").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 2400 } else { 480 });
        Ctx {
            prop: prop.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
            level: "exploration",
            start,
            deadline: start + Duration::from_secs(cap),
            spaces: vec![],
            found: vec![],
            assumptions: vec![],
            rule: String::new(),
            states: 0,
            transitions: 0,
            traces: 0,
            replay: None,
            extra: BTreeMap::new(),
        }
    }
    /// Picks the value for the tier
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn add(&mut self, s: SpaceStats, mut f: Vec<Found>) {
        eprintln!(
            "[{:7.2}s] {}: space {} bound {}: {} executions ({} infeasible, {} distinct, {} nontrivial) {:?} {:?}{}{}",
            self.start.elapsed().as_secs_f64(),
            self.prop,
            s.name,
            s.bound,
            s.executions,
            s.infeasible,
            s.distinct,
            s.distinct_nontrivial,
            s.by_deviations,
            s.outcomes,
            if s.complete { "" } else { " INCOMPLETE" },
            if f.is_empty() { String::new() } else { format!(" {} violation kinds", f.len()) }
        );
        self.states += s.states;
        self.transitions += if s.states > 0 { s.steps } else { 0 };
        self.traces += s.traces;
        self.spaces.push(s);
        self.found.append(&mut f);
    }
    /// For checks that do not go through the explorer
    pub fn violation(&mut self, key: &str, space: &str, message: String, bytes: Vec<u8>) {
        if self.found.iter().any(|f| f.key == key && f.space == space) {
            return;
        }
        self.found.push(Found { key: key.into(), message, space: space.into(), choices: vec![], bytes, cost: 0 });
    }

    pub fn known(&self) -> Vec<(String, String)> {
        let text = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
        let mut v = vec![];
        for l in text.lines() {
            let l = l.trim();
            let Some(rest) = l.strip_prefix(&format!("known: property={} ", self.prop)) else { continue };
            let Some(rest) = rest.strip_prefix("match=\"") else { continue };
            let Some((m, desc)) = rest.split_once('"') else { continue };
            v.push((m.to_string(), desc.trim().to_string()));
        }
        v
    }

    fn write_replay(&self, i: usize, f: &Found) -> PathBuf {
        let dir = verif().join("replay").join(&self.prop);
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{i}.txt"));
        let mut s = String::new();
        s += &format!("property: {}\nkey: {}\nspace: {}\nchoices: {:?}\nmessage: {}\n", self.prop, f.key, f.space, f.choices, f.message);
        s += &format!(
            "replay: cd /verif && ./check.sh {} replay {} {}\n",
            self.prop,
            f.space,
            f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
        );
        if !f.bytes.is_empty() {
            let bin = dir.join(format!("{i}.bin"));
            std::fs::write(&bin, &f.bytes).ok();
            s += &format!("input ({} bytes): {}\n", f.bytes.len(), bin.display());
        }
        std::fs::write(&path, s).ok();
        path
    }

    pub fn fatal_violation(&mut self, f: Found) -> ! {
        self.found.push(f);
        let code = self.finish();
        std::process::exit(code);
    }

    /// Returns the exit code
    pub fn finish(&mut self) -> i32 {
        let known = self.known();
        let mut seen_known = BTreeMap::new();
        let mut fresh = vec![];
        for f in &self.found {
            let id = format!("{}|{}|{}", f.key, f.space, f.message);
            match known.iter().find(|(m, _)| id.contains(m.as_str())) {
                Some((m, d)) => {
                    seen_known.insert(m.clone(), d.clone());
                }
                None => fresh.push(f.clone()),
            }
        }
        fresh.sort_by_key(|f| (f.cost, f.choices.len()));
        let mut out = std::io::stdout();
        for d in seen_known.values() {
            writeln!(out, "KNOWN-FINDING: property={} {}", self.prop, d).ok();
        }
        // A listed finding is announced even if this tier does not reach it
        for (m, d) in &known {
            if !seen_known.contains_key(m) {
                writeln!(out, "KNOWN-FINDING: property={} {} (not reached by this run)", self.prop, d).ok();
            }
        }
        for (i, f) in fresh.iter().take(std::env::var("MC_SHOW").ok().and_then(|v| v.parse().ok()).unwrap_or(8)).enumerate() {
            let p = self.write_replay(i, f);
            writeln!(out, "VIOLATION property={} replay={}", self.prop, p.display()).ok();
            let m: String = f.message.chars().take(700).collect();
            writeln!(out, "  {} [{}] {}", f.key, f.space, m).ok();
        }
        self.evidence(&fresh);
        let incomplete: Vec<_> = self.spaces.iter().filter(|s| !s.complete).map(|s| s.name.clone()).collect();
        writeln!(
            out,
            "{} {}: {} executions, {} states, {} transitions, {} violations, {:.1} s{}",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            self.spaces.iter().map(|s| s.executions).sum::<u64>(),
            self.states,
            self.transitions,
            fresh.len(),
            self.start.elapsed().as_secs_f64(),
            if incomplete.is_empty() { String::new() } else { format!(" (time cap hit in {incomplete:?})") }
        )
        .ok();
        !fresh.is_empty() as i32
    }

    fn evidence(&self, fresh: &[Found]) {
        let sum = |f: fn(&SpaceStats) -> u64| self.spaces.iter().map(f).sum::<u64>();
        let mut c: Vec<(String, String)> = vec![];
        let model = self.level == "model_checking";
        if model {
            c.push(("states".into(), self.states.to_string()));
            c.push(("transitions".into(), self.transitions.to_string()));
            c.push(("traces_validated_against_impl".into(), self.traces.to_string()));
        }
        c.push(("evaluations".into(), sum(|s| s.executions).to_string()));
        c.push(("distinct_nontrivial".into(), sum(|s| s.distinct_nontrivial).to_string()));
        c.push(("rule".into(), q(&self.rule)));
        c.push(("exhaustive".into(), self.spaces.iter().all(|s| s.complete).to_string()));
        c.push(("choice_points".into(), sum(|s| s.choice_points).to_string()));
        c.push(("steps_compared".into(), sum(|s| s.steps).to_string()));
        let samples: Vec<String> = self.spaces.iter().flat_map(|s| s.samples.iter()).take(12).map(|s| q(s)).collect();
        c.push(("samples".into(), format!("[{}]", samples.join(",\n   "))));
        let spaces: Vec<String> = self
            .spaces
            .iter()
            .map(|s| {
                format!(
                    "{{\"name\": {}, \"about\": {}, \"deviation_bound\": {}, \"executions\": {}, \"infeasible\": {}, \"distinct\": {}, \"distinct_nontrivial\": {}, \"by_deviations\": {:?}, \"outcomes\": {{{}}}, \"complete\": {}}}",
                    q(&s.name),
                    q(crate::spaces::SPACES.iter().find(|d| d.name == s.name).map_or("particular to this property", |d| d.about)),
                    s.bound,
                    s.executions,
                    s.infeasible,
                    s.distinct,
                    s.distinct_nontrivial,
                    s.by_deviations,
                    s.outcomes.iter().map(|(k, v)| format!("{}: {v}", q(k))).collect::<Vec<_>>().join(", "),
                    s.complete
                )
            })
            .collect();
        c.push(("spaces".into(), format!("[{}]", spaces.join(",\n   "))));
        for (k, v) in &self.extra {
            c.push((k.clone(), v.clone()));
        }
        let cov: Vec<String> = c.iter().map(|(k, v)| format!("  {}: {v}", q(k))).collect();
        let mut a = self.assumptions.clone();
        a.push("harness and code are built by the installed rustc in release mode with overflow checks on and debug assertions off".into());
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            q(&self.prop),
            q(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            q(self.level),
            cov.join(",\n"),
            a.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            fresh.len()
        );
        let dir = verif().join("evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(dir.join(format!("{}.json", self.prop)), text).expect("evidence");
    }
}

/// JSON string
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
