//! C04
use crate::report::Ctx;

pub fn c04(ctx: &mut Ctx) {
    if ctx.replay.is_some() {
        println!("the check of bit packing has no choice tree: run it as a whole");
    }
    let th = ctx.thorough;
    let r = crate::bitpack::check(th);
    let mut st = crate::explore::SpaceStats {
        name: "std".into(),
        executions: r.evaluations,
        distinct: r.evaluations,
        distinct_nontrivial: r.evaluations,
        steps: r.transitions,
        states: r.states.len() as u64,
        traces: r.traces,
        complete: true,
        ..Default::default()
    };
    st.outcomes.insert("compared", r.evaluations);
    st.samples.push("writer with k pending bits (every value) then every width 0..=32 with boundary and walking-bit values".into());
    ctx.add(st, vec![]);
    for (k, m) in r.issues {
        ctx.violation(&k, "std", m, vec![]);
    }
    // The same on the no_std flavor of the crate, in another binary as features are additive
    let bin = std::env::var("MC_NOSTD").expect("MC_NOSTD");
    let o = std::process::Command::new(&bin).arg(if th { "thorough" } else { "quick" }).output().expect("nostd binary");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut st = crate::explore::SpaceStats { name: "no-std".into(), complete: true, ..Default::default() };
    let mut counted = false;
    for l in text.lines() {
        if let Some(c) = l.strip_prefix("COUNTS ") {
            let n: Vec<u64> = c.split(' ').filter_map(|x| x.parse().ok()).collect();
            if let [e, s, t, tr] = n[..] {
                st.executions = e;
                st.distinct = e;
                st.distinct_nontrivial = e;
                st.states = s;
                st.steps = t;
                st.traces = tr;
                st.outcomes.insert("compared", e);
                counted = true;
            }
        }
        if let Some(i) = l.strip_prefix("ISSUE ") {
            let (k, m) = i.split_once('|').unwrap_or(("issue", i));
            ctx.violation(k, "no-std", m.to_string(), vec![]);
        }
    }
    ctx.add(st, vec![]);
    if !counted {
        ctx.violation("panic", "no-std", format!("the check did not finish: {}", String::from_utf8_lossy(&o.stderr)), vec![]);
    }
}
