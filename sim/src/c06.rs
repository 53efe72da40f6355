//! Swell tracked over gappy histories, polled as it grows.
use crate::common::{self, plan_from};
use crate::feeds::at;
use crate::rec::circ;
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use std::collections::BTreeSet;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::Swell;
use surfrs::tools::waves::track_partitions;
use surfrs::units::{Direction, Unit};

pub struct C06;

#[derive(Serialize, Deserialize, Clone)]
struct Comp {
    h: f64,
    #[serde(default)]
    p: Option<f64>,
    #[serde(default)]
    d: Option<i64>,
    #[serde(default)]
    id: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Step {
    dt: i64,
    /// "", "late", "repeated", "gap", "empty"
    #[serde(default)]
    how: String,
    comps: Vec<Comp>,
}
#[derive(Serialize, Deserialize)]
struct Hist {
    start: i64,
    tol: f64,
    dist: f64,
    /// clients ask again after these many steps
    polls: Vec<u64>,
    steps: Vec<Step>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    seed: u64,
    gap: u64,
    hists: Vec<Hist>,
}

const NONE: f64 = 999.99;

fn swell(c: &Comp) -> Swell {
    let dim = |v: Option<f64>, n: &str, unit: Unit| DimensionalData { value: v, variable_name: n.into(), unit };
    Swell {
        wave_height: dim(Some(c.h), "wave height", Unit::Meters),
        period: dim(c.p, "period", Unit::Seconds),
        direction: DimensionalData { value: c.d.map(|d| Direction::from_degrees(d.clamp(-100_000, 100_000) as i32)), variable_name: "direction".into(), unit: Unit::Degrees },
        energy: Some(dim(Some(c.h * c.h), "energy", Unit::KiloJoules)),
        spectral_density: None,
        partition: c.id.map(|x| x as usize),
    }
}

fn gen_hist(r: &mut Rng, thorough: bool, faults: &BTreeSet<&str>) -> Hist {
    // swell systems that come, drift and go
    struct Sys {
        from: i64,
        to: i64,
        p: f64,
        dp: f64,
        d: f64,
        dd: f64,
    }
    let n = 1 + r.usize(if thorough { 24 } else { 14 }) as i64;
    let nsys = 1 + r.usize(6);
    let tol = *r.pick(&[10.0, 20.0, 30.0, 30.0, 45.0, 180.0, 12.5, 22.5]);
    let dist = *r.pick(&[1e3, 1e5, 1e6, 1e6, 1e4]);
    let north = r.chance(0.4);
    let d0 = r.frange(0.0, 360.0);
    let crowd = r.chance(0.4);
    let every = *r.pick(&[3600i64, 3600, 1800, 10800, 86400, 1557, 47]);
    let disp = every as f64 * 9.81 / (4.0 * std::f64::consts::PI * dist);
    let sys: Vec<Sys> = (0..nsys)
        .map(|_| {
            let from = r.range(-2, n);
            Sys {
                from,
                to: from + r.range(1, n + 2),
                p: r.frange(3.0, 20.0),
                dp: r.frange(-2.0, 2.0) * disp.min(1.0),
                d: if north { r.frange(-25.0, 25.0) } else if crowd { d0 + r.frange(-15.0, 15.0) } else { r.frange(0.0, 360.0) },
                dd: r.frange(-0.7, 0.7) * tol,
            }
        })
        .collect();
    let still = r.chance(0.3);
    let coarse = r.chance(0.3);
    let mut steps: Vec<Step> = vec![];
    let mut behind = 0;
    for i in 0..n {
        let mut comps: Vec<Comp> = vec![];
        for s in &sys {
            if i < s.from || i >= s.to {
                continue;
            }
            let k = (i - s.from.max(0)) as f64;
            let mut p = s.p + s.dp * k + if still { 0.0 } else { r.frange(-0.2, 0.2) * disp.min(2.0) };
            p = if coarse { p.round() } else { (p * 10.0).round() / 10.0 };
            let d = (s.d + s.dd * if still { 0.0 } else { k * 0.5 }).rem_euclid(360.0).round() as i64;
            let mut c = Comp { h: (r.frange(0.1, 6.0) * 10.0).round() / 10.0, p: Some(p.max(1.0)), d: Some(d), id: None };
            if faults.contains("no_direction") && r.chance(0.15) {
                c.d = None;
            }
            if faults.contains("no_period") && r.chance(0.1) {
                c.p = None;
            }
            if faults.contains("component_lost") && r.chance(0.2) {
                continue;
            }
            comps.push(c);
        }
        r.shuffle(&mut comps);
        match r.below(3) {
            0 => comps.iter_mut().enumerate().for_each(|(k, c)| c.id = Some(k as u64)),
            1 => {
                let base = r.below(40);
                let mut ids: Vec<u64> = (0..comps.len() as u64).map(|k| base + 3 * k).collect();
                r.shuffle(&mut ids);
                let some = r.chance(0.5);
                for (c, id) in comps.iter_mut().zip(ids) {
                    c.id = if some && r.chance(0.4) { None } else { Some(id) };
                }
            }
            _ => {}
        }
        let mut st = Step { dt: if i == 0 { 0 } else { every }, how: String::new(), comps };
        if behind > 0 && r.chance(0.5) {
            st.dt += behind;
            behind = 0;
        }
        if faults.contains("step_lost") && i > 0 && r.chance(0.15) {
            behind += st.dt;
            continue;
        }
        if st.dt > every {
            st.how = "gap".into();
        }
        if faults.contains("step_empty") && r.chance(0.12) {
            st.comps.clear();
            st.how = "empty".into();
        }
        if faults.contains("step_late") && i > 0 && r.chance(0.1) {
            st.dt = -every * r.range(1, 3);
            st.how = "late".into();
        }
        let dup = faults.contains("step_repeated") && r.chance(0.15);
        let again = Step { dt: 0, how: "repeated".into(), comps: st.comps.clone() };
        steps.push(st);
        if dup {
            steps.push(again);
        }
    }
    // a pair of components that just match, or just do not
    for i in 1..steps.len() {
        let disp = steps[i].dt as f64 * 9.81 / (4.0 * std::f64::consts::PI * dist);
        if disp == 0.0 || disp.abs() > 0.02 || !r.chance(0.1) {
            continue;
        }
        let total = *r.pick(&[998.5, 998.99, 999.01, 999.5, 999.98, 1000.01]);
        if let (Some(a), true) = (steps[i - 1].comps.first().cloned(), !steps[i].comps.is_empty()) {
            if let (Some(p), Some(d)) = (a.p, a.d) {
                (steps[i].comps[0].p, steps[i].comps[0].d) = (Some(p + total * disp.abs()), Some(d));
            }
        }
    }
    let polls = (0..r.usize(4)).map(|_| r.below(n as u64 + 1)).collect();
    Hist { start: common::gen_start(r), tol, dist, polls, steps }
}

/// Which predecessor each component should take its id from (None: a new one), or why the
/// answer is not determined.
fn expected(prev: &[Swell], cur: &[Swell], prev_ids: &[usize], dt: i64, tol: f64, dist: f64) -> Option<Vec<Option<usize>>> {
    let disp = dt as f64 * 9.81 / (4.0 * std::f64::consts::PI * dist);
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()));
    let part = |x: f64, s: f64| if x == 0.0 { 0.0 } else { (x / s).abs() };
    let mut best = vec![];
    for c in cur {
        let mut b: Option<(f64, usize)> = None;
        let mut tie = false;
        for (j, p) in prev.iter().enumerate() {
            let (Some(d), Some(e)) = (&c.direction.value, &p.direction.value) else { continue };
            let dd = circ(d.degrees as f64, e.degrees as f64);
            if dd > tol {
                continue;
            }
            let (Some(x), Some(y)) = (c.period.value, p.period.value) else { continue };
            let s = part(dd, tol) + part((x - y).abs(), disp);
            if (s - 999.0).abs() < 1e-6 {
                return None;
            }
            if s > 999.0 {
                continue;
            }
            match b {
                Some((o, _)) if close(o, s) => tie = true,
                Some((o, _)) if o < s => {}
                _ => {
                    b = Some((s, j));
                    tie = false;
                }
            }
        }
        if tie {
            return None;
        }
        best.push(b);
    }
    // the best match of each predecessor claims it
    let mut out = vec![None; cur.len()];
    for (j, id) in prev_ids.iter().enumerate() {
        let mut claims: Vec<(f64, usize)> = best.iter().enumerate().filter_map(|(i, b)| b.filter(|b| b.1 == j).map(|b| (b.0, i))).collect();
        claims.sort_by(|a, b| a.0.total_cmp(&b.0));
        if claims.len() > 1 && close(claims[0].0, claims[1].0) {
            return None;
        }
        if let Some((_, i)) = claims.first() {
            out[*i] = Some(*id);
        }
    }
    Some(out)
}

fn sans_id(s: &Swell) -> String {
    let mut s = s.clone();
    s.partition = None;
    format!("{s:?}")
}

fn check(h: &Hist, inputs: &[(DateTime<Utc>, Vec<Swell>)], got: &[Vec<Swell>], what: &str, ctx: &mut Ctx) {
    if got.len() != inputs.len() || got.iter().zip(inputs).any(|(g, i)| g.len() != i.1.len()) {
        ctx.violate("shape", format!("{what}: {:?} components per step instead of {:?}", got.iter().map(|g| g.len()).collect::<Vec<_>>(), inputs.iter().map(|g| g.1.len()).collect::<Vec<_>>()));
        return;
    }
    for (i, (g, x)) in got.iter().zip(inputs).enumerate() {
        for (a, b) in g.iter().zip(&x.1) {
            if sans_id(a) != sans_id(b) {
                ctx.violate("changed", format!("{what}: step {i}: {} became {}", sans_id(b), sans_id(a)));
                return;
            }
        }
    }
    if inputs.len() == 1 {
        for (a, b) in got[0].iter().zip(&inputs[0].1) {
            if b.partition.is_some() && a.partition != b.partition {
                ctx.violate("first ids", format!("{what}: the only step's ids changed: {:?} became {:?}", b.partition, a.partition));
            }
        }
        return;
    }
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut prev_ids: Vec<usize> = vec![];
    for (i, g) in got.iter().enumerate() {
        let Some(ids) = g.iter().map(|s| s.partition).collect::<Option<Vec<usize>>>() else {
            ctx.violate("no id", format!("{what}: step {i} has a component without id"));
            return;
        };
        let distinct: BTreeSet<usize> = ids.iter().copied().collect();
        if distinct.len() != ids.len() {
            ctx.violate("shared id", format!("{what}: step {i} has ids {ids:?}"));
            return;
        }
        ctx.log(format!("step {i} ({}) at {}: ids {ids:?}", h.steps[i].how, inputs[i].0));
        if i == 0 {
            for (id, s) in ids.iter().zip(&inputs[0].1) {
                if s.partition.is_some_and(|p| p != *id) {
                    ctx.violate("first ids", format!("{what}: first step id {:?} became {id}", s.partition));
                }
            }
        } else {
            let (prev, cur) = (&inputs[i - 1].1, &inputs[i].1);
            let dt = (inputs[i].0 - inputs[i - 1].0).num_seconds();
            let exp = expected(prev, cur, &prev_ids, dt, h.tol, h.dist);
            ctx.probe(if exp.is_some() { "determined_step" } else { "undetermined_step" });
            for (k, id) in ids.iter().enumerate() {
                let from = prev_ids.iter().position(|p| p == id);
                let desc = || format!("{what}: step {i} component {k} ({} s {:?})", cur[k].period.value.unwrap_or(f64::NAN), cur[k].direction.value.as_ref().map(|d| d.degrees));
                match from {
                    Some(j) => {
                        ctx.probe("id_carried");
                        let ok = match (&cur[k].direction.value, &prev[j].direction.value) {
                            (Some(a), Some(b)) => circ(a.degrees as f64, b.degrees as f64) <= h.tol,
                            _ => false,
                        };
                        if !ok {
                            ctx.violate("carried too far", format!("{}: took id {id} from a component at {:?} with tolerance {}", desc(), prev[j].direction.value.as_ref().map(|d| d.degrees), h.tol));
                        }
                    }
                    None => {
                        ctx.probe("id_new");
                        if used.contains(id) {
                            ctx.violate("reused id", format!("{}: got id {id}, used by an earlier step but not by the one before", desc()));
                        }
                    }
                }
                if let Some(e) = &exp {
                    match (e[k], from) {
                        (Some(w), _) if w != *id => ctx.violate("identity", format!("{}: has id {id}, its best predecessor has {w} and no better claimant", desc())),
                        (None, Some(_)) => ctx.violate("identity", format!("{}: carries id {id} although it has no match or a better-matching component claims it", desc())),
                        _ => {}
                    }
                }
            }
        }
        used.extend(ids.iter().copied());
        prev_ids = ids;
    }
}

impl Property for C06 {
    fn info(&self) -> Info {
        Info {
            id: "C06",
            rule: "A run is up to four histories of one to six drifting swell systems (directions around north, crowded or spread; periods coarse or fine) reported step by step with a swarm-chosen subset of faults: steps lost, repeated, late or empty, components dropping out or without direction or period; clients poll as the history grows, concurrently. Non-trivial: a fault fired. State signature: faults of the steps, numbers of components, ids carried.",
            real: &["surfrs tools::waves::track_partitions", "Swell"],
            stub: &["swell systems", "observation network (fault injector)", "client scheduler"],
            assumptions: &["Steps with exactly tied scores are held to the identity invariants only."],
            quick_runs: 90_000,
            thorough_runs: 300_000,
            digest_is_property: false,
            expect_probes: &["id_carried", "id_new", "determined_step", "undetermined_step", "across_north", "contested"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let mut ks = vec!["no_direction", "no_period", "component_lost", "step_lost", "step_empty", "step_late", "step_repeated"];
        r.shuffle(&mut ks);
        ks.truncate(if index % 9 == 0 { 0 } else { r.usize(6) });
        let faults: BTreeSet<&str> = ks.into_iter().collect();
        let hists = (0..1 + r.usize(3)).map(|_| gen_hist(r, thorough, &faults)).collect();
        serde_json::to_value(Plan { seed: r.u64() >> 12, gap: common::gen_gap(r), hists }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut meta = vec![];
        let mut all = vec![];
        for h in &plan.hists {
            let mut t = h.start;
            let mut inputs: Vec<(DateTime<Utc>, Vec<Swell>)> = vec![];
            for s in &h.steps {
                t = common::clamp_time(t + s.dt);
                ctx.out.sim_secs += s.dt.unsigned_abs();
                if !s.how.is_empty() {
                    ctx.fault(&format!("step_{}", s.how));
                }
                if s.comps.iter().any(|c| c.d.is_none()) {
                    ctx.fault("no_direction");
                }
                if s.comps.iter().any(|c| c.p.is_none()) {
                    ctx.fault("no_period");
                }
                let mut cs: Vec<Swell> = s.comps.iter().map(swell).collect();
                if inputs.is_empty() {
                    // the first step's own ids are distinct
                    let mut seen = BTreeSet::new();
                    cs.iter_mut().for_each(|c| {
                        if c.partition.is_some_and(|p| !seen.insert(p)) {
                            c.partition = None;
                        }
                    });
                }
                if let Some((_, p)) = inputs.last() {
                    for c in &cs {
                        let near = p.iter().filter(|q| matches!((&c.direction.value, &q.direction.value), (Some(a), Some(b)) if circ(a.degrees as f64, b.degrees as f64) <= h.tol)).collect::<Vec<_>>();
                        if near.len() > 1 {
                            ctx.probe("contested");
                        }
                        if near.iter().any(|q| (q.direction.value.as_ref().unwrap().degrees - c.direction.value.as_ref().unwrap().degrees).abs() > 180) {
                            ctx.probe("across_north");
                        }
                    }
                }
                inputs.push((at(t), cs));
            }
            all.push(inputs);
        }
        let mut jobs: Vec<Box<dyn FnOnce() -> Vec<Vec<Swell>> + Send>> = vec![];
        for (k, h) in plan.hists.iter().enumerate() {
            let n = all[k].len();
            let mut ends: Vec<usize> = h.polls.iter().map(|p| *p as usize % (n + 1)).collect();
            ends.push(n);
            for e in ends {
                let (inp, tol, dist) = (&all[k][..e], h.tol, h.dist);
                meta.push((k, e));
                jobs.push(Box::new(move || track_partitions(inp, tol, dist)));
            }
        }
        let got = common::together(plan.seed, plan.gap, jobs, ctx);
        let mut polls: Vec<Vec<Vec<Vec<Swell>>>> = vec![vec![]; plan.hists.len()];
        for ((k, e), g) in meta.into_iter().zip(got) {
            ctx.checked();
            let h = &plan.hists[k];
            let what = format!("history {k} up to step {e}, tolerance {}, distance {}", h.tol, h.dist);
            match g {
                Err(p) => ctx.violate("panic", format!("{what}: {p}")),
                Ok(g) => {
                    check(h, &all[k][..e], &g, &what, ctx);
                    polls[k].push(g);
                }
            }
        }
        for (k, ps) in polls.iter().enumerate() {
            ctx.reach(format!("{:?}", plan.hists[k].steps.iter().map(|s| (s.how.as_str(), s.comps.len())).collect::<Vec<_>>()));
            let Some(full) = ps.last() else { continue };
            for p in ps.iter().filter(|p| p.len() >= 2) {
                let ids = |v: &[Vec<Swell>]| v.iter().map(|s| s.iter().map(|c| c.partition).collect::<Vec<_>>()).collect::<Vec<_>>();
                let n = p.len().min(full.len());
                if ids(p) != ids(&full[..n]) {
                    ctx.violate("rewritten", format!("history {k}: ids of the first {n} steps changed when later steps arrived: {:?} became {:?}", ids(p), ids(&full[..n])));
                }
            }
        }
    }
}
