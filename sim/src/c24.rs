//! Swell lists screened against mirror images, whatever units, restarts and neighbours.
use crate::common::{self, plan_from};
use crate::fspec;
use crate::objs;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use std::f64::consts::TAU;
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{Direction, UnitConvertible, UnitSystem};

pub struct C24;

#[derive(Serialize, Deserialize, Clone)]
struct Item {
    /// a document kind, "own" (spectra with mirrored peaks) or "list" (components as a client enters them)
    src: String,
    st: u64,
    dt: i64,
    n: u64,
    faults: Vec<Fault>,
    /// what the client does with each summary, one digit per act
    acts: u64,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    items: Vec<Item>,
}

const SYSTEMS: [UnitSystem; 4] = [UnitSystem::English, UnitSystem::Metric, UnitSystem::Knots, UnitSystem::Kelvin];

/// One screening: the components it was asked about and what it said.
struct Screening {
    what: String,
    before: Vec<Swell>,
    after: Vec<Swell>,
    dropped: Vec<usize>,
    kept: Vec<Swell>,
    again: usize,
}

fn spell(v: &[Swell]) -> Vec<String> {
    v.iter().map(|s| serde_json::to_string(s).unwrap_or_default()).collect()
}

fn screen(s: &SwellSummary, what: String) -> Screening {
    let before = s.components.clone();
    let (dropped, kept) = (s.probable_false_components(), s.filtered_components());
    let again = SwellSummary { summary: s.summary.clone(), components: kept.clone() }.filtered_components().len();
    Screening { what, before, after: s.components.clone(), dropped, kept, again }
}

/// What a client does with the summaries of its source, one after the other.
fn session(it: &Item, n: usize, summaries: Vec<SwellSummary>) -> (Vec<Vec<Screening>>, u64) {
    let mut crashes = 0;
    let out = summaries
        .into_iter()
        .take(40)
        .enumerate()
        .map(|(i, mut s)| {
            let what = format!("item {n}, {} {i}", it.src);
            let mut v = vec![screen(&s, format!("{what}, as received"))];
            let mut a = it.acts.rotate_left(7 * i as u32);
            for k in 0..(a % 4) {
                a /= 7;
                match a % 6 {
                    0..=3 => {
                        s.to_units(&SYSTEMS[(a % 4) as usize]);
                    }
                    4 => {
                        // the client's memory is lost and it goes on from what it saved
                        crashes += 1;
                        if let Ok(b) = serde_json::from_str(&serde_json::to_string(&s).unwrap()) {
                            s = b;
                        }
                    }
                    _ => s.components = s.filtered_components(),
                }
                v.push(screen(&s, format!("{what}, act {k}")));
            }
            v
        })
        .collect();
    (out, crashes)
}

/// The period as a list shows it, or None too close to the next tenth to say.
fn shown(p: f64) -> Option<i64> {
    let t = p * 10.0;
    if (t - t.floor() - 0.5).abs() < 1e-6 { None } else { Some(t.round() as i64) }
}

fn check(s: &Screening, ctx: &mut Ctx) {
    let w = &s.what;
    ctx.checked();
    let (before, kept) = (spell(&s.before), spell(&s.kept));
    if spell(&s.after) != before {
        return ctx.violate("changed", format!("{w}: screening changed the summary itself: {before:?}"));
    }
    if s.dropped.windows(2).any(|v| v[0] >= v[1]) || s.dropped.iter().any(|i| *i >= before.len()) {
        return ctx.violate("indexes", format!("{w}: {:?} of {} components", s.dropped, before.len()));
    }
    let rest: Vec<String> = before.iter().enumerate().filter(|(i, _)| !s.dropped.contains(i)).map(|(_, c)| c.clone()).collect();
    if rest != kept {
        return ctx.violate("kept", format!("{w}: {:?} are said to be mirror images of {before:?}, but {kept:?} were kept", s.dropped));
    }
    if s.again != s.kept.len() {
        return ctx.violate("again", format!("{w}: screened again, {} of {} components are left: {kept:?}", s.again, s.kept.len()));
    }
    // every component against the first one listed with its period
    let p: Vec<Option<i64>> = s.before.iter().map(|c| c.period.value.filter(|p| p.is_finite() && p.abs() < 1e6).and_then(shown)).collect();
    for i in 0..before.len() {
        let Some(pi) = p[i] else {
            if s.before[i].period.value.is_some() || s.before[i].direction.value.is_none() {
                continue;
            }
            // without periods there is nothing to tell a mirror image by, or all share the lack of one
            ctx.probe("no_period");
            continue;
        };
        if (0..i).any(|j| s.before[j].period.value.is_some() && p[j].is_none()) {
            continue;
        }
        let first = (0..=i).find(|j| p[*j] == Some(pi)).unwrap();
        let said = s.dropped.contains(&i);
        let want = match (&s.before[first].direction.value, &s.before[i].direction.value) {
            _ if first == i => Some(false),
            (_, None) => Some(false),
            // a first one without direction has no mirror images, and no other takes its place
            (None, Some(_)) => {
                ctx.probe("first_without_direction");
                Some(false)
            }
            (Some(a), Some(b)) => {
                let d = (a.degrees - b.degrees).rem_euclid(360);
                ctx.probe(if (170..=190).contains(&d) { "mirrored" } else { "same_period" });
                if d == 170 || d == 190 {
                    ctx.probe("edge");
                }
                Some((170..=190).contains(&d))
            }
        };
        if want.is_some_and(|w| w != said) {
            return ctx.violate(
                if said { "lost swell" } else { "mirror image kept" },
                format!("{w}: component {i}, {}, is {} the mirror image of component {first}, {}", s.before[i], if said { "taken for" } else { "not taken for" }, s.before[first]),
            );
        }
    }
}

impl Property for C24 {
    fn info(&self) -> Info {
        Info {
            id: "C24",
            rule: "A run simulates clients that screen the swell of their sources against mirror images: bulletins, buoys and point forecasts over a faulty network, spectra of their own with mirrored peaks, and lists entered by hand with components missing directions. Between screenings they switch units, lose their memory and go on from what they saved, or carry on with the screened list; several clients are preempted inside each other's calls. Non-trivial: a fault, a restart or a mirror image occurred. State signature: source, component counts and what was dropped.",
            real: &["surfrs swell (SwellSummary, Direction), records and spectra as swell providers", "serde_json, regex, csv"],
            stub: &["buoy and model publishers", "network (fault injector)", "storage", "client scheduler"],
            assumptions: &["Components have the same period when they show the same tenth of a second; components without period, and those after one with an ambiguous tenth, are held to the other rules only."],
            quick_runs: 30_000,
            thorough_runs: 600_000,
            digest_is_property: false,
            expect_probes: &["mirrored", "same_period", "edge", "first_without_direction", "own_source", "list_source"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let items = (0..1 + r.usize(if thorough { 5 } else { 3 }))
            .map(|_| Item {
                src: r.pick(&["cbull", "five", "fspec", "spec", "own", "list", "list", "list"]).to_string(),
                st: r.below(200),
                dt: r.range(0, 40) * 3600,
                n: 1 + r.below(6),
                faults: (0..*r.pick(&[0usize, 0, 1, 2, 4])).map(|_| net::gen_fault(r, net::KINDS)).collect(),
                acts: r.u64() >> 1,
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r), items }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        let mut t = common::clamp_time(p.start);
        let mut jobs: Vec<Box<dyn FnOnce() -> (Vec<Vec<Screening>>, u64) + Send>> = vec![];
        for (n, it) in p.items.iter().cloned().enumerate() {
            t = common::clamp_time(t + it.dt);
            ctx.out.sim_secs += it.dt.unsigned_abs();
            simkit::seams::set_now(t, 0);
            let mut r = Rng::keyed(&[p.world, fnv(b"c24"), n as u64, it.st]);
            let world = p.world;
            match it.src.as_str() {
                "own" => {
                    ctx.probe("own_source");
                    let seas: Vec<Spectra> = (0..it.n.clamp(1, 8)).map(|_| mirrored_sea(&mut r)).collect();
                    jobs.push(Box::new(move || {
                        let sums = seas.iter().filter_map(|s| s.partition(100, None).ok().and_then(|p| s.swell_data(None, None, None, &p).ok())).collect();
                        session(&it, n, sums)
                    }));
                }
                "list" => {
                    ctx.probe("list_source");
                    let sums: Vec<SwellSummary> = (0..it.n.clamp(1, 8)).map(|_| list(&mut r)).collect();
                    jobs.push(Box::new(move || session(&it, n, sums)));
                }
                k => {
                    let kind = objs::DOC_KINDS.iter().find(|x| **x == k).copied().unwrap_or("spec");
                    let mut texts = objs::publish(kind, world, it.st, t);
                    for (i, fa) in it.faults.iter().enumerate() {
                        let m = texts.len();
                        let (b, changed) = net::apply(std::mem::take(&mut texts[i % m]).into_bytes(), fa, &|| vec![]);
                        if changed {
                            ctx.fault(&fa.k);
                        }
                        texts[i % m] = String::from_utf8_lossy(&b[..b.len().min(400_000)]).into_owned();
                    }
                    let st = it.st;
                    jobs.push(Box::new(move || {
                        let sums = objs::decode(kind, world, st, &texts).unwrap_or_default().iter().take(60).filter_map(|o| o.swell()).filter_map(|s| s.ok()).collect();
                        session(&it, n, sums)
                    }));
                }
            }
        }
        for g in common::together(p.seed, p.gap, jobs, ctx) {
            match g {
                Err(m) => ctx.violate("panic", m),
                Ok((all, crashes)) => {
                    for _ in 0..crashes {
                        ctx.fault("crash");
                    }
                    for v in &all {
                        for s in v {
                            ctx.log(format!("{}: {} components, {:?} dropped", s.what, s.before.len(), s.dropped));
                            ctx.reach(format!("{} {:?}", s.before.len(), s.dropped));
                            ctx.out.nontrivial |= !s.dropped.is_empty();
                            check(s, ctx);
                        }
                        // nothing but carrying on with the screened list makes a difference
                        for x in v.windows(2) {
                            if x[0].before.len() == x[1].before.len() && x[0].dropped != x[1].dropped {
                                ctx.violate("units", format!("{}: {:?} dropped, {:?} before", x[1].what, x[1].dropped, x[0].dropped));
                            }
                        }
                    }
                }
            }
            if ctx.failed() {
                return;
            }
        }
    }
}

/// Components of few periods in all directions, some right at the edge of being mirror images.
fn list(r: &mut Rng) -> SwellSummary {
    let n = r.usize(9);
    let d0 = r.range(0, 359) as i32;
    let p0 = r.frange(3.0, 18.0);
    let system = r.pick(&[UnitSystem::Metric, UnitSystem::English]).clone();
    let mut v: Vec<Swell> = (0..n)
        .map(|_| {
            let d = d0 + *r.pick(&[0, 180, 175, 190, 191, 170, 169, 90, 350, 10, 185, 165, 200]);
            // as models write them: mostly below 360, but 360 is north too
            let d = if d == 360 { d } else { d.rem_euclid(360) };
            let p = match r.usize(4) {
                0 => p0 + 1.0,
                1 => (p0 * 10.0).round() / 10.0,
                _ => p0,
            };
            let mut s = Swell::new(&system, r.frange(0.1, 4.0), p, Direction::from_degrees(d), None, Some(r.frange(0.1, 400.0)), None);
            if r.chance(0.06) {
                s.direction.value = None;
            }
            if r.chance(0.1) {
                // copied from another client, who keeps other units
                s.to_units(r.pick(&SYSTEMS));
            }
            s
        })
        .collect();
    v.sort_by(|a, b| b.energy.as_ref().unwrap().value.partial_cmp(&a.energy.as_ref().unwrap().value).unwrap());
    let summary = v.first().cloned().unwrap_or_else(|| Swell::new(&system, 0.0, 0.0, Direction::from_degrees(0), None, None, None));
    SwellSummary { summary, components: v }
}

/// A sea whose instrument sees some of its systems twice, once from the opposite direction.
fn mirrored_sea(r: &mut Rng) -> Spectra {
    let (nk, nth) = (*r.pick(&[12usize, 20, 29]), *r.pick(&[12usize, 24, 36]));
    let freq: Vec<f64> = (0..nk).map(|k| 0.035 * f64::powi(1.1, k as i32)).collect();
    let off = r.frange(0.0, 1.0);
    let dirs: Vec<f64> = (0..nth).map(|j| (j as f64 + off) * TAU / nth as f64).collect();
    let mut e = fspec::sea(r, &freq, &dirs);
    let share = r.frange(0.1, 0.9);
    let plain = e.clone();
    for k in 0..nk {
        if r.chance(0.9) {
            for j in 0..nth {
                e[k + j * nk] += share * plain[k + (j + nth / 2) % nth * nk];
            }
        }
    }
    Spectra::new(freq, dirs, e, DirectionConvention::From)
}
