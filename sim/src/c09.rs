//! Clients switching unit systems over and over, with restarts in between.
use crate::common::{self, plan_from};
use crate::objs::{self, Obj, Quantity};
use crate::truth::{base, shown, true_value, NAMES, SYSTEMS};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::{Swell, SwellProvider};
use surfrs::units::{Direction, Unit, UnitSystem};

pub struct C09;

#[derive(Serialize, Deserialize)]
struct Client {
    /// "value", "integer", "direction", "swell" or a document kind
    kind: String,
    #[serde(default)]
    unit: u64,
    #[serde(default)]
    value: Option<f64>,
    #[serde(default)]
    st: u64,
    #[serde(default)]
    dt: i64,
    /// parts were switched or cleared on their own before (0: not)
    #[serde(default)]
    mixed: u64,
    /// 0-3: switch to a system, 4: save and reload, 5: convert directly to another unit
    ops: Vec<u64>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    clients: Vec<Client>,
}

const UNITS: [Unit; 20] = [
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit,
    Unit::InchesMercury, Unit::Knots, Unit::Kelvin, Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown,
];
const LABELS: [&str; 20] = ["mm", "m", "m/s", "°C", "pa", "hpa", "in", "ft", "mph", "°F", "in Hg", "kt", "K", "m²/Hz", "nmi", "°", "s", "%", "kJ", ""];

/// Kinds of values that offer switching.
const CONVERTIBLE: [&str; 7] = ["value", "direction", "swell", "summary", "wave", "cbull", "fspec"];

/// Conversions clients ask for directly.
const DIRECT: [(usize, usize); 30] = [
    (0, 1), (0, 6), (1, 0), (1, 7), (2, 8), (2, 11), (3, 9), (3, 12), (4, 5), (5, 4), (5, 10), (6, 7), (6, 0), (7, 6), (7, 1), (8, 2), (8, 11), (9, 3), (9, 12), (10, 5), (11, 2), (11, 8), (12, 3), (12, 9),
    (2, 2), (1, 1), (3, 3), (5, 5), (9, 9), (8, 8),
];

fn unit(name: &str) -> &'static Unit {
    NAMES.iter().position(|n| *n == name).map(|i| &UNITS[i]).unwrap_or(&UNITS[19])
}

/// What came back after each operation.
type Seen = Vec<Result<Vec<(String, Quantity)>, String>>;

fn observe(o: &Obj) -> Result<(Vec<(String, Quantity)>, Value), String> {
    let s = o.save()?;
    let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    Ok(objs::quantities(&v))
}

/// The quantities of the swell a record offers.
fn offered(o: &Obj) -> Option<Result<Vec<(String, Quantity)>, String>> {
    o.swell().map(|s| s.map_err(|e| e.to_string()).and_then(|s| serde_json::to_value(s).map_err(|e| e.to_string())).map(|v| objs::quantities(&v).0))
}

/// Whether the swell offered before and after switching is the same.
fn same_offer(a: &Option<Result<Vec<(String, Quantity)>, String>>, b: &Option<Result<Vec<(String, Quantity)>, String>>) -> Result<(), String> {
    match (a, b) {
        (Some(Ok(a)), Some(Ok(b))) => {
            if a.len() != b.len() {
                return Err(format!("{} quantities became {}", a.len(), b.len()));
            }
            for ((p, x), (q, y)) in a.iter().zip(b) {
                let same = match (x.value, y.value) {
                    (Some(v), Some(w)) => true_value(v, &x.unit, w, &y.unit),
                    (None, None) => x.other == y.other,
                    _ => false,
                };
                if p != q || !same {
                    return Err(format!("{p} {:?} {} became {q} {:?} {}", x.value, x.unit, y.value, y.unit));
                }
            }
            Ok(())
        }
        (None, None) | (Some(Err(_)), Some(Err(_))) => Ok(()),
        (a, b) => Err(format!("{a:?} became {b:?}").chars().take(300).collect()),
    }
}

fn play(mut o: Obj, ops: &[u64], rest_changed: &mut Option<String>) -> Seen {
    let mut out = vec![];
    let before = offered(&o);

    let first = match observe(&o) {
        Ok((q, rest)) => {
            out.push(Ok(q));
            rest
        }
        Err(e) => return vec![Err(e)],
    };
    for op in ops {
        match op % 6 {
            4 => match o.save().and_then(|s| Obj::load(o.kind(), &s)) {
                Ok(x) => o = x,
                Err(e) => {
                    out.push(Err(format!("reload: {e}")));
                    return out;
                }
            },
            5 => {
                if let Obj::Dim(d) = &mut o {
                    let name = format!("{:?}", d.unit);
                    let mine: Vec<&(usize, usize)> = DIRECT.iter().filter(|p| NAMES[p.0] == name).collect();
                    if !mine.is_empty() {
                        let to = &UNITS[mine[(op / 6) as usize % mine.len()].1];
                        d.value = d.value.map(|v| d.unit.convert(v, to));
                        d.unit = to.clone();
                    }
                }
            }
            s => {
                o.to_units(&SYSTEMS[s as usize]);
            }
        }
        match observe(&o) {
            Ok((q, rest)) => {
                if rest_changed.is_none() {
                    if let Err(e) = objs::same_text(&first.to_string(), &rest.to_string()) {
                        *rest_changed = Some(format!("after operation {op}: {e}"));
                    }
                }
                out.push(Ok(q))
            }
            Err(e) => {
                out.push(Err(e));
                return out;
            }
        }
    }
    // spectra reload to the last digit but one, enough to divide them differently at ties
    let divided = matches!(o, Obj::Fspec(_) | Obj::Directional(_)) && ops.iter().any(|x| x % 6 == 4);
    if rest_changed.is_none() && !divided {
        if let Err(e) = same_offer(&before, &offered(&o)) {
            *rest_changed = Some(format!("and the swell offered: {e}"));
        }
    }
    out
}

fn make(c: &Client, plan: &Plan) -> Vec<Obj> {
    let mut v = pick(c, plan);
    if c.mixed > 0 {
        v.iter_mut().for_each(|o| o.mix(&mut Rng::keyed(&[c.mixed])));
    }
    v
}

fn pick(c: &Client, plan: &Plan) -> Vec<Obj> {
    let u = UNITS[(c.unit % 20) as usize].clone();
    let dim = |v: Option<f64>, unit: Unit| DimensionalData { value: v, variable_name: "sea temperature".into(), unit };
    match c.kind.as_str() {
        "value" => vec![Obj::Dim(dim(c.value, u))],
        "direction" => vec![Obj::Dir(DimensionalData { value: c.value.map(|v| Direction::from_degrees((v.abs() % 360.0) as i32)), variable_name: "wind direction".into(), unit: u })],
        "swell" => {
            let sys = if c.unit % 2 == 0 { UnitSystem::Metric } else { UnitSystem::English };
            let mut s = Swell::new(&sys, c.value.unwrap_or(1.0), 9.0, Direction::from_degrees(200), if c.unit % 3 == 0 { Some(2.0) } else { None }, if c.unit % 5 == 0 { Some(30.0) } else { None }, if c.unit % 7 == 0 { Some(3) } else { None });
            if c.value.is_none() {
                s.wave_height.value = None;
            }
            vec![Obj::Swell(s)]
        }
        k => {
            let k = objs::DOC_KINDS.iter().find(|x| **x == k).copied().unwrap_or("spec");
            let t = common::clamp_time(plan.start + c.dt);
            let mut v = objs::decode(k, plan.world, c.st, &objs::publish(k, plan.world, c.st, t)).unwrap_or_default();
            let i = if v.is_empty() { return v } else { c.unit as usize % v.len() };
            let o = v.swap_remove(i);
            if c.unit % 3 == 1 {
                let s = match &o {
                    Obj::Wave(x) => x.swell_data().ok(),
                    Obj::CBull(x) => x.swell_data().ok(),
                    Obj::Fspec(x) => x.swell_data().ok(),
                    Obj::Directional(x) => x.swell_data().ok(),
                    _ => None,
                };
                if let Some(s) = s {
                    return vec![Obj::Summary(s)];
                }
            }
            vec![o]
        }
    }
}

impl Property for C09 {
    fn info(&self) -> Info {
        Info {
            id: "C09",
            rule: "A run is up to five clients, each holding a value of any unit, a swell, a summary or a decoded record, switching it between the four unit systems, converting it directly, and saving and reloading it (restart) in random order while the others do the same under a seeded schedule. Non-trivial: a unit changed or a restart happened. State signature: kinds, units walked through, restarts.",
            real: &["surfrs units", "DimensionalData", "Swell, SwellSummary, WaveDataRecord, ForecastCBulletinWaveRecord, ForecastSpectralWaveDataRecord conversions", "serde_json"],
            stub: &["publishers", "clients", "storage (lossless)", "client scheduler"],
            assumptions: &["Integer values (DimensionalData<i64>) lose fractions by their type and are left out.", "Nautical miles and pascals have no counterpart in any system."],
            quick_runs: 36_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["unit_changed", "returned", "restart", "direct", "absent", "negative", "untouched_unit", "wave", "cbull", "fspec", "summary", "mixed"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let restarts = r.chance(0.6);
        let direct = r.chance(0.3);
        let clients = (0..1 + r.usize(5))
            .map(|_| {
                let kind = *r.pick(&["value", "value", "value", "direction", "swell", "spec", "cbull", "fspec", "five"]);
                let value = match r.below(8) {
                    0 => None,
                    1 => Some(0.0),
                    2 => Some(-(r.frange(0.0, 500.0))),
                    3 => Some(10f64.powf(r.frange(-300.0, 290.0))),
                    4 => Some(-10f64.powf(r.frange(-20.0, 20.0))),
                    5 => Some((r.frange(0.0, 100.0) * 10.0).round() / 10.0),
                    _ => Some(r.frange(-100.0, 1100.0)),
                };
                let n = 1 + r.usize(if thorough { 40 } else { 16 });
                let ops = (0..n)
                    .map(|_| match r.below(12) {
                        0 | 1 if restarts => 4,
                        2 | 3 if direct => 5 + 6 * r.below(7),
                        _ => r.below(4),
                    })
                    .collect();
                Client { kind: kind.into(), unit: r.below(60), value, st: r.below(6), dt: r.range(0, 40 * 86400), mixed: if r.chance(0.3) { 1 + (r.u64() >> 12) } else { 0 }, ops }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r), clients }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        simkit::seams::set_now(plan.start, 0);
        let mut jobs: Vec<Box<dyn FnOnce() -> (Seen, Option<String>) + Send>> = vec![];
        let mut who = vec![];
        for c in &plan.clients {
            ctx.out.sim_secs += c.ops.len() as u64 * 60;
            for o in make(c, &plan) {
                who.push((c, o.kind()));
                jobs.push(Box::new(move || {
                    let mut ch = None;
                    let s = play(o, &c.ops, &mut ch);
                    (s, ch)
                }));
            }
        }
        let got = common::together(plan.seed, plan.gap, jobs, ctx);
        for ((c, kind), g) in who.into_iter().zip(got) {
            ctx.checked();
            ctx.probe(kind);
            if c.mixed > 0 {
                ctx.probe("mixed");
            }
            let (seen, changed) = match g {
                Ok(x) => x,
                Err(e) => {
                    ctx.violate("panic", format!("{kind}: {e}"));
                    continue;
                }
            };
            if let Some(e) = changed {
                ctx.violate("other parts", format!("{kind}: parts that are no quantities changed {e}"));
            }
            let Some(Ok(first)) = seen.first().cloned() else {
                ctx.log(format!("{kind}: not observable: {:?}", seen.first()));
                continue;
            };
            let first: BTreeMap<String, Quantity> = first.into_iter().collect();
            let mut cur: BTreeMap<String, (Quantity, bool)> = first.iter().map(|(k, q)| (k.clone(), (q.clone(), false))).collect();
            let mut walked = String::new();
            for (n, s) in seen.iter().enumerate() {
                let op = if n == 0 { None } else { Some(c.ops[n - 1]) };
                let s = match s {
                    Ok(s) => s,
                    Err(e) => {
                        ctx.violate("reload", format!("{kind}: after operation {n}: {e}"));
                        break;
                    }
                };
                if let Some(o) = op {
                    match o % 6 {
                        4 => {
                            ctx.fault("restart");
                            ctx.probe("restart");
                        }
                        5 => ctx.probe("direct"),
                        _ => {}
                    }
                }
                if s.len() != first.len() {
                    ctx.violate("quantities", format!("{kind}: {} quantities became {}", first.len(), s.len()));
                    break;
                }
                for (path, q) in s {
                    let Some((was, direct)) = cur.get(path).cloned() else {
                        ctx.violate("quantities", format!("{kind}{path} was not there before"));
                        continue;
                    };
                    let orig = &first[path];
                    let desc = || format!("{kind}{path}: {:?} {} after operations {:?}", orig.value, orig.unit, &c.ops[..n]);
                    // the unit it should now show
                    let want = match op.map(|o| o % 6) {
                        None | Some(4) => was.unit.clone(),
                        Some(5) => q.unit.clone(),
                        Some(_) if !CONVERTIBLE.contains(&kind) => was.unit.clone(),
                        Some(o) => shown(&was.unit, &SYSTEMS[o as usize]).to_string(),
                    };
                    if q.unit != want {
                        ctx.violate("unit", format!("{}: shown in {} instead of {want}", desc(), q.unit));
                    }
                    if let Some(i) = NAMES.iter().position(|x| *x == q.unit) {
                        if LABELS[i] != q.label {
                            ctx.violate("label", format!("{}: {} labelled {:?}", desc(), q.unit, q.label));
                        }
                    }
                    if q.name != orig.name {
                        ctx.violate("name", format!("{}: name {} became {}", desc(), orig.name, q.name));
                    }
                    let direct = direct || (op.is_some_and(|o| o % 6 == 5) && q.unit != was.unit);
                    match (orig.value, q.value) {
                        (None, None) => {
                            ctx.probe("absent");
                            if q.other != orig.other {
                                ctx.violate("changed", format!("{}: {:?} became {:?}", desc(), orig.other, q.other));
                            }
                        }
                        (Some(o), Some(v)) => {
                            if o < 0.0 {
                                ctx.probe("negative");
                            }
                            // each step by the true factor
                            if !true_value(was.value.unwrap_or(f64::NAN), &was.unit, v, &q.unit) {
                                ctx.violate("factor", format!("{}: {:?} {} became {v} {}", desc(), was.value, was.unit, q.unit));
                            }
                            if !direct {
                                if !true_value(o, &orig.unit, v, &q.unit) {
                                    ctx.violate("drift", format!("{}: shows {v} {}", desc(), q.unit));
                                }
                                let one = unit(&orig.unit).convert(o, unit(&q.unit));
                                let temp = base(&q.unit).is_some_and(|b| b.0 == "temperature");
                                if (one - v).abs() > 1e-9 * one.abs().max(v.abs()) + if temp { 1e-6 } else { 1e-320 } {
                                    ctx.violate("path", format!("{}: shows {v} {}, one direct conversion gives {one}", desc(), q.unit));
                                }
                                if n > 0 && q.unit == orig.unit && was.unit != q.unit {
                                    ctx.probe("returned");
                                }
                            }
                            if was.unit != q.unit {
                                ctx.probe("unit_changed");
                                ctx.out.nontrivial = true;
                                if walked.len() < 200 {
                                    walked.push_str(&q.unit);
                                }
                            } else {
                                ctx.probe("untouched_unit");
                            }
                        }
                        (a, b) => ctx.violate("absence", format!("{}: {a:?} became {b:?}", desc())),
                    }
                    cur.insert(path.clone(), (q.clone(), direct));
                }
                ctx.log(format!("{kind} op {op:?}: {}", s.iter().take(4).map(|(_, q)| format!("{:?} {} ", q.value, q.unit)).collect::<String>()));
            }
            ctx.reach(format!("{kind} {walked}"));
        }
    }
}
