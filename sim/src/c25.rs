//! What clients show of what they hold, and what they read back from it.
use crate::common::{self, plan_from};
use crate::objs::{self, Obj};
use crate::truth::{NAMES, SYSTEMS};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::Swell;
use surfrs::tools::math::scalar_from_uv;
use surfrs::units::{CardinalDirection, Direction, Steepness, Unit, UnitSystem};

pub struct C25;

#[derive(Serialize, Deserialize, Clone)]
struct Screen {
    /// a document kind or "typed" (texts a client reads as values)
    src: String,
    st: u64,
    dt: i64,
    n: u64,
    faults: Vec<Fault>,
    acts: Vec<u64>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    screens: Vec<Screen>,
}

/// Documents whose records hold values.
const SHOWN: &[&str] = &["spec", "data_spec", "swdir", "cbull", "fspec", "five", "tides", "weather"];

const LABELS: [&str; 20] = ["mm", "m", "m/s", "°C", "pa", "hpa", "in", "ft", "mph", "°F", "in Hg", "kt", "K", "m²/Hz", "nmi", "°", "s", "%", "kJ", ""];
const WORDS: [&str; 20] = [
    "millimeters", "meters", "meters per second", "degrees celsius", "pascal", "hecta pascal", "inches", "feet", "miles per hour", "degrees fahrenheit", "inches mercury", "knots", "kelvin",
    "meters squared per hertz", "nautical miles", "degrees", "seconds", "percent", "kilojoules", "unknown",
];
const POINTS: [&str; 16] = ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"];
const STEEP: [(&str, &str); 5] = [("VerySteep", "VERY_STEEP"), ("Steep", "STEEP"), ("Average", "AVERAGE"), ("Swell", "SWELL"), ("NA", "NA")];

fn label(unit: &str) -> &'static str {
    NAMES.iter().position(|n| *n == unit).map(|i| LABELS[i]).unwrap_or("?")
}

/// The point of the compass nearest to whole degrees from 0 to 360; none is as near to two.
fn point(deg: i64) -> Option<&'static str> {
    (0..=360).contains(&deg).then(|| POINTS[((deg as f64 / 22.5).round() as usize) % 16])
}

fn direction_text(v: &Value) -> Option<String> {
    let d = v["degrees"].as_i64()?;
    if d == 0 && v["direction"] == "Invalid" {
        // a client's own "no direction"
        return None;
    }
    Some(format!("{d}° {}", point(d)?))
}

/// What a value should look like; None where nothing is promised.
fn text(node: &Value) -> Option<String> {
    let l = match node["unit"].as_str()? {
        "Degrees" => String::new(),
        u => format!(" {}", label(u)),
    };
    match &node["value"] {
        Value::Null => Some("N/A".into()),
        v @ Value::Object(_) => Some(direction_text(v)? + &l),
        v => Some(format!("{:.1}{l}", v.as_f64()?)),
    }
}

/// Everything a client shows, by place, and complaints about it.
type Shown = (BTreeMap<String, String>, Vec<(String, String)>);

fn show(v: &Value, path: &str, out: &mut Shown) {
    macro_rules! bad { ($k:expr, $($t:tt)*) => { out.1.push(($k.to_string(), format!($($t)*))) } }
    match v {
        Value::Object(m) if m.contains_key("unit") && m.contains_key("value") && m.contains_key("variable_name") => {
            let mut texts = vec![];
            if m.get("unit_label").and_then(|l| l.as_str()) != Some(label(m["unit"].as_str().unwrap_or(""))) {
                bad!("label", "{path}: {v} is handed out with another label than its unit's");
            }
            if !m["value"].is_object() {
                match serde_json::from_value::<DimensionalData<f64>>(v.clone()) {
                    Ok(d) => {
                        texts.push((d.to_string(), d.try_string(), d.unit_label()));
                        if d.get_value_opt() != m["value"].as_f64() || d.get_value().is_nan() != m["value"].is_null() || d.value.is_some_and(|x| x != d.get_value()) {
                            bad!("value", "{path}: {v} is handed out as {} or {:?}", d.get_value(), d.get_value_opt());
                        }
                        if d.unit.name() != NAMES.iter().position(|n| *n == m["unit"].as_str().unwrap_or("")).map(|i| WORDS[i]).unwrap_or("?") {
                            bad!("name", "{path}: {:?} is called {}", d.unit, d.unit.name());
                        }
                        if format!("{}", d.unit) != d.unit_label() {
                            bad!("label", "{path}: {:?} shown as {}, labelled {}", d.unit, d.unit, d.unit_label());
                        }
                    }
                    Err(e) => bad!("read", "{path}: {v}: {e}"),
                }
            }
            if !m["value"].is_number() {
                match serde_json::from_value::<DimensionalData<Direction>>(v.clone()) {
                    Ok(d) => {
                        texts.push((d.to_string(), d.try_string(), d.unit_label()));
                        let (given, opt) = (d.get_value(), d.get_value_opt());
                        let deg = m["value"]["degrees"].as_i64();
                        if opt.as_ref().map(|x| x.degrees as i64) != deg || deg.is_some_and(|x| given.degrees as i64 != x) || (deg.is_none() && *given.cardinal_direction() != CardinalDirection::Invalid) {
                            bad!("value", "{path}: {v} is handed out as {given} or {opt:?}");
                        }
                        let f: DimensionalData<f64> = d.clone().into();
                        if f.value != deg.map(|x| x as f64) || f.unit != d.unit || f.variable_name != d.variable_name {
                            bad!("value", "{path}: {v} as a number is {f:?}");
                        }
                        if let Some(x) = &d.value {
                            direction(path, x, &mut out.1);
                        }
                    }
                    Err(e) => bad!("read", "{path}: {v}: {e}"),
                }
            }
            let want = text(v);
            for (t, opt, l) in texts {
                if l != label(m["unit"].as_str().unwrap_or("")) {
                    bad!("label", "{path}: {v} labelled {l:?}");
                }
                if opt != (!m["value"].is_null()).then(|| t.clone()) {
                    bad!("absent", "{path}: {v} is shown as {opt:?} where only what is there is shown");
                }
                if want.as_ref().is_some_and(|w| *w != t) {
                    bad!("text", "{path}: {v} is shown as {t:?} instead of {want:?}");
                }
                out.0.insert(path.to_string(), t);
            }
        }
        Value::Object(m) => {
            if m.contains_key("wave_height") && m.contains_key("partition") && m.contains_key("direction") {
                match serde_json::from_value::<Swell>(v.clone()) {
                    Ok(s) => {
                        let t = s.to_string();
                        if let (Some(a), Some(b), Some(c)) = (text(&m["wave_height"]), text(&m["period"]), text(&m["direction"])) {
                            if t != format!("{a} @ {b} {c}") {
                                bad!("text", "{path}: a swell of {a}, {b} and {c} is shown as {t:?}");
                            }
                        }
                        out.0.insert(format!("{path} swell"), t);
                    }
                    Err(e) => bad!("read", "{path}: {v}: {e}"),
                }
            }
            for (k, x) in m {
                if let (true, Some(s)) = (k == "steepness", x.as_str()) {
                    let want = STEEP.iter().find(|p| p.0 == s).map(|p| p.1);
                    match serde_json::from_value::<Steepness>(x.clone()) {
                        Ok(st) => {
                            let t = st.to_string();
                            if want != Some(t.as_str()) || st.as_str() != t || t.parse::<Steepness>().ok().as_ref() != Some(&st) {
                                bad!("steepness", "{path}.{k}: {s} is shown as {t} and read back as {:?}", t.parse::<Steepness>().ok());
                            }
                        }
                        Err(e) => bad!("read", "{path}.{k}: {x}: {e}"),
                    }
                }
                show(x, &format!("{path}.{k}"), out);
            }
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| show(x, &format!("{path}[{i}]"), out)),
        _ => {}
    }
}

/// A direction's name is that of the nearest point, and the name is read as a direction of that name.
fn direction(path: &str, d: &Direction, bad: &mut Vec<(String, String)>) {
    let Some(want) = point(d.degrees as i64) else { return };
    if d.degrees == 0 && *d.cardinal_direction() == CardinalDirection::Invalid {
        return;
    }
    let name = d.cardinal_direction().to_string();
    if name != want {
        bad.push(("compass".into(), format!("{path}: {}° is called {name}, the nearest point is {want}", d.degrees)));
    }
    // turned around it names the opposite point, and as an angle it is the same direction
    let mut f = d.clone();
    f.flip();
    for x in [f, d.invert()] {
        if (x.degrees - d.degrees - 180).rem_euclid(360) != 0 || Some(x.cardinal_direction().to_string().as_str()) != point(x.degrees as i64) {
            bad.push(("turned".into(), format!("{path}: {d} turned around is {x}")));
        }
    }
    let back = Direction::from_radians(d.radian());
    if (d.radian() - (d.degrees as f64) * std::f64::consts::PI / 180.0).abs() > 1e-9 || (back.degrees - d.degrees).abs() > 1 || Some(back.cardinal_direction().to_string().as_str()) != point(back.degrees as i64) {
        bad.push(("angle".into(), format!("{path}: {d} as an angle is {}, and back {back}", d.radian())));
    }
    for t in [name.clone(), name.to_uppercase(), d.degrees.to_string()] {
        match t.parse::<Direction>() {
            Ok(x) if x.cardinal_direction().to_string() == want && point(x.degrees as i64) == Some(want) && (t == name || t.parse::<i32>().ok().is_none_or(|n| n == x.degrees)) => {}
            Ok(x) => bad.push(("read back".into(), format!("{path}: {t:?} shown for {}° {want} is read as {x}", d.degrees))),
            Err(_) => bad.push(("read back".into(), format!("{path}: {t:?} shown for {}° {want} is not read", d.degrees))),
        }
    }
}

/// A client reads typed texts as values of some unit, then shows them.
fn typed(sc: &Screen, world: u64) -> (Vec<Obj>, Vec<(String, String)>) {
    let mut r = Rng::keyed(&[world, sc.st, sc.n, 25]);
    let mut bad = vec![];
    let mut v = vec![];
    for _ in 0..2 + sc.n % 12 {
        let i = r.usize(20);
        // units as this library writes them, in any case and with blanks around
        let mut word = if r.chance(0.5) { LABELS[i] } else { WORDS[i] }.to_string();
        match r.usize(4) {
            0 => word = word.to_uppercase(),
            1 => word = format!(" {word} "),
            _ => {}
        }
        let unit = Unit::from(word.as_str());
        if format!("{unit:?}") != NAMES[i] {
            bad.push(("unit".into(), format!("{word:?} is read as {unit:?}, it stands for {}", NAMES[i])));
        }
        let name = "typed value".to_string();
        if r.chance(0.5) {
            let t = match r.usize(8) {
                0 => r.pick(&["MM", "", "-", "N/A", "n/a", "1.2.3", "1,5", "m", "--", "1e", "0x10"]).to_string(),
                1 => format!("{}", r.frange(-1e3, 1e3)),
                2 => format!("{:e}", r.frange(-1.0, 1.0) * 10f64.powi(r.range(-20, 20) as i32)),
                3 => format!("{:.1}", r.range(-200, 200) as f64 + 0.25 * r.range(0, 3) as f64),
                _ => format!("{}", r.range(-20, 2000) as f64 / 10.0),
            };
            let d = DimensionalData::<f64>::from_raw_data(&t, name.clone(), unit.clone());
            if d.value != t.parse::<f64>().ok() || d.unit != unit || d.variable_name != name {
                bad.push(("typed".into(), format!("{t:?} in {unit:?} is read as {d:?}")));
            }
            v.push(Obj::Dim(d));
        } else {
            let (t, want) = match r.usize(6) {
                0 => (r.pick(&["MM", "", "-", "N/A", "north", "nn", "wne", "variable", "ssse", "°", "NaN", "nan", "inf", "-inf", "infinity", "12.7", "1e2", "225°", "0x10", "9999999999"]).to_string(), None),
                1 | 2 => {
                    let k = r.usize(16);
                    let mut t = POINTS[k].to_string();
                    if r.chance(0.6) {
                        t = t.to_uppercase();
                    }
                    (t, Some((k, None)))
                }
                _ => {
                    let d = r.range(0, 360);
                    (d.to_string(), Some((((d as f64 / 22.5).round() as usize) % 16, Some(d))))
                }
            };
            let d = DimensionalData::<Direction>::from_raw_data(&t, name.clone(), unit.clone());
            let ok = match (&d.value, want) {
                (None, None) => true,
                (Some(x), Some((k, deg))) => x.cardinal_direction().to_string() == POINTS[k] && point(x.degrees as i64) == Some(POINTS[k]) && deg.is_none_or(|g| g == x.degrees as i64),
                _ => false,
            };
            if !ok || d.unit != unit || d.variable_name != name {
                bad.push(("typed".into(), format!("{t:?} in {unit:?} is read as {d:?}")));
            }
            v.push(Obj::Dir(d));
        }
    }
    // a wind measured as its eastward and northward parts
    for _ in 0..2 {
        let (speed, from) = (if r.chance(0.2) { 0.0 } else { r.frange(0.01, 60.0) }, if r.chance(0.3) { 45.0 * r.usize(8) as f64 } else { r.frange(0.0, 360.0) });
        let (u, v) = (-speed * from.to_radians().sin(), -speed * from.to_radians().cos());
        let (s, d) = scalar_from_uv(u, v);
        let off = (d as f64 - from + 180.0).rem_euclid(360.0) - 180.0;
        if (s - speed).abs() > 1e-9 * speed || !(0..360).contains(&d) || (speed > 0.0 && off.abs() > 1.0 + 1e-6) {
            bad.push(("parts".into(), format!("a wind of {speed} from {from} is read as {s} from {d}")));
        }
    }
    let want = r.chance(0.8).then(|| r.frange(-100.0, 2000.0));
    let small = DimensionalData::<f32> { value: want.map(|x| x as f32), variable_name: "x".into(), unit: Unit::Meters };
    if small.get_value_opt() != want.map(|x| x as f32) || small.get_value().is_nan() != want.is_none() || want.is_some_and(|x| small.get_value() != x as f32) {
        bad.push(("handed out".into(), format!("{want:?} is handed out as {} or {:?}", small.get_value(), small.get_value_opt())));
    }
    for (t, s) in ["metric", "english", "knots", "kelvin"].iter().zip([UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin]) {
        if s.to_string() != *t {
            bad.push(("system".into(), format!("{s:?} is shown as {s}")));
        }
    }
    (v, bad)
}

/// One screen: everything shown after every act, complaints, restarts.
type Report = (Vec<(Option<u64>, BTreeMap<String, String>, BTreeMap<String, String>)>, Vec<(String, String)>);

fn watch(mut o: Obj, acts: &[u64]) -> Report {
    let mut seen = vec![];
    let mut bad = vec![];
    for act in std::iter::once(None).chain(acts.iter().map(|a| Some(*a))) {
        match act.map(|a| (a % 8, a / 8)) {
            None => {}
            Some((0..=4, a)) => {
                o.to_units(&SYSTEMS[a as usize % 4]);
            }
            Some((5, a)) => match o.save_by(a).and_then(|b| Obj::load_by(o.kind(), &b, a)) {
                Ok(x) => o = x,
                // whether saves load is another property
                Err(_) => break,
            },
            Some((6, a)) => o.mix(&mut Rng::keyed(&[a])),
            Some((_, a)) => o.touch(&mut Rng::keyed(&[a])),
        }
        let v: Value = match o.save().map(|s| serde_json::from_str(&s)) {
            Ok(Ok(v)) => v,
            _ => break,
        };
        let mut s: Shown = (BTreeMap::new(), vec![]);
        show(&v, "", &mut s);
        bad.extend(s.1);
        let units = objs::quantities(&v).0.into_iter().map(|(p, q)| (p, q.unit)).collect();
        seen.push((act, s.0, units));
        if !bad.is_empty() {
            break;
        }
    }
    (seen, bad)
}

impl Property for C25 {
    fn info(&self) -> Info {
        Info {
            id: "C25",
            rule: "A run simulates clients that show on their screens whatever they hold: records decoded from a faulty network, values typed in as text, after switching units, losing parts of records, correcting them, and restarting from saves, several clients preempted inside each other's calls. Every text is compared with the value, unit and direction held, and names and labels are read back. Non-trivial: a fault, a restart or a missing value occurred. State signature: kinds, units and acts.",
            real: &["surfrs DimensionalData, Direction, CardinalDirection, Steepness, Unit, Swell texts", "all decoders of the records shown", "serde_json"],
            stub: &["publishers", "network (fault injector)", "storage", "screens", "client scheduler"],
            assumptions: &["Directions outside 0 to 360 degrees have no compass point; nothing is promised of their text."],
            quick_runs: 20_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["typed", "missing", "restart", "units", "wave", "cbull", "fspec", "tides", "weather"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let screens = (0..1 + r.usize(if thorough { 5 } else { 3 }))
            .map(|_| Screen {
                src: if r.chance(0.3) { "typed".into() } else { r.pick(SHOWN).to_string() },
                st: r.below(100),
                dt: r.range(0, 40) * 3600,
                n: r.u64() >> 12,
                faults: (0..*r.pick(&[0usize, 0, 0, 1, 2, 4])).map(|_| net::gen_fault(r, net::KINDS)).collect(),
                acts: (0..r.usize(7)).map(|_| r.u64() >> 12).collect(),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r), screens }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        let mut t = common::clamp_time(p.start);
        let mut jobs: Vec<Box<dyn FnOnce() -> Vec<(String, Report)> + Send>> = vec![];
        for sc in &p.screens {
            t = common::clamp_time(t + sc.dt);
            ctx.out.sim_secs += sc.dt.unsigned_abs();
            simkit::seams::set_now(t, 0);
            let world = p.world;
            let sc = sc.clone();
            if sc.src == "typed" {
                ctx.probe("typed");
                jobs.push(Box::new(move || {
                    let (v, bad) = typed(&sc, world);
                    std::iter::once(("typed".to_string(), (vec![], bad))).chain(v.into_iter().map(|o| (o.kind().to_string(), watch(o, &sc.acts)))).collect()
                }));
                continue;
            }
            let kind = objs::DOC_KINDS.iter().find(|x| **x == sc.src).copied().unwrap_or("spec");
            let mut texts = objs::publish(kind, world, sc.st, t);
            for (i, fa) in sc.faults.iter().enumerate() {
                let m = texts.len();
                let (b, changed) = net::apply(std::mem::take(&mut texts[i % m]).into_bytes(), fa, &|| vec![]);
                if changed {
                    ctx.fault(&fa.k);
                    ctx.out.nontrivial = true;
                }
                texts[i % m] = String::from_utf8_lossy(&b[..b.len().min(400_000)]).into_owned();
            }
            jobs.push(Box::new(move || {
                let mut v = objs::decode(kind, world, sc.st, &texts).unwrap_or_default();
                let n = v.len();
                let from = if n > 0 { sc.n as usize % n } else { 0 };
                v.drain(from..).take(3).map(|o| (o.kind().to_string(), watch(o, &sc.acts))).collect()
            }));
        }
        for g in common::together(p.seed, p.gap, jobs, ctx) {
            let all = match g {
                Ok(x) => x,
                Err(m) => {
                    ctx.violate("panic", m);
                    return;
                }
            };
            for (kind, (seen, bad)) in all {
                ctx.checked();
                ctx.probe(&kind);
                if let Some((k, m)) = bad.into_iter().next() {
                    ctx.violate(&k, format!("{kind}{m}"));
                    return;
                }
                for (act, texts, units) in &seen {
                    match act.map(|a| a % 8) {
                        Some(5) => {
                            ctx.fault("restart");
                            ctx.probe("restart");
                            ctx.out.nontrivial = true;
                        }
                        Some(0..=4) => ctx.probe("units"),
                        _ => {}
                    }
                    if texts.values().any(|t| t == "N/A") {
                        ctx.probe("missing");
                        ctx.out.nontrivial = true;
                    }
                    ctx.reach(format!("{kind} {:?} {}", act.map(|a| a % 8), units.values().take(6).cloned().collect::<String>()));
                    ctx.log(format!("{kind} {act:?}: {}", texts.iter().take(5).map(|(p, t)| format!("{p} {t} ")).collect::<String>()));
                }
                // a restart changes nothing on the screen
                for w in seen.windows(2) {
                    if w[1].0.is_some_and(|a| a % 8 == 5) && w[0].1 != w[1].1 {
                        let k = w[0].1.iter().find(|(k, v)| w[1].1.get(*k) != Some(v));
                        ctx.violate("restart", format!("{kind}: shown differently after a restart: {k:?}"));
                        return;
                    }
                }
            }
        }
    }
}
