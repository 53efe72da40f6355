//! Clients of the buoy history archive, which asks for ranges of arrays by address.
use crate::c12::{differs, histories};
use crate::common::{self, plan_from};
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::ctx::catch;
use simkit::net::{self, Fault};
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use surfrs::buoy_station::BuoyStation;
use surfrs::data::meteorological_data_record::{MeteorologicalDataRecord, StdmetDataRecordCollection};
use surfrs::data::swden_wave_data_record::{SwdenWaveDataRecord, SwdenWaveDataRecordCollection};
use surfrs::tools::dap::{format_dap_constraints, DapConstraint};

pub struct C21;

/// name in the archive, field of the record, whole numbers, marker of a missing value, unit
const MET: [(&str, &str, bool, f64, &str); 13] = [
    ("wind_dir", "wind_direction", true, 999.0, "Degrees"),
    ("wind_spd", "wind_speed", false, 99.0, "MetersPerSecond"),
    ("gust", "wind_gust_speed", false, 99.0, "MetersPerSecond"),
    ("wave_height", "wave_height", false, 99.0, "Meters"),
    ("dominant_wpd", "dominant_wave_period", false, 99.0, "Seconds"),
    ("average_wpd", "average_wave_period", false, 99.0, "Seconds"),
    ("mean_wave_dir", "mean_wave_direction", true, 999.0, "Degrees"),
    ("air_pressure", "air_pressure", false, 9999.0, "HectaPascal"),
    ("air_temperature", "air_temperature", false, 999.0, "Celsius"),
    ("sea_surface_temperature", "water_temperature", false, 999.0, "Celsius"),
    ("dewpt_temperature", "dewpoint_temperature", false, 999.0, "Celsius"),
    ("visibility", "visibility", false, 99.0, "NauticalMiles"),
    ("water_level", "tide", false, 99.0, "Feet"),
];
const SWD: [(&str, &str, bool); 5] = [
    ("spectral_wave_density", "energy_spectra", false),
    ("mean_wave_dir", "mean_wave_direction", true),
    ("principal_wave_dir", "primary_wave_direction", true),
    ("wave_spectrum_r1", "first_polar_coefficient", false),
    ("wave_spectrum_r2", "second_polar_coefficient", false),
];
const IDS: [&str; 5] = ["44008", "44097", "51201", "46026", "41002"];

/// Records the archive of a station holds.
fn size(world: u64, st: u64) -> usize {
    1 + Rng::keyed(&[world, st, fnv(b"hist")]).usize(120)
}
fn freqs(world: u64, st: u64) -> Vec<f32> {
    let n = 1 + Rng::keyed(&[world, st, fnv(b"freq")]).usize(64);
    (0..n).map(|i| (0.025 + 0.005 * i as f64) as f32).collect()
}
/// Time of a record: about hourly, with gaps.
fn time(world: u64, st: u64, k: usize) -> i32 {
    let mut r = Rng::keyed(&[world, st, fnv(b"time")]);
    let mut t = 80_000_000 + r.below(1_900_000_000) as i64;
    for _ in 0..k {
        t += *r.pick(&[3600, 3600, 3600, 1800, 600, 7200, 86400, 40 * 86400]);
    }
    t as i32
}
fn met_value(world: u64, st: u64, k: usize, v: usize) -> f64 {
    let mut r = Rng::keyed(&[world, st, k as u64, v as u64, fnv(b"met")]);
    let (_, _, whole, missing, _) = MET[v];
    if r.chance(0.25) {
        return missing;
    }
    let x = match MET[v].0 {
        "wind_dir" | "mean_wave_dir" => r.below(361) as f64,
        "air_pressure" => r.frange(900.0, 1060.0),
        "air_temperature" | "sea_surface_temperature" | "dewpt_temperature" => r.frange(-40.0, 99.5),
        "water_level" => r.frange(-9.0, 25.0),
        _ => r.frange(0.0, 40.0),
    };
    if whole { x } else { ((x * 10.0).round() / 10.0) as f32 as f64 }
}
fn swd_value(world: u64, st: u64, k: usize, f: usize, v: usize) -> f64 {
    let mut r = Rng::keyed(&[world, st, k as u64, f as u64, v as u64, fnv(b"swd")]);
    match SWD[v].0 {
        "mean_wave_dir" | "principal_wave_dir" => if r.chance(0.1) { 999.0 } else { r.below(360) as f64 },
        "spectral_wave_density" => (r.below(20_000) as f64 / 1000.0) as f32 as f64,
        _ => (r.below(101) as f64 / 100.0) as f32 as f64,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Span {
    from: usize,
    step: usize,
    to: usize,
}
impl Span {
    fn items(&self) -> Vec<usize> {
        (self.from..=self.to).step_by(self.step).collect()
    }
}

/// The archive: answers an address with the bytes of the arrays it names, or refuses.
fn serve(world: u64, held: usize, url: &str) -> Result<Vec<u8>, String> {
    let rest = url.strip_prefix("https://dods.ndbc.noaa.gov/thredds/dodsC/data/").ok_or("404 other server")?;
    let (path, query) = rest.split_once('?').ok_or("400 no constraint")?;
    let (kind, file) = path.split_once('/').ok_or("404")?;
    let letter = match kind {
        "stdmet" => "h",
        "swden" => "w",
        _ => return Err("404 no such collection".into()),
    };
    let (id, name) = file.split_once('/').ok_or("404")?;
    let st = IDS.iter().position(|i| *i == id).ok_or("404 no such station")? as u64;
    if name != [id, letter, "9999.nc.dods"].concat() {
        return Err("404 no such file".into());
    }
    let fs = freqs(world, st);
    let mut dds = String::from("Dataset {\n");
    let mut data = vec![];
    for part in query.split(',') {
        let k = part.find('[').unwrap_or(part.len());
        let (var, ranges) = part.split_at(k);
        let whole = match kind {
            "stdmet" => MET.iter().position(|m| m.0 == var).map(|v| (v, MET[v].2)),
            _ => SWD.iter().position(|m| m.0 == var).map(|v| (v, SWD[v].2)),
        };
        let (v, whole) = whole.ok_or(format!("400 no variable {var}"))?;
        let dims: Vec<(&str, usize)> = match kind {
            "stdmet" => vec![("time", held), ("latitude", 1), ("longitude", 1)],
            _ => vec![("time", held), ("frequency", fs.len()), ("latitude", 1), ("longitude", 1)],
        };
        let mut spans = vec![];
        if ranges.is_empty() {
            spans = dims.iter().map(|d| Span { from: 0, step: 1, to: d.1 - 1 }).collect();
        } else {
            for (r, d) in ranges.split_inclusive(']').zip(&dims) {
                let inner = r.strip_prefix('[').and_then(|r| r.strip_suffix(']')).ok_or("400 brackets")?;
                let n: Vec<usize> = inner.split(':').map(|x| x.parse().map_err(|_| "400 number")).collect::<Result<_, _>>()?;
                let [from, step, to] = n[..] else { return Err("400 range".into()) };
                if step == 0 || from > to || to >= d.1 {
                    return Err(format!("400 range {inner} of {} outside 0..{}", d.0, d.1));
                }
                spans.push(Span { from, step, to });
            }
            if ranges.split_inclusive(']').count() != dims.len() {
                return Err("400 dimensions".into());
            }
        }
        let lens: Vec<usize> = spans.iter().map(|s| s.items().len()).collect();
        let decl = |ty: &str, n: &str, ds: &[usize]| -> String {
            let mut s = format!("        {ty} {n}");
            for d in ds {
                s += &format!("[{} = {}]", dims[*d].0, lens[*d]);
            }
            s + ";\n"
        };
        let all: Vec<usize> = (0..dims.len()).collect();
        dds += "    Grid {\n     ARRAY:\n";
        dds += &decl(if whole { "Int32" } else { "Float32" }, var, &all);
        dds += "     MAPS:\n";
        for (i, d) in dims.iter().enumerate() {
            dds += &decl(if d.0 == "time" { "Int32" } else { "Float32" }, d.0, &[i]);
        }
        dds += &format!("    }} {var};\n");
        let head = |n: usize, out: &mut Vec<u8>| {
            out.extend((n as u32).to_be_bytes());
            out.extend((n as u32).to_be_bytes());
        };
        let put = |x: f64, out: &mut Vec<u8>| {
            if whole {
                out.extend((x as i32).to_be_bytes())
            } else {
                out.extend((x as f32).to_be_bytes())
            }
        };
        head(lens.iter().product(), &mut data);
        for t in spans[0].items() {
            if kind == "stdmet" {
                put(met_value(world, st, t, v), &mut data);
            } else {
                for f in spans[1].items() {
                    put(swd_value(world, st, t, f, v), &mut data);
                }
            }
        }
        for (s, d) in spans.iter().zip(&dims) {
            head(s.items().len(), &mut data);
            for i in s.items() {
                match d.0 {
                    "time" => data.extend(time(world, st, i).to_be_bytes()),
                    "frequency" => data.extend(fs[i].to_be_bytes()),
                    _ => data.extend(40.5f32.to_be_bytes()),
                }
            }
        }
    }
    dds += &format!("}} data/{path};\n\nData:\n");
    Ok([dds.into_bytes(), data].concat())
}

#[derive(Serialize, Deserialize, Clone)]
struct Want {
    kind: String,
    st: u64,
    /// first record, last record, stride; first and last frequency (scaled to what is held)
    a: u64,
    b: u64,
    step: u64,
    fa: u64,
    fb: u64,
    /// how the constraint is made: 0 built, 1 read from text, 2 none (the whole archive)
    made: u64,
    order: u64,
    /// what happens to each try before the last, which meets no fault
    tries: Vec<Fault>,
}
#[derive(Serialize, Deserialize)]
struct Batch {
    seed: u64,
    gap: u64,
    wants: Vec<Want>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    batches: Vec<Batch>,
    /// constraints typed by hand, spoiled
    typed: Vec<(u64, Vec<Fault>)>,
}

enum Rec {
    Met(Vec<MeteorologicalDataRecord>),
    Swd(Vec<SwdenWaveDataRecord>),
}

struct Got {
    url: String,
    outcome: Vec<(String, Result<Rec, String>)>,
    last: Result<Rec, String>,
}

fn span(w: &Want, held: usize) -> Span {
    let (i, j) = ((w.a as usize) % held, (w.b as usize) % held);
    Span { from: i.min(j), step: 1 + (w.step as usize) % 7, to: i.max(j) }
}
fn fspan(w: &Want, n: usize) -> Span {
    let (i, j) = ((w.fa as usize) % n, (w.fb as usize) % n);
    Span { from: i.min(j), step: 1, to: i.max(j) }
}

fn decode(kind: &str, bytes: &[u8]) -> Rec {
    if kind == "stdmet" {
        let c = StdmetDataRecordCollection::from_data(bytes);
        let v: Vec<_> = c.records().collect();
        assert!(c.records().count() == v.len(), "SIM-CHECK a second reading has other records");
        Rec::Met(v)
    } else {
        let c = SwdenWaveDataRecordCollection::from_data(bytes);
        let v: Vec<_> = c.records().collect();
        assert!(c.records().count() == v.len(), "SIM-CHECK a second reading has other records");
        Rec::Swd(v)
    }
}

fn kind_of(w: &Want) -> &'static str {
    if w.kind == "swden" { "swden" } else { "stdmet" }
}

fn client(world: u64, w: &Want) -> Got {
    let kind = kind_of(w);
    let st = w.st % IDS.len() as u64;
    let held = size(world, st);
    let (s, f) = (span(w, held), fspan(w, freqs(world, st).len()));
    let station = BuoyStation::new(IDS[st as usize].into(), 40.5, -69.2);
    let mut names: Vec<&str> = if kind == "stdmet" { MET.iter().map(|m| m.0).collect() } else { SWD.iter().map(|m| m.0).collect() };
    Rng::keyed(&[w.order]).shuffle(&mut names);
    let cs: Vec<DapConstraint> = names
        .iter()
        .map(|n| {
            let mut ranges = vec![(s.from, s.step, s.to), (0, 1, 0), (0, 1, 0)];
            if kind == "swden" {
                ranges.insert(1, (f.from, f.step, f.to));
            }
            match w.made % 3 {
                0 => DapConstraint::new(n.to_string(), ranges),
                1 => {
                    let text = ranges.iter().fold(n.to_string(), |t, r| format!("{t}[{}:{}:{}]", r.0, r.1, r.2));
                    text.parse().unwrap()
                }
                _ => DapConstraint::new(n.to_string(), vec![]),
            }
        })
        .collect();
    let url = if kind == "stdmet" { station.stdmet_dods_url(&cs) } else { station.swden_dods_url(&cs) };
    let mut outcome = vec![];
    for t in &w.tries {
        let answer = match t.k.as_str() {
            "lost" => None,
            // a mirror that holds only the older part of the archive
            "mirror" => Some(serve(world, 1 + (t.a as usize) % held, &url).unwrap_or_else(|e| e.into_bytes())),
            "cut" => serve(world, held, &url).ok().map(|b| {
                let n = (t.a as usize) % b.len();
                b[..n].to_vec()
            }),
            _ => Some(b"<html><head><title>503 Service Unavailable</title></head></html>\n".to_vec()),
        };
        if let Some(b) = answer {
            outcome.push((t.k.clone(), catch(|| decode(kind, &b))));
        }
    }
    let last = match serve(world, held, &url) {
        Err(e) => Err(format!("the archive refuses {url}: {e}")),
        Ok(b) => catch(|| decode(kind, &b)),
    };
    Got { url, outcome, last }
}

/// Where the records differ from what the archive holds for the request.
fn compare(world: u64, w: &Want, got: &Rec, held: usize) -> Option<String> {
    let st = w.st % IDS.len() as u64;
    let (mut s, mut f) = (span(w, size(world, st)), fspan(w, freqs(world, st).len()));
    if w.made % 3 == 2 {
        s = Span { from: 0, step: 1, to: held - 1 };
        f = Span { from: 0, step: 1, to: freqs(world, st).len() - 1 };
    }
    let items = s.items();
    let n = match got {
        Rec::Met(v) => v.len(),
        Rec::Swd(v) => v.len(),
    };
    if n != items.len() {
        return Some(format!("{n} records where {} were asked for", items.len()));
    }
    for (i, k) in items.iter().enumerate() {
        let date = DateTime::<Utc>::from_timestamp(time(world, st, *k) as i64, 0).unwrap();
        match got {
            Rec::Met(v) => {
                let r = &v[i];
                if r.date != date {
                    return Some(format!("record {i} dated {} instead of {date}", r.date));
                }
                let j = serde_json::to_value(r).unwrap();
                for (x, (_, field, whole, missing, unit)) in MET.iter().enumerate() {
                    let truth = met_value(world, st, *k, x);
                    let want = (truth != *missing).then_some(truth);
                    let have = match *field {
                        "wind_direction" => r.wind_direction.value.as_ref().map(|d| d.degrees as f64),
                        "mean_wave_direction" => r.mean_wave_direction.value.as_ref().map(|d| d.degrees as f64),
                        _ => j[field]["value"].as_f64(),
                    };
                    if have != want {
                        return Some(format!("record {i} ({date}): {field} {have:?} instead of {want:?}"));
                    }
                    if !whole && j[field]["unit"].as_str() != Some(unit) {
                        return Some(format!("record {i}: {field} in {}", j[field]["unit"]));
                    }
                }
                if !j["air_pressure_tendency"]["value"].is_null() {
                    return Some(format!("record {i}: a pressure tendency the archive does not hold"));
                }
            }
            Rec::Swd(v) => {
                let r = &v[i];
                if r.date != date {
                    return Some(format!("record {i} dated {} instead of {date}", r.date));
                }
                let fs = freqs(world, st);
                let want: Vec<f64> = f.items().iter().map(|i| fs[*i] as f64).collect();
                if r.frequency != want {
                    return Some(format!("record {i}: frequencies {:?} instead of {want:?}", r.frequency));
                }
                for (x, a) in [&r.energy_spectra, &r.mean_wave_direction, &r.primary_wave_direction, &r.first_polar_coefficient, &r.second_polar_coefficient].iter().enumerate() {
                    let want: Vec<f64> = f.items().iter().map(|q| swd_value(world, st, *k, *q, x)).collect();
                    if **a != want {
                        return Some(format!("record {i} ({date}): {} {:?} instead of {:?}", SWD[x].1, a, want));
                    }
                }
            }
        }
    }
    None
}

impl Property for C21 {
    fn info(&self) -> Info {
        Info {
            id: "C21",
            rule: "A run is a set of sessions of concurrent clients, preempted inside library calls, with a simulated history archive: each asks one station's weather or spectral history for a range of records (and frequencies) with a stride, through constraints built or read from text in any order of variables; answers are lost, cut, replaced by an error page, or come from a mirror that holds less, then one comes whole. Every whole answer is compared with what the archive holds, then switched through unit systems and restarted. Constraints typed by hand are spoiled too. Non-trivial: a fault was applied. State signature: per request the collection, way of asking, tries and number of records (coarse).",
            real: &["surfrs address and constraint building and reading", "surfrs history decoders", "unit conversion", "serde_json"],
            stub: &["archive server", "network", "client scheduler", "readap stand-in (reads the archive's binary answers; agrees with the mock answers in /repo)", "gribberish stand-in (linked, not used here)"],
            assumptions: &["Missing values are marked 999 (directions, temperatures), 99 (others) and 9999 (pressure), as in the mock answers.", "Water levels are published in feet."],
            quick_runs: 18_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["whole_answers", "cut", "lost", "mirror", "error_page", "unit_switches", "records", "typed_read", "typed_refused"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let calm = index % 16 == 0;
        let batches = (0..1 + r.usize(if thorough { 6 } else { 3 }))
            .map(|_| Batch {
                seed: r.u64() >> 12,
                gap: common::gen_gap(r),
                wants: (0..1 + r.usize(4))
                    .map(|_| {
                        let n = if calm { 0 } else { *r.pick(&[0usize, 1, 1, 2, 4]) };
                        let a = r.u64() >> 12;
                        Want {
                            kind: (*r.pick(&["stdmet", "swden"])).into(),
                            st: r.below(5),
                            a,
                            b: if r.chance(0.2) { a } else { r.u64() >> 12 },
                            step: if r.chance(0.5) { 0 } else { r.below(7) },
                            fa: r.u64() >> 12,
                            fb: r.u64() >> 12,
                            made: r.below(3),
                            order: r.u64() >> 12,
                            tries: (0..n).map(|_| Fault { k: (*r.pick(&["lost", "cut", "cut", "mirror", "error_page"])).into(), a: r.u64() >> 12, b: 0 }).collect(),
                        }
                    })
                    .collect(),
            })
            .collect();
        let typed = (0..r.usize(6)).map(|_| (r.u64() >> 12, (0..r.usize(3)).map(|_| net::gen_fault(r, net::KINDS)).collect())).collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, batches, typed }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let world = plan.world;
        simkit::seams::set_now(1_700_000_000, 0);
        for (bi, b) in plan.batches.iter().enumerate() {
            let jobs: Vec<Box<dyn FnOnce() -> Got + Send>> = b.wants.iter().map(|w| Box::new(move || client(world, w)) as Box<dyn FnOnce() -> _ + Send>).collect();
            let got = common::together(b.seed, b.gap, jobs, ctx);
            for (wi, (w, g)) in b.wants.iter().zip(got).enumerate() {
                ctx.checked();
                let (kind, st) = (kind_of(w), w.st % IDS.len() as u64);
                let held = size(world, st);
                let what = format!("{kind} of {} (records {:?} of {held}, made {})", IDS[st as usize], span(w, held), w.made % 3);
                for t in &w.tries {
                    ctx.fault(&t.k);
                }
                let g = match g {
                    Ok(g) => g,
                    Err(e) => {
                        ctx.violate("panic", format!("{what}: {e}"));
                        continue;
                    }
                };
                ctx.log(format!("{what}: {}", g.url));
                for ((k, o), t) in g.outcome.iter().zip(w.tries.iter().filter(|t| t.k != "lost")) {
                    match o {
                        Err(e) => ctx.violate(if e.contains("ParseError") { "history-panic" } else { "history-crash" }, format!("{what}: an answer that was not whole ({k}) panics ({e}) instead of being refused with an error")),
                        Ok(r) if k == "mirror" => {
                            // the mirror holds enough for this request, or everything it holds was asked for
                            if let Some(e) = compare(world, w, r, 1 + (t.a as usize) % held) {
                                ctx.violate("history", format!("{what}: from a mirror: {e}"));
                            }
                        }
                        Ok(_) => ctx.violate("history-torn", format!("{what}: an answer that was not whole ({k}) was read")),
                    }
                }
                let r = match &g.last {
                    Ok(r) => r,
                    Err(e) => {
                        ctx.violate("history-refused", format!("{what}: {e}"));
                        continue;
                    }
                };
                ctx.probe("whole_answers");
                if let Some(e) = compare(world, w, r, held) {
                    ctx.violate("history", format!("{what}: {e}"));
                    continue;
                }
                let mut hr = Rng::keyed(&[world, bi as u64, wi as u64, b.seed]);
                match r {
                    Rec::Met(v) => {
                        ctx.probe_n("records", v.len() as u64);
                        for x in v.iter().take(4) {
                            match catch(|| histories(x, &mut hr)).unwrap_or_else(Err) {
                                Ok(n) => ctx.probe_n("unit_switches", n),
                                Err(e) => ctx.violate("units", format!("{what}: {e}")),
                            }
                        }
                    }
                    Rec::Swd(v) => {
                        ctx.probe_n("records", v.len() as u64);
                        for x in v.iter().take(4) {
                            let a = serde_json::to_value(x).unwrap();
                            let text = serde_json::to_string(x).unwrap();
                            match serde_json::from_str::<SwdenWaveDataRecord>(&text) {
                                Err(e) => ctx.violate("save", format!("{what}: not loaded again: {e}")),
                                Ok(y) => {
                                    if let Some(k) = differs(&a, &serde_json::to_value(&y).unwrap(), "") {
                                        ctx.violate("save", format!("{what}: loading what was saved changed {k}"));
                                    }
                                }
                            }
                        }
                    }
                }
                let n = match r {
                    Rec::Met(v) => v.len(),
                    Rec::Swd(v) => v.len(),
                };
                ctx.reach(format!("{kind} {} {:?} {}", w.made % 3, w.tries.iter().map(|t| &t.k[..]).collect::<Vec<_>>(), n.min(6)));
            }
        }
        for (seed, faults) in &plan.typed {
            let mut r = Rng::keyed(&[*seed]);
            let var = MET[r.usize(13)].0;
            let ranges: Vec<(usize, usize, usize)> = (0..r.usize(5)).map(|_| (r.usize(2000), 1 + r.usize(9), r.usize(90_000))).collect();
            let text = ranges.iter().fold(var.to_string(), |t, r| format!("{t}[{}:{}:{}]", r.0, r.1, r.2));
            let mut bytes = text.clone().into_bytes();
            for f in faults {
                bytes = net::apply(bytes, f, &|| vec![]).0;
            }
            let given = String::from_utf8_lossy(&bytes).into_owned();
            if given != text {
                ctx.fault("typed_wrong");
            }
            ctx.checked();
            match catch(|| given.parse::<DapConstraint>()) {
                Err(e) => ctx.violate("constraint-panic", format!("reading the constraint {given:?} panics: {e}")),
                Ok(Ok(c)) => {
                    ctx.probe("typed_read");
                    if given == text && (c.var != var || c.ranges != ranges || c.to_string() != text) {
                        ctx.violate("constraint", format!("{text:?} read as {c:?}"));
                    }
                    let again = catch(|| c.to_string().parse::<DapConstraint>());
                    match again {
                        Ok(Ok(d)) if d.var == c.var && d.ranges == c.ranges && format_dap_constraints(&[c.clone(), d.clone()]) == format!("{c},{c}") => {}
                        x => ctx.violate("constraint", format!("{c} read again as {x:?}")),
                    }
                }
                Ok(Err(_)) if given == text => ctx.violate("constraint", format!("{text:?} refused")),
                Ok(Err(_)) => ctx.probe("typed_refused"),
            }
        }
    }
}
