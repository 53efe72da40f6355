//! The same operation alone in a fresh process, repeated, and among all kinds of neighbours.
use crate::common::{self, plan_from};
use crate::feeds::at;
use crate::fspec;
use crate::objs::{self, Obj};
use chrono::{TimeZone, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::ctx::catch;
use simkit::net::{self, Fault};
use simkit::rng::{fnv, key, Rng};
use simkit::{seams, Ctx, Info, Property};
use std::f64::consts::TAU;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::grib_index_record::*;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::data::wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::solar::calculate_solar_events;
use surfrs::spectra::{CartesianProjectionMap, SpectralAxis, Spectra};
use surfrs::swell::{Swell, SwellSummary};
use surfrs::station::Station;
use surfrs::tide_station::{DataInterval, TideDatum, TideStation};
use surfrs::tools::{analysis, contour, date, waves};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{Direction, Unit, UnitSystem};
use surfrs::weather;

pub struct C07;

#[derive(Serialize, Deserialize, Clone)]
struct Op {
    k: String,
    #[serde(default)]
    kind: String,
    st: u64,
    dt: i64,
    #[serde(default)]
    a: u64,
    #[serde(default)]
    faults: Vec<Fault>,
}
/// What one caller does in a row: operations by number, some abandoned half-way.
#[derive(Serialize, Deserialize, Clone)]
struct Call {
    op: u64,
    #[serde(default)]
    abandon: Option<u64>,
}
#[derive(Serialize, Deserialize)]
struct Round {
    seed: u64,
    gap: u64,
    hash: u64,
    callers: Vec<Vec<Call>>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    ops: Vec<Op>,
    rounds: Vec<Round>,
}

const OPS: [&str; 20] = [
    "decode", "decode", "swell", "track", "project", "project_map", "regrid", "contour", "units", "dates", "save", "partition", "moments", "false", "history", "decode_bad", "waves", "between", "area", "address",
];

/// One of few grid shapes, so that different data meets on equal shapes.
fn sea(world: u64, st: u64) -> Spectra {
    let mut r = Rng::keyed(&[world, fnv(b"c07"), st]);
    let mut w = Rng::keyed(&[world, fnv(b"shape")]);
    // shapes that differ outright, that are each other transposed, or that hold as many bins
    let family: [(usize, usize); 4] = *w.pick(&[
        [(6, 8), (10, 12), (8, 16), (14, 12)],
        [(10, 12), (12, 10), (10, 12), (12, 10)],
        [(8, 12), (12, 8), (6, 16), (4, 24)],
        [(8, 16), (8, 12), (8, 16), (12, 16)],
    ]);
    let (nk, nth) = family[(w.below(3) + st % 4) as usize % 4];
    // some seas share the grid and differ in energy, others share the shape alone
    let mut g = Rng::keyed(&[world, fnv(b"grid"), st % 4]);
    let (f0, ratio, off) = (g.frange(0.035, 0.06), *g.pick(&[1.1, 1.15, 1.2]), if g.chance(0.5) { 0.0 } else { g.frange(0.0, 1.0) });
    let freq: Vec<f64> = (0..nk).map(|k| f0 * f64::powi(ratio, k as i32)).collect();
    let dir: Vec<f64> = (0..nth).map(|j| (j as f64 + off) * TAU / nth as f64).collect();
    let e = fspec::sea(&mut r, &freq, &dir);
    let conv = match st % 4 % 3 {
        0 => DirectionConvention::From,
        1 => DirectionConvention::Towards,
        _ => DirectionConvention::Met,
    };
    Spectra::new(freq, dir, e, conv)
}

fn view(a: u64) -> (usize, Option<f64>, Option<f64>) {
    ([16, 24, 31][(a % 3) as usize], [None, Some(14.0), Some(20.0)][(a / 3 % 3) as usize], [None, Some(1.0), Some(0.5)][(a / 9 % 3) as usize])
}

fn floats(v: &[f64]) -> String {
    let mut s = String::new();
    for x in v {
        s.push_str(&format!("{x:e} "));
    }
    s
}

fn components(world: u64, st: u64) -> Vec<Swell> {
    let mut r = Rng::keyed(&[world, fnv(b"false"), st]);
    let n = 2 + r.usize(8);
    let d0 = r.range(0, 359) as i32;
    let mut v: Vec<Swell> = (0..n)
        .map(|_| Swell::new(&UnitSystem::Metric, r.frange(0.1, 4.0), *r.pick(&[8.0, 10.0, 12.0, 12.04]), Direction::from_degrees((d0 + *r.pick(&[0, 180, 175, 190, 90])).rem_euclid(360)), None, Some(r.frange(0.1, 400.0)), None))
        .collect();
    v.sort_by(|a, b| b.energy.as_ref().unwrap().value.partial_cmp(&a.energy.as_ref().unwrap().value).unwrap());
    v
}

struct Abandon(u64);
impl Abandon {
    fn step(&mut self) {
        if self.0 == 0 {
            panic!("abandoned");
        }
        self.0 -= 1;
    }
}

/// Performs an operation and spells out its result. With `give_up`, the caller panics after so
/// many records or stages.
fn perform(op: &Op, world: u64, start: i64, map: Option<&CartesianProjectionMap>, give_up: Option<u64>) -> String {
    let t = common::clamp_time(start + op.dt);
    let mut ab = Abandon(give_up.unwrap_or(u64::MAX));
    let kind = objs::DOC_KINDS.iter().find(|k| **k == op.kind).copied().unwrap_or("spec");
    let texts = || {
        let mut v = objs::publish(kind, world, op.st, t);
        for (i, f) in op.faults.iter().enumerate() {
            let n = v.len();
            let d = std::mem::take(&mut v[i % n]).into_bytes();
            let (d, _) = net::apply(d, f, &|| vec![]);
            v[i % n] = String::from_utf8_lossy(&d).into_owned();
        }
        v
    };
    let swells = |ab: &mut Abandon| -> Vec<(chrono::DateTime<Utc>, Result<SwellSummary, String>)> {
        let mut out = vec![];
        for o in objs::decode(kind, world, op.st, &texts()).unwrap_or_default().iter().take(6) {
            ab.step();
            let date = match o {
                Obj::Wave(w) => w.date,
                Obj::Directional(w) => w.date,
                Obj::CBull(w) => w.date,
                Obj::Fspec(w) => w.date,
                _ => continue,
            };
            if let Some(s) = o.swell() {
                out.push((date, s.map_err(|e| e.to_string())));
            }
        }
        out
    };
    match op.k.as_str() {
        "decode" | "decode_bad" => {
            if op.a % 2 == 1 && give_up.is_none() {
                return match objs::decode(kind, world, op.st, &texts()) {
                    Ok(v) => v.iter().map(|o| o.debug()).collect(),
                    Err(e) => e,
                };
            }
            // a caller that stops early, asks again, and reads on
            let tx = texts();
            let t0 = tx[0].as_str();
            let early = (op.a / 2 % 4) as usize;
            macro_rules! simple {
                ($c:ident) => {{
                    let mut got: Vec<Vec<String>> = vec![];
                    for n in [early, usize::MAX] {
                        let mut c = $c::from_data(t0);
                        got.push(c.records().take(n).map(|r| { ab.step(); format!("{r:?}") }).collect());
                    }
                    let (first, all) = (&got[0], &got[1]);
                    if first[..] != all[..early.min(all.len())] {
                        return format!("MISMATCH: asked again, the first {early} records read {all:?} instead of {first:?}");
                    }
                    all.concat()
                }};
            }
            macro_rules! headed {
                ($c:ident) => {{
                    let mut got: Vec<Vec<String>> = vec![];
                    for n in [early, usize::MAX] {
                        let mut c = $c::from_data(t0);
                        let (m, it) = match c.records() {
                            Ok(x) => x,
                            Err(e) => return e.to_string(),
                        };
                        let mut v: Vec<String> = it.take(n).map(|r| { ab.step(); format!("{r:?}") }).collect();
                        v.push(format!("{m:?}"));
                        got.push(v);
                    }
                    let (first, all) = (&got[0], &got[1]);
                    let n = early.min(all.len() - 1);
                    if first[..n] != all[..n] || first.last() != all.last() {
                        return format!("MISMATCH: asked again, the first {n} records read {all:?} instead of {first:?}");
                    }
                    all.concat()
                }};
            }
            match kind {
                "spec" => simple!(WaveDataRecordCollection),
                "idx" => simple!(GribIndexRecordCollection),
                "data_spec" | "swdir" => simple!(SpectralWaveDataRecordCollection),
                "cbull" => headed!(ForecastCBulletinWaveRecordCollection),
                "fspec" => headed!(ForecastSpectralWaveDataRecordCollection),
                _ => match objs::decode(kind, world, op.st, &tx) {
                    Ok(v) => v.iter().map(|o| { ab.step(); o.debug() }).collect(),
                    Err(e) => e,
                },
            }
        }
        "swell" => swells(&mut ab).into_iter().map(|(_, s)| match s {
            Ok(s) => format!("{s:?} {:?} {:?}", s.probable_false_components(), s.filtered_components()),
            Err(e) => e,
        }).collect(),
        "history" => {
            // a buoy's whole day of directional spectra
            let mut s = String::new();
            for i in 0..3 {
                let tx = objs::publish("five", world, op.st, common::clamp_time(t - 3600 * i));
                for o in objs::decode("five", world, op.st, &tx).unwrap_or_default().iter().take(2) {
                    ab.step();
                    s.push_str(&match o.swell() {
                        Some(Ok(x)) => format!("{x:?}"),
                        Some(Err(e)) => e.to_string(),
                        None => "?".into(),
                    });
                }
            }
            s
        }
        "track" => {
            let mut r = Rng::keyed(&[world, fnv(b"track"), op.st]);
            let mut steps: Vec<(chrono::DateTime<Utc>, Vec<Swell>)> = vec![];
            for i in 0..3 + r.range(0, 4) {
                let mut v = components(world, op.st);
                v.truncate(1 + r.usize(5));
                for s in v.iter_mut() {
                    s.period.value = s.period.value.map(|p| p + r.frange(-0.2, 0.2));
                }
                steps.push((at(t + i * 3600), v));
            }
            steps.extend(swells(&mut ab).into_iter().filter_map(|(d, s)| s.ok().map(|s| (d, s.components))));
            ab.step();
            format!("{:?}", waves::track_partitions(&steps, 30.0, 1e6))
        }
        "project" | "project_map" => {
            let s = sea(world, op.st);
            let (size, thr, exp) = view(op.a);
            let labels = s.partition(100, None).map(|p| p.0).unwrap_or_default();
            ab.step();
            let target: Vec<f64> = if op.a % 2 == 0 { s.energy.clone() } else { labels.iter().map(|l| *l as f64).collect() };
            let out = match (op.k.as_str(), map) {
                ("project_map", Some(m)) => s.project_cartesian_with_map(&target, m),
                ("project_map", None) => s.project_cartesian_with_map(&target, &s.compute_cartesian_projection_map(size, thr, exp)),
                _ => s.project_cartesian(&target, size, thr, exp),
            };
            ab.step();
            floats(&out)
        }
        "regrid" => {
            let s = sea(world, op.st);
            let n = 4 + (op.a % 3) as usize * 4;
            let f: Vec<f64> = (0..n).map(|k| 0.04 + 0.02 * k as f64).collect();
            let d: Vec<f64> = (0..2 * n).map(|k| k as f64 * 180.0 / n as f64).collect();
            ab.step();
            let g = s.interpolate_to_grid(&f, &d);
            format!("{:?} {}", g.dir_convention, floats(&g.energy))
        }
        "contour" => {
            let s = sea(world, op.st);
            ab.step();
            s.contoured().map(|g| g.to_string()).unwrap_or_else(|_| "no contours".into())
        }
        "units" => {
            let mut s = String::new();
            for mut o in objs::decode(kind, world, op.st, &texts()).unwrap_or_default().into_iter().take(4) {
                for i in 0..3 {
                    ab.step();
                    let sys = [UnitSystem::English, UnitSystem::Metric, UnitSystem::Knots, UnitSystem::Kelvin][((op.a >> i) % 4) as usize].clone();
                    o.to_units(&sys);
                    s.push_str(&o.debug());
                }
            }
            let d = DimensionalData { value: Some(op.a as f64 / 7.0), variable_name: "v".into(), unit: Unit::Knots };
            format!("{s} {d} {:?}", Unit::Celsius.convert(op.a as f64 / 9.0, &Unit::Fahrenheit))
        }
        "dates" => {
            let d = at(t);
            ab.step();
            let place = Location::new((op.a % 60) as f64, (op.st % 180) as f64, "x".into());
            format!(
                "{} {} {} {} {:?} {:?}",
                date::closest_gfs_model_gridded_datetime(&d),
                date::closest_gfs_model_stations_datetime(&d),
                date::closest_hourly_model_datetime(&d),
                date::round_to_nearest_multiple_hour(&d, 1 + (op.a % 12) as u32),
                date::gfs_model_fmrc_datetimes((d, Utc.timestamp_opt(t + 86400, 0).unwrap())),
                calculate_solar_events(&place, &d).map(|s| format!("{:?} {:?}", s.sunrise, s.sunset)),
            )
        }
        "save" => {
            let mut s = String::new();
            for o in objs::decode(kind, world, op.st, &texts()).unwrap_or_default().iter().take(5) {
                ab.step();
                s.push_str(&o.save().unwrap_or_default());
            }
            s
        }
        "partition" => {
            let s = sea(world, op.st);
            ab.step();
            let p = s.partition([50, 100, 200][(op.a % 3) as usize], if op.a % 2 == 0 { None } else { Some(0.8) });
            match p {
                Ok(p) => format!("{:?} {} {:?}", p.0, p.1, s.swell_data(if op.a % 5 == 0 { Some(40.0) } else { None }, None, None, &p)),
                Err(e) => format!("{e:?}"),
            }
        }
        "moments" => {
            let s = sea(world, op.st);
            ab.step();
            format!(
                "{} {} {} {:?} {} {:?} {} {}",
                floats(&s.oned(SpectralAxis::Frequency)),
                floats(&s.oned(SpectralAxis::Direction)),
                floats(&s.mom_f((op.a % 3) as i32)),
                s.mom_d(1),
                floats(&s.mean_wave_direction_f()),
                s.energy_range(),
                floats(&s.period()),
                floats(&s.direction_deg())
            )
        }
        "false" => {
            let c = components(world, op.st);
            let s = SwellSummary { summary: c[0].clone(), components: c };
            ab.step();
            format!("{:?} {:?}", s.probable_false_components(), s.filtered_components())
        }
        "between" => {
            let s = sea(world, op.st);
            let mut r = Rng::keyed(&[world, fnv(b"between"), op.a]);
            let mut v = vec![];
            for _ in 0..6 {
                ab.step();
                let (f, d) = (r.frange(s.frequency[0], s.frequency[s.nk() - 1]), r.frange(0.0, TAU));
                v.push(s.interp_energy(f, d));
                v.push(s.ik(r.frange(0.0, s.nk() as f64)));
                v.push(s.ith(r.frange(0.0, s.nth() as f64)));
            }
            let (low, high) = analysis::detect_peaks(&s.oned(SpectralAxis::Frequency), 1e-6 * (1 + op.a % 5) as f64);
            format!("{} {low:?} {high:?} {:?}", floats(&v), analysis::nearest_neighbors(s.nk(), s.nth(), (op.a as usize) % s.energy.len()))
        }
        "area" => {
            let s = sea(world, op.st);
            let lng = (op.a % 360) as f64 - 180.0;
            ab.step();
            contour::compute_latlng_gridded_contours(s.energy.clone(), s.nk(), s.nth(), lng, lng + 20.0, 10.0, 40.0, None, None, Some(5), Some(|i: &usize, v: &f64| format!("{i} {v:.3}")))
                .map(|f| f.iter().map(|f| f.to_string()).collect())
                .unwrap_or_else(|_| "no contours".into())
        }
        "address" => {
            let mut r = Rng::keyed(&[world, fnv(b"address"), op.st]);
            let place = Location::new(r.frange(-60.0, 60.0), r.frange(-180.0, 180.0), format!("place {}", op.st % 5));
            let st = TideStation::new(&format!("84{:05}", r.below(100_000)), &place, "RI");
            ab.step();
            let interval = [DataInterval::Default, DataInterval::Hourly][(op.a % 2) as usize].clone();
            format!(
                "{} {} {} {} {}",
                st.tidal_data_url(&at(t), &at(t + 3600 * (op.a % 99) as i64), &TideDatum::MLLW, &interval, &UnitSystem::Metric),
                weather::create_points_url(&place),
                weather::create_forecast_url("BOX", &(op.st as usize % 90), &(op.a as usize % 90)),
                weather::create_hourly_forecast_url("BOX", &(op.st as usize % 90), &(op.a as usize % 90)),
                st.as_feature()
            )
        }
        "waves" => {
            let mut r = Rng::keyed(&[world, op.st, op.a]);
            let (p, h, d) = (r.frange(3.0, 20.0), r.frange(0.3, 6.0), r.frange(1.0, 200.0));
            ab.step();
            format!(
                "{:?} {:?} {} {} {:?} {:?} {}",
                waves::ldis(p, d).ok(),
                waves::wavenu3(TAU / p, d),
                waves::wavelength(1.0 / p, Some(d)),
                waves::wave_energy(h, p),
                waves::break_wave(p, r.frange(0.0, 60.0), h, 0.02, d).ok(),
                waves::refraction_coefficient(p * 10.0, d, 30.0),
                waves::shoaling_coefficient(p * 10.0, d)
            )
        }
        _ => String::new(),
    }
}

/// The operation alone in a process of its own, with its own hash seed and clock.
fn alone(op: &Op, world: u64, start: i64, hash: u64) -> Result<String, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err("SIM-BUG pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("SIM-BUG fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            seams::set_hash_seed(hash);
            seams::set_now(1_000_000_000 + (hash % 1_000_000_000) as i64, 0);
            let r = std::thread::scope(|s| s.spawn(|| catch(|| perform(op, world, start, None, None))).join());
            let text = match r {
                Ok(Ok(s)) => format!("K{s}"),
                Ok(Err(p)) => format!("P{p}"),
                Err(_) => "Ppanic".into(),
            };
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(text.as_bytes());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match s.chars().next() {
            Some('K') => Ok(s[1..].to_string()),
            Some('P') => Err(s[1..].to_string()),
            _ => Err("died".into()),
        }
    }
}

fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let (mut lo, mut hi) = (i.saturating_sub(40).min(s.len()), (i + 60).min(s.len()));
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        while !s.is_char_boundary(hi) {
            hi -= 1;
        }
        s[lo..hi].to_string()
    };
    format!("...{}... instead of ...{}...", cut(b), cut(a))
}

impl Property for C07 {
    fn info(&self) -> Info {
        Info {
            id: "C07",
            rule: "A run takes a handful of operations on simulated documents and seas (many sharing grid shapes but not data), performs each alone in a fresh process with a hash seed and clock of its own, and then rounds of callers performing them in seeded orders, repeatedly, preempted inside the library at allocation points, beside callers that abandon their operation half-way (by panicking inside an iteration) or work on damaged documents, with other hash seeds and clocks, and with projection maps shared between data of one grid. Every result must be spelled exactly as alone. Non-trivial: rounds ran with neighbours. State signature: operations, callers and abandonments.",
            real: &["surfrs decoders, swell, spectra, tracking, units, dates, solar, saving", "std hash maps with seeded keys", "csv, regex, chrono, serde_json, image, kdtree, contour"],
            stub: &["publishers", "callers and their scheduler", "hash entropy and clock (seams)"],
            assumptions: &["Callers are preempted at allocation points and library lock waits."],
            quick_runs: 6_000,
            thorough_runs: 200_000,
            digest_is_property: true,
            expect_probes: &["abandoned", "damaged_neighbour", "map_shared", "repeated", "compared", "switched"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let mut ks: Vec<&str> = OPS.to_vec();
        r.shuffle(&mut ks);
        ks.truncate(2 + r.usize(6));
        let docs = *r.pick(&[1usize, 2, 4, 11]);
        let mut kinds: Vec<&str> = objs::DOC_KINDS.to_vec();
        r.shuffle(&mut kinds);
        kinds.truncate(docs);
        let sts = *r.pick(&[2u64, 4, 8]);
        let n = 3 + r.usize(if thorough { 10 } else { 6 });
        let ops: Vec<Op> = (0..n)
            .map(|_| {
                let k = r.pick(&ks).to_string();
                let mut kind = r.pick(&kinds).to_string();
                if k == "swell" || k == "track" {
                    kind = r.pick(&["spec", "cbull", "fspec", "five"]).to_string();
                }
                let faults = if k == "decode_bad" { (0..1 + r.usize(2)).map(|_| net::gen_fault(r, net::ROW_KINDS)).collect() } else { vec![] };
                Op { k, kind, st: r.below(sts), dt: r.range(0, 3) * 21600, a: r.below(64), faults }
            })
            .collect();
        let rounds = (0..1 + r.usize(if thorough { 4 } else { 3 }))
            .map(|_| {
                let abandon = r.chance(0.6);
                Round {
                    seed: r.u64() >> 12,
                    gap: *r.pick(&[2, 5, 15, 40, 150, 600]),
                    hash: r.u64() >> 12,
                    callers: (0..1 + r.usize(4))
                        .map(|_| (0..1 + r.usize(5)).map(|_| Call { op: r.below(n as u64), abandon: if abandon && r.chance(0.3) { Some(r.below(5)) } else { None } }).collect())
                        .collect(),
                }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), ops, rounds }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        if p.ops.is_empty() {
            return;
        }
        let n = p.ops.len();
        let mut want: Vec<Result<String, String>> = vec![];
        for (i, op) in p.ops.iter().enumerate() {
            let w = alone(op, p.world, p.start, key(&[p.world, 7, i as u64]));
            match &w {
                Ok(s) => {
                    ctx.log(format!("op {i} {} {} alone: {} bytes, {:016x}", op.k, op.kind, s.len(), fnv(s.as_bytes())));
                    if s.starts_with("MISMATCH") {
                        ctx.violate("asked again", format!("op {i} {} {}: {}", op.k, op.kind, s.chars().take(600).collect::<String>()));
                        return;
                    }
                }
                Err(e) if e.starts_with("SIM-BUG") => panic!("{e}"),
                // panics are C02's business; here only that they are the same
                Err(e) => ctx.log(format!("op {i} {} {} alone: panic {e}", op.k, op.kind)),
            }
            want.push(w);
        }
        // projection maps, computed from another sea on the same grid
        let maps: Vec<Option<CartesianProjectionMap>> = p
            .ops
            .iter()
            .map(|op| {
                if op.k != "project_map" {
                    return None;
                }
                let (size, thr, exp) = view(op.a);
                ctx.probe("map_shared");
                Some(sea(p.world, op.st + 4).compute_cartesian_projection_map(size, thr, exp))
            })
            .collect();
        let mut times = vec![0u64; n];
        for (ri, round) in p.rounds.iter().enumerate() {
            seams::set_hash_seed(round.hash);
            seams::set_now(common::clamp_time(p.start + ri as i64 * 977), 0);
            ctx.out.sim_secs += 977;
            type Got = Vec<(usize, bool, Result<String, String>)>;
            let jobs: Vec<Box<dyn FnOnce() -> Got + Send>> = round
                .callers
                .iter()
                .map(|calls| {
                    let maps = maps.clone();
                    let p = &p;
                    Box::new(move || {
                        calls
                            .iter()
                            .map(|c| {
                                let i = (c.op % n as u64) as usize;
                                let r = catch(|| perform(&p.ops[i], p.world, p.start, maps[i].as_ref(), c.abandon));
                                let gave_up = c.abandon.is_some() && matches!(&r, Err(m) if m.starts_with("abandoned"));
                                (i, gave_up, r)
                            })
                            .collect()
                    }) as _
                })
                .collect();
            let (got, st) = simkit::sched::run_tasks(round.seed, round.gap, jobs);
            if st.switches > 0 {
                ctx.probe("switched");
            }
            ctx.sched(st);
            for (ci, g) in got.into_iter().enumerate() {
                let g = match g {
                    Ok(g) => g,
                    Err(m) => {
                        ctx.violate("panic", format!("caller {ci} in round {ri}: {m}"));
                        return;
                    }
                };
                for (i, gave_up, r) in g {
                    let op = &p.ops[i];
                    if gave_up {
                        ctx.fault("abandoned");
                        ctx.probe("abandoned");
                        ctx.reach(format!("abandon {}", op.k));
                        continue;
                    }
                    if op.k == "decode_bad" {
                        ctx.fault("damaged_neighbour");
                        ctx.probe("damaged_neighbour");
                    }
                    times[i] += 1;
                    if times[i] > 1 {
                        ctx.probe("repeated");
                    }
                    ctx.probe("compared");
                    ctx.checked();
                    ctx.out.nontrivial = true;
                    ctx.reach(format!("{ri} {ci} {}", op.k));
                    // as alone, also for the plain order of an abandonable decode
                    let same = match (&r, &want[i]) {
                        (Ok(a), Ok(b)) => a == b,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    if !same {
                        let d = match (&want[i], &r) {
                            (Ok(a), Ok(b)) => differ(a, b),
                            (a, b) => format!("{} instead of {}", b.as_ref().map(|_| "a result".to_string()).unwrap_or_else(|e| format!("panic {e}")), a.as_ref().map(|_| "a result".to_string()).unwrap_or_else(|e| format!("panic {e}"))),
                        };
                        ctx.violate("differs", format!("round {ri}, caller {ci}: {} {} of station {} gave {d}", op.k, op.kind, op.st));
                        return;
                    }
                }
            }
        }
    }
}
