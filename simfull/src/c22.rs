//! Clients that read the waves at a place out of the messages of model outputs.
use crate::c12::differs;
use crate::common::{self, plan_from};
use crate::truth::{shown, true_value, SYSTEMS};
use gribberish::message::Message;
use gribberish::templates::product::tables::FixedSurfaceType;
use gribberish::utils::iter::projection::LatLngProjection;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::ctx::catch;
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use surfrs::data::gfs_wave_grib_point_data_record::GFSWaveGribPointDataRecord;
use surfrs::data::parseable_data_record::DataRecordParsingError;
use surfrs::location::Location;
use surfrs::model::{GEFSWaveModel, GFSWaveModel, NOAAModel, NWPSModel};
use surfrs::units::{UnitConvertible, UnitSystem};

pub struct C22;

/// name, ordered component, unit, smallest and largest value, a direction, of the sea (masked on land)
const FIELDS: [(&str, Option<u64>, &str, f64, f64, bool, bool); 20] = [
    ("WIND", None, "ms-1", 0.0, 35.0, false, false),
    ("WDIR", None, "deg", 0.0, 360.0, true, false),
    ("UGRD", None, "ms-1", -30.0, 30.0, false, false),
    ("VGRD", None, "ms-1", -30.0, 30.0, false, false),
    ("HTSGW", None, "m", 0.05, 15.0, false, true),
    ("PERPW", None, "s", 1.5, 25.0, false, true),
    ("DIRPW", None, "deg", 0.0, 360.0, true, true),
    ("WVHGT", None, "m", 0.05, 9.0, false, true),
    ("WVPER", None, "s", 1.5, 12.0, false, true),
    ("WVDIR", None, "deg", 0.0, 360.0, true, true),
    ("SWELL", Some(1), "m", 0.05, 9.0, false, true),
    ("SWELL", Some(2), "m", 0.05, 5.0, false, true),
    ("SWELL", Some(3), "m", 0.05, 3.0, false, true),
    ("SWPER", Some(1), "s", 4.0, 25.0, false, true),
    ("SWPER", Some(2), "s", 4.0, 25.0, false, true),
    ("SWPER", Some(3), "s", 4.0, 25.0, false, true),
    ("SWDIR", Some(1), "deg", 0.0, 360.0, true, true),
    ("SWDIR", Some(2), "deg", 0.0, 360.0, true, true),
    ("SWDIR", Some(3), "deg", 0.0, 360.0, true, true),
    ("ICEC", None, "proportion", 0.0, 1.0, false, false),
];

fn key(f: usize) -> String {
    match FIELDS[f].1 {
        Some(n) => format!("{}_{n}", FIELDS[f].0),
        None => FIELDS[f].0.into(),
    }
}

#[derive(Serialize, Deserialize, Clone)]
struct GridPlan {
    kind: String,
    a: u64,
    rows: u64,
    cols: u64,
    upward: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct Fault {
    k: String,
    a: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Look {
    hour: u64,
    /// where: the cell, how far from it (in hundredths of a cell)
    row: u64,
    col: u64,
    dy: i64,
    dx: i64,
    /// 0 inside; 1 to 4 outside on one side
    out: u64,
    /// longitude counted west from Greenwich as negative
    west: bool,
    tol: u64,
    faults: Vec<Fault>,
    system: u64,
}
#[derive(Serialize, Deserialize)]
struct Batch {
    seed: u64,
    gap: u64,
    looks: Vec<Look>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    model: u64,
    start: i64,
    grid: GridPlan,
    land: u64,
    batches: Vec<Batch>,
}

fn grid(g: &GridPlan) -> LatLngProjection {
    let rows = 3 + (g.rows % if g.kind == "global" { 9 } else { 14 }) as usize;
    let cols = 3 + (g.cols % 20) as usize;
    let (lng0, n, step) = match g.kind.as_str() {
        "global" => {
            let step = [5.0, 7.5, 10.0, 15.0][(g.a % 4) as usize];
            (0.0, (360.0 / step) as usize, step)
        }
        // from the eastern into the western half
        "dateline" => {
            let step = [0.25, 0.5, 1.0][(g.a % 3) as usize];
            (180.0 - step * (1 + (g.a >> 4) as usize % (cols - 2)) as f64, cols, step)
        }
        "east" => (10.0 + (g.a % 100) as f64, cols, [0.25, 0.5, 1.0][(g.a >> 8) as usize % 3]),
        _ => (200.0 + (g.a % 100) as f64, cols, [0.25, 0.5, 1.0][(g.a >> 8) as usize % 3]),
    };
    let south = if g.kind == "global" { -step * (rows / 2) as f64 } else { -50.0 + ((g.a >> 16) % 90) as f64 };
    let mut lat: Vec<f64> = (0..rows).map(|i| south + step * i as f64).collect();
    if !g.upward {
        lat.reverse();
    }
    LatLngProjection { lat, lng: (0..n).map(|i| lng0 + step * i as f64).collect() }
}

fn land(p: &Plan, cell: usize) -> bool {
    let share = [0.0, 0.1, 0.5, 0.95][(p.land % 4) as usize];
    Rng::keyed(&[p.world, fnv(b"land"), cell as u64]).chance(share)
}

fn values(p: &Plan, g: &LatLngProjection, hour: u64, f: usize) -> Vec<f64> {
    let (_, part, _, lo, hi, dir, sea) = FIELDS[f];
    let mut r = Rng::keyed(&[p.world, hour, f as u64, fnv(b"values")]);
    // a component may be absent from the whole output, or from parts of it
    let present = match part {
        Some(n) => *r.pick(&[1.0, 1.0, 0.6, if n == 1 { 1.0 } else { 0.0 }]),
        None => 1.0,
    };
    let (base, spread) = if r.chance(0.3) { (0.0, 80.0) } else { (r.frange(0.0, 360.0), r.frange(0.0, 160.0)) };
    // ice holds everywhere in one of twenty outputs
    (0..g.lat.len() * g.lng.len())
        .map(|c| {
            let x = if dir { (base + r.frange(-0.5, 0.5) * spread).rem_euclid(360.0) } else { r.frange(lo, hi) };
            let gone = !r.chance(present);
            if sea && (gone || land(p, c)) { f64::NAN } else { (x * 100.0).round() / 100.0 }
        })
        .collect()
}

fn messages(p: &Plan, g: &LatLngProjection, hour: u64) -> Vec<Message<'static>> {
    (0..FIELDS.len())
        .map(|f| Message {
            reference: Some(p.start),
            valid: Some(p.start + 3600 * hour as i64),
            abbrev: Some(FIELDS[f].0.into()),
            unit: Some(FIELDS[f].2.into()),
            surface: Some(match FIELDS[f].1 {
                Some(n) => (FixedSurfaceType::OrderedSequence, Some(n as f64)),
                None => (FixedSurfaceType::GroundOrWater, None),
            }),
            grid: Some(g.clone()),
            values: Some(values(p, g, hour, f)),
        })
        .collect()
}

/// What reaches the client: (field, the message, intact).
fn deliver(p: &Plan, g: &LatLngProjection, l: &Look) -> Vec<(usize, Message<'static>, bool)> {
    let mut v: Vec<_> = messages(p, g, l.hour).into_iter().enumerate().map(|(f, m)| (f, m, true)).collect();
    for f in &l.faults {
        if v.is_empty() {
            break;
        }
        let i = (f.a >> 8) as usize % v.len();
        match f.k.as_str() {
            "lost" => {
                v.remove(i);
            }
            "duplicated" => {
                let m = v[i].clone();
                v.insert((f.a >> 24) as usize % (v.len() + 1), m);
            }
            "reordered" => Rng::keyed(&[f.a]).shuffle(&mut v),
            "cut" => v.truncate(i),
            _ => {
                let m = &mut v[i];
                m.2 = false;
                match f.a % 4 {
                    0 => (m.1.reference, m.1.valid) = (None, None),
                    1 => (m.1.abbrev, m.1.unit, m.1.surface) = (None, None, None),
                    2 => m.1.grid = None,
                    _ => m.1.values = None,
                }
            }
        }
    }
    v
}

struct Spot {
    loc: Location,
    /// position in cells from the first row and column
    y: f64,
    x: f64,
    tol: f64,
    inside: bool,
}

fn spot(g: &LatLngProjection, l: &Look) -> Spot {
    let (rows, cols) = (g.lat.len(), g.lng.len());
    let step = g.lng[1] - g.lng[0];
    let off = |cell: u64, n: usize, d: i64| {
        let c = (cell as usize % n) as f64;
        let f = (d % 46) as f64 / 100.0;
        // never outside, never close to half way between two cells
        if c + f < 0.0 || c + f > (n - 1) as f64 { c - f } else { c + f }
    };
    let (y, x) = (off(l.row, rows, l.dy), off(l.col, cols, l.dx));
    let mut lat = g.lat[0] + (g.lat[1] - g.lat[0]) * y;
    let mut lng = g.lng[0] + step * x;
    let mut inside = true;
    match l.out {
        1 => (lat, inside) = (g.lat[0].max(g.lat[rows - 1]) + 1.5, false),
        2 => (lat, inside) = (g.lat[0].min(g.lat[rows - 1]) - 1.5, false),
        3 if g.lng[0] > 5.0 => (lng, inside) = (g.lng[0] - 1.5, false),
        4 if g.lng[cols - 1] < 340.0 => (lng, inside) = (g.lng[cols - 1] + 1.5, false),
        _ => {}
    }
    // no cell at the very edge of the tolerance
    let mut tol = 0.05 + (l.tol % 260) as f64 / 100.0;
    let near = |t: f64| {
        [(y, rows), (x, cols)].iter().any(|(p, n)| (0..*n).any(|c| ((c as f64 - p).abs() - t).abs() < 0.015))
            || (0..cols).any(|c| ((360.0 / step - (c as f64 - x).abs()) - t).abs() < 0.015)
    };
    while near(tol) {
        tol += 0.01;
    }
    let lng = if l.west && lng > 180.0 { lng - 360.0 } else { lng };
    Spot { loc: Location::new(lat, lng, "place".into()), y, x, tol: tol * step, inside }
}

/// Values of the cells within the tolerance that are not masked.
fn near(g: &LatLngProjection, s: &Spot, v: &[f64]) -> Vec<f64> {
    let step = g.lng[1] - g.lng[0];
    let n = g.lng.len();
    v.iter()
        .enumerate()
        .filter(|(i, v)| {
            let (dy, dx) = (((i / n) as f64 - s.y).abs() * step, ((i % n) as f64 - s.x).abs() * step);
            !v.is_nan() && dy <= s.tol && dx.min(360.0 - dx) <= s.tol
        })
        .map(|(_, v)| *v)
        .collect()
}

fn turn(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}

/// Does a whole direction stand for these (None: they point everywhere)?
fn stands_for(got: f64, all: &[f64]) -> Option<bool> {
    let spread = all.iter().flat_map(|a| all.iter().map(move |b| turn(*a, *b))).fold(0.0, f64::max);
    if spread > 165.0 {
        return None;
    }
    let mean = all[0] + all.iter().map(|a| (a - all[0] + 180.0).rem_euclid(360.0) - 180.0).sum::<f64>() / all.len() as f64;
    let (s, c) = all.iter().fold((0.0, 0.0), |t, a| (t.0 + a.to_radians().sin(), t.1 + a.to_radians().cos()));
    let vector = s.atan2(c).to_degrees();
    Some(turn(got, mean) <= 1.001 + turn(mean, vector))
}

fn energy(h: f64, t: f64) -> f64 {
    1029.0 * 9.81 * 9.81 / (16.0 * std::f64::consts::PI) * h * h * t * t / 1000.0
}

enum Query {
    Close(Result<Vec<f64>, String>),
    Cell(Result<f64, String>),
    Between(Result<f64, String>),
    Contours(Result<usize, String>),
}
struct Got {
    record: Result<Result<GFSWaveGribPointDataRecord, DataRecordParsingError>, String>,
    queries: Vec<(usize, Result<Query, String>)>,
}

fn ask<M: NOAAModel>(m: &M, msgs: &[Message], s: &Spot, l: &Look) -> Got {
    let owned: Vec<Message> = msgs.to_vec();
    let record = catch(|| GFSWaveGribPointDataRecord::from_messages(m, &owned, &s.loc, s.tol));
    let mut queries = vec![];
    let mut r = Rng::keyed(&[l.hour, l.row, l.col, l.tol]);
    for (i, x) in msgs.iter().enumerate() {
        let kind = r.below(12);
        let q = catch(|| match kind {
            0..=3 => Query::Close(m.query_location_tolerance(&s.loc, &s.tol, x).map_err(|e| e.to_string())),
            4..=7 => Query::Cell(m.query_location_data(&s.loc, x).map_err(|e| e.to_string())),
            8..=10 => Query::Between(m.interp_location_data(&s.loc, x).map_err(|e| e.to_string())),
            _ => Query::Contours(m.contour_data(x, None, None, Some(4), if l.system % 2 == 0 { None } else { Some(UnitSystem::English) }).map(|f| f.len()).map_err(|e| e.to_string())),
        });
        queries.push((i, q));
    }
    Got { record, queries }
}

/// Quantities of a saved record: (where, value, unit).
fn quantities(v: &Value, at: &str, out: &mut Vec<(String, f64, String)>) {
    match v {
        Value::Object(o) => {
            if let (Some(Value::Number(x)), Some(Value::String(u))) = (o.get("value"), o.get("unit")) {
                out.push((at.into(), x.as_f64().unwrap(), u.clone()));
            }
            o.iter().for_each(|(k, v)| quantities(v, &format!("{at}.{k}"), out));
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| quantities(v, &format!("{at}[{i}]"), out)),
        _ => {}
    }
}

/// Switches a record through unit systems with restarts in between.
fn histories(rec: &GFSWaveGribPointDataRecord, r: &mut Rng) -> Result<u64, String> {
    let json = |x: &GFSWaveGribPointDataRecord| serde_json::to_value(x).map_err(|e| e.to_string());
    let q = |v: &Value| {
        let mut out = vec![];
        quantities(v, "", &mut out);
        out
    };
    let first = q(&json(rec)?);
    let mut want: Vec<String> = first.iter().map(|f| f.2.clone()).collect();
    let mut x = rec.clone();
    let mut n = 0;
    for _ in 0..1 + r.usize(4) {
        if r.chance(0.3) {
            let text = serde_json::to_string(&x).map_err(|e| format!("not saved: {e}"))?;
            let y: GFSWaveGribPointDataRecord = serde_json::from_str(&text).map_err(|e| format!("not loaded again: {e}"))?;
            if let Some(k) = differs(&json(&x)?, &json(&y)?, "") {
                return Err(format!("loading what was saved changed {k}"));
            }
            x = y;
            continue;
        }
        let sys = r.pick(&SYSTEMS).clone();
        x.to_units(&sys);
        n += 1;
        let now = q(&json(&x)?);
        if now.len() != first.len() {
            return Err(format!("{} quantities instead of {} after asking for {sys}", now.len(), first.len()));
        }
        for ((a, b), w) in first.iter().zip(&now).zip(want.iter_mut()) {
            *w = shown(w, &sys).to_string();
            if a.0 != b.0 || b.2 != *w || !true_value(a.1, &a.2, b.1, &b.2) {
                return Err(format!("{}: {} {} became {} {} after asking for {sys} (expected in {w})", a.0, a.1, a.2, b.1, b.2));
            }
        }
    }
    Ok(n)
}

/// What is wrong with a record.
fn judge(p: &Plan, g: &LatLngProjection, l: &Look, s: &Spot, rec: &GFSWaveGribPointDataRecord, have: &dyn Fn(&str) -> Option<Vec<f64>>) -> Option<String> {
    let _ = g;
    let mean = |v: &[f64]| v.iter().sum::<f64>() / v.len() as f64;
    let close = |a: Option<f64>, b: f64| a.is_some_and(|a| (a - b).abs() <= 1e-9 * (1.0 + b.abs()));
    if rec.date.timestamp() != p.start + 3600 * l.hour as i64 {
        return Some(format!("dated {} for hour {}", rec.date, l.hour));
    }
    let swell = |sw: &surfrs::swell::Swell, h: &[f64], t: &[f64], d: &[f64], what: &str| -> Option<String> {
        let (h, t) = (mean(h), mean(t));
        if !close(sw.wave_height.value, h) || sw.wave_height.unit.to_string() != "m" {
            return Some(format!("{what}: height {:?} {} instead of {h} m", sw.wave_height.value, sw.wave_height.unit));
        }
        if !close(sw.period.value, t) {
            return Some(format!("{what}: period {:?} instead of {t}", sw.period.value));
        }
        let got = sw.direction.value.as_ref().map(|d| d.degrees as f64);
        match got.and_then(|x| stands_for(x, d)) {
            Some(false) => return Some(format!("{what}: direction {got:?} of {d:?}")),
            None if got.is_none() => return Some(format!("{what}: no direction")),
            _ => {}
        }
        let e = sw.energy.as_ref().and_then(|e| e.value);
        if !close(e, energy(h, t)) && !e.is_some_and(|e| (e / energy(h, t) - 1.0).abs() < 1e-9) {
            return Some(format!("{what}: energy {e:?} instead of {}", energy(h, t)));
        }
        None
    };
    let _ = s;
    if let Some(e) = swell(&rec.wave_summary, &have("HTSGW")?, &have("PERPW")?, &have("DIRPW")?, "summary") {
        return Some(e);
    }
    match have("WIND") {
        Some(w) if close(rec.wind_speed.value, mean(&w)) => {}
        None if rec.wind_speed.value.is_none() => {}
        w => return Some(format!("wind {:?} instead of the mean of {w:?}", rec.wind_speed.value)),
    }
    let got = rec.wind_direction.value.as_ref().map(|d| d.degrees as f64);
    match (have("WDIR"), got) {
        (Some(w), Some(d)) if stands_for(d, &w) != Some(false) => {}
        (None, None) => {}
        (w, d) => return Some(format!("wind direction {d:?} instead of the mean of {w:?}")),
    }
    let mut want = vec![];
    for (h, t, d) in [("SWELL_1", "SWPER_1", "SWDIR_1"), ("SWELL_2", "SWPER_2", "SWDIR_2"), ("SWELL_3", "SWPER_3", "SWDIR_3"), ("WVHGT", "WVPER", "WVDIR")] {
        if let (Some(a), Some(b), Some(c)) = (have(h), have(t), have(d)) {
            want.push((h, a, b, c));
        }
    }
    if rec.swell_components.len() != want.len() {
        return Some(format!("{} components where {:?} are whole", rec.swell_components.len(), want.iter().map(|w| w.0).collect::<Vec<_>>()));
    }
    want.sort_by(|a, b| mean(&b.1).partial_cmp(&mean(&a.1)).unwrap());
    for i in 1..want.len() {
        // equal heights may come in any order
        if (mean(&want[i - 1].1) - mean(&want[i].1)).abs() < 1e-9 {
            return None;
        }
    }
    rec.swell_components.iter().zip(&want).find_map(|(c, w)| swell(c, &w.1, &w.2, &w.3, w.0))
}

impl Property for C22 {
    fn info(&self) -> Info {
        Info {
            id: "C22",
            rule: "A run is a set of sessions of concurrent clients, preempted inside library calls, over the outputs of a simulated model on a grid of its own (regional, over the date line, global; rows either way; masked land and absent components): each reads the waves at a place, within a tolerance, out of one output's messages, of which some were lost, duplicated, reordered, cut off or damaged in one section; the record is compared with the means over the cells within the tolerance and then switched through unit systems and restarted. Each message is also queried directly (cells around, nearest, between, contours). Non-trivial: a fault was applied. State signature: kind of grid, faults, presence of the summary, number of components.",
            real: &["surfrs point forecast", "surfrs grid queries and contours", "contour crate", "unit conversion", "serde_json"],
            stub: &["model and its GRIB2 encoding (messages arrive decoded by the gribberish stand-in)", "network", "client scheduler", "readap stand-in (linked, not used here)"],
            assumptions: &["Grids are regular, with longitudes from 0 to 360 as NCEP publishes them.", "Masked cells are not a number.", "A damaged section makes every accessor of that section fail."],
            quick_runs: 26_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["records", "refused_outside", "refused_missing", "components", "unit_switches", "cells_around", "nearest", "between", "contours", "query_refused", "over_dateline", "around_the_globe"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let calm = index % 16 == 0;
        let g = GridPlan {
            kind: (*r.pick(&["west", "west", "east", "dateline", "dateline", "global"])).into(),
            a: r.u64() >> 24,
            rows: r.below(14),
            cols: r.below(20),
            upward: r.chance(0.3),
        };
        let batches = (0..1 + r.usize(if thorough { 5 } else { 3 }))
            .map(|_| Batch {
                seed: r.u64() >> 12,
                gap: common::gen_gap(r),
                looks: (0..1 + r.usize(4))
                    .map(|_| {
                        let n = if calm { 0 } else { *r.pick(&[0usize, 1, 1, 2, 4, 8]) };
                        Look {
                            hour: r.below(385),
                            row: r.below(64),
                            col: if r.chance(0.2) { 0 } else { r.u64() >> 50 },
                            dy: r.range(-45, 45),
                            dx: r.range(-45, 45),
                            out: if r.chance(0.1) { 1 + r.below(4) } else { 0 },
                            west: r.chance(0.5),
                            tol: r.below(260),
                            faults: (0..n).map(|_| Fault { k: (*r.pick(&["lost", "lost", "duplicated", "reordered", "damaged", "damaged", "cut"])).into(), a: r.u64() >> 12 }).collect(),
                            system: r.below(2),
                        }
                    })
                    .collect(),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, model: r.below(3), start: 1_500_000_000 / 21_600 * 21_600 + 21_600 * r.below(20_000) as i64, grid: g, land: r.below(4), batches }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let p = &plan;
        simkit::seams::set_now(p.start + 7200, 0);
        let g = &grid(&p.grid);
        for (bi, b) in p.batches.iter().enumerate() {
            let given: Vec<(Vec<(usize, Message, bool)>, Spot)> = b.looks.iter().map(|l| (deliver(p, g, l), spot(g, l))).collect();
            let jobs: Vec<Box<dyn FnOnce() -> Got + Send>> = b
                .looks
                .iter()
                .zip(&given)
                .map(|(l, (m, s))| {
                    Box::new(move || {
                        let msgs: Vec<Message> = m.iter().map(|m| m.1.clone()).collect();
                        match p.model % 3 {
                            0 => ask(&GFSWaveModel::global_16(), &msgs, s, l),
                            1 => ask(&GEFSWaveModel::global_25_mean(), &msgs, s, l),
                            _ => ask(&NWPSModel::boston(), &msgs, s, l),
                        }
                    }) as Box<dyn FnOnce() -> _ + Send>
                })
                .collect();
            let got = common::together(b.seed, b.gap, jobs, ctx);
            for (li, ((l, (m, s)), got)) in b.looks.iter().zip(&given).zip(got).enumerate() {
                ctx.checked();
                let what = format!("hour {} at {:.4},{:.4} within {:.4} ({} grid, {} messages)", l.hour, s.loc.latitude, s.loc.longitude, s.tol, p.grid.kind, m.len());
                for f in &l.faults {
                    ctx.fault(&f.k);
                }
                let got = match got {
                    Ok(g) => g,
                    Err(e) => {
                        ctx.violate("panic", format!("{what}: {e}"));
                        continue;
                    }
                };
                let have = |k: &str| -> Option<Vec<f64>> {
                    let (f, x, _) = m.iter().find(|(f, _, ok)| *ok && key(*f) == k)?;
                    let _ = f;
                    if !s.inside {
                        return None;
                    }
                    let v = near(g, s, x.values.as_ref()?);
                    (!v.is_empty()).then_some(v)
                };
                let missing = ["HTSGW", "PERPW", "DIRPW"].into_iter().find(|k| have(k).is_none());
                let mut components = 9;
                match &got.record {
                    Err(e) => ctx.violate("record-panic", format!("{what}: reading the record panics: {e}")),
                    Ok(Err(e)) => match (missing, e) {
                        (Some(k), DataRecordParsingError::KeyMissing(x)) if x == k => ctx.probe(if s.inside { "refused_missing" } else { "refused_outside" }),
                        (Some(k), e) => ctx.violate("record", format!("{what}: refused for {e:?} where {k} is missing")),
                        (None, e) => ctx.violate("record", format!("{what}: refused ({e:?}) though everything needed is there")),
                    },
                    Ok(Ok(rec)) => {
                        if let Some(k) = missing {
                            ctx.violate("record", format!("{what}: a record without values of {k}: {:?}", rec.wave_summary));
                            continue;
                        }
                        ctx.probe("records");
                        components = rec.swell_components.len();
                        ctx.probe_n("components", components as u64);
                        if p.grid.kind == "dateline" {
                            ctx.probe("over_dateline");
                        }
                        if let Some(e) = judge(p, g, l, s, rec, &have) {
                            ctx.violate("record", format!("{what}: {e}"));
                            continue;
                        }
                        let mut hr = Rng::keyed(&[p.world, bi as u64, li as u64, b.seed]);
                        match catch(|| histories(rec, &mut hr)).unwrap_or_else(Err) {
                            Ok(n) => ctx.probe_n("unit_switches", n),
                            Err(e) => ctx.violate("units", format!("{what}: {e}")),
                        }
                    }
                }
                for (i, q) in &got.queries {
                    let (f, x, _) = &m[*i];
                    let k = key(*f);
                    let q = match q {
                        Ok(q) => q,
                        Err(e) => {
                            ctx.violate("query-panic", format!("{what}: asking for {k} panics: {e}"));
                            continue;
                        }
                    };
                    let place = x.grid.is_some() && x.values.is_some() && s.inside;
                    let vals = x.values.clone().unwrap_or_default();
                    let n = g.lng.len();
                    match q {
                        Query::Close(Ok(v)) if place => {
                            let mut a = v.clone();
                            let mut b = near(g, s, &vals);
                            if p.grid.kind == "global" && s.tol > 0.0 && (s.x * (g.lng[1] - g.lng[0]) < s.tol || (n as f64 - s.x) * (g.lng[1] - g.lng[0]) < s.tol) {
                                ctx.probe("around_the_globe");
                            }
                            a.sort_by(f64::total_cmp);
                            b.sort_by(f64::total_cmp);
                            if a == b {
                                ctx.probe("cells_around");
                            } else {
                                ctx.violate("around", format!("{what}: {k} around is {a:?} instead of {b:?}"));
                            }
                        }
                        Query::Cell(Ok(v)) if place => {
                            let want = vals[s.y.round() as usize * n + s.x.round() as usize];
                            if *v == want || (v.is_nan() && want.is_nan()) {
                                ctx.probe("nearest");
                            } else {
                                ctx.violate("nearest", format!("{what}: {k} in the nearest cell is {v} instead of {want}"));
                            }
                        }
                        Query::Between(Ok(v)) if place => {
                            let lo = |p: f64| ((p - 1e-6).floor().max(0.0)) as usize;
                            let at = |r: usize, c: usize| vals[r.min(g.lat.len() - 1) * n + c.min(n - 1)];
                            let (r0, c0) = (lo(s.y), lo(s.x));
                            let all: Vec<f64> = (0..3).flat_map(|a| (0..3).map(move |b| (a, b))).map(|(a, b)| at(r0 + a, c0 + b)).collect();
                            // next to masked cells nothing is asked of the value
                            if all.iter().all(|v| v.is_finite()) {
                                let (r0, c0) = (s.y.floor() as usize, s.x.floor() as usize);
                                let (fy, fx) = (s.y - r0 as f64, s.x - c0 as f64);
                                let want = (at(r0, c0) * (1.0 - fx) + at(r0, c0 + 1) * fx) * (1.0 - fy) + (at(r0 + 1, c0) * (1.0 - fx) + at(r0 + 1, c0 + 1) * fx) * fy;
                                if (v - want).abs() <= 1e-6 * (1.0 + want.abs()) {
                                    ctx.probe("between");
                                } else {
                                    ctx.violate("between", format!("{what}: {k} between the cells is {v} instead of {want}"));
                                }
                            }
                        }
                        Query::Contours(r) => {
                            let whole = x.grid.is_some() && x.values.is_some() && (x.unit.is_some() || l.system % 2 == 0);
                            match r {
                                Ok(4) if whole => ctx.probe("contours"),
                                Err(_) if !whole || vals.iter().all(|v| v.is_nan()) => ctx.probe("query_refused"),
                                Ok(_) if x.unit.is_none() && x.grid.is_some() && x.values.is_some() => {}
                                Err(_) if x.unit.is_none() => ctx.probe("query_refused"),
                                r => ctx.violate("contours", format!("{what}: {r:?} contours of {k} instead of 4")),
                            }
                        }
                        Query::Close(Ok(v)) => ctx.violate("query", format!("{what}: {k} around is {v:?} out of a message that is damaged or elsewhere")),
                        Query::Cell(Ok(v)) | Query::Between(Ok(v)) => ctx.violate("query", format!("{what}: {k} is {v} out of a message that is damaged or elsewhere")),
                        Query::Close(Err(e)) | Query::Cell(Err(e)) | Query::Between(Err(e)) => {
                            if place {
                                ctx.violate("query", format!("{what}: {k} refused: {e}"));
                            } else {
                                ctx.probe("query_refused");
                            }
                        }
                    }
                }
                ctx.reach(format!("{} {:?} {missing:?} {components}", p.grid.kind, l.faults.iter().map(|f| &f.k[..]).collect::<std::collections::BTreeSet<_>>()));
            }
        }
    }
}
