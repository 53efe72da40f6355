//! Clients that fetch model files with the addresses the library builds, on clocks of their own.
use crate::common::{self, plan_from};
use chrono::{DateTime, TimeZone, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::seams;
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::buoy_station::{BuoyStation, BuoyStations};
use surfrs::model::{GEFSWaveModel, GFSWaveModel, ModelDataSource, NOAAModel, NWPSModel};
use surfrs::tools::date::closest_gfs_model_stations_datetime;

pub struct C13;

pub const SOURCES: [(&str, &str); 9] = [
    ("aws", "aws"), ("NODDAWS", "aws"), ("amazon", "aws"), ("gcp", "gcp"), ("noddgcp", "gcp"), ("Google", "gcp"), ("nomads", "nomads"), ("NOAA", "nomads"), ("NOMADS", "nomads"),
];

pub const MODELS: [&str; 8] = ["atlocn.0p16", "wcoast.0p16", "epacif.0p16", "global.0p16", "global.0p25", "mean.global.0p25", "spread.global.0p25", "box"];

pub fn model(name: &str) -> Box<dyn NOAAModel> {
    match name {
        "atlocn.0p16" => Box::new(GFSWaveModel::atlantic()),
        "wcoast.0p16" => Box::new(GFSWaveModel::west_coast()),
        "epacif.0p16" => Box::new(GFSWaveModel::east_pacific()),
        "global.0p16" => Box::new(GFSWaveModel::global_16()),
        "global.0p25" => Box::new(GFSWaveModel::global_25()),
        "mean.global.0p25" => Box::new(GEFSWaveModel::global_25_mean()),
        "spread.global.0p25" => Box::new(GEFSWaveModel::global_25_spread()),
        _ => Box::new(NWPSModel::boston()),
    }
}

/// (year, month, day) of a day number, by calendar arithmetic of its own.
pub fn civil(day: i64) -> (i64, i64, i64) {
    let mut y = 1970;
    let mut d = day;
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while d < 0 {
        y -= 1;
        d += 365 + leap(y) as i64;
    }
    while d >= 365 + leap(y) as i64 {
        d -= 365 + leap(y) as i64;
        y += 1;
    }
    let mut m = 0;
    for n in [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
        m += 1;
        if d < n {
            break;
        }
        d -= n;
    }
    (y, m, d + 1)
}

fn two(x: i64) -> String {
    let s = x.to_string();
    if s.len() < 2 { ["0", &s].concat() } else { s }
}

fn ymd(run: i64) -> String {
    let (y, m, d) = civil(run.div_euclid(86400));
    [y.to_string(), two(m), two(d)].concat()
}

fn hh(run: i64) -> String {
    two(run.rem_euclid(86400) / 3600)
}

fn gfs_root(source: &str) -> &'static str {
    match source {
        "aws" => "https://noaa-gfs-bdp-pds.s3.amazonaws.com",
        "gcp" => "https://storage.googleapis.com/global-forecast-system",
        _ => "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod",
    }
}

/// Where the archive keeps one output of one run (None: the archive does not have this model).
pub fn file(name: &str, source: &str, run: i64, hour: usize) -> Option<String> {
    let (d, h) = (ymd(run), hh(run));
    let mut f = hour.to_string();
    while f.len() < 3 {
        f.insert(0, '0');
    }
    Some(match name {
        "mean.global.0p25" | "spread.global.0p25" => {
            let root = match source {
                "aws" => "https://noaa-gefs-pds.s3.amazonaws.com",
                "nomads" => "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod",
                _ => return None,
            };
            [root, "/gefs.", &d, "/", &h, "/wave/gridded/gefs.wave.t", &h, "z.", name, ".f", &f, ".grib2"].concat()
        }
        "box" => ["https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er.", &d, "/box/", &h, "/CG1/box_nwps_CG1_", &d, "_", &h, "00.grib2"].concat(),
        _ => [gfs_root(source), "/gfs.", &d, "/", &h, "/wave/gridded/gfswave.t", &h, "z.", name, ".f", &f, ".grib2"].concat(),
    })
}

pub fn newest(t: i64, delay: i64) -> i64 {
    (t - delay).div_euclid(21600) * 21600
}

#[derive(Serialize, Deserialize)]
struct Poll {
    dt: i64,
    c: u64,
    step: i64,
    ns: i64,
    /// seconds the client's clock moves with every reading
    tick: i64,
    model: u64,
    source: u64,
    hour: u64,
    /// ask for this many seconds before the client's own time; None: leave it to the library
    ago: Option<i64>,
    st: u64,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    start: i64,
    skew: Vec<i64>,
    drift: Vec<i64>,
    seed: u64,
    gap: u64,
    polls: Vec<Poll>,
}

struct Asked {
    before: DateTime<Utc>,
    given: Option<DateTime<Utc>>,
    reads: (i64, i64),
    url: String,
    idx: String,
    run: DateTime<Utc>,
    bull: [String; 5],
    bull_run: DateTime<Utc>,
}

fn station(st: u64) -> BuoyStation {
    let id = ["44097", "51201", "46026", "41002", "bzbm3", "tpc55"][(st % 6) as usize];
    BuoyStation::new(id.into(), 40.0, -71.0)
}

impl Property for C13 {
    fn info(&self) -> Info {
        Info {
            id: "C13",
            rule: "A run is a history of requests by up to five clients whose simulated clocks are skewed, drift, are stepped, and advance while a client is inside a call (a slow client); each request names a source by one of its spellings, a model, a forecast hour and an instant or none, several clients at once under a seeded schedule. The addresses built are looked up in a simulated archive whose files lie at independently computed addresses. Non-trivial: a clock fault or a changed run. State signature: per request the model, source, offset into the cycle (half hours) and clock fault.",
            real: &["surfrs model and buoy station address building", "surfrs tools::date", "chrono", "Utc::now through the interposed clock_gettime"],
            stub: &["clock", "archive", "client scheduler", "gribberish and readap stand-ins (linked, not used here)"],
            assumptions: &[
                "A gridded run is published 5 hours and a station run 6 hours after its cycle, as surfrs states.",
                "No address is asserted for the ensemble model on Google's cloud: surfrs has none.",
                "The nearshore model keeps all hours of a run in one file.",
            ],
            quick_runs: 60_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["clock_skew", "clock_step_back", "clock_step_forward", "slow_client", "run_changed", "own_clock", "given_instant"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let n = 1 + r.usize(5);
        let skewed = r.chance(0.7);
        let steps = r.chance(0.6);
        let slow = r.chance(0.5);
        let dense = r.chance(0.3);
        let k = r.range(3, if thorough { 100 } else { 40 });
        let polls = (0..k)
            .map(|_| Poll {
                dt: if dense { r.range(0, 900) } else { *r.pick(&[0, 1, 600, 3599, 3600, 18000, 21600, 43200, 86400, 40 * 86400]) + r.range(-2, 2) },
                c: r.below(n as u64),
                step: if steps && r.chance(0.2) { *r.pick(&[-86400 * 2, -21600, -3600, -61, -1, 1, 59, 3600, 21600, 86400 * 3]) } else { 0 },
                ns: *r.pick(&[0, 0, 1, 500_000_000, 999_999_999]),
                tick: if slow { *r.pick(&[0, 1, 59, 3600, 21600, 86400]) } else { 0 },
                model: r.below(8),
                source: r.below(9),
                hour: if r.chance(0.3) { *r.pick(&[0, 9, 10, 99, 100, 120, 123, 384]) } else { r.below(385) },
                ago: if r.chance(0.5) { None } else { Some(*r.pick(&[0, 3600, 18000, 86400, 31 * 86400, -3600]) + r.range(0, 59)) },
                st: r.below(6),
            })
            .collect();
        let mut start = common::gen_start(r);
        if r.chance(0.5) {
            start = start.div_euclid(3600) * 3600 + r.range(-2, 2);
        }
        serde_json::to_value(Plan {
            start,
            skew: (0..n).map(|_| if skewed { r.range(-40000, 40000) } else { 0 }).collect(),
            drift: (0..n).map(|_| if skewed { r.range(-300, 300) } else { 0 }).collect(),
            seed: r.u64() >> 12,
            gap: common::gen_gap(r),
            polls,
        })
        .unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut now = plan.start;
        let mut step: BTreeMap<u64, i64> = BTreeMap::new();
        let mut seen: BTreeMap<u64, Vec<(DateTime<Utc>, i64)>> = BTreeMap::new();
        for (round, chunk) in plan.polls.chunks(4).enumerate() {
            let mut jobs: Vec<Box<dyn FnOnce() -> Asked + Send>> = vec![];
            let mut meta = vec![];
            now = common::clamp_time(now + chunk.iter().map(|p| p.dt).sum::<i64>()).max(10_000_000);
            ctx.out.sim_secs += chunk.iter().map(|p| p.dt.unsigned_abs()).sum::<u64>();
            seams::set_now(now, chunk[0].ns.clamp(0, 999_999_999));
            for p in chunk {
                let n = plan.skew.len().max(1) as u64;
                let c = p.c % n;
                let s = step.entry(c).or_default();
                *s += p.step;
                match p.step {
                    x if x < 0 => ctx.fault("clock_step_back"),
                    x if x > 0 => ctx.fault("clock_step_forward"),
                    _ => {}
                }
                let drift = plan.drift.get(c as usize).copied().unwrap_or(0);
                let skew = plan.skew.get(c as usize).copied().unwrap_or(0);
                if skew != 0 {
                    ctx.fault("clock_skew");
                }
                if drift != 0 {
                    ctx.fault("clock_drift");
                }
                if p.tick != 0 {
                    ctx.fault("slow_client");
                }
                ctx.probe(if p.ago.is_some() { "given_instant" } else { "own_clock" });
                let off = skew + *s + (now - plan.start) * drift / 1_000_000;
                let (spelt, source) = SOURCES[(p.source % 9) as usize];
                let name = MODELS[(p.model % 8) as usize];
                let hour = (p.hour % 1000) as usize;
                let ago = p.ago.map(|a| a.clamp(-8_640_000, 8_640_000));
                let (tick, st) = (p.tick.clamp(0, 86400), p.st);
                meta.push((c, name, source, hour, tick, p.step));
                jobs.push(Box::new(move || {
                    seams::set_skew(off);
                    seams::set_tick(0);
                    let before = Utc::now();
                    let m = model(name);
                    let src = ModelDataSource::try_from(spelt).unwrap();
                    seams::set_tick(tick);
                    let given = ago.map(|a| before - chrono::Duration::seconds(a));
                    let url = m.create_url(&src, hour, given);
                    let mid = seams::reads();
                    let idx = m.create_idx_url(&src, hour, given);
                    let end = seams::reads();
                    seams::set_tick(0);
                    let run = m.closest_model_run_date(&given.unwrap_or(before));
                    let bull_run = closest_gfs_model_stations_datetime(&given.unwrap_or(before));
                    let s = station(st);
                    let bull = [
                        s.gfswave_bulletin_data_url(&src, &bull_run),
                        s.gfswave_spectral_data_url(&src, &bull_run),
                        BuoyStation::gfswave_lsl_url(&src, &bull_run),
                        BuoyStations::gfswave_stations_root_url(&src, &bull_run),
                        s.gfswave_bulletin_data_prefix(&bull_run),
                    ];
                    Asked { before, given, reads: (mid, end), url, idx, run, bull, bull_run }
                }));
            }
            let got = common::together(plan.seed.wrapping_add(round as u64), plan.gap, jobs, ctx);
            for (((c, name, source, hour, tick, stepped), g), p) in meta.into_iter().zip(got).zip(chunk) {
                let a = match g {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violate("panic", format!("client {c} at {now}: {e}"));
                        continue;
                    }
                };
                ctx.checked();
                let t = a.before.timestamp();
                ctx.log(format!("client {c} at {:?} asks {name} {source} f{hour} {:?}: {} ({} readings)", a.before, a.given, a.url, a.reads.1));
                ctx.reach(format!("{name} {source} {} {} {}", t.rem_euclid(21600) / 1800, stepped.signum(), tick));
                let asked = format!("{name} from {source}, hour {hour}, {}, on a clock at {:?}", a.given.map_or("no instant".into(), |g| format!("at {g:?}")), a.before);
                // instants the library may have gone by: the one given, or any it read during the call
                let instants = |from: i64, to: i64| -> Vec<i64> {
                    match a.given {
                        Some(g) => vec![g.timestamp()],
                        None => (from..to.max(from + 1)).map(|k| t + k * tick).collect(),
                    }
                };
                let files = |from, to| -> Vec<String> { instants(from, to).iter().filter_map(|x| file(name, source, newest(*x, 5 * 3600), hour)).collect() };
                let ok = files(0, a.reads.0);
                if !ok.is_empty() {
                    if !ok.contains(&a.url) {
                        ctx.violate("address", format!("{asked}: address {} is not the newest published file {}", a.url, ok[0]));
                    }
                    let ok = files(a.reads.0, a.reads.1);
                    if !ok.iter().any(|u| a.idx == [u, ".idx"].concat()) {
                        ctx.violate("index address", format!("{asked}: index address {} instead of {}.idx", a.idx, ok[0]));
                    }
                }
                let at = a.given.unwrap_or(a.before);
                let want = newest(at.timestamp(), 5 * 3600);
                if a.run != Utc.timestamp_opt(want, 0).unwrap() {
                    ctx.violate("run", format!("{asked}: run {:?}, newest published {want}", a.run));
                }
                let b = newest(at.timestamp(), 6 * 3600);
                if a.bull_run.timestamp() != b {
                    ctx.violate("station run", format!("{asked}: station run {:?}, newest published {b}", a.bull_run));
                } else {
                    let id = station(p.st).station_id;
                    let dir = ["gfs.", &ymd(b), "/", &hh(b), "/wave/station/"].concat();
                    let bulls = [&dir, "bulls.t", &hh(b), "z/"].concat();
                    let root = gfs_root(source);
                    let want = [
                        format!("{root}/{bulls}gfswave.{id}.cbull"),
                        format!("{root}/{bulls}gfswave.{id}.spec"),
                        format!("{root}/{dir}ls-l"),
                        format!("{root}/{bulls}"),
                        format!("{bulls}gfswave.{id}.cbull"),
                    ];
                    for (g, w) in a.bull.iter().zip(&want) {
                        if g != w {
                            ctx.violate("station address", format!("{asked}: station file address {g} instead of {w}"));
                        }
                    }
                }
                if a.given.is_none() && tick == 0 {
                    seen.entry(c).or_default().push((a.before, a.run.timestamp()));
                }
            }
        }
        for (c, mut h) in seen {
            h.sort();
            for w in h.windows(2) {
                if w[0].1 != w[1].1 {
                    ctx.probe("run_changed");
                    ctx.out.nontrivial = true;
                }
                if w[1].1 < w[0].1 {
                    ctx.violate("goes back", format!("client {c}: the run at {:?} is older than the one at {:?}", w[1].0, w[0].0));
                }
            }
        }
    }
}
