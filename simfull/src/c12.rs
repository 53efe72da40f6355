//! Clients of weather observations and of the station list.
use crate::common::{self, plan_from, Batch, Fetch, Plan};
use crate::feeds::{self, Doc};
use crate::obs;
use crate::rec::{match_delivery, Exp, Rec, V};
use crate::truth::{shown, true_value, SYSTEMS};
use geojson::FeatureCollection;
use serde_json::Value;
use simkit::ctx::catch;
use simkit::net;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use surfrs::buoy_station::{BuoyStation, BuoyStations};
use surfrs::data::latest_obs_data_record::{latest_obs_feature_collection, LatestObsDataRecord, LatestObsDataRecordCollection};
use surfrs::data::meteorological_data_record::{MeteorologicalDataRecord, MeteorologicalDataRecordCollection};
use surfrs::units::UnitConvertible;

pub struct C12;

enum Got {
    Met(Vec<MeteorologicalDataRecord>),
    Latest(Vec<LatestObsDataRecord>),
    /// None: refused
    List(Result<BuoyStations, String>),
}

fn decode(kind: &str, text: &str) -> Got {
    match kind {
        "met" => Got::Met(MeteorologicalDataRecordCollection::from_data(text).records().collect()),
        "latest" => Got::Latest(LatestObsDataRecordCollection::from_data(text).records().collect()),
        _ => Got::List(catch(|| BuoyStations::from_raw_data(text))),
    }
}

/// The values of a saved record by field: (value, unit).
fn quantities(v: &Value) -> Vec<(String, Option<f64>, String)> {
    let mut out = vec![];
    for (k, unit, _) in obs::FIELDS {
        if unit != "Degrees" {
            let f = &v[k];
            out.push((k.to_string(), f["value"].as_f64(), f["unit"].as_str().unwrap_or("?").to_string()));
        }
    }
    out
}

/// Where two saved values differ by more than round-off.
pub fn differs(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() {
                return Some(at.into());
            }
            x.iter().find_map(|(k, v)| y.get(k).map_or(Some(format!("{at}.{k}")), |w| differs(v, w, &format!("{at}.{k}"))))
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(at.into());
            }
            x.iter().zip(y).enumerate().find_map(|(i, (v, w))| differs(v, w, &format!("{at}[{i}]")))
        }
        (Value::Number(x), Value::Number(y)) => {
            let (p, q) = (x.as_f64()?, y.as_f64()?);
            ((p - q).abs() > 1e-12 * p.abs().max(q.abs())).then(|| at.to_string())
        }
        (x, y) => (x != y).then(|| at.to_string()),
    }
}

/// Switches a record through unit systems, with a restart in between, and compares with the quantities first decoded.
pub fn histories<T: UnitConvertible + Clone + serde::Serialize + serde::de::DeserializeOwned>(rec: &T, r: &mut Rng) -> Result<u64, String> {
    let json = |x: &T| serde_json::to_value(x).map_err(|e| format!("not saved: {e}"));
    let first = json(rec)?;
    let q0 = quantities(&first);
    let mut x = rec.clone();
    let mut n = 0;
    let mut want: Vec<String> = q0.iter().map(|q| q.2.clone()).collect();
    for _ in 0..1 + r.usize(4) {
        // a garbled row may hold a position that is not a number, which JSON cannot express
        if r.chance(0.25) && ["latitude", "longitude"].iter().all(|k| first.get(*k).map_or(true, |v| !v.is_null())) {
            let text = serde_json::to_string(&x).map_err(|e| format!("not saved: {e}"))?;
            let y: T = serde_json::from_str(&text).map_err(|e| format!("not loaded again: {e}"))?;
            if let Some(k) = differs(&json(&x)?, &json(&y)?, "") {
                return Err(format!("loading what was saved changed {k}"));
            }
            x = y;
            continue;
        }
        let sys = r.pick(&SYSTEMS).clone();
        x.to_units(&sys);
        n += 1;
        for w in want.iter_mut() {
            *w = shown(w, &sys).to_string();
        }
        let now = json(&x)?;
        for ((a, b), w) in q0.iter().zip(quantities(&now)).zip(&want) {
            if b.2 != *w {
                return Err(format!("{} shown in {} after asking for {sys}, not in {w}", a.0, b.2));
            }
            match (a.1, b.1) {
                (None, None) => {}
                (Some(p), Some(q)) if true_value(p, &a.2, q, &b.2) => {}
                (p, q) => return Err(format!("{}: {p:?} {} became {q:?} {}", a.0, a.2, b.2)),
            }
        }
        let keep = |v: &Value| {
            let mut v = v.clone();
            if let Some(o) = v.as_object_mut() {
                for (k, unit, _) in obs::FIELDS {
                    if unit != "Degrees" {
                        o.remove(k);
                    }
                }
            }
            v
        };
        if keep(&now) != keep(&first) {
            return Err("switching units changed more than the measurements".into());
        }
    }
    Ok(n)
}

/// Each station carries the observations of that station and nothing else.
fn merged(list: &[BuoyStation], recs: &[LatestObsDataRecord], got: &FeatureCollection) -> Result<u64, String> {
    if got.features.len() != list.len() {
        return Err(format!("{} features for {} stations", got.features.len(), list.len()));
    }
    let mut n = 0;
    for (s, f) in list.iter().zip(&got.features) {
        let f = serde_json::to_value(f).map_err(|e| e.to_string())?;
        if f["properties"]["id"] != Value::from(s.station_id.clone()) {
            return Err(format!("feature {} where {} was expected", f["properties"]["id"], s.station_id));
        }
        if f["geometry"]["coordinates"] != serde_json::json!([s.longitude, s.latitude]) {
            return Err(format!("{} lies at {} in its feature", s.station_id, f["geometry"]["coordinates"]));
        }
        if f["properties"]["isActive"] != Value::from(s.is_active()) || f["properties"]["name"] != Value::from(surfrs::station::Station::name(s)) {
            return Err(format!("feature of {} says {}", s.station_id, f["properties"]));
        }
        let own: Vec<&LatestObsDataRecord> = recs.iter().filter(|r| r.station_id.eq_ignore_ascii_case(&s.station_id)).collect();
        let o = &f["properties"]["latest_observations"];
        if own.is_empty() {
            if !o.is_null() {
                return Err(format!("{} has observations though none of it came", s.station_id));
            }
            continue;
        }
        let Some(o) = o.as_object() else { return Err(format!("{} lacks the observations that came for it", s.station_id)) };
        let says = |r: &LatestObsDataRecord| -> Option<String> {
            let v = serde_json::to_value(r).ok()?;
            if o.get("date") != v.get("date") {
                return Some(format!("date {:?}", o.get("date")));
            }
            for (k, _, _) in obs::FIELDS {
                let (a, b) = (&v[k], o.get(k));
                let ok = if a["value"].is_null() { b.is_none() || b.unwrap()["value"].is_null() } else { b == Some(a) };
                if !ok {
                    return Some(format!("{k} {b:?} instead of {a}"));
                }
            }
            None
        };
        let whys: Vec<_> = own.iter().map(|r| says(r)).collect();
        if whys.iter().all(|w| w.is_some()) {
            return Err(format!("{} carries {}", s.station_id, whys[0].clone().unwrap()));
        }
        n += 1;
    }
    Ok(n)
}

struct Deliv {
    kind: &'static str,
    st: u64,
    docs: Vec<Doc>,
    text: String,
    pristine: bool,
    when: i64,
}

fn deliver(plan: &Plan, f: &Fetch, t: i64, ctx: &mut Ctx) -> Deliv {
    let kind = obs::KINDS.iter().find(|k| **k == f.feed).copied().unwrap_or("met");
    let mut when = t;
    for _ in 0..f.stale.min(8) {
        when = obs::older(kind, when, 0);
    }
    if f.stale > 0 {
        ctx.fault("stale_copy");
    }
    let when = common::clamp_time(when);
    let docs = vec![obs::publish(kind, plan.world, f.st, when)];
    let (text, docs, pristine) = common::damage(&f.faults, docs, ctx, |k| obs::publish(kind, plan.world, f.st, common::clamp_time(obs::older(kind, when, k))));
    Deliv { kind, st: f.st, docs, text, pristine, when }
}

impl Property for C12 {
    fn info(&self) -> Info {
        Info {
            id: "C12",
            rule: "A run is a simulated deployment: buoys and the latest-observation service publish rows at simulated times, a list server publishes the active stations, a network with a swarm-chosen subset of fault kinds delivers documents (possibly damaged or stale) to concurrent clients preempted inside library calls. Every delivered record is matched in order against the published rows, switched through unit systems and restarted, and merged with the station list last received. Non-trivial: at least one fault changed a document. State signature: per fetch the feed, fault kinds, numbers of intact rows, damaged rows and records (coarse).",
            real: &["surfrs meteorological and latest-observation decoders", "surfrs buoy station list decoder and merge", "csv", "quick-xml", "chrono", "serde_json", "unit conversion"],
            stub: &["publishers (truth model)", "network (fault injector)", "client scheduler", "clock", "gribberish and readap stand-ins (linked, not used here)"],
            assumptions: &[
                "A row counts as undamaged when its line arrived byte for byte as published.",
                "Records of garbled rows whose position is not a finite number are not asked to survive a restart.",
                "Station ids are the same whatever their case: the list has them in lower case, the observations in upper case.",
            ],
            quick_runs: 16_000,
            thorough_runs: 200_000,
            digest_is_property: false,
            expect_probes: &["intact_rows", "damaged_lines", "stale_copy", "lists_whole", "merged_stations", "unit_switches", "lists_torn"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let mut ks: Vec<&str> = net::KINDS.to_vec();
        r.shuffle(&mut ks);
        ks.truncate(1 + r.usize(net::KINDS.len()));
        let calm = index % 16 == 0;
        let batches = (0..1 + r.usize(if thorough { 8 } else { 4 }))
            .map(|_| {
                let fetches = (0..1 + r.usize(if thorough { 6 } else { 4 }))
                    .map(|_| {
                        let feed = *r.pick(&["met", "met", "latest", "latest", "stations"]);
                        let n = if calm || feed == "stations" && r.chance(0.6) { 0 } else { *r.pick(&[0usize, 1, 1, 1, 2, 3, 5]) };
                        Fetch { feed: feed.into(), st: r.below(5), faults: (0..n).map(|_| net::gen_fault(r, &ks)).collect(), stale: if r.chance(0.15) { 1 + r.below(4) } else { 0 } }
                    })
                    .collect();
                Batch { dt: *r.pick(&[0, 60, 600, 1800, 3600, 21600, 86400, 31 * 86400]) + r.range(0, 59), seed: r.u64() >> 12, gap: common::gen_gap(r), fetches }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), batches }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut t = plan.start;
        let mut list: Vec<BuoyStation> = obs::all(plan.world).iter().map(|s| BuoyStation::new(s.id.clone(), s.lat, s.lon)).collect();
        for (bi, b) in plan.batches.iter().enumerate() {
            t = common::clamp_time(t + b.dt);
            simkit::seams::set_now(t, 0);
            ctx.out.sim_secs += b.dt.unsigned_abs();
            let ds: Vec<Deliv> = b.fetches.iter().map(|f| deliver(&plan, f, t, ctx)).collect();
            let stations = &list;
            let jobs: Vec<Box<dyn FnOnce() -> (Got, Option<FeatureCollection>) + Send>> = ds
                .iter()
                .map(|d| {
                    let (kind, text) = (d.kind, d.text.as_str());
                    Box::new(move || {
                        let g = decode(kind, text);
                        let m = match &g {
                            Got::Latest(v) => Some(latest_obs_feature_collection(stations, v)),
                            _ => None,
                        };
                        (g, m)
                    }) as Box<dyn FnOnce() -> _ + Send>
                })
                .collect();
            let got = common::together(b.seed, b.gap, jobs, ctx);
            let mut newer = None;
            for (fi, ((d, f), g)) in ds.iter().zip(&b.fetches).zip(got).enumerate() {
                ctx.checked();
                let what = format!("{} of station {} at {}", d.kind, d.st, t);
                let kinds: Vec<&str> = f.faults.iter().map(|f| f.k.as_str()).collect();
                let (g, m) = match g {
                    Ok(x) => x,
                    Err(p) => {
                        ctx.violate("panic", format!("{what}: {p}"));
                        continue;
                    }
                };
                let mut hr = Rng::keyed(&[plan.world, bi as u64, fi as u64, b.seed]);
                let recs: Vec<Rec> = match &g {
                    Got::Met(v) => v.iter().map(obs::met_seen).collect(),
                    Got::Latest(v) => v.iter().map(obs::latest_seen).collect(),
                    Got::List(l) => {
                        check_list(&plan, d, f, l, &what, ctx);
                        if let (Ok(l), true) = (l, d.pristine) {
                            newer = Some(l.stations.clone());
                        }
                        ctx.reach(format!("list {kinds:?} {}", l.is_ok()));
                        continue;
                    }
                };
                let exp = feeds::expect(d.kind, &d.text, &d.docs);
                let must = exp.iter().filter(|e| matches!(e, Exp::Must(_))).count();
                let may = exp.iter().filter(|e| matches!(e, Exp::May(n) if *n > 0)).count();
                ctx.probe_n("intact_rows", must as u64);
                ctx.probe_n("damaged_lines", may as u64);
                ctx.probe_n("records", recs.len() as u64);
                ctx.log(format!("{what}: faults {kinds:?}, {} lines ({must} intact rows, {may} damaged), {} records", exp.len(), recs.len()));
                for r in recs.iter().take(40) {
                    ctx.log(r.brief());
                }
                ctx.reach(format!("{} {kinds:?} {} {} {}", d.kind, must.min(4), may.min(3), recs.len().min(5)));
                if let Err(e) = match_delivery(&exp, &recs) {
                    ctx.violate(&format!("delivery:{}", d.kind), format!("{what}: {e}"));
                }
                let seen: Vec<Result<u64, String>> = match &g {
                    Got::Met(v) => v.iter().take(12).map(|x| catch(|| histories(x, &mut hr)).unwrap_or_else(Err)).collect(),
                    Got::Latest(v) => v.iter().take(12).map(|x| catch(|| histories(x, &mut hr)).unwrap_or_else(Err)).collect(),
                    _ => vec![],
                };
                for s in seen {
                    match s {
                        Ok(n) => ctx.probe_n("unit_switches", n),
                        Err(e) => ctx.violate("units", format!("{what}: {e}")),
                    }
                }
                if let (Got::Latest(v), Some(m)) = (&g, m) {
                    match merged(&list, v, &m) {
                        Ok(n) => ctx.probe_n("merged_stations", n),
                        Err(e) => ctx.violate("merge", format!("{what}: {e}")),
                    }
                }
            }
            if let Some(l) = newer {
                list = l;
            }
        }
    }
}

fn check_list(plan: &Plan, d: &Deliv, f: &Fetch, got: &Result<BuoyStations, String>, what: &str, ctx: &mut Ctx) {
    let cut = f.faults.len() == 1 && f.faults[0].k == "truncate" && !d.pristine && d.text.trim_end() != d.docs[0].text().trim_end();
    if d.pristine {
        ctx.probe("lists_whole");
        let want = obs::listed(plan.world, d.when);
        match got {
            Err(e) => ctx.violate("list-refused", format!("{what}: whole list refused: {e}")),
            Ok(l) => {
                if l.station_count != want.len() || l.stations.len() != want.len() {
                    return ctx.violate("list-count", format!("{what}: {} stations, count {}, published {}", l.stations.len(), l.station_count, want.len()));
                }
                for (s, b) in want.iter().zip(&l.stations) {
                    if let Some(e) = obs::list_rec(s).diff(&obs::list_seen(b)) {
                        ctx.violate("list-station", format!("{what}: station {}: {e}", s.id));
                    }
                    match l.find_station(&s.id) {
                        Some(x) if x.station_id == s.id => {}
                        x => ctx.violate("list-find", format!("{what}: looking for {} finds {:?}", s.id, x.map(|x| x.station_id))),
                    }
                }
                if l.find_station("").is_some() || l.find_station("no such station").is_some() {
                    ctx.violate("list-find", format!("{what}: finds stations that are not listed"));
                }
                let saved = catch(|| {
                    let text = serde_json::to_string(l).map_err(|e| e.to_string())?;
                    let back: BuoyStations = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                    let again = serde_json::to_string(&back).map_err(|e| e.to_string())?;
                    let same = back.station_count == l.station_count && back.stations.len() == l.stations.len();
                    let diff = back.stations.iter().zip(&l.stations).find_map(|(a, b)| obs::list_seen(b).diff(&obs::list_seen(a)));
                    match (same, diff, again == text) {
                        (true, None, true) => Ok(()),
                        (_, d, _) => Err(format!("loaded differently: {d:?}")),
                    }
                });
                match saved {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) | Err(e) => ctx.violate("list-save", format!("{what}: {e}")),
                }
            }
        }
        return;
    }
    match got {
        Err(e) => {
            ctx.probe("lists_torn");
            ctx.violate("list-panic", format!("{what}: a damaged list panics ({e}) instead of being refused with an error"))
        }
        Ok(l) => {
            ctx.log(format!("{what}: damaged list read as {} stations", l.stations.len()));
            if cut {
                ctx.violate("list-torn", format!("{what}: a list cut short was read as {} stations", l.stations.len()));
            }
        }
    }
    let _ = V::N;
}
