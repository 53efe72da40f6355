//! Clients that find a station or place, ask the servers for its data, and get exactly that.
use crate::common::{self, plan_from};
use crate::feeds::at;
use crate::jdocs::{self, JDoc, J};
use crate::rec::{Rec, V};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::ctx::catch;
use simkit::rng::{fnv, key, Rng};
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::location::Location;
use surfrs::station::Station;
use surfrs::tide_station::{DataInterval, TideDatum, TideStation, TideStations};
use surfrs::units::UnitSystem;
use surfrs::weather;

pub struct C20;

#[derive(Serialize, Deserialize)]
struct Ask {
    /// "tide", "hourly", "forecast", "grid"
    what: String,
    /// which station of the list, or which place
    st: u64,
    /// how the station is picked: 0 list order, 1 by id, 2 by a map feature, 3 kept from an earlier session, 4 made by the client
    how: u64,
    /// window: seconds from the client's now, and length
    from: i64,
    len: i64,
    datum: u64,
    interval: u64,
    metric: bool,
    /// what happens to answer n of this session: 0 none, else a fault
    faults: Vec<u64>,
}
#[derive(Serialize, Deserialize)]
struct Client {
    skew: i64,
    asks: Vec<Ask>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    clients: Vec<Client>,
}

const DATUMS: [(&str, f64); 6] = [("MHHW", -1.9), ("MHW", -1.7), ("MTL", 0.0), ("MSL", 0.1), ("MLW", 1.6), ("MLLW", 1.8)];
const INTERVALS: [&str; 3] = ["", "h", "hilo"];
fn datum(i: u64) -> TideDatum {
    match i % 6 {
        0 => TideDatum::MHHW,
        1 => TideDatum::MHW,
        2 => TideDatum::MTL,
        3 => TideDatum::MSL,
        4 => TideDatum::MLW,
        _ => TideDatum::MLLW,
    }
}
fn interval(i: u64) -> DataInterval {
    match i % 3 {
        0 => DataInterval::Default,
        1 => DataInterval::Hourly,
        _ => DataInterval::HiLo,
    }
}

#[derive(Clone, Debug)]
struct TrueStation {
    id: String,
    name: String,
    state: String,
    lat: f64,
    lng: f64,
}
fn stations(world: u64) -> Vec<TrueStation> {
    let mut r = Rng::keyed(&[world, fnv(b"stations")]);
    let n = 1 + r.usize(12);
    let mut v: Vec<TrueStation> = vec![];
    for i in 0..n {
        let mut id = match r.usize(4) {
            0 => format!("TEC{:04}", 2000 + r.below(3000)),
            1 => format!("ACT{:04}", r.below(10000)),
            _ => format!("{}", 8_000_000 + r.below(1_999_999)),
        };
        // ids that contain one another, or differ in the last place only
        if i > 0 && r.chance(0.3) {
            let p = &v[r.usize(v.len())].id;
            let more = match r.below(6) {
                0 | 1 => format!("{p}{}", r.below(10)),
                2 | 3 => format!("{}{}", &p[..p.len() - 1], r.below(10)),
                4 => format!("{p}{}", *r.pick(&["a", "B", "_1", "-2", ".0"])),
                _ => format!("{}{p}", *r.pick(&["0", "T", "x"])),
            };
            id = more;
        }
        if v.iter().any(|s| s.id == id) {
            continue;
        }
        let round = |x: f64| (x * 1e4).round() / 1e4;
        let name = if i > 0 && r.chance(0.15) { v[v.len() - 1].name.clone() } else { jdocs::words(&mut r) };
        v.push(TrueStation { id, name, state: (*r.pick(&["RI", "HI", "", "N/A"])).into(), lat: round(r.frange(-89.0, 89.0)), lng: round(r.frange(-180.0, 180.0)) });
    }
    v
}
fn station_list(world: u64, v: &[TrueStation]) -> JDoc {
    let mut r = Rng::keyed(&[world, fnv(b"list"), v.len() as u64]);
    let mut top = J::obj();
    let list = v
        .iter()
        .map(|s| {
            let mut o = J::obj();
            o.put("state", J::S(s.state.clone()), true);
            o.put("type", J::S("R".into()), false);
            o.put("timemeridian", J::Raw("0".into()), false);
            o.put("reference_id", J::S(s.id.clone()), true);
            o.put("id", J::S(s.id.clone()), true);
            o.put("name", J::S(s.name.clone()), true);
            o.put("lat", J::Raw(format!("{}", s.lat)), true);
            o.put("lng", J::Raw(format!("{}", s.lng)), true);
            o
        })
        .collect();
    top.put("count", J::Raw(format!("{}", v.len())), true);
    top.put("stations", J::A(list), true);
    top.shake(&mut r, true);
    JDoc { j: top, style: r.below(30), recs: vec![] }
}

/// The predictions of a station: instants and values in feet or metres above the datum.
fn predictions(world: u64, id: &str, from: i64, to: i64, datum: usize, interval: usize, metric: bool) -> Vec<Rec> {
    let k = Rng::keyed(&[world, fnv(id.as_bytes()), 7]).u64();
    let (amp, phase) = (0.5 + (k % 100) as f64 / 40.0, (k >> 20) % 44714);
    let mut out = vec![];
    let mut put = |t: i64, event: Option<bool>| {
        let x = ((t - phase as i64) as f64 / 44714.0 * std::f64::consts::TAU).cos();
        let v = amp * x + DATUMS[datum].1;
        let v = if metric { v * 0.3048 } else { v };
        let v = (v * 1000.0).round() / 1000.0;
        let mut r = Rec::new();
        r.put("date", V::I(t)).put("value", V::F(v, 0.0));
        r.put("event", match event {
            None => V::N,
            Some(h) => V::S(if h { "High" } else { "Low" }.into()),
        });
        out.push(r);
    };
    if interval == 2 {
        let mut n = (from - phase as i64).div_euclid(22357) - 1;
        loop {
            let t = (phase as i64 + n * 22357).div_euclid(60) * 60;
            if t > to {
                break;
            }
            if t >= from {
                put(t, Some(n.rem_euclid(2) == 0));
            }
            n += 1;
        }
    } else {
        let step = if interval == 1 { 3600 } else { 360 };
        let mut t = (from + step - 1).div_euclid(step) * step;
        while t <= to {
            put(t, None);
            t += step;
        }
    }
    out
}

/// The tide server: what it answers to an address (None: an address it does not know).
fn tide_server(world: u64, all: &[TrueStation], url: &str) -> Option<String> {
    let (path, query) = url.split_once('?').unwrap_or((url, ""));
    let path = path.strip_prefix("https://api.tidesandcurrents.noaa.gov/")?;
    if url.contains(|c: char| c.is_whitespace() || c.is_control()) {
        return None; // no request line holds such an address
    }
    let error = |m: &str| Some(format!("{{\"error\": {{\"message\":\"{m}\"}}}}"));
    let mut q: BTreeMap<String, String> = BTreeMap::new();
    for kv in query.split('&') {
        let (k, v) = kv.split_once('=')?;
        q.insert(k.to_ascii_lowercase(), v.replace("%20", " ").replace('+', " ").replace("%3A", ":").replace("%2F", "/"));
    }
    let get = |k: &str| q.get(k).map(|s| s.as_str()).unwrap_or("");
    match path {
        "mdapi/prod/webapi/stations.json" => (get("type") == "tidepredictions" && matches!(get("units"), "" | "english" | "metric")).then(|| station_list(world, all).text()),
        "api/prod/datagetter" => {
            let date = |s: &str| {
                let day = |f: &str| NaiveDate::parse_from_str(s, f).ok().and_then(|d| d.and_hms_opt(0, 0, 0));
                // the digits are all there: "0706", not "7 6"
                let d = ["%Y%m%d %H:%M", "%m/%d/%Y %H:%M"].iter().find_map(|f| NaiveDateTime::parse_from_str(s, f).ok().filter(|d| d.format(f).to_string() == s));
                d.or_else(|| day("%Y%m%d")).or_else(|| day("%m/%d/%Y")).map(|d| d.and_utc().timestamp())
            };
            let (Some(from), Some(to)) = (date(get("begin_date")), date(get("end_date"))) else { return error("Wrong Date: dates are not valid") };
            if get("product") != "predictions" {
                return error("Wrong Product");
            }
            let Some(st) = all.iter().find(|s| s.id == get("station")) else { return error("No Predictions data was found. Please make sure the Datum input is valid.") };
            let Some(d) = DATUMS.iter().position(|d| d.0 == get("datum")) else { return error("Wrong Datum") };
            let Some(i) = INTERVALS.iter().position(|i| *i == get("interval").to_ascii_lowercase()) else { return error("Wrong Interval") };
            let metric = match get("units") {
                "metric" => true,
                "english" => false,
                _ => return error("Wrong Units"),
            };
            let shift = match get("time_zone") {
                "gmt" | "" => 0,
                _ => -5 * 3600,
            };
            if get("format") != "json" {
                return error("Wrong Format");
            }
            if from > to {
                return error("The beginning date is after the end date");
            }
            if to - from > if i == 2 { 366 } else { 31 } * 86400 {
                return error("Range Limit Exceeded");
            }
            let rows = predictions(world, &st.id, from, to, d, i, metric);
            let mut r = Rng::keyed(&[world, fnv(url.as_bytes())]);
            let mut top = J::obj();
            let list = rows
                .iter()
                .map(|x| {
                    let mut o = J::obj();
                    if let (Some(V::I(t)), Some(V::F(v, _))) = (x.get("date"), x.get("value")) {
                        o.put("t", J::S(at(t + shift).format("%Y-%m-%d %H:%M").to_string()), true);
                        o.put("v", J::S(format!("{v:.3}")), true);
                    }
                    if let Some(V::S(e)) = x.get("event") {
                        o.put("type", J::S(e[..1].into()), false);
                    }
                    o
                })
                .collect();
            top.put("predictions", J::A(list), true);
            top.shake(&mut r, false);
            Some(JDoc { j: top, style: r.below(30), recs: vec![] }.text())
        }
        _ => None,
    }
}

/// The forecast office and cell of a place.
fn cell(world: u64, lat: f64, lng: f64) -> (String, u64, u64) {
    let k = Rng::keyed(&[world, (lat * 1e4).round() as i64 as u64, (lng * 1e4).round() as i64 as u64]).u64();
    (["BOX", "OKX", "HFO", "PQR", "GYX"][(k % 5) as usize].to_string(), (k >> 8) % 400, (k >> 24) % 400)
}

/// The weather server.
fn weather_server(world: u64, t: i64, url: &str) -> Option<String> {
    let path = url.strip_prefix("https://api.weather.gov/")?;
    let parts: Vec<&str> = path.trim_end_matches('/').split('/').collect();
    let pair = |s: &str| s.split_once(',').map(|(a, b)| (a.to_string(), b.to_string()));
    match parts.as_slice() {
        ["points", p] => {
            let (a, b) = pair(p)?;
            let (lat, lng): (f64, f64) = (a.parse().ok()?, b.parse().ok()?);
            if !(-90.0..=90.0).contains(&lat) || !(-180.0..=180.0).contains(&lng) {
                return None;
            }
            let (o, x, y) = cell(world, lat, lng);
            let mut r = Rng::keyed(&[world, fnv(url.as_bytes())]);
            let mut p = J::obj();
            p.put("cwa", J::S(o.clone()), false);
            p.put("gridId", J::S(o), true);
            p.put("gridX", J::Raw(x.to_string()), true);
            p.put("gridY", J::Raw(y.to_string()), true);
            let mut top = J::obj();
            top.put("id", J::S(url.into()), false);
            top.put("properties", p, true);
            top.shake(&mut r, true);
            Some(JDoc { j: top, style: r.below(30), recs: vec![] }.text())
        }
        ["gridpoints", o, p, rest @ ..] => {
            let (a, b) = pair(p)?;
            let (x, y): (u64, u64) = (a.parse().ok()?, b.parse().ok()?);
            match rest {
                [] => Some(format!("{{\"raw\": \"{o} {x} {y}\"}}")),
                ["forecast"] => Some(jdocs::publish("weather", key(&[world, 12]), place_key(o, x, y), t).text()),
                ["forecast", "hourly"] => Some(jdocs::publish("weather", key(&[world, 1]), place_key(o, x, y), t).text()),
                _ => None,
            }
        }
        _ => None,
    }
}
fn place_key(o: &str, x: u64, y: u64) -> u64 {
    key(&[fnv(o.as_bytes()), x, y])
}

#[derive(Default)]
struct Report {
    log: Vec<String>,
    bad: Vec<(&'static str, String)>,
    faults: Vec<&'static str>,
    probes: Vec<String>,
    reach: Vec<String>,
    requests: u64,
}

/// One session's requests pass through here: the answer, or what went wrong on the way.
struct Line<'a> {
    world: u64,
    now: i64,
    all: &'a [TrueStation],
    faults: &'a [u64],
    sent: usize,
}
impl Line<'_> {
    fn get(&mut self, url: &str, rep: &mut Report) -> Result<String, String> {
        let f = self.faults.get(self.sent).copied().unwrap_or(0);
        self.sent += 1;
        rep.requests += 1;
        let whole = tide_server(self.world, self.all, url).or_else(|| weather_server(self.world, self.now, url));
        let Some(mut text) = whole else { return Err(format!("404 {url}")) };
        match f % 8 {
            1 => {
                rep.faults.push("no_answer");
                return Err("timeout".into());
            }
            2 => {
                rep.faults.push("error_page");
                return Ok("<html><head><title>502 Bad Gateway</title></head></html>".into());
            }
            3 => {
                rep.faults.push("cut");
                let mut n = (f / 8) as usize % text.len();
                while !text.is_char_boundary(n) {
                    n -= 1;
                }
                text.truncate(n);
            }
            4 => {
                rep.faults.push("server_error");
                return Ok("{\"error\": {\"message\":\"Internal error\"}}".into());
            }
            5 => {
                rep.faults.push("empty");
                return Ok(String::new());
            }
            _ => {}
        }
        Ok(text)
    }
    /// Asks until something usable arrives; whatever fails counts as a failed attempt.
    fn fetch<T>(&mut self, url: &str, rep: &mut Report, decode: impl Fn(&str) -> Result<T, String>) -> Result<T, String> {
        let mut last = String::new();
        // faults stop after the listed ones: one round more must do
        for _ in 0..self.faults.len() + 2 {
            match self.get(url, rep) {
                Err(e) if e.starts_with("404") => return Err(e),
                Err(e) => last = e,
                Ok(text) => match catch(|| decode(&text)) {
                    Ok(Ok(x)) => return Ok(x),
                    Ok(Err(e)) | Err(e) => last = e,
                },
            }
        }
        Err(last)
    }
}

/// A station as the client got to know it.
fn pick(a: &Ask, list: &TideStations, truth: &TrueStation, kept: &Option<TideStation>, rep: &mut Report) -> Option<TideStation> {
    rep.probes.push(format!("picked_{}", a.how % 5));
    match a.how % 5 {
        1 => list.find_station_by_id(&truth.id),
        2 => {
            // from a map: the marker at the place, then the id written on it
            let f = list.stations.iter().map(|s| serde_json::to_value(s.as_feature()).unwrap_or_default()).find(|f| {
                let c = &f["geometry"]["coordinates"];
                f["geometry"]["type"] == "Point" && c[0].as_f64() == Some(truth.lng) && c[1].as_f64() == Some(truth.lat)
            });
            let id = f.as_ref().and_then(|f| f["properties"]["id"].as_str().map(|s| s.to_string()));
            let Some(id) = id else {
                rep.bad.push(("map", format!("no marker at {} {}", truth.lat, truth.lng)));
                return None;
            };
            if f.as_ref().is_some_and(|f| f["properties"]["name"] != truth.name.as_str() || f["properties"]["state"] != truth.state.as_str()) {
                rep.bad.push(("map", format!("the marker of {id} says {}", f.unwrap()["properties"])));
            }
            list.find_station_by_id(&id)
        }
        3 if kept.as_ref().is_some_and(|k| k.station_id == truth.id) => {
            // through a save of the last session
            rep.faults.push("restart");
            kept.as_ref().and_then(|k| serde_json::to_string(k).ok()).and_then(|s| serde_json::from_str(&s).ok())
        }
        4 => Some(TideStation::new(&truth.id, &Location::new(truth.lat, truth.lng, truth.name.clone()), &truth.state)),
        _ => list.stations.iter().find(|s| s.station_id == truth.id).cloned(),
    }
}

fn session(plan: &Plan, c: &Client) -> Report {
    let mut rep = Report::default();
    let all = stations(plan.world);
    let mut kept: Option<TideStation> = None;
    for (n, a) in c.asks.iter().enumerate() {
        let now = common::clamp_time(plan.start + c.skew + n as i64 * 600);
        let mut line = Line { world: plan.world, now: common::clamp_time(plan.start), all: &all, faults: &a.faults, sent: 0 };
        let who = format!("ask {n} ({})", a.what);
        if a.what == "tide" {
            let url = TideStations::tide_prediction_stations_url();
            let list = match line.fetch(&url, &mut rep, |t| Ok(TideStations::from_raw_data(t))) {
                Ok(l) => l,
                Err(e) => {
                    rep.bad.push(("list", format!("{who}: no station list from {url}: {e}")));
                    continue;
                }
            };
            if list.stations.len() != all.len() {
                rep.bad.push(("list", format!("{who}: {} stations of {}", list.stations.len(), all.len())));
                continue;
            }
            let t = &all[(a.st % all.len() as u64) as usize].id;
            let others = ["no such station".to_string(), String::new(), format!("{t}9x"), t[..t.len() - 1].to_string(), t[1..].to_string(), format!(" {t}"), format!("0{t}")];
            if others.iter().any(|o| !all.iter().any(|s| s.id == *o) && list.find_station_by_id(o).is_some()) {
                rep.bad.push(("find", "a station that is not in the list was found".into()));
            }
            let truth = &all[(a.st % all.len() as u64) as usize];
            let Some(st) = pick(a, &list, truth, &kept, &mut rep) else {
                rep.bad.push(("find", format!("{who}: station {} not found", truth.id)));
                continue;
            };
            if st.station_id != truth.id || st.id() != truth.id || st.name() != truth.name || st.name != truth.name || (st.latitude, st.longitude) != (truth.lat, truth.lng) || st.state != truth.state {
                rep.bad.push(("find", format!("{who}: asked for {truth:?}, got {st:?}")));
                continue;
            }
            let loc = st.location();
            if (loc.latitude, loc.longitude) != (truth.lat, truth.lng) || loc.name != truth.name {
                rep.bad.push(("find", format!("{who}: {truth:?} is located at {loc:?}")));
            }
            let again = TideStations::from_stations(list.stations.clone());
            if again.station_count != all.len() {
                rep.bad.push(("list", format!("{who}: a list of {} says {}", all.len(), again.station_count)));
            }
            let (d, i) = ((a.datum % 6) as usize, (a.interval % 3) as usize);
            let max = if i == 2 { 300 } else { 30 } * 86400;
            let from = common::clamp_time(now + a.from);
            let to = common::clamp_time(from + a.len.clamp(0, max));
            let day = |t: i64| -> DateTime<Utc> { at(t) };
            let system = if a.metric { UnitSystem::Metric } else { UnitSystem::English };
            let url = st.tidal_data_url(&day(from), &day(to), &datum(a.datum), &interval(a.interval), &system);
            let want = predictions(plan.world, &truth.id, from.div_euclid(60) * 60, to.div_euclid(60) * 60, d, i, a.metric);
            rep.reach.push(format!("{} {} {}", INTERVALS[i], d, want.len().min(9)));
            rep.probes.push(format!("tide_{}", INTERVALS[i]));
            if at(from).format("%Y%m").to_string() != at(to).format("%Y%m").to_string() {
                rep.probes.push("month_crossed".into());
            }
            match line.fetch(&url, &mut rep, |t| jdocs::decode("tides", t)) {
                Err(e) => rep.bad.push(("refused", format!("{who}: {url} for station {} {} to {}: {e}", truth.id, day(from), day(to)))),
                Ok(got) => compare(&who, &url, &want, &got, &mut rep),
            }
            kept = Some(st);
        } else {
            let mut r = Rng::keyed(&[plan.world, a.st, 3]);
            let (lat, lng) = match r.usize(5) {
                0 => (r.range(-89, 89) as f64, r.range(-179, 179) as f64),
                1 => (r.frange(-0.01, 0.01), r.frange(-0.01, 0.01)),
                _ => (r.frange(-89.0, 89.0), r.frange(-179.0, 179.0)),
            };
            let p = [1.0, 1e2, 1e4][(a.st % 3) as usize];
            let (lat, lng) = ((lat * p).round() / p + 0.0, (lng * p).round() / p + 0.0);
            let url = weather::create_points_url(&Location::new(lat, lng, "somewhere".into()));
            let (o, x, y) = cell(plan.world, lat, lng);
            let grid = line.fetch(&url, &mut rep, |t| surfrs::data::nws_weather_forecast_data_record::NwsGridPointData::from_json(t).map_err(|e| e.to_string()));
            let g = match grid {
                Ok(g) => g.properties,
                Err(e) => {
                    rep.bad.push(("refused", format!("{who}: {url}: {e}")));
                    continue;
                }
            };
            if (g.grid_id.as_str(), g.grid_x as u64, g.grid_y as u64) != (o.as_str(), x, y) {
                rep.bad.push(("content", format!("{who}: {url} for {lat} {lng} led to {} {} {} instead of {o} {x} {y}", g.grid_id, g.grid_x, g.grid_y)));
                continue;
            }
            rep.probes.push(a.what.clone());
            let (url, want) = match a.what.as_str() {
                "grid" => {
                    let url = weather::create_gridpoints_url(&g.grid_id, &g.grid_x, &g.grid_y);
                    let want = format!("{{\"raw\": \"{o} {x} {y}\"}}");
                    match line.fetch(&url, &mut rep, |t| if t.starts_with("{\"raw\"") && t.ends_with('}') { Ok(t.to_string()) } else { Err("cut".into()) }) {
                        Ok(t) if t == want => rep.log.push(format!("{who}: {t}")),
                        Ok(t) => rep.bad.push(("content", format!("{who}: {url} gave {t} instead of {want}"))),
                        Err(e) => rep.bad.push(("refused", format!("{who}: {url}: {e}"))),
                    }
                    continue;
                }
                "forecast" => (weather::create_forecast_url(&g.grid_id, &g.grid_x, &g.grid_y), 12),
                _ => (weather::create_hourly_forecast_url(&g.grid_id, &g.grid_x, &g.grid_y), 1),
            };
            let want = jdocs::publish("weather", key(&[plan.world, want]), place_key(&o, x, y), line.now).recs;
            match line.fetch(&url, &mut rep, |t| jdocs::decode("weather", t)) {
                Err(e) => rep.bad.push(("refused", format!("{who}: {url}: {e}"))),
                Ok(got) => compare(&who, &url, &want, &got, &mut rep),
            }
        }
    }
    rep
}

fn compare(who: &str, url: &str, want: &[Rec], got: &[Rec], rep: &mut Report) {
    rep.log.push(format!("{who}: {} entries, last {}", got.len(), got.last().map(|g| g.brief()).unwrap_or_default()));
    if want.len() != got.len() {
        rep.bad.push(("content", format!("{who}: {url} gave {} entries instead of {}", got.len(), want.len())));
    }
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if let Some(e) = a.diff(b) {
            rep.bad.push(("content", format!("{who}: {url}: entry {i}: {e}")));
            return;
        }
    }
}

impl Property for C20 {
    fn info(&self) -> Info {
        Info {
            id: "C20",
            rule: "A run is up to four clients with their own clocks, a tide server and a weather server. Clients fetch the station list, pick stations in order, by id, off map markers, from a save of an earlier session or made up themselves, ask for predictions of a window, datum, interval and units; or find the forecast cell of a place and fetch its forecasts. Answers time out, are replaced by error pages, are cut or empty; clients retry. The servers read the addresses the way the public services do; what the client ends up with is compared with what it meant to ask for. Non-trivial: a fault was injected or several asks. State signature: intervals, datums, sizes, faults.",
            real: &["TideStation/TideStations lookups and addresses", "weather addresses", "JSON decoders", "map features"],
            stub: &["tide and weather servers", "network (fault injector)", "client scheduler", "clock"],
            assumptions: &["The tide service knows metric and english units only and windows up to its published limits.", "Stations' ids are unique in a list and need no URL escaping, as those of the service."],
            quick_runs: 8000,
            thorough_runs: 300_000,
            digest_is_property: false,
            expect_probes: &["picked_0", "picked_1", "picked_2", "picked_3", "picked_4", "tide_", "tide_h", "tide_hilo", "month_crossed", "hourly", "forecast", "grid"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let calm = index % 8 == 0;
        let clients = (0..1 + r.usize(4))
            .map(|_| Client {
                skew: *r.pick(&[0, 0, 0, 7, -3600, 86400, -300 * 86400]),
                asks: (0..1 + r.usize(if thorough { 12 } else { 5 }))
                    .map(|_| Ask {
                        what: r.pick(&["tide", "tide", "tide", "hourly", "forecast", "grid"]).to_string(),
                        st: if r.chance(0.5) { r.below(3) } else { r.below(1000) },
                        how: r.below(5),
                        from: *r.pick(&[0, -3600, 3600, -86400, -31 * 86400, 40 * 86400]) + r.range(-4000, 4000),
                        len: *r.pick(&[0, 59, 60, 3599, 6 * 3600, 86400, 7 * 86400, 30 * 86400, 120 * 86400]) + r.range(0, 60),
                        datum: r.below(6),
                        interval: r.below(3),
                        metric: r.chance(0.5),
                        faults: if calm { vec![] } else { (0..r.usize(5)).map(|_| r.below(8 * 4000)).collect() },
                    })
                    .collect(),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r).max(8), clients }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        simkit::seams::set_now(common::clamp_time(plan.start), 0);
        let p = &plan;
        let jobs: Vec<Box<dyn FnOnce() -> Report + Send>> = plan.clients.iter().map(|c| Box::new(move || session(p, c)) as Box<dyn FnOnce() -> _ + Send>).collect();
        let got = common::together(plan.seed, plan.gap, jobs, ctx);
        for (i, g) in got.into_iter().enumerate() {
            let rep = match g {
                Ok(x) => x,
                Err(e) => {
                    ctx.violate("panic", format!("client {i}: {e}"));
                    continue;
                }
            };
            ctx.out.sim_secs += 600 * plan.clients[i].asks.len() as u64;
            rep.log.iter().for_each(|l| ctx.log(format!("client {i}: {l}")));
            rep.faults.iter().for_each(|f| ctx.fault(f));
            rep.probes.iter().for_each(|p| ctx.probe(p));
            rep.reach.iter().for_each(|x| ctx.reach(x.clone()));
            ctx.reach(format!("{:?} {}", rep.faults, rep.requests));
            (0..rep.requests).for_each(|_| ctx.checked());
            if plan.clients[i].asks.len() > 1 {
                ctx.out.nontrivial = true;
            }
            for (sig, m) in rep.bad {
                ctx.violate(sig, format!("client {i}: {m}"));
            }
        }
    }
}
