//! Publishers of the JSON documents (tides, tide stations, weather) with the truth they say.
use crate::feeds::at;
use crate::rec::{Rec, V};
use chrono::FixedOffset;
use simkit::rng::{fnv, Rng};
use surfrs::data::nws_weather_forecast_data_record::{NwsGridPointData, NwsWeatherForecastDataRecordCollection};
use surfrs::data::tidal_data_record::{TidalDataRecordCollection, TidalEvent};
use surfrs::tide_station::TideStations;

pub const KINDS: &[&str] = &["tides", "tide_stations", "gridpoint", "weather"];

/// A JSON value whose text we control (field order, number style, spacing).
#[derive(Clone, Debug)]
pub enum J {
    Raw(String),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J, bool)>),
}

impl J {
    pub fn obj() -> J {
        J::O(vec![])
    }
    pub fn put(&mut self, k: &str, v: J, required: bool) {
        if let J::O(f) = self {
            f.push((k.to_string(), v, required));
        }
    }
    /// Shuffles the order of fields and mixes in unknown ones.
    pub fn shake(&mut self, r: &mut Rng, extra: bool) {
        match self {
            J::A(v) => v.iter_mut().for_each(|x| x.shake(r, extra)),
            J::O(f) => {
                f.iter_mut().for_each(|x| x.1.shake(r, extra));
                if extra && r.chance(0.4) {
                    let v = match r.below(6) {
                        0 => J::Raw("null".into()),
                        1 => J::Raw("[1, {\"v\": 2}, \"t\"]".into()),
                        2 => J::Raw("{\"id\": {\"lat\": []}}".into()),
                        3 => J::Raw("-1.5e300".into()),
                        4 => J::S("\"}],{\\".into()),
                        _ => J::Raw("true".into()),
                    };
                    f.push((format!("x-{}", r.below(100)), v, false));
                }
                if r.chance(0.6) {
                    r.shuffle(f);
                }
            }
            _ => {}
        }
    }
    pub fn text(&self, style: u64, depth: usize, out: &mut String) {
        let nl = |out: &mut String, d: usize| {
            if style % 3 == 0 {
                out.push('\n');
                out.push_str(&" ".repeat(4 * d));
            } else if style % 3 == 1 {
                out.push(' ');
            }
        };
        match self {
            J::Raw(s) => out.push_str(s),
            J::S(s) => quote(s, style, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    nl(out, depth + 1);
                    x.text(style, depth + 1, out);
                }
                if !v.is_empty() {
                    nl(out, depth);
                }
                out.push(']');
            }
            J::O(f) => {
                out.push('{');
                for (i, (k, x, _)) in f.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    nl(out, depth + 1);
                    quote(k, style, out);
                    out.push(':');
                    if style % 2 == 0 {
                        out.push(' ');
                    }
                    x.text(style, depth + 1, out);
                }
                if !f.is_empty() {
                    nl(out, depth);
                }
                out.push('}');
            }
        }
    }
    /// Paths to the required fields.
    pub fn required(&self, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        match self {
            J::A(v) => {
                for (i, x) in v.iter().enumerate() {
                    path.push(i);
                    x.required(path, out);
                    path.pop();
                }
            }
            J::O(f) => {
                for (i, (_, x, req)) in f.iter().enumerate() {
                    path.push(i);
                    if *req {
                        out.push(path.clone());
                    }
                    x.required(path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    /// Takes the field at `path` out, or renames it, or replaces its value by one of a wrong type.
    pub fn spoil(&mut self, path: &[usize], how: u64) -> String {
        match self {
            J::A(v) => v[path[0]].spoil(&path[1..], how),
            J::O(f) => {
                if path.len() == 1 {
                    let k = f[path[0]].0.clone();
                    const READ: &[&str] = &["t", "v", "type", "lat", "lng", "gridX", "gridY", "startTime", "endTime", "isDaytime", "temperature", "value", "number", "generatedAt", "updateTime"];
                    match how % 4 {
                        // what stands there is no number, time or kind
                        3 if READ.contains(&k.as_str()) => f[path[0]].1 = J::S(["", "n/a", "--", "1.2.3"][how as usize / 4 % 4].into()),
                        0 => {
                            f.remove(path[0]);
                        }
                        1 => f[path[0]].0 = format!("{k}_"),
                        _ => f[path[0]].1 = J::Raw("[true]".into()),
                    }
                    k
                } else {
                    f[path[0]].1.spoil(&path[1..], how)
                }
            }
            _ => String::new(),
        }
    }
}

fn quote(s: &str, style: u64, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '/' if style % 5 == 0 => out.push_str("\\/"),
            c if (c as u32) > 127 && style % 2 == 1 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub struct JDoc {
    pub j: J,
    pub style: u64,
    pub recs: Vec<Rec>,
}
impl JDoc {
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.j.text(self.style, 0, &mut s);
        s
    }
}

pub fn words(r: &mut Rng) -> String {
    let w = ["Newport", "Île", "St. John's", "a \"b\"", "Nonopapa, Niihau Island", "", "C:\\x", "Beach 🌊", "n/a", "line\nbreak", "Mostly Clear", "0", "null"];
    (0..1 + r.usize(2)).map(|_| *r.pick(&w)).collect::<Vec<_>>().join(" ")
}

/// A number written in one of the styles JSON allows; the value it says.
fn number(r: &mut Rng, lo: f64, hi: f64, digits: i32) -> (String, f64) {
    let p = 10f64.powi(digits);
    let v = (r.frange(lo, hi) * p).round() / p;
    let s = match r.below(5) {
        0 => format!("{}", v.round()),
        1 => format!("{v:.0$}", digits as usize + 4),
        2 => format!("{v:e}"),
        _ => format!("{v:.0$}", digits as usize),
    };
    let s = if s == "-0" { "0".to_string() } else { s };
    let v = s.parse().unwrap();
    (s, v)
}

pub fn publish(kind: &str, world: u64, st: u64, t: i64) -> JDoc {
    let mut r = Rng::keyed(&[world, fnv(kind.as_bytes()), st, (t.div_euclid(3600)) as u64]);
    let mut recs = vec![];
    let mut top = J::obj();
    match kind {
        "tides" => {
            let n = if r.chance(0.03) { 240 + r.usize(800) } else { r.usize(40) };
            let hilo = r.chance(0.5);
            let alternating = r.chance(0.8);
            let step = if hilo { 6 * 3600 + 720 } else { *r.pick(&[360, 360, 60, 3600]) };
            let as_text = r.chance(0.7);
            let mut v = vec![];
            for i in 0..n {
                let tt = (t + i as i64 * step).div_euclid(60) * 60;
                let (s, x) = number(&mut r, -3.0, 12.0, 3);
                let mut o = J::obj();
                o.put("t", J::S(at(tt).format("%Y-%m-%d %H:%M").to_string()), true);
                let text = if as_text { true } else { r.chance(0.2) };
                o.put("v", if text { J::S(s) } else { J::Raw(s) }, true);
                let mut rec = Rec::new();
                rec.put("date", V::I(tt)).put("value", V::F(x, 0.0));
                if hilo {
                    let high = if alternating { i % 2 == 0 } else { r.chance(0.5) };
                    o.put("type", J::S(if high { "H" } else { "L" }.into()), false);
                    rec.put("event", V::S(if high { "High" } else { "Low" }.into()));
                } else {
                    if r.chance(0.05) {
                        o.put("type", J::Raw("null".into()), false);
                    }
                    rec.put("event", V::N);
                }
                v.push(o);
                recs.push(rec);
            }
            top.put("predictions", J::A(v), true);
        }
        "tide_stations" => {
            let n = if r.chance(0.02) { 300 + r.usize(900) } else { r.usize(25) };
            let mut v = vec![];
            for _ in 0..n {
                let mut o = J::obj();
                let id = format!("{}", 1_000_000 + r.below(8_999_999));
                let id = if r.chance(0.2) { format!("TEC{}", r.below(9999)) } else { id };
                let (la, lav) = number(&mut r, -90.0, 90.0, 4);
                let (lo, lov) = number(&mut r, -180.0, 180.0, 4);
                let (name, state, refid) = (words(&mut r), (*r.pick(&["RI", "HI", "", "N/A"])).to_string(), format!("{}", r.below(9_999_999)));
                o.put("state", J::S(state.clone()), true);
                o.put("tidepredoffsets", J::Raw("{\"self\": \"https://api.tidesandcurrents.noaa.gov/x.json\"}".into()), false);
                o.put("type", J::S("S".into()), false);
                o.put("timemeridian", J::Raw("-150".into()), false);
                o.put("reference_id", J::S(refid.clone()), true);
                o.put("timezonecorr", J::Raw("-10".into()), false);
                o.put("id", J::S(id.clone()), true);
                o.put("name", J::S(name.clone()), true);
                o.put("lat", J::Raw(la), true);
                o.put("lng", J::Raw(lo), true);
                o.put("products", J::Raw("null".into()), false);
                let mut rec = Rec::new();
                rec.put("id", V::S(id)).put("name", V::S(name)).put("state", V::S(state)).put("ref", V::S(refid));
                rec.put("lat", V::F(lav, 0.0)).put("lng", V::F(lov, 0.0));
                v.push(o);
                recs.push(rec);
            }
            let mut rec = Rec::new();
            rec.put("count", V::I(n as i64));
            recs.push(rec);
            top.put("count", J::Raw(format!("{n}")), true);
            top.put("units", J::Raw("null".into()), false);
            top.put("stations", J::A(v), true);
        }
        "gridpoint" => {
            let (id, x, y) = ((*r.pick(&["BOX", "OKX", "HFO", "PQR"])).to_string(), r.below(400), r.below(400));
            let mut p = J::obj();
            p.put("cwa", J::S(id.clone()), false);
            p.put("gridId", J::S(id.clone()), true);
            p.put("gridX", J::Raw(format!("{x}")), true);
            p.put("gridY", J::Raw(format!("{y}")), true);
            p.put("timeZone", J::S("America/New_York".into()), false);
            top.put("@context", J::Raw("[\"https://geojson.org/geojson-ld/geojson-context.jsonld\", {\"@version\": \"1.1\"}]".into()), false);
            top.put("properties", p, true);
            let mut rec = Rec::new();
            rec.put("id", V::S(id)).put("x", V::I(x as i64)).put("y", V::I(y as i64));
            recs.push(rec);
        }
        _ => {
            let n = if r.chance(0.05) { 156 } else { r.usize(20) };
            // hourly, or a longer or shorter pace, with gaps or not
            let pace = *r.pick(&[3600, 3600, 3600, 3600, 1800, 3 * 3600, 12 * 3600]);
            let lasts = if r.chance(0.8) { pace } else { *r.pick(&[60, 1800, 7200, 6 * 3600, 13 * 3600, 36 * 3600]) };
            let first = if r.chance(0.7) { 1 } else { r.usize(200) };
            let back = r.chance(0.05);
            let off = *r.pick(&[0, -4, -5, -10, 1, 9, 12, -11]);
            let half = if r.chance(0.2) { 1800 } else { 0 };
            let zone = FixedOffset::east_opt(off * 3600 + half).unwrap();
            let si = r.chance(0.3);
            let when = |tt: i64, r: &mut Rng| {
                let s = at(tt).with_timezone(&zone).format("%Y-%m-%dT%H:%M:%S%:z").to_string();
                if off == 0 && half == 0 && r.chance(0.5) { s.replace("+00:00", "Z") } else { s }
            };
            let wmo = |unit: &str, s: String| {
                let mut o = J::obj();
                o.put("unitCode", J::S(unit.into()), true);
                o.put("value", J::Raw(s), true);
                o
            };
            let mut v = vec![];
            for i in 0..n {
                let k = if back { n - 1 - i } else { i };
                let t0 = t.div_euclid(3600) * 3600 + k as i64 * pace;
                let mut o = J::obj();
                let (ts, tv) = number(&mut r, -30.0, 110.0, 0);
                let (ds, dv) = number(&mut r, -20.0, 30.0, 9);
                let (hs, hv) = number(&mut r, 0.0, 103.0, 0);
                let (ps, _) = number(&mut r, 0.0, 100.0, 0);
                // an office may have no value for a period
                let gone: Vec<bool> = (0..3).map(|_| r.chance(0.06)).collect();
                let or_null = |i: usize, s: String| if gone[i] { "null".to_string() } else { s };
                let day = r.chance(0.5);
                let wind = r.below(60);
                let gusty = if r.chance(0.15) { format!(" to {}", wind + 1 + r.below(20)) } else { String::new() };
                let card = r.usize(16);
                let calm = r.chance(0.05);
                let (short, detail, icon) = (words(&mut r), words(&mut r), format!("https://api.weather.gov/icons/land/{}/{}?size=small", if day != r.chance(0.05) { "day" } else { "night" }, *r.pick(&["few", "rain_showers,40/tsra,60", "bkn"])));
                o.put("number", J::Raw(format!("{}", i + first)), true);
                o.put("name", J::S(if r.chance(0.5) { String::new() } else { words(&mut r) }), true);
                o.put("startTime", J::S(when(t0, &mut r)), true);
                o.put("endTime", J::S(when(t0 + lasts, &mut r)), true);
                o.put("isDaytime", J::Raw(format!("{day}")), true);
                o.put("temperature", J::Raw(ts), true);
                o.put("temperatureUnit", J::S(if si { "C" } else { "F" }.into()), true);
                match r.below(3) {
                    0 => o.put("temperatureTrend", J::S("rising".into()), false),
                    1 => o.put("temperatureTrend", J::Raw("null".into()), false),
                    _ => {}
                }
                o.put("probabilityOfPrecipitation", wmo("wmoUnit:percent", or_null(0, ps)), true);
                o.put("dewpoint", wmo("wmoUnit:degC", or_null(1, ds)), true);
                o.put("relativeHumidity", wmo("wmoUnit:percent", or_null(2, hs)), true);
                o.put("windSpeed", J::S(format!("{wind}{gusty} {}", if si { "kt" } else { "mph" })), true);
                o.put("windDirection", J::S(if calm { String::new() } else { crate::feeds::CARDINALS[card].to_string() }), true);
                o.put("icon", J::S(icon.clone()), true);
                o.put("shortForecast", J::S(short.clone()), true);
                o.put("detailedForecast", J::S(detail.clone()), true);
                v.push(o);
                let mut rec = Rec::new();
                rec.put("start", V::I(t0)).put("end", V::I(t0 + lasts)).put("day", V::I(day as i64));
                let mut m = |k: &str, x: f64, u: &str| {
                    rec.put(k, V::F(x, 0.0));
                    rec.put(format!("{k}.unit"), V::S(u.into()));
                };
                m("temp", tv, if si { "Celsius" } else { "Fahrenheit" });
                m("dew", dv, "Celsius");
                m("hum", hv, "Percent");
                m("wind", wind as f64, if si { "Knots" } else { "MilesPerHour" });
                for (g, k) in [(gone[1], "dew"), (gone[2], "hum")] {
                    if let (true, Some(f)) = (g, rec.f.iter_mut().find(|f| f.0 == k)) {
                        f.1 = V::N;
                    }
                }
                rec.put("dir", if calm { V::N } else { V::A(card as f64 * 22.5, 2.0) });
                rec.put("icon", V::S(icon)).put("short", V::S(short)).put("detail", V::S(detail));
                recs.push(rec);
            }
            let mut p = J::obj();
            p.put("units", J::S(if si { "si" } else { "us" }.into()), true);
            p.put("forecastGenerator", J::S("HourlyForecastGenerator".into()), true);
            p.put("generatedAt", J::S(when(t, &mut r)), true);
            p.put("updateTime", J::S(when(t - 5000, &mut r)), true);
            p.put("validTimes", J::S("2024-09-14T10:00:00+00:00/P8DT6H".into()), false);
            p.put("elevation", wmo("wmoUnit:m", r.pick(&["0", "12.192", "null"]).to_string()), true);
            p.put("periods", J::A(v), true);
            top.put("type", J::S("Feature".into()), false);
            top.put("geometry", J::Raw("{\"type\": \"Polygon\", \"coordinates\": [[[-71.4, 41.4], [-71.5, 41.4]]]}".into()), false);
            top.put("properties", p, true);
        }
    }
    let extra = r.chance(0.6);
    top.shake(&mut r, extra);
    JDoc { j: top, style: r.below(30), recs }
}

/// Decodes a document; Err is a refusal. A panic of TideStations::from_raw_data on a
/// document that is not JSON of the right shape is handed back as a refusal too, with the
/// panic message, because its signature leaves it no other way to refuse.
pub fn decode(kind: &str, text: &str) -> Result<Vec<Rec>, String> {
    match kind {
        "tides" => {
            let c = TidalDataRecordCollection::from_json(text).map_err(|e| e.to_string())?;
            Ok(c.records
                .iter()
                .map(|t| {
                    let mut r = Rec::new();
                    r.put("date", crate::feeds::ts(&t.date)).put("value", V::F(t.value, 0.0));
                    r.put("event", match t.event {
                        None => V::N,
                        Some(TidalEvent::High) => V::S("High".into()),
                        Some(TidalEvent::Low) => V::S("Low".into()),
                    });
                    r
                })
                .collect())
        }
        "tide_stations" => {
            let c = TideStations::from_raw_data(text);
            let mut v: Vec<Rec> = c
                .stations
                .iter()
                .map(|s| {
                    let mut r = Rec::new();
                    r.put("id", V::S(s.station_id.clone())).put("name", V::S(s.name.clone())).put("state", V::S(s.state.clone())).put("ref", V::S(s.reference_id.clone()));
                    r.put("lat", V::F(s.latitude, 0.0)).put("lng", V::F(s.longitude, 0.0));
                    r
                })
                .collect();
            let mut r = Rec::new();
            r.put("count", V::I(c.station_count as i64));
            v.push(r);
            Ok(v)
        }
        "gridpoint" => {
            let g = NwsGridPointData::from_json(text).map_err(|e| e.to_string())?;
            let mut r = Rec::new();
            r.put("id", V::S(g.properties.grid_id)).put("x", V::I(g.properties.grid_x as i64)).put("y", V::I(g.properties.grid_y as i64));
            Ok(vec![r])
        }
        _ => {
            let c = NwsWeatherForecastDataRecordCollection::from_json(text).map_err(|e| e.to_string())?;
            Ok(c.records()
                .iter()
                .map(|w| {
                    let mut r = Rec::new();
                    r.put("start", crate::feeds::ts(&w.start_time)).put("end", crate::feeds::ts(&w.end_time)).put("day", V::I(w.is_daytime as i64));
                    r.dim("temp", &w.temperature).dim("dew", &w.dewpoint).dim("hum", &w.humidity).dim("wind", &w.wind_speed);
                    r.dir("dir", &w.wind_direction);
                    r.put("icon", V::S(w.icon.clone())).put("short", V::S(w.short_forecast.clone())).put("detail", V::S(w.detailed_forecast.clone()));
                    r
                })
                .collect())
        }
    }
}

/// Is this panic TideStations::from_raw_data refusing a document?
pub fn is_station_list_refusal(msg: &str) -> bool {
    // with serde_json's reason and place, in whatever words
    msg.contains("Error(\"") && msg.contains(", line: ") && msg.contains("src/tide_station.rs:")
}
