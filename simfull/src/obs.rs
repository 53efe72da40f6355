//! Publishers of weather observations (one buoy's, or the latest of every station) and of the station list.
use crate::feeds::{at, Doc, Line};
use crate::rec::{Rec, V};
use chrono::{Datelike, Timelike};
use simkit::rng::{fnv, Rng};
use surfrs::buoy_station::BuoyStation;
use surfrs::data::latest_obs_data_record::LatestObsDataRecord;
use surfrs::data::meteorological_data_record::MeteorologicalDataRecord;
use surfrs::station::Station;
use surfrs::swell::SwellProvider;

pub const KINDS: &[&str] = &["met", "latest", "stations"];
/// the measurements in the order of a record's fields: name, published unit, unit after decoding, factor
pub const FIELDS: [(&str, &str, f64); 14] = [
    ("wind_direction", "Degrees", 1.0),
    ("wind_speed", "MetersPerSecond", 1.0),
    ("wind_gust_speed", "MetersPerSecond", 1.0),
    ("wave_height", "Meters", 1.0),
    ("dominant_wave_period", "Seconds", 1.0),
    ("average_wave_period", "Seconds", 1.0),
    ("mean_wave_direction", "Degrees", 1.0),
    ("air_pressure", "HectaPascal", 1.0),
    ("air_pressure_tendency", "HectaPascal", 1.0),
    ("air_temperature", "Celsius", 1.0),
    ("water_temperature", "Celsius", 1.0),
    ("dewpoint_temperature", "Celsius", 1.0),
    ("visibility", "NauticalMiles", 1.0),
    ("tide", "Meters", 0.3048),
];

#[derive(Clone, Debug)]
pub struct St {
    pub id: String,
    pub name: String,
    /// the name as listed
    pub raw: String,
    pub owner: String,
    pub pgm: String,
    pub kind: usize,
    /// met, currents, waterquality, dart; None where the list leaves it out
    pub has: [Option<bool>; 4],
    pub lat: f64,
    pub lon: f64,
    pub elev: Option<f64>,
}
pub const TYPES: [(&str, &str); 7] = [("buoy", "Buoy"), ("fixed", "Fixed"), ("oilrig", "Oil Rig"), ("dart", "Dart"), ("tao", "Tao"), ("usv", "USV"), ("other", "Other")];

fn words(r: &mut Rng) -> String {
    const W: [&str; 12] = ["Block", "Island,", "RI", "O'Ahu", "S&P", "Côte", "\"Bay\"", "Buoy", "NM", "WSW", "of", "<20m"];
    let n = 1 + r.usize(4);
    (0..n).map(|_| *r.pick(&W)).collect::<Vec<_>>().join(" ")
}

/// All stations of a world.
pub fn all(world: u64) -> Vec<St> {
    let mut r = Rng::keyed(&[world, fnv(b"buoys")]);
    let n = 1 + r.usize(14);
    let mut v: Vec<St> = vec![];
    for i in 0..n {
        let mut id = if r.chance(0.5) { format!("{}", 41000 + r.below(11000)) } else { format!("{}{}{}", *r.pick(&["yk", "ak", "ch", "fw"]), *r.pick(&["rv", "yf", "tm"]), r.below(10)) };
        if i > 0 && r.chance(0.3) {
            let p = &v[r.usize(v.len())].id;
            id = if r.chance(0.5) { format!("{p}{}", r.below(10)) } else { format!("{}{}", &p[..p.len() - 1], r.below(10)) };
        }
        if v.iter().any(|s| s.id == id) {
            continue;
        }
        let name = if r.chance(0.1) { String::new() } else { words(&mut r) };
        let num = 1_000_000 + r.below(8_999_999);
        let raw = match r.below(4) {
            _ if name.is_empty() => name.clone(),
            0 => format!("{num} - {name}"),
            1 => format!("{name} - {num}"),
            2 => format!("{name} ({})", r.below(300)),
            _ => name.clone(),
        };
        let places = *r.pick(&[1.0, 10.0, 1000.0]);
        let round = |x: f64| (x * places).round() / places;
        let mut flag = || if r.chance(0.15) { None } else { Some(r.chance(0.4)) };
        let has = [flag(), flag(), flag(), flag()];
        v.push(St {
            id,
            name,
            raw,
            owner: words(&mut r),
            pgm: (*r.pick(&["IOOS Partners", "NOS/CO-OPS", "", "NDBC & USCG"])).into(),
            kind: r.usize(TYPES.len()),
            has,
            lat: round(r.frange(-89.0, 89.0)),
            lon: round(r.frange(-180.0, 180.0)),
            elev: r.chance(0.4).then(|| round(r.frange(-5.0, 400.0))),
        });
    }
    v
}

/// The list of active stations; some stations come and go from one list to the next.
pub fn listed(world: u64, t: i64) -> Vec<St> {
    let mut r = Rng::keyed(&[world, fnv(b"listed"), t.div_euclid(86400) as u64]);
    let mut v = all(world);
    if v.len() > 1 && r.chance(0.5) {
        v.remove(r.usize(v.len()));
    }
    v
}

fn esc(s: &str, q: char) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if q == '"' => o.push_str("&quot;"),
            '\'' if q == '\'' => o.push_str("&apos;"),
            c if !c.is_ascii() => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn list_doc(world: u64, t: i64) -> Doc {
    let mut r = Rng::keyed(&[world, fnv(b"xml"), t.div_euclid(86400) as u64]);
    let v = listed(world, t);
    let q = if r.chance(0.3) { '\'' } else { '"' };
    let mut lines = vec![];
    let mut put = |s: String| lines.push(Line { text: s, rec: None });
    if r.chance(0.8) {
        put("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into());
    }
    put(format!("<stations created={q}{}UTC{q} count={q}{}{q}>", at(t).format("%Y-%m-%dT%H:%M:%S"), v.len()));
    for s in &v {
        if r.chance(0.15) {
            put("<!--Site Elevation (elev attribute), when present, is reported in meters above mean sea level.-->".into());
        }
        let yn = |b: bool| if b { "y" } else { "n" };
        let mut a: Vec<(&str, String)> = vec![
            ("id", s.id.clone()),
            ("lat", format!("{}", s.lat)),
            ("lon", format!("{}", s.lon)),
            ("name", s.raw.clone()),
            ("owner", s.owner.clone()),
            ("pgm", s.pgm.clone()),
            ("type", TYPES[s.kind].0.into()),
        ];
        for (k, h) in ["met", "currents", "waterquality", "dart"].iter().zip(s.has) {
            if let Some(b) = h {
                a.push((k, yn(b).into()));
            }
        }
        if let Some(e) = s.elev {
            a.push(("elev", format!("{e}")));
        }
        if r.chance(0.2) {
            a.push((*r.pick(&["seq", "hull", "forecast"]), "6".into()));
        }
        if r.chance(0.5) {
            r.shuffle(&mut a);
        }
        let attrs: String = a.iter().map(|(k, v)| format!(" {k}={q}{}{q}", esc(v, q))).collect();
        put(format!("  <station{attrs}{}", if r.chance(0.15) { "></station>" } else { "/>" }));
    }
    put("</stations>".into());
    Doc { lines }
}

/// What a station listed must be decoded to.
pub fn list_rec(s: &St) -> Rec {
    let mut r = Rec::new();
    r.put("id", V::S(s.id.clone())).put("raw", V::S(s.raw.clone())).put("name", V::S(s.name.split_whitespace().collect::<Vec<_>>().join(" ")));
    r.put("owner", V::S(s.owner.clone())).put("pgm", V::S(s.pgm.clone())).put("type", V::S(TYPES[s.kind].1.into()));
    for (k, h) in ["met", "currents", "waterquality", "dart"].iter().zip(s.has) {
        r.put(*k, V::I(h.unwrap_or(false) as i64));
    }
    r.put("active", V::I(s.has.iter().any(|h| *h == Some(true)) as i64));
    r.put("lat", V::F(s.lat, 0.0)).put("lon", V::F(s.lon, 0.0)).put("elev", V::F(s.elev.unwrap_or(0.0), 0.0));
    r
}
pub fn list_seen(b: &BuoyStation) -> Rec {
    let mut r = Rec::new();
    r.put("id", V::S(b.id().to_string())).put("raw", V::S(b.raw_name.clone())).put("name", V::S(b.name()));
    r.put("owner", V::S(b.owner.clone())).put("pgm", V::S(b.program.clone())).put("type", V::S(b.buoy_type.to_string()));
    for (k, h) in [("met", b.has_meteorological_data), ("currents", b.has_currents_data), ("waterquality", b.has_water_quality_data), ("dart", b.has_tsnuami_data)] {
        r.put(k, V::I(h as i64));
    }
    r.put("active", V::I(b.is_active() as i64));
    r.put("lat", V::F(b.latitude, 0.0)).put("lon", V::F(b.longitude, 0.0)).put("elev", V::F(b.elevation, 0.0));
    r
}

/// One observation: the text of its measurements and what they say.
fn measure(r: &mut Rng, miss: f64) -> (Vec<String>, Vec<Option<f64>>) {
    let mut text = vec![];
    let mut vals = vec![];
    for (i, _) in FIELDS.iter().enumerate() {
        if r.chance(miss) {
            text.push("MM".to_string());
            vals.push(None);
            continue;
        }
        let (s, v) = match i {
            0 | 6 => {
                let v = r.below(361);
                (format!("{v}"), v as f64)
            }
            4 => {
                let v = r.below(26);
                (format!("{v}"), v as f64)
            }
            7 => fixed(r.frange(900.0, 1060.0), 1),
            8 => {
                let (s, v) = fixed(r.frange(-9.0, 9.0), 1);
                (if s.starts_with('-') { s } else { format!("+{s}") }, v)
            }
            9..=11 => fixed(r.frange(-40.0, 40.0), 1),
            12 => fixed(r.frange(0.0, 10.0), 1),
            13 => fixed(r.frange(-6.0, 12.0), 2),
            _ => fixed(r.frange(0.0, 35.0), 1),
        };
        text.push(s);
        vals.push(Some(v));
    }
    (text, vals)
}
fn fixed(v: f64, n: usize) -> (String, f64) {
    let s = format!("{v:.n$}");
    let v = s.parse().unwrap();
    (s, v)
}

fn put_fields(rec: &mut Rec, vals: &[Option<f64>]) {
    for ((k, unit, factor), v) in FIELDS.iter().zip(vals) {
        if *unit == "Degrees" {
            rec.put(*k, v.map(|x| V::A(x, 0.0)).unwrap_or(V::N));
        } else {
            rec.opt(k, v.map(|x| x * factor), if *factor == 1.0 { 0.0 } else { 1e-3 * v.unwrap_or(0.0).abs() });
            rec.put(format!("{k}.unit"), V::S((*unit).into()));
        }
    }
    // the swell it offers
    rec.opt("sum.hs", vals[3], 0.0).put("sum.hs.unit", V::S("Meters".into()));
    rec.opt("sum.tp", vals[4], 0.0).put("sum.tp.unit", V::S("Seconds".into()));
    rec.put("sum.dir", vals[6].map(|x| V::A(x, 0.0)).unwrap_or(V::N));
    rec.put("components", V::I(0));
}

const MET_COLUMNS: [(usize, usize); 14] = [(0, 3), (1, 4), (2, 4), (3, 5), (4, 5), (5, 5), (6, 3), (7, 6), (9, 5), (10, 5), (11, 5), (12, 4), (8, 4), (13, 5)];
const LATEST_COLUMNS: [(usize, usize); 14] = [(0, 3), (1, 5), (2, 5), (3, 4), (4, 3), (5, 4), (6, 3), (7, 6), (8, 5), (9, 5), (10, 5), (11, 5), (12, 4), (13, 6)];

fn met_row(world: u64, st: u64, t: i64) -> Line {
    let mut r = Rng::keyed(&[world, fnv(b"met"), st, t as u64]);
    let d = at(t);
    let miss = *r.pick(&[0.0, 0.0, 0.1, 0.4, 1.0]);
    let (text, vals) = measure(&mut r, miss);
    let mut s = format!("{:4} {:02} {:02} {:02} {:02}", d.year(), d.month(), d.day(), d.hour(), d.minute());
    for (i, w) in MET_COLUMNS {
        s.push_str(&format!(" {:>w$}", text[i]));
    }
    let mut rec = Rec::new();
    rec.put("date", V::I(t));
    put_fields(&mut rec, &vals);
    Line { text: s, rec: Some(rec) }
}

fn latest_row(world: u64, s: &St, t: i64) -> Line {
    let mut r = Rng::keyed(&[world, fnv(b"latest"), fnv(s.id.as_bytes()), t as u64]);
    let d = at(t);
    let miss = *r.pick(&[0.0, 0.3, 0.6, 1.0]);
    let (text, vals) = measure(&mut r, miss);
    let id = s.id.to_uppercase();
    let mut row = format!("{id:<5} {:>7.3} {:>8.3} {:4} {:02} {:02} {:02} {:02}", s.lat, s.lon, d.year(), d.month(), d.day(), d.hour(), d.minute());
    for (i, w) in LATEST_COLUMNS {
        row.push_str(&format!(" {:>w$}", text[i]));
    }
    let mut rec = Rec::new();
    rec.put("id", V::S(id)).put("lat", V::F(s.lat, 0.0)).put("lon", V::F(s.lon, 0.0)).put("date", V::I(t));
    put_fields(&mut rec, &vals);
    Line { text: row, rec: Some(rec) }
}

pub fn publish(kind: &str, world: u64, st: u64, t: i64) -> Doc {
    let head = |s: &str| Line { text: s.into(), rec: None };
    match kind {
        "met" => {
            let mut r = Rng::keyed(&[world, fnv(b"met"), st, 4]);
            let n = if r.chance(0.04) { 1000 } else { 1 + r.usize(24) as i64 };
            let step = *r.pick(&[600, 1800, 3600]);
            let off = r.range(0, step / 60 - 1) * 60;
            let newest = (t - off).div_euclid(step) * step + off;
            let mut lines = vec![
                head("#YY  MM DD hh mm WDIR WSPD GST  WVHT   DPD   APD MWD   PRES  ATMP  WTMP  DEWP  VIS PTDY  TIDE"),
                head("#yr  mo dy hr mn degT m/s  m/s     m   sec   sec degT   hPa  degC  degC  degC  nmi  hPa    ft"),
            ];
            for i in 0..n {
                lines.push(met_row(world, st, newest - i * step));
            }
            Doc { lines }
        }
        "latest" => {
            let mut lines = vec![
                head("#STN     LAT      LON  YYYY MM DD hh mm WDIR WSPD   GST WVHT  DPD APD MWD   PRES  PTDY  ATMP  WTMP  DEWP  VIS   TIDE"),
                head("#text    deg      deg   yr mo day hr mn degT  m/s   m/s   m   sec sec degT   hPa   hPa  degC  degC  degC  nmi     ft"),
            ];
            let mut v = all(world);
            v.sort_by(|a, b| a.id.to_uppercase().cmp(&b.id.to_uppercase()));
            for s in v {
                let mut r = Rng::keyed(&[world, fnv(b"when"), fnv(s.id.as_bytes()), t.div_euclid(3600) as u64]);
                if r.chance(0.8) {
                    lines.push(latest_row(world, &s, t.div_euclid(3600) * 3600 - r.range(0, 100) * 60));
                }
            }
            Doc { lines }
        }
        _ => list_doc(world, t),
    }
}

pub fn older(kind: &str, t: i64, by: u64) -> i64 {
    let n = 1 + (by % 12) as i64;
    t - n * if kind == "stations" { 86400 } else { 3600 }
}

macro_rules! fields {
    ($r:expr, $m:expr) => {{
        let (r, m) = ($r, $m);
        r.dir("wind_direction", &m.wind_direction);
        r.dim("wind_speed", &m.wind_speed).dim("wind_gust_speed", &m.wind_gust_speed).dim("wave_height", &m.wave_height);
        r.dim("dominant_wave_period", &m.dominant_wave_period).dim("average_wave_period", &m.average_wave_period);
        r.dir("mean_wave_direction", &m.mean_wave_direction);
        r.dim("air_pressure", &m.air_pressure).dim("air_pressure_tendency", &m.air_pressure_tendency);
        r.dim("air_temperature", &m.air_temperature).dim("water_temperature", &m.water_temperature).dim("dewpoint_temperature", &m.dewpoint_temperature);
        r.dim("visibility", &m.visibility).dim("tide", &m.tide);
        match m.swell_data() {
            Ok(s) => {
                r.summary(&s);
            }
            Err(_) => {
                r.put("swell", V::S("refused".into()));
            }
        }
    }};
}

pub fn met_seen(m: &MeteorologicalDataRecord) -> Rec {
    let mut r = Rec::new();
    r.put("date", crate::feeds::ts(&m.date));
    fields!(&mut r, m);
    r
}
pub fn latest_seen(m: &LatestObsDataRecord) -> Rec {
    let mut r = Rec::new();
    r.put("id", V::S(m.station_id.clone())).put("lat", V::F(m.latitude, 0.0)).put("lon", V::F(m.longitude, 0.0)).put("date", crate::feeds::ts(&m.date));
    fields!(&mut r, m);
    r
}
