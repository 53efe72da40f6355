//! Publishers of the text feeds (truth is a function of world seed, station and time) and
//! the client's decoders of them.
use crate::rec::{Exp, Rec, V};
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use simkit::rng::{fnv, Rng};
use std::collections::HashMap;
use surfrs::data::forecast_cbulletin_wave_data_record::ForecastCBulletinWaveRecordCollection;
use surfrs::data::grib_index_record::GribIndexRecordCollection;
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecordCollection;
use surfrs::data::wave_data_record::WaveDataRecordCollection;
use surfrs::swell::SwellProvider;

pub const FEEDS: &[&str] = &["spec", "data_spec", "swdir", "swdir2", "swr1", "swr2", "idx", "cbull"];

pub struct Line {
    pub text: String,
    pub rec: Option<Rec>,
}
pub struct Doc {
    pub lines: Vec<Line>,
}
impl Doc {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s.push_str(&l.text);
            s.push('\n');
        }
        s
    }
}

pub fn at(secs: i64) -> DateTime<Utc> {
    Utc.timestamp_opt(secs, 0).single().unwrap()
}

pub const CARDINALS: [&str; 16] = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"];

pub fn cycle_of(t: i64) -> i64 {
    t.div_euclid(21600) * 21600
}

/// The frequencies a station's spectral sensor reports.
pub fn station_freqs(world: u64, st: u64) -> Vec<f64> {
    let mut r = Rng::keyed(&[world, 77, st]);
    let n = *r.pick(&[1usize, 2, 3, 5, 12, 33, 46, 47, 64]);
    let mut f = 0.025 + 0.005 * r.below(3) as f64;
    (0..n)
        .map(|_| {
            let v = (f * 1000.0).round() / 1000.0;
            f += if f < 0.1 { 0.005 } else { 0.01 };
            v
        })
        .collect()
}

fn spec_row(world: u64, st: u64, t: i64) -> Line {
    let mut r = Rng::keyed(&[world, fnv(b"spec"), st, t as u64]);
    let d = at(t);
    let miss = *r.pick(&[0.0, 0.0, 0.05, 0.3, 1.0]);
    let mut rec = Rec::new();
    rec.put("date", V::I(t));
    let num = |r: &mut Rng, hi: f64| -> (String, Option<f64>) {
        if r.chance(miss) {
            ("MM".into(), None)
        } else {
            let v = (r.frange(0.0, hi) * 10.0).round() / 10.0;
            (format!("{v:.1}"), Some(v))
        }
    };
    let (wvht, wvht_v) = num(&mut r, 15.0);
    let (swh, swh_v) = num(&mut r, 15.0);
    let (swp, swp_v) = num(&mut r, 25.0);
    let (wwh, wwh_v) = num(&mut r, 9.0);
    let (wwp, wwp_v) = num(&mut r, 12.0);
    let (apd, apd_v) = num(&mut r, 18.0);
    let card = |r: &mut Rng| -> (String, Option<f64>) {
        if r.chance(miss) {
            ("MM".into(), None)
        } else {
            let i = r.usize(16);
            (CARDINALS[i].into(), Some(i as f64 * 22.5))
        }
    };
    let (swd, swd_v) = card(&mut r);
    let (wwd, wwd_v) = card(&mut r);
    let (mwd, mwd_v) = if r.chance(miss) {
        ("MM".to_string(), None)
    } else {
        let v = r.below(361);
        (format!("{v}"), Some(v as f64))
    };
    let steep = *r.pick(&["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "N/A"]);
    let text = format!(
        "{:4} {:02} {:02} {:02} {:02} {:>4} {:>4} {:>4} {:>4} {:>4} {:>3} {:>3} {:>10} {:>4} {:>3}",
        d.year(), d.month(), d.day(), d.hour(), d.minute(), wvht, swh, swp, wwh, wwp, swd, wwd, steep, apd, mwd
    );
    let m = |rec: &mut Rec, k: &str, v: Option<f64>, unit: &str| {
        rec.opt(k, v, 0.0);
        rec.put(format!("{k}.unit"), V::S(unit.into()));
    };
    let a = |rec: &mut Rec, k: &str, v: Option<f64>, tol: f64| {
        rec.put(k, v.map(|x| V::A(x, tol)).unwrap_or(V::N));
    };
    m(&mut rec, "wvht", wvht_v, "Meters");
    m(&mut rec, "swh", swh_v, "Meters");
    m(&mut rec, "swp", swp_v, "Seconds");
    m(&mut rec, "wwh", wwh_v, "Meters");
    m(&mut rec, "wwp", wwp_v, "Seconds");
    a(&mut rec, "swd", swd_v, 2.0);
    a(&mut rec, "wwd", wwd_v, 2.0);
    rec.put("steep", V::S(if steep == "N/A" { "NA".into() } else { steep.into() }));
    m(&mut rec, "apd", apd_v, "Seconds");
    a(&mut rec, "mwd", mwd_v, 0.0);
    let card_name = |v: &str| if v == "MM" { V::N } else { V::S(v.to_lowercase()) };
    rec.put("swd.cardinal", card_name(&swd));
    rec.put("wwd.cardinal", card_name(&wwd));
    // the swell it offers
    m(&mut rec, "sum.hs", wvht_v, "Meters");
    m(&mut rec, "sum.tp", apd_v, "Seconds");
    a(&mut rec, "sum.dir", mwd_v, 0.0);
    rec.put("components", V::I(2));
    m(&mut rec, "c0.hs", swh_v, "Meters");
    m(&mut rec, "c0.tp", swp_v, "Seconds");
    a(&mut rec, "c0.dir", swd_v, 2.0);
    m(&mut rec, "c1.hs", wwh_v, "Meters");
    m(&mut rec, "c1.tp", wwp_v, "Seconds");
    a(&mut rec, "c1.dir", wwd_v, 2.0);
    Line { text, rec: Some(rec) }
}

/// The five measurements of one spectral report; 999 marks a sensor outage.
pub fn spectral_values(world: u64, st: u64, feed: &str, t: i64) -> Vec<f64> {
    let freqs = station_freqs(world, st);
    let mut out = Rng::keyed(&[world, 5150, st, t as u64]);
    // shared sea state of the report
    let fp = out.frange(0.04, 0.35);
    let amp = 10f64.powf(out.frange(-2.0, 1.7));
    let dir0 = out.frange(0.0, 360.0);
    let mut r = Rng::keyed(&[world, fnv(feed.as_bytes()), st, t as u64]);
    let gap = *r.pick(&[0.0, 0.0, 0.0, 0.1, 1.0]);
    // now and then an energy is the same number as another measurement of its frequency
    let same = if feed == "data_spec" && out.chance(0.05) { spectral_values(world, st, *out.pick(&["swdir", "swdir2", "swr1", "swr2"]), t) } else { vec![] };
    freqs
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let q = |v: f64, d: f64| (v * d).round() / d;
            let missing = r.chance(gap);
            match feed {
                "data_spec" => {
                    let x = (f / fp).ln();
                    let v = q(amp * (-8.0 * x * x).exp() * r.frange(0.5, 1.5), 1000.0);
                    let v = if !same.is_empty() && r.chance(0.1) && same[i] < 900.0 { same[i] } else { v };
                    if missing { 999.0 } else { v }
                }
                "swdir" | "swdir2" => {
                    let v = (dir0 + 40.0 * (f - fp) * 10.0 + r.frange(-20.0, 20.0)).rem_euclid(360.0);
                    if missing { 999.0 } else { q(v, 1.0) }
                }
                _ => {
                    let v = q(r.frange(0.0, 1.0), 100.0);
                    if missing { 999.0 } else { v }
                }
            }
        })
        .collect()
}

fn spectral_row(world: u64, st: u64, feed: &str, t: i64) -> Line {
    let d = at(t);
    let freqs = station_freqs(world, st);
    let vals = spectral_values(world, st, feed, t);
    let mut text = format!("{:4} {:02} {:02} {:02} {:02}", d.year(), d.month(), d.day(), d.hour(), d.minute());
    let mut rec = Rec::new();
    rec.put("date", V::I(t));
    if feed == "data_spec" {
        let mut r = Rng::keyed(&[world, 31, st, t as u64]);
        let s = if r.chance(0.5) { 9.999 } else { (r.frange(0.03, 0.4) * 1000.0).round() / 1000.0 };
        text.push_str(&format!(" {s:.3}"));
        rec.put("sep", V::F(s, 0.0));
    } else {
        rec.put("sep", V::N);
    }
    for (f, v) in freqs.iter().zip(&vals) {
        match feed {
            "data_spec" => text.push_str(&format!(" {v:.3} ({f:.3})")),
            "swdir" | "swdir2" => text.push_str(&format!(" {v:.1} ({f:.3})")),
            _ => text.push_str(&format!(" {v:.2} ({f:.3})")),
        }
    }
    rec.put("freq", V::L(freqs, 0.0));
    rec.put("value", V::L(vals, 0.0));
    // NDBC leaves a blank at the end of each row of these files
    if Rng::keyed(&[world, 32, st]).chance(0.5) {
        text.push(' ');
    }
    Line { text, rec: Some(rec) }
}

const VARS: [&str; 9] = ["REFC", "RETOP", "var discipline=0 center=7 local_table=1 parmcat=16 parm=201", "HTSGW", "PERPW", "DIRPW", "UGRD", "VGRD", "WVPER"];
const LEVELS: [&str; 6] = ["entire atmosphere", "surface", "2 hybrid level", "10 m above ground", "1 in sequence", "mean sea level"];

fn idx_doc(world: u64, st: u64, t: i64) -> Doc {
    let c = cycle_of(t);
    let mut r = Rng::keyed(&[world, fnv(b"idx"), st, c as u64]);
    let n = if r.chance(0.06) { 300 + r.usize(500) } else { 1 + r.usize(30) };
    // ensemble indexes name the member in a further column; some do not close a row
    let member = if r.chance(0.25) { format!("ENS={}:", *r.pick(&["+1", "+12", "low-res ctl", "-3", "+2:prob >3"])) } else { String::new() };
    let mut off = 0u64;
    let big = if r.chance(0.15) { 400_000_000 } else { 3_000_000 };
    let fh = r.below(385);
    let d = at(c);
    let lines = (0..n)
        .map(|i| {
            let var = *r.pick(&VARS);
            let level = *r.pick(&LEVELS);
            let valid = match r.below(4) {
                0 => "anl".to_string(),
                1 => format!("{} min fcst", fh * 60 + 15),
                2 => format!("{}-{} hour acc fcst", fh, fh + 1),
                _ => format!("{fh} hour fcst"),
            };
            let text = format!("{}:{}:d={}:{}:{}:{}:{member}", i + 1, off, d.format("%Y%m%d%H"), var, level, valid);
            let mut rec = Rec::new();
            rec.put("index", V::I(i as i64 + 1)).put("offset", V::I(off as i64)).put("ref", V::I(c));
            rec.put("var", V::S(var.into())).put("level", V::S(level.into())).put("valid", V::S(valid));
            off += 1 + r.below(big);
            Line { text, rec: Some(rec) }
        })
        .collect();
    Doc { lines }
}

/// Wave bulletin of one cycle. Hours of the rows: hourly, then possibly three-hourly.
pub fn cbull_doc(world: u64, st: u64, t: i64) -> Doc {
    let mut r = Rng::keyed(&[world, fnv(b"cbull"), st, cycle_of(t) as u64]);
    let (n, step) = *r.pick(&[(3i64, 1i64), (12, 1), (30, 1), (49, 3), (120, 1), (385, 1), (129, 3)]);
    let n = if world % 4 == 0 { n } else { n.min(40) };
    let from = if world % 3 == 0 && n < 60 { r.range(0, 384 - n * step) } else { 0 };
    cbull_build(world, st, t, n, step, from)
}

pub fn cbull_place(world: u64, st: u64) -> (&'static str, f64, f64) {
    let mut sr = Rng::keyed(&[world, fnv(b"cbull-station"), st]);
    let lat = (sr.frange(-75.0, 75.0) * 100.0).round() / 100.0;
    let lon = (sr.frange(-180.0, 180.0) * 100.0).round() / 100.0;
    (sr.pick(&["44097", "TPC55", "51201", "WRB07", "PRVHI", "NT-08", "BLOCK  IS", "MAKAPUU PT", "Q", "46(A)"]), lat, lon)
}

pub fn cbull_build(world: u64, st: u64, t: i64, n: i64, step: i64, from: i64) -> Doc {
    let c = cycle_of(t);
    let (name, lat, lon) = cbull_place(world, st);
    let d = at(c);
    let mut lines = vec![];
    let mut head = |s: String| lines.push(Line { text: s, rec: None });
    head(format!(
        "Location : {:<10} ({:>5.2}{} {:>6.2}{})",
        name,
        lat.abs(),
        if lat < 0.0 { "S" } else { "N" },
        lon.abs(),
        if lon < 0.0 { "W" } else { "E" }
    ));
    head("Model    : spectral resolution for points".into());
    head(format!("Cycle    : {} {:>2} UTC", d.format("%Y%m%d"), d.hour()));
    head(String::new());
    head("DDHH HS SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD".into());
    head("-------------------------------------------------------------------".into());
    for i in 0..n {
        let vt = c + (from + i * step) * 3600;
        lines.push(cbull_row(world, st, c, vt));
    }
    let mut head = |s: &str| lines.push(Line { text: s.into(), rec: None });
    head("-------------------------------------------------------------------");
    head("DD  = Day of Month");
    head("HH  = Hour of Day");
    head("HS  = Total Significant Wave Height (feet)");
    head("SS  = Significant Wave Height of separate system (feet)");
    head("PP  = Peak Period of separate system (whole seconds)");
    head("DDD = Mean Direction of separate system (degrees,\"from\")");
    Doc { lines }
}

fn cbull_row(world: u64, st: u64, cycle: i64, vt: i64) -> Line {
    let mut r = Rng::keyed(&[world, fnv(b"cbrow"), st, cycle as u64, vt as u64]);
    let d = at(vt);
    let hs = r.below(40);
    let k = *r.pick(&[0usize, 1, 1, 2, 3, 4, 5, 6]);
    let mut text = format!("{:02}{:02} {:>2}", d.day(), d.hour(), hs);
    let mut rec = Rec::new();
    rec.put("date", V::I(vt));
    let ft = |v: u64| v as f64 * 0.3048;
    rec.put("hs", V::F(ft(hs), ft(hs) * 1e-3)).put("hs.unit", V::S("Meters".into()));
    let mut comp = Rec::new();
    let mut first = None;
    for i in 0..k {
        let (h, p, dd) = (r.below(30), 1 + r.below(25), r.below(361));
        text.push_str(&format!(" {h:>2} {p:02} {dd:03}"));
        comp.put(format!("c{i}.hs"), V::F(ft(h), ft(h) * 1e-3)).put(format!("c{i}.hs.unit"), V::S("Meters".into()));
        comp.put(format!("c{i}.tp"), V::F(p as f64, 0.0)).put(format!("c{i}.tp.unit"), V::S("Seconds".into()));
        comp.put(format!("c{i}.dir"), V::A(dd as f64, 0.0));
        // kilojoules for metres and seconds
        let e = 1029.0 * 9.81f64.powi(2) / (16.0 * std::f64::consts::PI) * ft(h).powi(2) * (p as f64).powi(2) / 1000.0;
        comp.put(format!("c{i}.energy"), V::F(e, e * 1e-2)).put(format!("c{i}.energy.unit"), V::S("KiloJoules".into()));
        first.get_or_insert((p, dd));
    }
    rec.put("listed", V::I(k as i64));
    rec.f.extend(comp.f.clone());
    match first {
        Some((p, dd)) => {
            rec.put("swell", V::S("ok".into()));
            rec.put("sum.hs", V::F(ft(hs), ft(hs) * 1e-3)).put("sum.hs.unit", V::S("Meters".into()));
            rec.put("sum.tp", V::F(p as f64, 0.0)).put("sum.tp.unit", V::S("Seconds".into()));
            rec.put("sum.dir", V::A(dd as f64, 0.0));
            rec.put("components", V::I(k as i64));
            rec.f.extend(comp.f);
        }
        None => {
            rec.put("swell", V::Any);
        }
    }
    while text.len() < 67 {
        text.push(' ');
    }
    Line { text, rec: Some(rec) }
}

pub fn publish(feed: &str, world: u64, st: u64, t: i64) -> Doc {
    let mut r = Rng::keyed(&[world, fnv(feed.as_bytes()), st, 4]);
    match feed {
        "spec" => {
            let n = if r.chance(0.04) { 1000 } else { 1 + r.usize(24) as i64 };
            let off = r.range(0, 29) * 60;
            let newest = (t - off).div_euclid(1800) * 1800 + off;
            let mut lines = vec![
                Line { text: "#YY  MM DD hh mm WVHT  SwH  SwP  WWH  WWP SwD WWD  STEEPNESS  APD MWD".into(), rec: None },
                Line { text: "#yr  mo dy hr mn    m    m  sec    m  sec  -  degT     -      sec degT".into(), rec: None },
            ];
            for i in 0..n {
                lines.push(spec_row(world, st, newest - i * 1800));
            }
            Doc { lines }
        }
        "data_spec" | "swdir" | "swdir2" | "swr1" | "swr2" => {
            let n = 1 + Rng::keyed(&[world, 9, st]).usize(8) as i64;
            let newest = t.div_euclid(3600) * 3600;
            let head = match feed {
                "data_spec" => "#YY  MM DD hh mm Sep_Freq  < spec_1 (freq_1) spec_2 (freq_2) spec_3 (freq_3) ... >",
                "swdir" => "#YY  MM DD hh mm alpha1_1 (freq_1) alpha1_2 (freq_2) alpha1_3 (freq_3) ... >",
                "swdir2" => "#YY  MM DD hh mm alpha2_1 (freq_1) alpha2_2 (freq_2) alpha2_3 (freq_3) ... >",
                "swr1" => "#YY  MM DD hh mm r1_1 (freq_1) r1_2 (freq_2) r1_3 (freq_3) ... >",
                _ => "#YY  MM DD hh mm r2_1 (freq_1) r2_2 (freq_2) r2_3 (freq_3) ... >",
            };
            let mut lines = vec![Line { text: head.into(), rec: None }];
            for i in 0..n {
                lines.push(spectral_row(world, st, feed, newest - i * 3600));
            }
            Doc { lines }
        }
        "idx" => idx_doc(world, st, t),
        _ => cbull_doc(world, st, t),
    }
}

/// The same document as published earlier (for stale copies and splices).
pub fn older(feed: &str, t: i64, by: u64) -> i64 {
    let n = 1 + (by % 12) as i64;
    match feed {
        "spec" => t - n * 1800,
        "idx" | "cbull" => t - n * 21600,
        _ => t - n * 3600,
    }
}

pub fn ts(d: &DateTime<Utc>) -> V {
    V::I(d.timestamp() + if d.timestamp_subsec_nanos() == 0 { 0 } else { 1 << 50 })
}

/// What the client does with a received document.
pub fn decode(feed: &str, text: &str) -> Result<Vec<Rec>, String> {
    match feed {
        "spec" => {
            let mut c = WaveDataRecordCollection::from_data(text);
            Ok(c.records()
                .map(|w| {
                    let mut r = Rec::new();
                    r.put("date", ts(&w.date));
                    r.dim("wvht", &w.wave_height).dim("swh", &w.swell_wave_height).dim("swp", &w.swell_wave_period);
                    r.dim("wwh", &w.wind_wave_height).dim("wwp", &w.wind_wave_period);
                    r.dir("swd", &w.swell_wave_direction).dir("wwd", &w.wind_wave_direction);
                    r.put("steep", V::S(w.steepness.to_string()));
                    r.dim("apd", &w.average_wave_period).dir("mwd", &w.mean_wave_direction);
                    let card = |d: &surfrs::dimensional_data::DimensionalData<surfrs::units::Direction>| {
                        d.value.as_ref().map(|v| V::S(v.cardinal_direction().to_string())).unwrap_or(V::N)
                    };
                    r.put("swd.cardinal", card(&w.swell_wave_direction)).put("wwd.cardinal", card(&w.wind_wave_direction));
                    match w.swell_data() {
                        Ok(s) => {
                            r.summary(&s);
                        }
                        Err(_) => {
                            r.put("swell", V::S("refused".into()));
                        }
                    }
                    r
                })
                .collect())
        }
        "idx" => {
            let mut c = GribIndexRecordCollection::from_data(text);
            Ok(c.records()
                .map(|g| {
                    let mut r = Rec::new();
                    r.put("index", V::I(g.index as i64)).put("offset", V::I(g.offset as i64)).put("ref", ts(&g.reference_date));
                    r.put("var", V::S(g.var)).put("level", V::S(g.level)).put("valid", V::S(g.valid));
                    r
                })
                .collect())
        }
        "cbull" => {
            let mut c = ForecastCBulletinWaveRecordCollection::from_data(text);
            let (_meta, it) = c.records().map_err(|e| e.to_string())?;
            Ok(it
                .map(|w| {
                    let mut r = Rec::new();
                    r.put("date", ts(&w.date)).dim("hs", &w.significant_wave_height);
                    r.put("listed", V::I(w.swell_components.len() as i64));
                    let energy = |r: &mut Rec, i: usize, c: &surfrs::swell::Swell| match &c.energy {
                        Some(e) => drop(r.dim(&format!("c{i}.energy"), e)),
                        None => drop(r.put(format!("c{i}.energy"), V::N)),
                    };
                    for (i, c) in w.swell_components.iter().enumerate() {
                        r.swell(&format!("c{i}"), c);
                        energy(&mut r, i, c);
                    }
                    match w.swell_data() {
                        Ok(s) => {
                            r.put("swell", V::S("ok".into()));
                            r.swell("sum", &s.summary).put("components", V::I(s.components.len() as i64));
                            for (i, c) in s.components.iter().enumerate() {
                                r.swell(&format!("c{i}"), c);
                                energy(&mut r, i, c);
                            }
                        }
                        Err(_) => {
                            r.put("swell", V::S("refused".into()));
                        }
                    }
                    r
                })
                .collect())
        }
        _ => {
            let mut c = SpectralWaveDataRecordCollection::from_data(text);
            Ok(c.records()
                .map(|s| {
                    let mut r = Rec::new();
                    r.put("date", ts(&s.date));
                    r.put("sep", s.separation_frequency.map(|x| V::F(x, 0.0)).unwrap_or(V::N));
                    r.put("freq", V::L(s.frequency, 0.0)).put("value", V::L(s.value, 0.0));
                    r
                })
                .collect())
        }
    }
}

/// What may be delivered for the bytes a client received.
pub fn expect(feed: &str, received: &str, docs: &[Doc]) -> Vec<Exp> {
    let current = &docs[0];
    let mut rows: HashMap<&str, Option<&Rec>> = HashMap::new();
    // a bulletin row means what its header says: only rows of the current document are known
    let known = if feed == "cbull" { &docs[..1] } else { docs };
    for d in known.iter().rev() {
        for l in &d.lines {
            rows.insert(&l.text, l.rec.as_ref());
        }
    }
    let mut lines: Vec<&str> = received.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let header_ok = feed != "cbull" || (lines.len() >= 6 && (0..6).all(|i| lines[i] == current.lines[i].text));
    lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            if feed == "cbull" && i < 6 {
                return Exp::May(if header_ok { 0 } else { 1 });
            }
            match rows.get(l) {
                Some(Some(r)) if header_ok => Exp::Must((*r).clone()),
                Some(Some(_)) => Exp::May(1),
                Some(None) => Exp::May(0),
                None => Exp::May(if l.trim().is_empty() { 0 } else { l.split('\r').filter(|s| !s.is_empty()).count().max(1) }),
            }
        })
        .collect()
}

#[allow(dead_code)]
pub fn day(t: i64) -> i64 {
    t.div_euclid(86400)
}
#[allow(dead_code)]
pub fn hours(n: i64) -> Duration {
    Duration::hours(n)
}
