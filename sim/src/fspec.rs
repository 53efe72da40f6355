//! Publisher of point spectral forecasts and the client's decoder of them.
use crate::feeds::{at, cycle_of, ts};
use crate::rec::{Rec, V};
use simkit::rng::{fnv, Rng};
use surfrs::data::forecast_spectral_wave_data_record::{ForecastSpectralWaveDataRecord, ForecastSpectralWaveDataRecordCollection};

/// One published step: its lines and what they say.
pub struct Step {
    pub lines: Vec<String>,
    pub time: i64,
    pub rec: Rec,
}
pub struct Forecast {
    pub nk: usize,
    pub nth: usize,
    pub freq: Vec<f64>,
    pub header: Vec<String>,
    pub steps: Vec<Step>,
}

impl Forecast {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in self.header.iter().chain(self.steps.iter().flat_map(|s| s.lines.iter())) {
            s.push_str(l);
            s.push('\n');
        }
        s
    }
}

/// Fortran E notation: 0.123E+01.
pub fn fortran(v: f64, digits: usize) -> String {
    if v == 0.0 || !v.is_finite() {
        return format!("0.{}E+00", "0".repeat(digits));
    }
    let mut e = v.abs().log10().floor() as i32 + 1;
    let mut m = (v.abs() / 10f64.powi(e) * 10f64.powi(digits as i32)).round() as u64;
    if m >= 10u64.pow(digits as u32) {
        m /= 10;
        e += 1;
    }
    if e < -99 {
        return format!("0.{}E+00", "0".repeat(digits));
    }
    format!("{}0.{:0w$}E{}{:02}", if v < 0.0 { "-" } else { "" }, m, if e < 0 { '-' } else { '+' }, e.abs(), w = digits)
}

/// A sea state on a grid: a few systems, or flat, or silent. Directions are "towards", radians.
pub fn sea(r: &mut Rng, freq: &[f64], dir: &[f64]) -> Vec<f64> {
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6]);
    let kind = r.below(12);
    let sys: Vec<(f64, f64, f64, f64, f64)> = (0..n)
        .map(|_| {
            (
                freq[0] * (freq[freq.len() - 1] / freq[0]).powf(r.f64()),
                r.frange(0.0, std::f64::consts::TAU),
                10f64.powf(r.frange(-3.0, 2.0)),
                r.frange(0.05, 0.4),
                *r.pick(&[2.0, 5.0, 20.0, 60.0]),
            )
        })
        .collect();
    let flat = if kind == 0 { r.frange(0.001, 1.0) } else { 0.0 };
    let noise = if kind == 1 { 0.3 } else { 0.0 };
    let mut e = Vec::with_capacity(freq.len() * dir.len());
    for d in dir {
        for f in freq {
            let mut v = flat;
            for (fp, d0, a, w, p) in &sys {
                let x = (f / fp).ln() / w;
                let c = 0.5 * (1.0 + (d - d0).cos());
                v += a * (-0.5 * x * x).exp() * c.powf(*p);
            }
            if noise > 0.0 {
                v *= r.frange(1.0 - noise, 1.0 + noise);
            }
            e.push(v);
        }
    }
    e
}

pub fn grid(world: u64, st: u64, big: bool) -> (Vec<f64>, Vec<f64>) {
    let mut r = Rng::keyed(&[world, fnv(b"fgrid"), st]);
    let (nk, nth) = if big { (50usize, 36usize) } else { *r.pick(&[(3usize, 4usize), (5, 8), (8, 12), (10, 24), (25, 24), (29, 36), (30, 36), (7, 16), (12, 8), (24, 10), (16, 7), (36, 30), (6, 16)]) };
    let f0 = r.frange(0.03, 0.05);
    let ratio = *r.pick(&[1.07, 1.1, 1.1]);
    let freq = (0..nk).map(|k| f0 * f64::powi(ratio, k as i32)).collect();
    let step = std::f64::consts::TAU / nth as f64;
    // WAVEWATCH lists directions clockwise from a first one near 90 degrees
    let mut d0 = std::f64::consts::FRAC_PI_2 - r.frange(0.0, 1.0) * step;
    if r.chance(0.1) {
        // some at another
        d0 = r.frange(0.0, std::f64::consts::TAU);
    }
    let dir = (0..nth).map(|j| (d0 - step * j as f64).rem_euclid(std::f64::consts::TAU)).collect();
    (freq, dir)
}

pub fn publish(world: u64, st: u64, t: i64, steps: usize, big: bool) -> Forecast {
    let c = cycle_of(t);
    let mut sr = Rng::keyed(&[world, fnv(b"fspec-station"), st]);
    let (freq, dir) = grid(world, st, big);
    let (nk, nth) = (freq.len(), dir.len());
    let name = *sr.pick(&["44097", "TPC55", "51201", "WRB07", "12", "41 B", "NT-08", "MAKAPUU PT", "ST.GEORGE", "46(A)"]);
    let mut lat = (sr.frange(-75.0, 75.0) * 100.0).round() / 100.0;
    let mut lon = (sr.frange(-180.0, 180.0) * 100.0).round() / 100.0;
    // points on the seams of the globe, and models that count longitudes eastward
    match sr.usize(8) {
        0 => lon = *sr.pick(&[-180.0, 180.0, 0.0, -179.99, 179.99]),
        1 => lon = (sr.frange(180.0, 360.0) * 100.0).round() / 100.0,
        2 => lat = *sr.pick(&[0.0, 89.99, -90.0, 90.0, -0.01]),
        _ => {}
    }
    let depth = (sr.frange(5.0, 5000.0) * 10.0).round() / 10.0;
    let mut header = vec![format!("'WAVEWATCH III SPECTRA'    {nk:>2}    {nth:>2}     1 'spectral resolution for points'")];
    let ft: Vec<String> = freq.iter().map(|f| fortran(*f, 3)).collect();
    let freq: Vec<f64> = ft.iter().map(|s| s.parse().unwrap()).collect();
    for row in ft.chunks(8) {
        header.push(row.iter().map(|s| format!(" {s}")).collect::<String>());
    }
    let dt: Vec<String> = dir.iter().map(|d| fortran(*d, 3)).collect();
    let dir: Vec<f64> = dt.iter().map(|s| s.parse().unwrap()).collect();
    for row in dt.chunks(7) {
        header.push(row.iter().map(|s| format!("  {s}")).collect::<String>());
    }
    let from: Vec<f64> = dir.iter().map(|d| (d.to_degrees() + 180.0).rem_euclid(360.0)).collect();
    let mut pr = Rng::keyed(&[world, fnv(b"fspec-pace"), st]);
    // hourly at first, some with coarser steps from some step on
    let pace = *pr.pick(&[1i64, 1, 1, 3, 6, 12, 24, 72]);
    let glued = pr.chance(0.5);
    let turn = if pr.chance(0.5) { 0 } else { pr.usize(6) as i64 };
    // some models write every half or quarter of an hour
    let beat = *pr.pick(&[3600i64, 3600, 3600, 1800, 900]);
    let steps = (0..steps)
        .map(|i| {
            let k = i as i64;
            let time = c + (k.min(turn) + (k - turn).max(0) * pace) * beat;
            let mut r = Rng::keyed(&[world, fnv(b"fspec"), st, c as u64, i as u64]);
            let d = at(time);
            let wind = (r.frange(0.0, 40.0) * 100.0).round() / 100.0;
            let wdir = (r.frange(0.0, 360.0) * 10.0).round() / 10.0;
            let cur = (r.frange(0.0, 3.0) * 100.0).round() / 100.0;
            let cdir = (r.frange(0.0, 360.0) * 10.0).round() / 10.0;
            let mut lines = vec![
                d.format("%Y%m%d %H%M%S").to_string(),
                if glued {
                    // as the model's own post-processor writes it: columns may touch
                    format!("'{name:<10}'{lat:>7.2}{lon:>7.2}{depth:>10.1}{wind:>7.2}{wdir:>6.1}{cur:>7.2}{cdir:>6.1}")
                } else {
                    format!("'{name:<10}' {lat:>6.2} {lon:>7.2} {depth:>7.1} {wind:>6.2} {wdir:>5.1} {cur:>6.2} {cdir:>5.1}")
                },
            ];
            let et: Vec<String> = sea(&mut r, &freq, &dir).iter().map(|v| fortran(*v, 3)).collect();
            let energy: Vec<f64> = et.iter().map(|s| s.parse().unwrap()).collect();
            for row in et.chunks(7) {
                lines.push(row.iter().map(|s| format!("  {s}")).collect::<String>());
            }
            let mut rec = Rec::new();
            rec.put("date", V::I(time));
            rec.put("lat", V::F(lat, 0.0)).put("lon", V::F(lon, 0.0));
            rec.put("depth", V::F(depth, 0.0)).put("depth.unit", V::S("Meters".into()));
            rec.put("wind", V::F(wind, 0.0)).put("wind.unit", V::S("MetersPerSecond".into()));
            rec.put("wind.dir", V::A(wdir, 1.0));
            rec.put("cur", V::F(cur, 0.0)).put("cur.unit", V::S("MetersPerSecond".into()));
            rec.put("cur.dir", V::A(cdir, 1.0));
            rec.put("freq", V::L(freq.clone(), 0.0));
            rec.put("energy", V::L(energy, 0.0));
            for (j, f) in from.iter().enumerate() {
                rec.put(format!("dir{j}"), V::A(*f, 1.0));
            }
            Step { lines, time, rec }
        })
        .collect();
    Forecast { nk, nth, freq, header, steps }
}

pub fn canon(w: &ForecastSpectralWaveDataRecord) -> Rec {
    let mut r = Rec::new();
    r.put("date", ts(&w.date));
    r.put("lat", V::F(w.location.latitude, 0.0)).put("lon", V::F(w.location.longitude, 0.0));
    r.dim("depth", &w.depth).dim("wind", &w.wind_speed).dir("wind.dir", &w.wind_direction);
    r.dim("cur", &w.current_speed).dir("cur.dir", &w.current_direction);
    r.put("freq", V::L(w.spectra.frequency.clone(), 0.0));
    r.put("energy", V::L(w.spectra.energy.clone(), 0.0));
    for (j, d) in w.spectra.direction_deg().iter().enumerate() {
        r.put(format!("dir{j}"), V::A(*d, 0.0));
    }
    r
}

pub struct Decoded {
    pub freq: Vec<f64>,
    pub nth: usize,
    pub recs: Vec<(Rec, i64, Vec<f64>)>,
}

pub fn decode(text: &str) -> Result<Decoded, String> {
    let mut c = ForecastSpectralWaveDataRecordCollection::from_data(text);
    let (m, it) = c.records().map_err(|e| e.to_string())?;
    let recs = it.map(|w| (canon(&w), w.reference_date.timestamp(), w.spectra.energy.clone())).collect();
    Ok(Decoded { freq: m.frequency, nth: m.direction.len(), recs })
}
