//! Charts that clients draw from spectra, frame after frame.
use crate::c10::widths;
use crate::common::{self, plan_from};
use crate::feeds::{self, station_freqs};
use crate::fspec;
use crate::objs::{buoy_directions, FIVE};
use crate::rec::circ;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use std::collections::HashMap;
use std::f64::consts::TAU;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecordCollection;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::tools::vector::{bin, min_max, unbin};
use surfrs::spectra::{CartesianProjectionMap, Spectra, SpectralAxis};
use surfrs::units::direction::DirectionConvention;

pub struct C23;

/// A series of spectra charted by one client.
#[derive(Serialize, Deserialize, Clone)]
struct Item {
    /// "model", "buoy" or "own"
    src: String,
    st: u64,
    dt: i64,
    frames: u64,
    conv: u64,
    faults: Vec<Fault>,
    size: u64,
    /// 0: none, otherwise which period is the longest one drawn
    threshold: u64,
    scale: u64,
    /// the client restarts from its saved spectra before these frames (bit set)
    crash: u64,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    items: Vec<Item>,
}

struct Frame {
    what: String,
    s: Spectra,
    size: usize,
    threshold: Option<f64>,
    scale: Option<f64>,
    map: std::sync::Arc<CartesianProjectionMap>,
    shared: bool,
    restarted: bool,
    energy: Vec<f64>,
    /// another data set on the same grid and its picture
    other: Vec<f64>,
    other_chart: Vec<f64>,
    plain: Vec<f64>,
    by_f: Vec<f64>,
    by_d: Vec<f64>,
    mean: Vec<f64>,
    periods: Vec<f64>,
    /// moments over frequency and over direction by their order, and the range of values
    over_f: Vec<(i32, Vec<f64>)>,
    over_d: Vec<(i32, Vec<(f64, f64)>)>,
    range: (f64, f64),
    /// the energies as they come out of the bytes they were packed into, of so many steps
    packed: (u8, Vec<f64>),
    deg: Vec<f64>,
    rad: Vec<f64>,
    /// the grid read off between its bins: place in the list, frequency, raw direction
    place: Vec<(f64, f64, f64)>,
    /// bins by their place in the list of energies, and their energies
    bins: Vec<(usize, usize, f64)>,
    contours: Result<Vec<Contour>, String>,
    /// values that the client read off between the bins: frequency, direction, energy
    read: Vec<(f64, f64, f64)>,
    /// spectra before this one that could only be drawn somehow
    odd: u64,
}

fn from_deg(s: &Spectra) -> Vec<f64> {
    s.direction_raw()
        .iter()
        .map(|d| {
            let d = d.to_degrees();
            match s.dir_convention {
                DirectionConvention::From => d,
                DirectionConvention::Towards => d + 180.0,
                DirectionConvention::Met => 270.0 - d,
            }
            .rem_euclid(360.0)
        })
        .collect()
}

/// The narrowest and the widest that each bin of a circle of directions may be taken to be: the gaps on its two sides.
fn round_widths(deg: &[f64]) -> Vec<(f64, f64)> {
    let n = deg.len();
    let gap = |a: f64, b: f64| if n == 2 { TAU / 2.0 } else { circ(a, b).to_radians() };
    (0..n)
        .map(|j| {
            let (a, b) = (gap(deg[(j + n - 1) % n], deg[j]), gap(deg[j], deg[(j + 1) % n]));
            (a.min(b), a.max(b))
        })
        .collect()
}

fn usable(s: &Spectra) -> bool {
    s.nk() >= 2
        && s.nth() >= 2
        && s.energy.len() == s.nk() * s.nth()
        && s.energy.iter().all(|e| e.is_finite() && *e >= 0.0 && *e < 1e12)
        && s.frequency.iter().all(|f| *f > 1e-4 && *f < 1e4)
}

/// One level of a contoured spectrum: the value, where it stands in the range of levels, and the corners of its outlines.
struct Contour {
    value: f64,
    normalized: f64,
    points: Vec<(f64, f64)>,
}

fn contour_points(s: &Spectra) -> Result<Vec<Contour>, String> {
    let g = s.contoured().map_err(|e| format!("{e:?}"))?;
    fn walk(v: &Value, pts: &mut Vec<(f64, f64)>) {
        if let Value::Array(a) = v {
            match a.as_slice() {
                [x, y] if !x.is_array() => pts.push((x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN))),
                _ => a.iter().for_each(|x| walk(x, pts)),
            }
        }
    }
    let v: Value = serde_json::from_str(&g.to_string()).map_err(|e| e.to_string())?;
    Ok(v["features"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|f| {
            let number = |k: &str| f["properties"][k].as_f64().unwrap_or(f64::NAN);
            let mut points = vec![];
            walk(&f["geometry"]["coordinates"], &mut points);
            Contour { value: number(if f["properties"]["value"].is_number() { "value" } else { "threshold" }), normalized: number("normalized"), points }
        })
        .collect())
}

fn animate(it: &Item, seed: u64, first: usize, seas: Vec<Spectra>, what: &str) -> Vec<Frame> {
    let mut maps: HashMap<String, std::sync::Arc<CartesianProjectionMap>> = HashMap::new();
    let mut out = vec![];
    let mut odd = 0;
    for (n, s) in seas.into_iter().enumerate() {
        if !usable(&s) {
            odd += 1;
            // what is left of a damaged one draws to something, whatever it is
            let size = (it.size % 16 + 1) as usize;
            let map = s.compute_cartesian_projection_map(size, None, None);
            let n = s.project_cartesian_with_map(&s.energy, &map).len();
            assert!(n == size * size, "{n} pixels");
            let _ = (s.oned(SpectralAxis::Frequency), s.oned(SpectralAxis::Direction), s.mean_wave_direction_f(), contour_points(&s));
            let _ = (s.mom_f(1), s.mom_d(1), s.energy_range());
            continue;
        }
        let mut s = s;
        let restarted = it.crash >> (n % 60) & 1 == 1;
        if restarted {
            // memory is lost; the spectrum comes back from disk
            maps.clear();
            if let Ok(b) = serde_json::from_str(&serde_json::to_string(&s).unwrap()) {
                s = b;
            }
        }
        let mut r = Rng::keyed(&[seed, fnv(b"c23-frame"), n as u64]);
        let size = (it.size % 48 + 1) as usize;
        let periods: Vec<f64> = s.frequency.iter().map(|f| 1.0 / f).collect();
        let threshold = match it.threshold {
            0 => None,
            t if t % 3 == 0 => Some(periods[(t / 3 % periods.len() as u64) as usize]),
            t if t % 3 == 1 => Some(5.0 + (t / 3 % 40) as f64),
            t => Some(periods[(t / 3 % periods.len() as u64) as usize] * 1.01),
        };
        let scale = [None, Some(1.0), Some(0.5), Some(1.5), Some(2.0), Some(3.0)][(it.scale % 6) as usize];
        let key = format!("{:?} {:?} {:?} {size} {threshold:?} {scale:?}", s.frequency, s.direction_raw(), s.dir_convention);
        let shared = maps.contains_key(&key);
        let map = maps.entry(key).or_insert_with(|| std::sync::Arc::new(s.compute_cartesian_projection_map(size, threshold, scale))).clone();
        let other: Vec<f64> = match r.usize(3) {
            0 => s.partition(100, None).map(|p| p.0.into_iter().map(|l| l as f64).collect()).unwrap_or_default(),
            1 => s.partition(100, None).map(|p| Spectra::from_component(&s, &p, (p.1 as i32 - 1).min(1)).energy).unwrap_or_default(),
            _ => (0..s.energy.len()).map(|i| i as f64).collect(),
        };
        let other = if other.len() == s.energy.len() { other } else { s.energy.clone() };
        out.push(Frame {
            what: format!("{what}, frame {}", first + n),
            energy: s.project_cartesian_with_map(&s.energy, &map),
            other_chart: s.project_cartesian_with_map(&other, &map),
            plain: if n % 3 == 0 { s.project_cartesian(&other, size, threshold, scale) } else { vec![] },
            other,
            by_f: s.oned(SpectralAxis::Frequency),
            by_d: s.oned(SpectralAxis::Direction),
            mean: s.mean_wave_direction_f(),
            periods: s.period(),
            read: (0..4)
                .map(|i| {
                    let f = s.frequency[r.usize(s.nk())];
                    let g = s.frequency[r.usize(s.nk())];
                    let f = if i == 3 { f } else { f + (g - f) * r.frange(0.0, 1.0) };
                    let d = if i > 1 { s.direction_raw()[r.usize(s.nth())] } else { r.frange(0.0, TAU) };
                    (f, d, s.interp_energy(f, d))
                })
                .collect(),
            over_f: [-1, 0, 1, 2, 4].into_iter().map(|i| (i, s.mom_f(i))).collect(),
            over_d: [0, 1, 2].into_iter().map(|i| (i, s.mom_d(i))).collect(),
            range: s.energy_range(),
            packed: {
                let (min, max) = min_max(&s.energy);
                let steps = [255, 255, 100, 10, 1][r.usize(5)];
                (steps, unbin(&bin(&s.energy, &min, &max, &steps), &min, &max, &steps))
            },
            deg: s.direction_deg(),
            rad: s.direction_rad(),
            place: (0..4)
                .map(|i| {
                    let x = r.frange(-0.9, s.nk().max(s.nth()) as f64 + 1.0);
                    let x = if i == 0 { x.round() } else { x };
                    (x, s.ik(x), s.ith(x))
                })
                .collect(),
            bins: s.energy_indices().into_iter().map(|(k, j)| (k, j, s.energy_at(k, j))).collect(),
            contours: contour_points(&s),
            map,
            odd: std::mem::take(&mut odd),
            shared,
            restarted,
            size,
            threshold,
            scale,
            s,
        });
    }
    out
}

fn check(f: &Frame, ctx: &mut Ctx) {
    let (w, s) = (&f.what, &f.s);
    let (nk, nth) = (s.nk(), s.nth());
    ctx.checked();
    ctx.probe_n("odd_spectrum", f.odd);
    if f.shared {
        ctx.probe("map_reused");
    }
    if f.restarted {
        ctx.fault("crash");
    }
    let from = from_deg(s);
    let periods: Vec<f64> = s.frequency.iter().map(|f| 1.0 / f).collect();
    if f.periods.len() != nk || f.periods.iter().zip(&periods).any(|(a, b)| (a - b).abs() > 1e-9 * b) {
        return ctx.violate("periods", format!("{w}: {:?} instead of {periods:?}", f.periods));
    }
    // the polar chart
    let (n, half) = (f.size, (f.size / 2) as f64);
    let longest = periods.iter().cloned().fold(0.0, f64::max);
    let limit = f.threshold.unwrap_or(longest);
    let scale = f.scale.unwrap_or(1.0);
    let mut at: Vec<(f64, f64, usize)> = vec![];
    let mut sure = false;
    for k in 0..nk {
        if periods[k] > limit * (1.0 + 1e-9) {
            ctx.probe("too_long");
            continue;
        }
        sure |= periods[k] < limit * (1.0 - 1e-9) || f.threshold.is_none();
        let r = half * (periods[k] / limit).powf(scale);
        for j in 0..nth {
            // north at the top, rows downwards, clockwise
            let t = from[j].to_radians();
            at.push((half + r * t.sin(), half - r * t.cos(), k + j * nk));
        }
    }
    if f.map.size != n || f.map.indices.len() != n * n {
        return ctx.violate("chart size", format!("{w}: {} pixels for a size of {n}", f.map.indices.len()));
    }
    for (i, p) in f.map.indices.iter().enumerate() {
        let (x, y) = ((i % n) as f64, (i / n) as f64);
        let outside = (x - half).hypot(y - half) > half + 1.0;
        match p {
            None => {
                if sure && !outside {
                    return ctx.violate("hole", format!("{w}: pixel {x} {y} of {n} is empty"));
                }
            }
            Some(b) => {
                let d = |a: &(f64, f64, usize)| (a.0 - x).hypot(a.1 - y);
                let best = at.iter().map(d).fold(f64::MAX, f64::min);
                let Some(mine) = at.iter().find(|a| a.2 == *b).map(d) else {
                    return ctx.violate("not drawn", format!("{w}: pixel {x} {y} shows bin {b}, whose period is longer than {limit} s or which does not exist"));
                };
                if mine > best + 1e-6 * (n as f64) {
                    let near = at.iter().min_by(|a, b| d(a).total_cmp(&d(b))).unwrap().2;
                    return ctx.violate(
                        "wrong bin",
                        format!(
                            "{w}: pixel {x} {y} of {n} shows the bin of {:.1} s from {:.1}, the nearest one is that of {:.1} s from {:.1}",
                            periods[b % nk], from[b / nk], periods[near % nk], from[near / nk]
                        ),
                    );
                }
            }
        }
    }
    let same = |a: &[f64], data: &[f64]| a.len() == n * n && a.iter().zip(&f.map.indices).all(|(v, p)| match p {
        Some(b) => *v == data[*b],
        None => v.is_nan() || *v == 0.0,
    });
    if !same(&f.energy, &s.energy) {
        return ctx.violate("chart energy", format!("{w}: pixels do not show the energies of their bins"));
    }
    if !same(&f.other_chart, &f.other) || !f.plain.is_empty() && !same(&f.plain, &f.other) {
        return ctx.violate("chart values", format!("{w}: pixels do not show the values of their bins for another data set on the grid"));
    }
    // the charts along one axis
    let wd = round_widths(&from);
    let even = wd.iter().all(|w| w.1 < w.0 * (1.0 + 1e-6));
    ctx.probe(if even { "even_grid" } else { "uneven_grid" });
    let wk = widths(&s.frequency);
    let ascending = s.frequency.windows(2).all(|w| w[1] > w[0]);
    if f.by_f.len() != nk || f.by_d.len() != nth || f.mean.len() != nk {
        return ctx.violate("one axis", format!("{w}: {} and {} values along {nk} frequencies and {nth} directions", f.by_f.len(), f.by_d.len()));
    }
    for k in 0..nk {
        let e = |j: usize| s.energy[k + j * nk];
        let sum = |f: &dyn Fn(usize) -> f64| (0..nth).map(f).sum::<f64>();
        let (lo, hi) = (sum(&|j| e(j) * wd[j].0), sum(&|j| e(j) * wd[j].1));
        if !(f.by_f[k] >= lo * (1.0 - 1e-9) - 1e-300 && f.by_f[k] <= hi * (1.0 + 1e-9) + 1e-300) {
            return ctx.violate("along frequency", format!("{w}: {} Hz has {:e}, its bins say {lo:e} to {hi:e}", s.frequency[k], f.by_f[k]));
        }
        // the mean direction follows from the widths up to what they leave open
        let mid = |j: usize| e(j) * (wd[j].0 + wd[j].1) / 2.0;
        let (x, y) = (sum(&|j| mid(j) * from[j].to_radians().cos()), sum(&|j| mid(j) * from[j].to_radians().sin()));
        let open = (hi - lo) / 2.0 / x.hypot(y).max(1e-300);
        if hi > 1e-9 && x.hypot(y) > 0.1 * hi && open < 0.7 {
            ctx.probe("mean_direction");
            let (d, tol) = (y.atan2(x).to_degrees(), 0.01 + open.asin().to_degrees());
            if !(circ(f.mean[k], d) <= tol) || !(-1e-9..=360.0 + 1e-9).contains(&f.mean[k]) {
                return ctx.violate("mean direction", format!("{w}: {} Hz comes from {}, its bins from {:.2} give or take {tol:.2}", s.frequency[k], f.mean[k], d.rem_euclid(360.0)));
            }
        }
    }
    if ascending {
        for j in 0..nth {
            let (mut lo, mut hi) = (0.0, 0.0);
            for k in 0..nk {
                lo += s.energy[k + j * nk] * wk[k].iter().cloned().fold(f64::MAX, f64::min);
                hi += s.energy[k + j * nk] * wk[k].iter().cloned().fold(0.0, f64::max);
            }
            if !(f.by_d[j] >= lo * (1.0 - 1e-9) - 1e-300 && f.by_d[j] <= hi * (1.0 + 1e-9) + 1e-300) {
                return ctx.violate("along direction", format!("{w}: {} deg has {:e}, its bins say {lo:e} to {hi:e}", from[j], f.by_d[j]));
            }
        }
    }
    if let Err(e) = figures(f, &from, &wd, &wk, ascending) {
        return ctx.violate("figures", format!("{w}: {e}"));
    }
    between(f, &from, ctx);
    match &f.contours {
        Err(e) => ctx.violate("contours", format!("{w}: {e}")),
        Ok(levels) => contours(f, levels, &from, &periods, ctx),
    }
}

/// Moments, the range of values and the grid itself.
fn figures(f: &Frame, from: &[f64], wd: &[(f64, f64)], wk: &[Vec<f64>], ascending: bool) -> Result<(), String> {
    let s = &f.s;
    let (nk, nth) = (s.nk(), s.nth());
    let raw = s.direction_raw();
    // the sum of parts, each between two bounds
    let within = |got: f64, parts: &mut dyn Iterator<Item = (f64, f64)>| {
        let (mut lo, mut hi, mut size) = (0.0, 0.0, 0.0);
        for (a, b) in parts {
            lo += a.min(b);
            hi += a.max(b);
            size += a.abs().max(b.abs());
        }
        let tol = 1e-9 * size + 1e-300;
        if got >= lo - tol && got <= hi + tol { None } else { Some(format!("{got:e} where the bins say {lo:e} to {hi:e}")) }
    };
    if ascending {
        for (i, m) in &f.over_f {
            if m.len() != nth {
                return Err(format!("{} moments over {nth} directions", m.len()));
            }
            for j in 0..nth {
                let mut parts = (0..nk).map(|k| {
                    let e = s.energy[k + j * nk] * s.frequency[k].powi(*i);
                    (e * wk[k].iter().cloned().fold(f64::MAX, f64::min), e * wk[k].iter().cloned().fold(0.0, f64::max))
                });
                if let Some(e) = within(m[j], &mut parts) {
                    return Err(format!("frequency moment {i} from {} is {e}", from[j]));
                }
            }
        }
    }
    for (i, m) in &f.over_d {
        if m.len() != nk {
            return Err(format!("{} moments over {nk} frequencies", m.len()));
        }
        for k in 0..nk {
            for (got, part) in [(m[k].0, f64::sin as fn(f64) -> f64), (m[k].1, f64::cos)] {
                let mut parts = (0..nth).map(|j| {
                    let e = s.energy[k + j * nk] * part(raw[j]).powi(*i);
                    (e * wd[j].0, e * wd[j].1)
                });
                if let Some(e) = within(got, &mut parts) {
                    return Err(format!("direction moment {i} of {} Hz is {e}", s.frequency[k]));
                }
            }
        }
    }
    let (low, high) = s.energy.iter().fold((f64::MAX, 0.0f64), |a, e| (a.0.min(*e), a.1.max(*e)));
    let (steps, packed) = &f.packed;
    let step = (high - low) / *steps as f64 * (1.0 + 1e-9);
    if packed.len() != s.energy.len() || packed.iter().zip(&s.energy).any(|(p, e)| !((p - e).abs() <= step)) {
        return Err(format!("energies from {low:e} to {high:e} packed into {steps} steps come out as {packed:?}, they are {:?}", s.energy));
    }
    if f.range != (low, high) {
        return Err(format!("energies are said to be from {:e} to {:e}, they are from {low:e} to {high:e}", f.range.0, f.range.1));
    }
    if f.deg.len() != nth || f.rad.len() != nth || (0..nth).any(|j| !(circ(f.deg[j], from[j]) < 1e-6 && circ(f.rad[j].to_degrees(), from[j]) < 1e-6)) {
        return Err(format!("directions {:?} and {:?} instead of {from:?}", f.deg, f.rad));
    }
    for (x, fr, dir) in &f.place {
        let at = |n: usize| (x.floor().clamp(0.0, n as f64 - 1.0) as usize, (x.floor() + 1.0).clamp(0.0, n as f64 - 1.0) as usize, (x - x.floor()).clamp(0.0, 1.0));
        let (a, b, t) = at(nk);
        let want = s.frequency[a] + (s.frequency[b] - s.frequency[a]) * t;
        if !((fr - want).abs() <= 1e-9 * want) {
            return Err(format!("{fr} Hz at place {x} of the frequencies instead of {want}"));
        }
        let (a, b, t) = at(nth);
        let (a, b) = (raw[a].to_degrees(), raw[b].to_degrees());
        let gap = (b - a + 540.0).rem_euclid(360.0) - 180.0;
        if gap.abs() < 179.0 && !(circ(dir.to_degrees(), a + gap * t) < 1e-6) {
            return Err(format!("{} degrees at place {x} of the directions instead of {}", dir.to_degrees(), a + gap * t));
        }
    }
    if f.bins.len() != s.energy.len() || f.bins.iter().enumerate().any(|(i, b)| b.0 + b.1 * nk != i || b.0 >= nk || b.2 != s.energy[i]) {
        return Err(format!("bins listed are not those of the energies: {:?}", f.bins));
    }
    Ok(())
}

/// Only a grid that goes once around and upwards has one place for each direction and frequency.
fn once_around(s: &Spectra, from: &[f64]) -> bool {
    let gaps: Vec<f64> = (0..from.len()).map(|j| (from[(j + 1) % from.len()] - from[j] + 540.0).rem_euclid(360.0) - 180.0).collect();
    gaps.iter().all(|g| g.abs() > 1e-3 && g.abs() < 179.0 && g * gaps[0] > 0.0) && (gaps.iter().sum::<f64>().abs() - 360.0).abs() < 1e-3 && s.frequency.windows(2).all(|w| w[1] > w[0] * (1.0 + 1e-6))
}

/// What a client reads off between the bins follows from the four bins around.
fn between(f: &Frame, from: &[f64], ctx: &mut Ctx) {
    let (w, s) = (&f.what, &f.s);
    let (nk, nth) = (s.nk(), s.nth());
    if !once_around(s, from) {
        return;
    }
    let raw: Vec<f64> = s.direction_raw().iter().map(|d| d.to_degrees()).collect();
    let max = s.energy.iter().cloned().fold(0.0, f64::max);
    for (fr, dir, got) in &f.read {
        ctx.probe("read_between");
        let d = dir.to_degrees();
        let k = s.frequency.iter().rposition(|x| x <= fr).unwrap_or(0).min(nk - 2);
        let a = ((fr - s.frequency[k]) / (s.frequency[k + 1] - s.frequency[k])).clamp(0.0, 1.0);
        let mut want = vec![];
        for j in 0..nth {
            let m = (j + 1) % nth;
            let (x, y, gap) = (circ(raw[j], d), circ(d, raw[m]), circ(raw[j], raw[m]));
            if (x + y - gap).abs() < 1e-6 {
                let b = (x / gap).clamp(0.0, 1.0);
                let e = |k: usize, j: usize| s.energy[k + j * nk];
                want.push((e(k, j) * (1.0 - a) + e(k + 1, j) * a) * (1.0 - b) + (e(k, m) * (1.0 - a) + e(k + 1, m) * a) * b);
            }
        }
        if !want.iter().any(|v| (v - got).abs() <= 1e-6 * max) {
            return ctx.violate("between bins", format!("{w}: {got:e} at {fr} Hz and {d:.2} degrees, the bins around it say {want:?}"));
        }
    }
}

/// A contour is where the chart has its value, straight from bin to bin.
fn contours(f: &Frame, levels: &[Contour], from: &[f64], periods: &[f64], ctx: &mut Ctx) {
    let (w, s, nk, nth) = (&f.what, &f.s, periods.len(), from.len());
    if !once_around(s, from) {
        return;
    }
    let max = s.energy.iter().cloned().fold(0.0, f64::max);
    let top = levels.iter().map(|l| l.value).fold(f64::MIN, f64::max);
    let bottom = levels.iter().map(|l| l.value).fold(f64::MAX, f64::min);
    for l in levels {
        let t = l.value;
        let share = (t - bottom) / (top - bottom);
        if share.is_finite() && max > 0.11 && !((l.normalized - share).abs() < 1e-6) {
            return ctx.violate("contour level", format!("{w}: level {t} of {bottom} to {top} is said to be at {}", l.normalized));
        }
        if l.points.is_empty() && s.energy.iter().any(|e| *e > t * (1.0 + 1e-9)) && t > 0.0 {
            return ctx.violate("contour missing", format!("{w}: no contour of {t:e} though the highest bin has {max:e}"));
        }
        let tol = 1e-6 * (max + t.abs());
        for (p, d) in &l.points {
            // between which frequencies, and between which directions
            let fr = 1.0 / p;
            let k = s.frequency.iter().rposition(|x| *x <= fr * (1.0 + 1e-9)).filter(|_| fr <= s.frequency[nk - 1] * (1.0 + 1e-9));
            let Some(k) = k else {
                return ctx.violate("contour off chart", format!("{w}: point {p} {d} with periods from {} to {}", periods[nk - 1], periods[0]));
            };
            let k = k.min(nk - 2);
            let a = ((fr - s.frequency[k]) / (s.frequency[k + 1] - s.frequency[k])).clamp(0.0, 1.0);
            let mut found = false;
            for j in 0..nth - 1 {
                let gap = circ(from[j], from[j + 1]);
                let (x, y) = (circ(from[j], *d), circ(*d, from[j + 1]));
                if !((x + y - gap).abs() < 1e-6) {
                    continue;
                }
                let b = (x / gap).clamp(0.0, 1.0);
                let e = |k: usize, j: usize| s.energy[k + j * nk];
                let v = (e(k, j) * (1.0 - a) + e(k + 1, j) * a) * (1.0 - b) + (e(k, j + 1) * (1.0 - a) + e(k + 1, j + 1) * a) * b;
                let edge = k == 0 && a < 1e-6 || k == nk - 2 && a > 1.0 - 1e-6 || j == 0 && b < 1e-6 || j == nth - 2 && b > 1.0 - 1e-6;
                found |= (v - t).abs() <= tol || edge && v >= t - tol;
            }
            if !found {
                return ctx.violate("contour", format!("{w}: the contour of {t:e} passes through {p} s from {d}, where the chart has another value"));
            }
        }
        ctx.probe_n("contour_points", l.points.len() as u64);
    }
}

impl Property for C23 {
    fn info(&self) -> Info {
        Info {
            id: "C23",
            rule: "A run simulates clients that draw charts of sea states frame after frame: point forecasts delivered over a faulty network, buoy reports rebuilt from five measurements with dropouts, and spectra of their own whose grid, convention and listing change between frames. A client computes a projection map per grid and reuses it for later frames and other data, loses its memory now and then and starts again from saved spectra; several clients are preempted inside each other's calls. Every pixel is held against the bin nearest to it on a polar chart computed from the published grid, and the charts along one axis against the bins' sums. Non-trivial: a fault occurred or a map was used again. State signature: source, sizes, threshold and scale.",
            real: &["surfrs spectra (projection, one-dimensional spectra, mean directions, contours), records", "kdtree, contour, geojson, serde_json, regex, csv"],
            stub: &["model and buoy publishers", "network (fault injector)", "storage", "client scheduler"],
            assumptions: &["Bins at the same distance from a pixel may either be shown; pixels outside the disc may be empty.", "Sums along direction may follow any of the usual frequency widths; sums along frequency may count the gap on either side of a direction as its width.", "Spectra have at least two frequencies and two directions and finite energies."],
            quick_runs: 15_000,
            thorough_runs: 200_000,
            digest_is_property: false,
            expect_probes: &["map_reused", "too_long", "even_grid", "uneven_grid", "mean_direction", "contour_points", "read_between", "odd_spectrum", "model_source", "buoy_source", "own_source"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let n = 1 + r.usize(if thorough { 5 } else { 3 });
        let items = (0..n)
            .map(|_| Item {
                src: r.pick(&["model", "buoy", "own", "own"]).to_string(),
                st: r.below(200),
                dt: r.range(0, 40) * 3600,
                frames: 1 + r.below(if thorough { 8 } else { 4 }),
                conv: r.below(3),
                faults: (0..*r.pick(&[0usize, 0, 1, 2, 4])).map(|_| { let kinds: &[&str] = if r.chance(0.5) { net::KINDS } else { &["head_token", "head_digits", "digits", "garble_token", "line_head_token"] }; net::gen_fault(r, kinds) }).collect(),
                size: if r.chance(0.8) { 4 + r.below(24) } else { r.below(48) },
                threshold: if r.chance(0.4) { 0 } else { 1 + r.below(200) },
                scale: r.below(6),
                crash: if r.chance(0.4) { r.u64() >> 12 } else { 0 },
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: *r.pick(&[0, 8, 60, 500]), items }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        let mut t = common::clamp_time(p.start);
        let mut jobs: Vec<Box<dyn FnOnce() -> Vec<Frame> + Send>> = vec![];
        for (n, it) in p.items.iter().cloned().enumerate() {
            t = common::clamp_time(t + it.dt);
            ctx.out.sim_secs += it.dt.unsigned_abs() + it.frames * 3600;
            simkit::seams::set_now(t, 0);
            let seed = simkit::rng::key(&[p.world, n as u64, it.st]);
            let mut r = Rng::keyed(&[seed, fnv(b"c23")]);
            let frames = it.frames.clamp(1, 12);
            ctx.reach(format!("{} {} {} {} {}", it.src, it.size, it.threshold, it.scale, it.st));
            match it.src.as_str() {
                "model" => {
                    let f = fspec::publish(p.world, it.st, t, frames as usize, false);
                    let mut bytes = f.text().into_bytes();
                    let older = fspec::publish(p.world, it.st, common::clamp_time(t - 21600), frames as usize, false).text().into_bytes();
                    for fa in &it.faults {
                        let (b, changed) = net::apply(bytes, fa, &|| older.clone());
                        bytes = b;
                        if changed {
                            ctx.fault(&fa.k);
                        }
                        bytes.truncate(400_000);
                    }
                    let text = String::from_utf8_lossy(&bytes).into_owned();
                    ctx.probe("model_source");
                    jobs.push(Box::new(move || {
                        let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
                        let Ok((_, steps)) = c.records() else { return vec![] };
                        let seas = steps.take(12).map(|s| s.spectra).collect();
                        animate(&it, seed, 0, seas, &format!("item {n}: model"))
                    }));
                }
                "buoy" => {
                    if station_freqs(p.world, it.st).len() < 2 {
                        continue;
                    }
                    let dirs = buoy_directions(p.world, it.st);
                    let hours: Vec<Vec<String>> = (0..frames as i64).map(|h| FIVE.iter().map(|f| feeds::publish(f, p.world, it.st, common::clamp_time(t + h * 3600)).text()).collect()).collect();
                    ctx.probe("buoy_source");
                    jobs.push(Box::new(move || {
                        let mut seas = vec![];
                        for texts in &hours {
                            let mut rows = vec![];
                            for t in texts.iter() {
                                let mut col = SpectralWaveDataRecordCollection::from_data(t);
                                rows.extend(col.records().next());
                            }
                            if let Ok([e, d1, d2, r1, r2]) = <[SpectralWaveDataRecord; 5]>::try_from(rows) {
                                seas.push(DirectionalSpectralWaveDataRecord::from_data_records(&dirs, e, d1, d2, r1, r2).spectra);
                            }
                        }
                        animate(&it, seed, 0, seas, &format!("item {n}: buoy"))
                    }));
                }
                _ => {
                    let mut seas = vec![];
                    let mut grid: Option<(Vec<f64>, Vec<f64>)> = None;
                    for _ in 0..frames {
                        if grid.is_none() || r.chance(0.3) {
                            let nk = *r.pick(&[2usize, 3, 5, 8, 16, 29]);
                            let nth = *r.pick(&[2usize, 3, 4, 8, 12, 24, 36]);
                            let (f0, q) = (r.frange(0.02, 0.08), r.frange(1.05, 1.4));
                            let freq: Vec<f64> = if r.chance(0.5) { (0..nk).map(|k| f0 * f64::powi(q, k as i32)).collect() } else { (0..nk).map(|k| 0.03 + 0.005 * (k as f64)).collect() };
                            let off = if r.chance(0.5) { r.frange(0.0, 0.99) } else { 0.0 };
                            let mut dirs: Vec<f64> = (0..nth).map(|j| (j as f64 + off) * TAU / nth as f64).collect();
                            // some closer together than others
                            if nth > 3 && r.chance(0.3) {
                                for d in dirs.iter_mut() {
                                    *d += r.frange(0.0, 0.8) * TAU / nth as f64;
                                    *d %= TAU;
                                }
                                dirs.sort_by(f64::total_cmp);
                            }
                            // listed from any direction on, and either way around
                            if r.chance(0.4) {
                                dirs.rotate_left(r.usize(nth));
                            }
                            if r.chance(0.3) {
                                dirs.reverse();
                            }
                            grid = Some((freq, dirs));
                        }
                        let (freq, dirs) = grid.clone().unwrap();
                        let conv = match it.conv % 3 {
                            0 => DirectionConvention::From,
                            1 => DirectionConvention::Towards,
                            _ => DirectionConvention::Met,
                        };
                        let energy = fspec::sea(&mut r, &freq, &dirs);
                        seas.push(Spectra::new(freq, dirs, energy, conv));
                    }
                    ctx.probe("own_source");
                    jobs.push(Box::new(move || animate(&it, seed, 0, seas, &format!("item {n}: own"))));
                }
            }
        }
        let got = common::together(p.seed, p.gap, jobs, ctx);
        for g in got {
            match g {
                Err(m) => ctx.violate("panic", m),
                Ok(frames) => {
                    for f in &frames {
                        if f.shared {
                            ctx.out.nontrivial = true;
                        }
                        ctx.log(format!("{}: size {}, {} bins, {:.3e}", f.what, f.size, f.s.energy.len(), f.by_f.iter().sum::<f64>()));
                        check(f, ctx);
                        if ctx.failed() {
                            return;
                        }
                    }
                }
            }
            if ctx.failed() {
                return;
            }
        }
    }
}
