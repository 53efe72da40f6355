//! Seas as instruments report them, outages included, partitioned into swell.
use crate::common::{self, plan_from};
use crate::feeds::{at, spectral_values, station_freqs};
use crate::fspec;
use crate::objs::FIVE;
use crate::rec::{circ, V};
use chrono::Datelike;
use chrono::Timelike;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use std::f64::consts::{PI, TAU};
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::spectra::Spectra;
use surfrs::swell::{SwellProvider, SwellSummary};
use surfrs::units::direction::DirectionConvention;

pub struct C10;

/// A measurement (0 energy, 1-2 directions, 3-4 polar coefficients) lost for some reports and frequencies.
#[derive(Serialize, Deserialize, Clone)]
struct Outage {
    m: u64,
    rep: u64,
    nrep: u64,
    k: u64,
    nk: u64,
    /// the rest of the row is cut off instead of marked missing
    #[serde(default)]
    cut: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct Item {
    /// "model", "buoy", "sea" (a client's own spectrum), "chop" (a confused one) or "single" (one system)
    src: String,
    st: u64,
    dt: i64,
    levels: u64,
    blur: bool,
    conv: u64,
    /// reports of a buoy
    reps: u64,
    outages: Vec<Outage>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    items: Vec<Item>,
}

/// One spectrum: the truth about it and how a client gets hold of it.
struct Case {
    what: String,
    freq: Vec<f64>,
    /// direction of each bin, degrees from, and how far the library may round it
    from: Vec<f64>,
    round: f64,
    energy: Vec<f64>,
    /// slack of each energy value
    tol: Vec<f64>,
    get: Get,
    levels: usize,
    blur: Option<f32>,
    depth: Option<f64>,
    wind: Option<(f64, f64)>,
    unimodal: bool,
}
enum Get {
    Own(Vec<f64>, DirectionConvention),
    Model(std::sync::Arc<String>, usize),
    Buoy(std::sync::Arc<Vec<String>>, usize, Vec<f64>),
}

struct Out {
    freq: Vec<f64>,
    from: Vec<f64>,
    energy: Vec<f64>,
    parts: (Vec<i32>, usize),
    swell: Result<SwellSummary, String>,
    /// the record's own extraction, if the source is a record
    own: Option<Result<SwellSummary, String>>,
    splits: Vec<Vec<f64>>,
    /// of each label's spectrum alone
    alone: Vec<Result<SwellSummary, String>>,
}

fn client(c: &Case) -> Result<Out, String> {
    let mut own = None;
    let sp = match &c.get {
        Get::Own(dirs, conv) => Spectra::new(c.freq.clone(), dirs.clone(), c.energy.clone(), conv.clone()),
        Get::Model(text, i) => {
            let mut col = ForecastSpectralWaveDataRecordCollection::from_data(text);
            let (_, mut it) = col.records().map_err(|e| e.to_string())?;
            let r = it.nth(*i).ok_or("step not delivered")?;
            own = Some(r.swell_data().map_err(|e| e.to_string()));
            r.spectra
        }
        Get::Buoy(texts, i, dirs) => {
            let mut rows = vec![];
            for t in texts.iter() {
                let mut col = SpectralWaveDataRecordCollection::from_data(t);
                rows.push(col.records().nth(*i).ok_or("row not delivered")?);
            }
            let [e, d1, d2, r1, r2] = <[SpectralWaveDataRecord; 5]>::try_from(rows).map_err(|_| "SIM-BUG rows")?;
            let r = DirectionalSpectralWaveDataRecord::from_data_records(dirs, e, d1, d2, r1, r2);
            own = Some(r.swell_data().map_err(|e| e.to_string()));
            r.spectra
        }
    };
    let parts = sp.partition(c.levels, c.blur).map_err(|e| format!("partition: {e:?}"))?;
    let sw = |s: &Spectra, p: &(Vec<i32>, usize)| s.swell_data(c.depth, c.wind.map(|w| w.0), c.wind.map(|w| w.1), p).map_err(|e| e.to_string());
    let swell = sw(&sp, &parts);
    let each = Spectra::split_from_components(&sp, &parts, None);
    let alone = (0..parts.1).map(|i| sw(&Spectra::from_component(&sp, &parts, i as i32), &parts)).collect();
    Ok(Out { freq: sp.frequency.clone(), from: sp.direction_deg(), energy: sp.energy.clone(), swell, own, splits: each.into_iter().map(|s| s.energy).collect(), alone, parts })
}

/// Plausible bandwidths of each frequency under the usual integration rules.
pub fn widths(f: &[f64]) -> Vec<Vec<f64>> {
    let n = f.len();
    (0..n)
        .map(|k| {
            let b = if k > 0 { Some((f[k - 1], f[k] - f[k - 1])) } else { None };
            let a = if k + 1 < n { Some((f[k + 1], f[k + 1] - f[k])) } else { None };
            match (b, a) {
                (Some((p, b)), Some((nx, a))) => vec![b, a, 0.5 * (a + b), b * (f[k] + p) / (2.0 * p), a * (nx + f[k]) / (2.0 * nx)],
                (None, Some((_, w))) | (Some((_, w)), None) => vec![0.5 * w, w, 0.75 * w],
                _ => vec![],
            }
        })
        .collect()
}

struct Stat {
    lo: f64,
    hi: f64,
    /// acceptable peak frequencies
    peak: Vec<f64>,
    dir: Option<(f64, f64)>,
    /// acceptable ranges of the density at the peak, smoothed by a parabola over its neighbours
    density: Vec<(f64, f64)>,
}

/// Height range, peak and direction of the energy in one partition (or all of it).
fn stat(c: &Case, read: &[f64], energy: &[f64], pick: impl Fn(usize) -> bool) -> Stat {
    let from = &c.from;
    let (nk, nth) = (c.freq.len(), from.len());
    // bin widths as far as whole degrees can tell
    let mut dmin = f64::MAX;
    let mut dmax: f64 = 0.0;
    for j in 0..nth {
        let d = circ(read[j], read[(j + 1) % nth]).to_radians();
        dmin = dmin.min(d);
        dmax = dmax.max(d);
    }
    if nth == 2 {
        (dmin, dmax) = (PI, PI);
    }
    let w = widths(&c.freq);
    let mut ef = vec![0.0; nk];
    let mut vec_f = vec![(0.0, 0.0); nk];
    for j in 0..nth {
        for k in 0..nk {
            if pick(k + j * nk) {
                let e = energy[k + j * nk];
                ef[k] += e;
                vec_f[k].0 += e * from[j].to_radians().cos();
                vec_f[k].1 += e * from[j].to_radians().sin();
            }
        }
    }
    let (mut lo, mut hi) = (0.0, 0.0);
    for k in 0..nk {
        lo += ef[k] * w[k].iter().cloned().fold(f64::MAX, f64::min);
        hi += ef[k] * w[k].iter().cloned().fold(0.0, f64::max);
    }
    let fl = c.freq[nk - 1];
    lo += 0.1 * fl * ef[nk - 1];
    hi += 0.3 * fl * ef[nk - 1];
    let max = ef.iter().cloned().fold(0.0, f64::max);
    let peak = if max > 0.0 { (0..nk).filter(|k| ef[*k] >= max * (1.0 - 1e-12)).map(|k| c.freq[k]).collect() } else { vec![] };
    let density = (0..nk)
        .filter(|k| max > 0.0 && ef[*k] >= max * (1.0 - 1e-12))
        .map(|k| {
            let bend = if k > 0 && k < nk - 1 { ef[k - 1] - 2.0 * ef[k] + ef[k + 1] } else { 0.0 };
            let top = if bend < 0.0 { ef[k] - (ef[k + 1] - ef[k - 1]).powi(2) / (8.0 * bend) } else { ef[k] };
            (top * dmin * 0.999, top * dmax * 1.001)
        })
        .collect();
    // whatever the integration rule, each frequency's weight is in a range
    let range: Vec<(f64, f64)> = (0..nk)
        .map(|k| {
            let t = if k == nk - 1 { (0.1 * fl, 0.3 * fl) } else { (0.0, 0.0) };
            let (a, b) = (w[k].iter().cloned().fold(f64::MAX, f64::min) + t.0, w[k].iter().cloned().fold(0.0, f64::max) + t.1);
            (0.5 * (a + b), 0.5 * (b - a))
        })
        .collect();
    let (mut x, mut y, mut m) = (0.0, 0.0, 0.0);
    for k in 0..nk {
        x += range[k].0 * vec_f[k].0;
        y += range[k].0 * vec_f[k].1;
        m += range[k].0 * ef[k];
    }
    let len = (x * x + y * y).sqrt();
    let (mut across, mut along) = (0.0, 0.0);
    for k in 0..nk {
        across += range[k].1 * (vec_f[k].0 * y - vec_f[k].1 * x).abs() / len;
        along += range[k].1 * (vec_f[k].0 * x + vec_f[k].1 * y).abs() / len;
    }
    let dir = if max > 0.0 && len > 0.2 * m && along < 0.8 * len {
        Some((y.atan2(x).to_degrees().rem_euclid(360.0), (across / (len - along)).atan().to_degrees() + 2.0 + c.round))
    } else {
        None
    };
    Stat { lo: 4.0 * (lo * dmin).sqrt() * 0.995, hi: 4.0 * (hi * dmax).sqrt() * 1.005, peak, dir, density }
}

fn neighbours(i: usize, nk: usize, nth: usize, eight: bool) -> Vec<usize> {
    let (k, j) = ((i % nk) as i64, (i / nk) as i64);
    let mut v = vec![];
    for dk in -1..=1i64 {
        for dj in -1..=1i64 {
            if (dk, dj) == (0, 0) || (!eight && dk != 0 && dj != 0) {
                continue;
            }
            let (a, b) = (k + dk, (j + dj).rem_euclid(nth as i64));
            if a >= 0 && a < nk as i64 {
                v.push((a + b * nk as i64) as usize);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|x| *x != i);
    v
}

/// Groups of equal values that nothing adjacent, corners included, exceeds.
fn peaks(e: &[f64], nk: usize, nth: usize) -> usize {
    let mut seen = vec![false; e.len()];
    let mut n = 0;
    for i in 0..e.len() {
        if seen[i] {
            continue;
        }
        let mut stack = vec![i];
        seen[i] = true;
        let mut top = true;
        while let Some(x) = stack.pop() {
            for y in neighbours(x, nk, nth, true) {
                if e[y] > e[x] {
                    top = false;
                } else if e[y] == e[x] && !seen[y] {
                    seen[y] = true;
                    stack.push(y);
                }
            }
        }
        n += top as usize;
    }
    n
}

/// Pairs of peaks (top bins) with a trough between them, over every path, deeper than `need`.
fn separate(e: &[f64], nk: usize, nth: usize, need: f64) -> Vec<(usize, usize)> {
    let mut order: Vec<usize> = (0..e.len()).collect();
    order.sort_by(|a, b| e[*b].total_cmp(&e[*a]).then(a.cmp(b)));
    let mut root: Vec<usize> = vec![usize::MAX; e.len()];
    fn find(root: &mut [usize], mut x: usize) -> usize {
        while root[x] != x {
            root[x] = root[root[x]];
            x = root[x];
        }
        x
    }
    let mut out = vec![];
    for &i in &order {
        root[i] = i;
        for y in neighbours(i, nk, nth, true) {
            if root[y] == usize::MAX {
                continue;
            }
            let (a, b) = (find(&mut root, i), find(&mut root, y));
            if a == b {
                continue;
            }
            // the root of a group is its highest bin
            let (hi, lo) = if (e[a], b) > (e[b], a) { (a, b) } else { (b, a) };
            if e[lo] - e[i] > need && hi != i && lo != i {
                out.push((hi, lo));
            }
            root[lo] = hi;
        }
    }
    out
}

fn check(c: &Case, o: &Result<Out, String>, ctx: &mut Ctx) {
    let w = &c.what;
    let o = match o {
        Ok(o) => o,
        Err(e) => return ctx.violate("refused", format!("{w}: {e}")),
    };
    ctx.checked();
    let (nk, nth) = (c.freq.len(), c.from.len());
    if o.freq != c.freq || o.from.len() != nth || o.energy.len() != nk * nth {
        return ctx.violate("grid", format!("{w}: {} frequencies, {} directions, {} values instead of {nk}, {nth}", o.freq.len(), o.from.len(), o.energy.len()));
    }
    for j in 0..nth {
        if circ(o.from[j], c.from[j]) > 1e-6 + c.round {
            return ctx.violate("bin direction", format!("{w}: direction bin {j} is {} instead of {}", o.from[j], c.from[j]));
        }
    }
    for i in 0..nk * nth {
        if o.energy[i] < 0.0 || o.energy[i].is_nan() {
            return ctx.violate("negative", format!("{w}: bin {i} has energy {}", o.energy[i]));
        }
        if (o.energy[i] - c.energy[i]).abs() > c.tol[i] {
            return ctx.violate("energy", format!("{w}: frequency {} direction bin {} has energy {:e} instead of {:e}", c.freq[i % nk], i / nk, o.energy[i], c.energy[i]));
        }
    }
    // every bin in one partition, every partition in one piece
    let (labels, count) = &o.parts;
    if labels.len() != nk * nth {
        return ctx.violate("labels", format!("{w}: {} labels for {} bins", labels.len(), nk * nth));
    }
    if let Some((i, l)) = labels.iter().enumerate().find(|(_, l)| **l < 0 || **l as usize >= *count) {
        return ctx.violate("label range", format!("{w}: bin {i} has label {l} of {count}"));
    }
    // Lines between basins are handed out to their neighbours five bins deep, so none is left over that near to a peak.
    let floor = o.energy.iter().copied().fold(f64::INFINITY, f64::min);
    let step = (o.energy.iter().copied().fold(0.0, f64::max) - floor) / (c.levels as f64 - 1.0);
    if c.blur.is_none() && labels.contains(&0) {
        let mut near: Vec<usize> = (0..labels.len())
            .filter(|i| neighbours(*i, nk, nth, true).iter().all(|j| o.energy[*i] > o.energy[*j] + 2.0 * step))
            .collect();
        for _ in 0..5 {
            near = near.iter().flat_map(|i| neighbours(*i, nk, nth, false)).chain(near.iter().copied()).collect();
            near.sort_unstable();
            near.dedup();
        }
        if let Some(i) = near.iter().find(|i| labels[**i] == 0) {
            return ctx.violate("unassigned", format!("{w}: bin {i} of {nk} by {nth}, with energy {:e}, belongs to none of {} partitions", o.energy[*i], count - 1));
        }
    }
    let mut seen = vec![false; labels.len()];
    let mut pieces = vec![0usize; *count];
    for i in 0..labels.len() {
        if seen[i] {
            continue;
        }
        pieces[labels[i] as usize] += 1;
        let mut stack = vec![i];
        seen[i] = true;
        while let Some(x) = stack.pop() {
            for y in neighbours(x, nk, nth, true) {
                if !seen[y] && labels[y] == labels[x] {
                    seen[y] = true;
                    stack.push(y);
                }
            }
        }
    }
    for (l, n) in pieces.iter().enumerate().skip(1) {
        if *n != 1 {
            return ctx.violate("connected", format!("{w}: partition {l} of {count} is in {n} pieces"));
        }
    }
    if c.blur.is_none() {
        let p = peaks(&o.energy, nk, nth);
        if *count - 1 > p {
            return ctx.violate("split peak", format!("{w}: {} partitions for {p} peaks", count - 1));
        }
        if c.unimodal && *count != 2 {
            return ctx.violate("one system", format!("{w}: one swell system became {} partitions", count - 1));
        }
        let max = o.energy.iter().cloned().fold(0.0, f64::max);
        let min = o.energy.iter().cloned().fold(f64::MAX, f64::min);
        let need = 2.5 * (max - min) / (c.levels as f64 - 1.0);
        if max > min {
            for (a, b) in separate(&o.energy, nk, nth, need) {
                ctx.probe("separate_peaks");
                if labels[a] == labels[b] {
                    return ctx.violate("merged peaks", format!("{w}: peaks at bins {a} and {b} ({:e}, {:e}) are both in partition {}", o.energy[a], o.energy[b], labels[a]));
                }
            }
        }
    }
    ctx.reach(format!("{count} {nk} {nth}"));
    if *count > 2 {
        ctx.probe("multi_partition");
    }
    // the split is a split of the original
    if o.splits.len() != *count {
        return ctx.violate("split count", format!("{w}: {} spectra for {count} labels", o.splits.len()));
    }
    for i in 0..nk * nth {
        let sum: f64 = o.splits.iter().map(|s| s.get(i).copied().unwrap_or(f64::NAN)).sum();
        if sum != o.energy[i] || o.splits[labels[i] as usize][i] != o.energy[i] {
            return ctx.violate("split", format!("{w}: the partitions' energies at bin {i} add to {sum} instead of {}", o.energy[i]));
        }
    }
    // the swell of it
    if nk < 2 || nth < 2 {
        return;
    }
    let s = match &o.swell {
        Ok(s) => s,
        Err(e) => return ctx.violate("swell refused", format!("{w}: {e}")),
    };
    let total = stat(c, &o.from, &o.energy, |_| true);
    let hs = |x: &surfrs::swell::Swell| x.wave_height.value.unwrap_or(f64::NAN);
    let tp = |x: &surfrs::swell::Swell| x.period.value.unwrap_or(f64::NAN);
    let dir = |x: &surfrs::swell::Swell| x.direction.value.as_ref().map(|d| d.degrees as f64).unwrap_or(f64::NAN);
    let en = |x: &surfrs::swell::Swell| x.energy.as_ref().and_then(|e| e.value).unwrap_or(f64::NAN);
    let judge = |x: &surfrs::swell::Swell, st: &Stat, name: &str, ctx: &mut Ctx| {
        if !(st.lo - 1e-9..=st.hi + 1e-9).contains(&hs(x)) {
            ctx.violate("height", format!("{w}: {name} is {} m high, its energy says {:.4} to {:.4}", hs(x), st.lo, st.hi));
        }
        if !st.peak.is_empty() && !st.peak.iter().any(|f| (tp(x) * f - 1.0).abs() < 1e-9) {
            ctx.violate("period", format!("{w}: {name} has period {}, its energy peaks at {:?} Hz", tp(x), st.peak));
        }
        let dens = x.spectral_density.as_ref().and_then(|d| d.value).unwrap_or(f64::NAN);
        if !st.density.is_empty() && !st.density.iter().any(|r| (r.0..=r.1).contains(&dens)) {
            ctx.violate("density", format!("{w}: {name} has density {dens} at its peak, its energy says {:?}", st.density));
        }
        if let Some((d, tol)) = st.dir {
            if !(circ(dir(x), d) <= tol) || !(0.0..=360.0).contains(&dir(x)) {
                ctx.violate("direction", format!("{w}: {name} comes from {}, its energy from {d:.1} give or take {tol:.1}", dir(x)));
            }
        }
    };
    judge(&s.summary, &total, "the summary", ctx);
    let sum: f64 = s.components.iter().map(en).sum();
    if !((en(&s.summary) - sum).abs() <= 1e-9 * sum.abs()) {
        ctx.violate("summary energy", format!("{w}: summary energy {} but components add to {sum}", en(&s.summary)));
    }
    let mut got = vec![false; *count];
    for (n, x) in s.components.iter().enumerate() {
        let Some(id) = x.partition.filter(|p| (1..*count).contains(p)) else {
            return ctx.violate("component", format!("{w}: component {n} names partition {:?} of {count}", x.partition));
        };
        if std::mem::replace(&mut got[id], true) {
            return ctx.violate("component", format!("{w}: partition {id} is listed twice"));
        }
        let st = stat(c, &o.from, &o.energy, |i| labels[i] as usize == id);
        judge(x, &st, &format!("component {n} (partition {id})"), ctx);
        if n > 0 && !(en(&s.components[n - 1]) >= en(x)) {
            ctx.violate("order", format!("{w}: component {n} has energy {} after {}", en(x), en(&s.components[n - 1])));
        }
        let k = en(x) / (hs(x).powi(2) * tp(x).powi(2));
        let want = 1029.0 * 9.81 * 9.81 / (16.0 * PI) / 1000.0;
        if !((k / want - 1.0).abs() < 1e-2) {
            ctx.violate("wave energy", format!("{w}: component {n} of {} m and {} s has energy {}", hs(x), tp(x), en(x)));
        }
    }
    for id in 1..*count {
        let st = stat(c, &o.from, &o.energy, |i| labels[i] as usize == id);
        if got[id] && st.hi < 0.1 {
            ctx.violate("tiny", format!("{w}: partition {id} of at most {} m is a component", st.hi));
        }
        if !got[id] && st.lo >= 0.1 {
            ctx.violate("left out", format!("{w}: partition {id} of at least {} m is no component", st.lo));
        }
    }
    // energy is conserved between the whole and its parts
    let mut parts = 0.0;
    for (id, a) in o.alone.iter().enumerate() {
        let Ok(a) = a else {
            return ctx.violate("swell refused", format!("{w}: partition {id} alone"));
        };
        parts += hs(&a.summary).powi(2);
        if let Some(x) = s.components.iter().find(|x| x.partition == Some(id)) {
            if !((hs(x) - hs(&a.summary)).abs() <= 1e-9 * hs(x)) || tp(x) != tp(&a.summary) || !(circ(dir(x), dir(&a.summary)) <= 1.0) {
                ctx.violate("component alone", format!("{w}: component of partition {id} is {x} but its spectrum alone {}", a.summary));
            }
        }
    }
    if !((parts - hs(&s.summary).powi(2)).abs() <= 1e-9 * (1e-12 + parts)) {
        ctx.violate("conservation", format!("{w}: the partitions hold {parts} of {}", hs(&s.summary).powi(2)));
    }
    if let Some(own) = &o.own {
        match own {
            Ok(r) => judge(&r.summary, &total, "the record's summary", ctx),
            Err(e) => ctx.violate("swell refused", format!("{w}: {e}")),
        }
    }
}

fn cases(p: &Plan, ctx: &mut Ctx) -> Vec<Case> {
    let mut out = vec![];
    let mut t = p.start;
    for (n, it) in p.items.iter().enumerate() {
        t = common::clamp_time(t + it.dt);
        let mut r = Rng::keyed(&[p.world, fnv(b"c10"), n as u64, it.st]);
        let depth = if r.chance(0.5) { Some(r.frange(5.0, 4000.0)) } else { None };
        let wind = if r.chance(0.4) { Some((r.frange(0.0, 40.0), r.frange(0.0, TAU))) } else { None };
        let levels = it.levels.clamp(2, 255) as usize;
        let blur = if it.blur { Some(0.8) } else { None };
        match it.src.as_str() {
            "model" => {
                let steps = 1 + (it.st % 3) as usize;
                let f = fspec::publish(p.world, it.st, t, steps, p.world % 16 == 0);
                let text = std::sync::Arc::new(f.text());
                for (i, s) in f.steps.iter().enumerate() {
                    let Some(V::L(energy, _)) = s.rec.get("energy") else { panic!("SIM-BUG energy") };
                    let from: Vec<f64> = (0..f.nth).map(|j| if let Some(V::A(d, _)) = s.rec.get(&format!("dir{j}")) { *d } else { panic!("SIM-BUG dir") }).collect();
                    out.push(Case {
                        what: format!("item {n}: model step {i}"),
                        freq: f.freq.clone(),
                        from,
                        round: 1.0,
                        tol: vec![0.0; energy.len()],
                        energy: energy.clone(),
                        get: Get::Model(text.clone(), i),
                        levels,
                        blur,
                        depth,
                        wind,
                        unimodal: false,
                    });
                }
            }
            "buoy" => {
                let freq = station_freqs(p.world, it.st);
                let mut dirs = crate::objs::buoy_directions(p.world, it.st);
                if r.chance(0.2) {
                    let n = r.usize(dirs.len());
                    dirs.rotate_left(n);
                }
                if r.chance(0.1) {
                    dirs.reverse();
                }
                let reps = it.reps.clamp(1, 6);
                // newest first, as published
                let mut texts = vec![String::from("#YY  MM DD hh mm\n"); 5];
                let mut vals: Vec<Vec<Vec<f64>>> = vec![];
                for rep in 0..reps {
                    let when = t - 3600 * rep as i64;
                    let mut five: Vec<Vec<f64>> = FIVE
                        .iter()
                        .enumerate()
                        .map(|(m, f)| spectral_values(p.world, it.st, f, when).into_iter().map(|v| if m == 0 && v == 999.0 { 999.9 } else { v }).collect())
                        .collect();
                    if five.iter().flatten().any(|v| *v >= 999.0) {
                        ctx.fault("sensor_gap");
                    }
                    for u in &it.outages {
                        let (m, from, k) = ((u.m % 5) as usize, u.rep % reps, (u.k % freq.len() as u64) as usize);
                        if rep < from || rep > from + u.nrep {
                            continue;
                        }
                        if u.cut {
                            if five[m].len() > k {
                                five[m].truncate(k.max(1));
                                ctx.fault("measurement_cut");
                            }
                        } else {
                            let hi = (k + 1 + u.nk as usize).min(five[m].len());
                            for v in five[m].iter_mut().take(hi).skip(k) {
                                *v = if m == 0 { 999.9 } else { 999.0 };
                            }
                            ctx.fault("sensor_outage");
                        }
                    }
                    let d = at(when);
                    for (m, v) in five.iter().enumerate() {
                        texts[m].push_str(&format!("{:4} {:02} {:02} {:02} {:02}", d.year(), d.month(), d.day(), d.hour(), d.minute()));
                        if m == 0 {
                            texts[m].push_str(" 9.999");
                        }
                        for (f, x) in freq.iter().zip(v) {
                            texts[m].push_str(&format!(" {x:.3} ({f:.3})"));
                        }
                        texts[m].push('\n');
                    }
                    vals.push(five);
                }
                let texts = std::sync::Arc::new(texts);
                for (i, v) in vals.iter().enumerate() {
                    // the energy measurement says which frequencies there are
                    let nk = v[0].len();
                    let mut energy = vec![0.0; nk * dirs.len()];
                    let mut tol = vec![0.0; energy.len()];
                    for k in 0..nk {
                        if v.iter().any(|m| m.len() <= k) || v[0][k] == 999.9 || v[1..].iter().any(|m| m[k] == 999.0) {
                            continue;
                        }
                        for (j, th) in dirs.iter().enumerate() {
                            let s = 0.5 + v[3][k] * (th - v[1][k].to_radians()).cos() + v[4][k] * (2.0 * (th - v[2][k].to_radians())).cos();
                            energy[k + j * nk] = (v[0][k] / PI * s).max(0.0);
                            tol[k + j * nk] = 1e-9 * v[0][k];
                        }
                    }
                    out.push(Case {
                        what: format!("item {n}: buoy report {i}"),
                        freq: freq[..nk].to_vec(),
                        from: dirs.iter().map(|d| d.to_degrees()).collect(),
                        round: 0.0,
                        energy,
                        tol,
                        get: Get::Buoy(texts.clone(), i, dirs.clone()),
                        levels,
                        blur,
                        depth,
                        wind,
                        unimodal: false,
                    });
                }
            }
            kind => {
                let chop = kind == "chop";
                let nk = *r.pick(if chop { &[3usize, 4, 5, 6] } else { &[2usize, 3, 5, 8, 16, 25, 29, 47] });
                let nth = *r.pick(if chop { &[4usize, 5, 8, 12] } else { &[2usize, 4, 8, 12, 16, 24, 36] });
                let ratio = *r.pick(&[1.05, 1.07, 1.1, 1.15]);
                let f0 = r.frange(0.03, 0.06);
                let freq: Vec<f64> = if r.chance(0.5) {
                    (0..nk).map(|k| f0 * f64::powi(ratio, k as i32)).collect()
                } else {
                    (0..nk).map(|k| 0.03 + 0.01 * k as f64).collect()
                };
                let off = r.frange(0.0, 1.0);
                let mut dirs: Vec<f64> = (0..nth).map(|j| (j as f64 + off) * TAU / nth as f64).collect();
                // listed from any direction on, and either way around
                if r.chance(0.3) {
                    dirs.rotate_left(r.usize(nth));
                }
                if r.chance(0.2) {
                    dirs.reverse();
                }
                let conv = match it.conv % 3 {
                    0 => DirectionConvention::From,
                    1 => DirectionConvention::Towards,
                    _ => DirectionConvention::Met,
                };
                let from = dirs
                    .iter()
                    .map(|d| {
                        let d = d.to_degrees();
                        match it.conv % 3 {
                            0 => d,
                            1 => d + 180.0,
                            _ => 270.0 - d,
                        }
                        .rem_euclid(360.0)
                    })
                    .collect();
                let unimodal = kind == "single";
                let energy = if unimodal {
                    let fp = freq[0] * (freq[nk - 1] / freq[0]).powf(r.f64());
                    let d0 = if r.chance(0.5) { r.frange(-0.3, 0.3) } else { r.frange(0.0, TAU) };
                    let (a, w, pw) = (10f64.powf(r.frange(-3.0, 2.0)), r.frange(0.05, 0.4), *r.pick(&[1.0, 2.0, 5.0, 20.0]));
                    let mut e = vec![];
                    for d in &dirs {
                        for f in &freq {
                            let x = (f / fp).ln() / w;
                            e.push(a * (-0.5 * x * x).exp() * (0.5 * (1.0 + (d - d0).cos())).powf(pw));
                        }
                    }
                    e
                } else if kind == "chop" {
                    // no two bins alike and nothing smooth
                    let (a, pw) = (10f64.powf(r.frange(-3.0, 2.0)), *r.pick(&[0.5, 1.0, 3.0]));
                    (0..nk * nth).map(|_| a * r.f64().powf(pw)).collect()
                } else {
                    fspec::sea(&mut r, &freq, &dirs)
                };
                out.push(Case {
                    what: format!("item {n}: {kind}"),
                    freq,
                    from,
                    round: 0.0,
                    tol: vec![0.0; energy.len()],
                    energy,
                    get: Get::Own(dirs, conv),
                    levels,
                    blur,
                    depth,
                    wind,
                    unimodal,
                });
            }
        }
    }
    out
}

impl Property for C10 {
    fn info(&self) -> Info {
        Info {
            id: "C10",
            rule: "A run simulates the seas seen by a few instruments: point forecasts of a wave model, histories of hourly reports of buoys whose five measurements drop out or are cut off for some frequencies and reports, and clients' own spectra in any direction convention; clients decode them concurrently, rebuild the directional spectra, partition them and extract swell. Bins, labels, pieces, peaks, energies, heights, periods and directions are recomputed from the published truth. Non-trivial: a fault occurred or a sea had several partitions. State signature: partitions and grid of every spectrum.",
            real: &["surfrs spectra, tools::analysis, tools::waves, directional, spectral and forecast records", "image, regex"],
            stub: &["buoys, sensors and model publisher", "client scheduler"],
            assumptions: &["Missing energy is marked 999.9 and the other measurements 999, as the record expects.", "Heights may follow any of the usual frequency integration rules (forward, backward, central or logarithmic widths).", "Peak counting and trough checks apply without blur."],
            quick_runs: 42_000,
            thorough_runs: 600_000,
            digest_is_property: false,
            expect_probes: &["sensor_outage", "measurement_cut", "sensor_gap", "separate_peaks", "multi_partition", "model_sea", "buoy_sea", "own_sea"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let n = 1 + r.usize(if thorough { 5 } else { 3 });
        let items = (0..n)
            .map(|_| Item {
                src: r.pick(&["model", "buoy", "buoy", "sea", "single", "chop", "chop"]).to_string(),
                st: r.below(200),
                dt: r.range(0, 40) * 3600,
                levels: *r.pick(&[20, 50, 100, 100, 100, 150, 200, 255, 5, 2]),
                blur: r.chance(0.4),
                conv: r.below(3),
                reps: 1 + r.below(3),
                outages: (0..r.usize(5)).map(|_| Outage { m: r.below(5), rep: r.below(3), nrep: r.below(3), k: r.below(64), nk: *r.pick(&[0, 1, 3, 10, 64]), cut: r.chance(0.25) }).collect(),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: *r.pick(&[0, 8, 60, 500]), items }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        ctx.out.sim_secs += p.items.iter().map(|i| i.dt as u64 + 3600 * i.reps).sum::<u64>();
        let all = cases(&p, ctx);
        let jobs: Vec<Box<dyn FnOnce() -> Result<Out, String> + Send>> = all.iter().map(|c| Box::new(move || client(c)) as _).collect();
        let got = common::together(p.seed, p.gap, jobs, ctx);
        for (c, o) in all.iter().zip(got) {
            ctx.probe(match c.get {
                Get::Own(..) => "own_sea",
                Get::Model(..) => "model_sea",
                Get::Buoy(..) => "buoy_sea",
            });
            match o {
                Ok(o) => {
                    if let Ok(x) = &o {
                        ctx.log(format!("{}: {} labels, {} components", c.what, x.parts.1, x.swell.as_ref().map(|s| s.components.len() as i64).unwrap_or(-1)));
                        if x.parts.1 > 2 {
                            ctx.out.nontrivial = true;
                        }
                    }
                    check(c, &o, ctx)
                }
                Err(m) => ctx.violate("panic", format!("{}: {m}", c.what)),
            }
            if ctx.failed() {
                return;
            }
        }
    }
}
