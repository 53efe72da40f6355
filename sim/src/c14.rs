//! Timelines kept on a grid of the client's own, from sources whose grids differ and change.
use crate::common::{self, plan_from};
use crate::feeds::{self, station_freqs};
use crate::fspec;
use crate::objs::{buoy_directions, FIVE};
use crate::rec::circ;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use std::f64::consts::TAU;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecordCollection;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

pub struct C14;

/// One spectrum source that a client brings to its grids, hop by hop.
#[derive(Serialize, Deserialize, Clone)]
struct Item {
    /// "model", "buoy" or "own"
    src: String,
    st: u64,
    dt: i64,
    conv: u64,
    faults: Vec<Fault>,
    /// kinds of the grids, one after the other
    hops: Vec<u64>,
    /// where the save of each hop is torn (0: it is not)
    tear: Vec<u64>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    items: Vec<Item>,
}

struct Hop {
    what: String,
    src: Spectra,
    freq: Vec<f64>,
    dirs: Vec<f64>,
    out: Spectra,
    /// the same sea, its directions turned and listed in another order, brought to the grid turned as well
    turned: Option<Spectra>,
    /// the same sea with more energy
    scaled: (f64, Spectra),
    /// done again after the save was torn
    again: Option<Result<Spectra, String>>,
}

/// Points between some of the neighbours.
fn between(r: &mut Rng, v: &[f64]) -> Vec<f64> {
    let mut out = vec![];
    for w in v.windows(2) {
        if r.chance(0.6) {
            out.push(w[0] + (w[1] - w[0]) * r.frange(0.02, 0.98));
        }
    }
    out
}

/// Grid of a client: frequencies and directions (degrees from), ascending.
fn grid(kind: u64, r: &mut Rng, s: &Spectra, last: bool) -> (Vec<f64>, Vec<f64>) {
    let mut f = s.frequency.clone();
    let mut d: Vec<f64> = s.direction_deg().iter().map(|d| d.rem_euclid(360.0)).collect();
    d.sort_by(f64::total_cmp);
    let (lo, hi) = (f[0], f[f.len() - 1]);
    match kind % 6 {
        0 => {}
        1 => {
            // some of the source's bins and points between
            let mid = between(r, &f);
            f.retain(|_| r.chance(0.7));
            f.extend(mid);
            let mid = between(r, &d);
            d.retain(|_| r.chance(0.7));
            d.extend(mid);
        }
        2 => {
            let n = 2 + r.usize(40);
            let (a, b) = (lo * r.frange(0.5, 1.2), hi * r.frange(0.8, 1.5));
            f = (0..n).map(|i| a + (b - a) * i as f64 / (n - 1) as f64).collect();
            let n = *r.pick(&[1usize, 2, 3, 8, 24, 36, 72]);
            d = (0..n).map(|i| i as f64 * 360.0 / n as f64).collect();
            if last {
                d.push(360.0);
            }
        }
        3 => {
            let q = r.frange(1.02, 1.3);
            f = (0..40).map(|i| lo * 0.8 * f64::powi(q, i)).take_while(|x| *x < hi * 1.3).collect();
            f.push(hi);
            f.push(lo);
            let n = *r.pick(&[5usize, 16, 48]);
            let off = r.f64();
            d = (0..n).map(|i| (i as f64 + off) * 360.0 / n as f64).collect();
        }
        4 => {
            // around the ends of the source's range and around north
            f = vec![lo * 0.999, lo, lo * 1.001, hi * 0.999, hi, hi * 1.001, 2.0 * hi];
            d.extend([0.0, 1e-6, 0.5, 359.5, 359.999999]);
        }
        _ => {
            f = vec![lo * (hi / lo).powf(r.frange(-0.1, 1.1))];
            d = vec![r.frange(0.0, 360.0)];
        }
    }
    f.sort_by(f64::total_cmp);
    f.dedup_by(|a, b| (*a - *b).abs() < 1e-9);
    d.sort_by(f64::total_cmp);
    d.dedup_by(|a, b| (*a - *b).abs() < 1e-9);
    if f.is_empty() {
        f.push(lo);
    }
    if d.is_empty() {
        d.push(0.0);
    }
    (f, d)
}

fn usable(s: &Spectra) -> bool {
    let d: Vec<f64> = s.direction_deg();
    s.nk() >= 2
        && s.nth() >= 1
        && s.energy.len() == s.nk() * s.nth()
        && s.energy.iter().all(|e| e.is_finite() && *e >= 0.0)
        && s.frequency.windows(2).all(|w| w[1] - w[0] > 1e-6)
        && s.frequency[0] > 0.0
        && (0..d.len()).all(|i| (0..i).all(|j| circ(d[i], d[j]) > 1e-3))
        && d.iter().all(|d| (0.0..360.0).contains(d))
}

fn follow(it: &Item, seed: u64, first: Spectra, what: String) -> Vec<Hop> {
    let mut out = vec![];
    let mut s = first;
    for (h, kind) in it.hops.iter().take(6).enumerate() {
        if !usable(&s) {
            break;
        }
        let mut r = Rng::keyed(&[seed, fnv(b"c14-hop"), h as u64, *kind]);
        let last = h + 1 == it.hops.len();
        let (freq, dirs) = grid(*kind, &mut r, &s, last);
        let g = s.interpolate_to_grid(&freq, &dirs);
        // the same sea seen from a compass turned by whole degrees
        let turn = r.range(1, 359) as f64;
        let sd = s.direction_deg();
        let mut order: Vec<usize> = (0..sd.len()).collect();
        r.shuffle(&mut order);
        let nk = s.nk();
        let td: Vec<f64> = order.iter().map(|j| (sd[*j] + turn).rem_euclid(360.0)).collect();
        let te: Vec<f64> = order.iter().flat_map(|j| s.energy[j * nk..(j + 1) * nk].to_vec()).collect();
        let turned = td.iter().all(|d| *d < 360.0).then(|| {
            let t = Spectra::new(s.frequency.clone(), td.iter().map(|d| d.to_radians()).collect(), te, DirectionConvention::From);
            let to: Vec<f64> = dirs.iter().map(|d| (d + turn).rem_euclid(360.0)).collect();
            t.interpolate_to_grid(&freq, &to)
        });
        let k = *r.pick(&[0.001, 2.0, 1000.0]);
        let more = Spectra::new(s.frequency.clone(), s.direction_raw(), s.energy.iter().map(|e| e * k).collect(), s.dir_convention.clone());
        let scaled = (k, more.interpolate_to_grid(&freq, &dirs));
        // kept on disk; a torn save is refused and the work is done again from what is still there
        let text = serde_json::to_string(&g).unwrap();
        let tear = it.tear.get(h).copied().unwrap_or(0);
        let mut again = None;
        let mut kept = g.clone();
        if tear > 0 {
            let cut = (tear % text.len() as u64) as usize;
            again = Some(match serde_json::from_str::<Spectra>(&text[..cut]) {
                Ok(_) => Err(format!("a save cut at {cut} of {} was accepted", text.len())),
                Err(_) => {
                    let back: Spectra = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
                    Ok(back.interpolate_to_grid(&freq, &dirs))
                }
            });
        } else if let Ok(back) = serde_json::from_str(&text) {
            kept = back;
        }
        out.push(Hop { what: format!("{what}, grid {h} (kind {})", kind % 6), src: s, freq, dirs, out: g, turned, scaled, again });
        s = kept;
    }
    out
}

fn check(h: &Hop, ctx: &mut Ctx) {
    let w = &h.what;
    ctx.checked();
    let (s, g) = (&h.src, &h.out);
    let (nk, nth) = (h.freq.len(), h.dirs.len());
    if g.frequency != h.freq || g.nth() != nth || g.energy.len() != nk * nth {
        return ctx.violate("grid", format!("{w}: {} frequencies, {} directions and {} energies on a grid of {nk} and {nth}", g.nk(), g.nth(), g.energy.len()));
    }
    for (a, b) in g.direction_deg().iter().zip(&h.dirs) {
        if circ(*a, *b) > 1e-6 {
            return ctx.violate("grid direction", format!("{w}: direction {a} instead of {b}"));
        }
    }
    let snk = s.nk();
    let mut sd: Vec<(f64, usize)> = s.direction_deg().into_iter().enumerate().map(|(j, d)| (d.rem_euclid(360.0), j)).collect();
    sd.sort_by(|a, b| a.0.total_cmp(&b.0));
    let top = s.energy.iter().cloned().fold(0.0, f64::max);
    let eps = 1e-9 * top + 1e-300;
    for (ith, d) in h.dirs.iter().enumerate() {
        let d = d.rem_euclid(360.0);
        // the source directions around it
        let after = sd.iter().position(|x| x.0 >= d).unwrap_or(0);
        let before = (after + sd.len() - 1) % sd.len();
        let mut js: Vec<usize> = vec![sd[before].1, sd[after].1];
        let on = sd.iter().find(|x| circ(x.0, d) < 1e-9).map(|x| x.1);
        if let Some(j) = on {
            js = vec![j];
        }
        let near = sd.iter().filter(|x| circ(x.0, d) < 1e-6).map(|x| x.1);
        js.extend(near);
        for (ik, f) in h.freq.iter().enumerate() {
            let e = g.energy[ik + ith * nk];
            if !e.is_finite() || e < 0.0 {
                return ctx.violate("negative", format!("{w}: {f} Hz {d} deg has energy {e}"));
            }
            if *f < s.frequency[0] {
                ctx.probe("below_range");
                if e != 0.0 {
                    return ctx.violate("below range", format!("{w}: {f} Hz lies below the lowest frequency {} and has energy {e}", s.frequency[0]));
                }
                continue;
            }
            let mut ks = match s.frequency.iter().position(|x| x >= f) {
                Some(0) => vec![0],
                Some(k) if s.frequency[k] == *f => vec![k],
                Some(k) => vec![k - 1, k],
                None => vec![snk - 1],
            };
            let knot = ks.len() == 1;
            ks.extend((0..snk).filter(|k| (s.frequency[*k] - f).abs() < 1e-9 * f));
            let vals = || ks.iter().flat_map(|k| js.iter().map(move |j| (*k, *j))).map(|(k, j)| s.energy[k + j * snk]);
            let lo = vals().fold(f64::MAX, f64::min);
            let hi = vals().fold(0.0, f64::max);
            if e < lo - eps || e > hi + eps {
                let what = if knot && on.is_some() { "source bin" } else { "between" };
                return ctx.violate(what, format!("{w}: {f} Hz {d} deg has energy {e:e}, the source bins around it have {lo:e} to {hi:e}"));
            }
            if knot && on.is_some() {
                ctx.probe("source_bin");
            }
            if d == 0.0 || d < sd[0].0 || d > sd[sd.len() - 1].0 {
                ctx.probe("across_north");
            }
        }
    }
    // north is one direction
    if h.dirs.first() == Some(&0.0) && h.dirs.last() == Some(&360.0) {
        for ik in 0..nk {
            let (a, b) = (g.energy[ik], g.energy[ik + (nth - 1) * nk]);
            if (a - b).abs() > eps {
                return ctx.violate("north", format!("{w}: {} Hz has energy {a:e} at 0 and {b:e} at 360 degrees", h.freq[ik]));
            }
        }
    }
    if let Some(t) = &h.turned {
        ctx.probe("turned");
        for i in 0..nk * nth {
            let (a, b) = (g.energy[i], t.energy.get(i).copied().unwrap_or(f64::NAN));
            if !((a - b).abs() <= 1e-7 * top + 1e-300) {
                return ctx.violate("turned", format!("{w}: {} Hz {} deg has energy {a:e}, but {b:e} when everything is turned and listed in another order", h.freq[i % nk], h.dirs[i / nk]));
            }
        }
    }
    for i in 0..nk * nth {
        let (k, t) = (&h.scaled.0, &h.scaled.1);
        let (a, b) = (g.energy[i] * k, t.energy.get(i).copied().unwrap_or(f64::NAN));
        if !((a - b).abs() <= 1e-7 * top * k + 1e-300) {
            return ctx.violate("scaled", format!("{w}: {} Hz {} deg has energy {b:e} when the source has {k} times the energy, instead of {a:e}", h.freq[i % nk], h.dirs[i / nk]));
        }
    }
    match &h.again {
        Some(Err(m)) => ctx.violate("torn save", format!("{w}: {m}")),
        Some(Ok(s2)) => {
            ctx.fault("torn_save");
            for i in 0..nk * nth {
                let (a, b) = (g.energy[i], s2.energy.get(i).copied().unwrap_or(f64::NAN));
                // a save may move the lowest frequency by a rounding, and the cut with it
                if (h.freq[i % nk] - s.frequency[0]).abs() < 1e-12 && b == 0.0 {
                    continue;
                }
                if !((a - b).abs() <= 1e-9 * top + 1e-300) {
                    return ctx.violate("again", format!("{w}: energy {a:e} became {b:e} when the work was done again after a crash"));
                }
            }
        }
        None => {}
    }
}

impl Property for C14 {
    fn info(&self) -> Info {
        Info {
            id: "C14",
            rule: "A run simulates clients keeping timelines of sea states on grids of their own: point forecasts whose grids change from cycle to cycle (delivered over a faulty network), buoy reports rebuilt from five measurements with outages, and own spectra, brought to one grid, saved (some saves torn by a crash, the work then done again), loaded and brought to further grids, by several clients at once. After every hop each value is held against the source bins around it, the grid asked for, the same sea turned around the compass and relisted, and the same sea with more energy. Non-trivial: a fault occurred or a client went through several grids. State signature: source, grid kinds and sizes.",
            real: &["surfrs spectra, tools::interpolation, forecast, spectral and directional records", "serde_json, regex, csv"],
            stub: &["model and buoy publishers", "network (fault injector)", "storage", "client scheduler"],
            assumptions: &["Source grids have at least two ascending frequencies and distinct directions from 0 to 360 degrees.", "Target grids ascend, as the function asks."],
            quick_runs: 24_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["below_range", "source_bin", "across_north", "turned", "torn_save", "model_source", "buoy_source", "own_source", "second_grid"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let n = 1 + r.usize(if thorough { 5 } else { 3 });
        let items = (0..n)
            .map(|_| {
                let hops = 1 + r.usize(if thorough { 5 } else { 3 });
                Item {
                    src: r.pick(&["model", "buoy", "own", "own"]).to_string(),
                    st: r.below(200),
                    dt: r.range(0, 40) * 3600,
                    conv: r.below(3),
                    faults: (0..*r.pick(&[0usize, 0, 1, 2])).map(|_| net::gen_fault(r, net::KINDS)).collect(),
                    hops: (0..hops).map(|_| r.below(6)).collect(),
                    tear: (0..hops).map(|_| if r.chance(0.3) { 1 + r.below(1 << 20) } else { 0 }).collect(),
                }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: *r.pick(&[0, 8, 60, 500]), items }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        let mut t = common::clamp_time(p.start);
        let mut jobs: Vec<Box<dyn FnOnce() -> Vec<Hop> + Send>> = vec![];
        for (n, it) in p.items.iter().cloned().enumerate() {
            t = common::clamp_time(t + it.dt);
            ctx.out.sim_secs += it.dt.unsigned_abs();
            simkit::seams::set_now(t, 0);
            let seed = simkit::rng::key(&[p.world, n as u64, it.st]);
            let mut r = Rng::keyed(&[seed, fnv(b"c14")]);
            match it.src.as_str() {
                "model" => {
                    // the grid of a model changes now and then
                    let version = it.st + 1000 * (t as u64 / 86400 % 3);
                    let f = fspec::publish(p.world, version, t, 1 + (it.st % 3) as usize, false);
                    let mut bytes = f.text().into_bytes();
                    let older = fspec::publish(p.world, version, common::clamp_time(t - 21600), 1 + (it.st % 3) as usize, false).text().into_bytes();
                    for fa in &it.faults {
                        let (b, changed) = net::apply(bytes, fa, &|| older.clone());
                        bytes = b;
                        if changed {
                            ctx.fault(&fa.k);
                        }
                        bytes.truncate(400_000);
                    }
                    let text = String::from_utf8_lossy(&bytes).into_owned();
                    ctx.probe("model_source");
                    jobs.push(Box::new(move || {
                        let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
                        let Ok((_, steps)) = c.records() else { return vec![] };
                        steps.take(4).enumerate().flat_map(|(i, s)| follow(&it, seed.wrapping_add(i as u64), s.spectra, format!("item {n}: model step {i}"))).collect()
                    }));
                }
                "buoy" => {
                    let k = station_freqs(p.world, it.st).len();
                    if k < 2 {
                        continue;
                    }
                    let dirs = buoy_directions(p.world, it.st);
                    let texts: Vec<String> = FIVE.iter().map(|f| feeds::publish(f, p.world, it.st, t).text()).collect();
                    ctx.probe("buoy_source");
                    jobs.push(Box::new(move || {
                        let mut rows = vec![];
                        for t in texts.iter() {
                            let mut col = SpectralWaveDataRecordCollection::from_data(t);
                            let Some(r) = col.records().next() else { return vec![] };
                            rows.push(r);
                        }
                        let Ok([e, d1, d2, r1, r2]) = <[SpectralWaveDataRecord; 5]>::try_from(rows) else { return vec![] };
                        let r = DirectionalSpectralWaveDataRecord::from_data_records(&dirs, e, d1, d2, r1, r2);
                        follow(&it, seed, r.spectra, format!("item {n}: buoy report"))
                    }));
                }
                _ => {
                    let nk = *r.pick(&[2usize, 3, 5, 8, 16, 29]);
                    let nth = *r.pick(&[1usize, 2, 3, 4, 8, 12, 24, 36]);
                    let f0 = r.frange(0.02, 0.08);
                    let q = r.frange(1.05, 1.4);
                    let freq: Vec<f64> = if r.chance(0.5) { (0..nk).map(|k| f0 * f64::powi(q, k as i32)).collect() } else { (0..nk).map(|k| 0.03 + 0.005 * (k as f64)).collect() };
                    let off = r.frange(0.0, 0.99);
                    let mut dirs: Vec<f64> = (0..nth).map(|j| (j as f64 + if r.chance(0.3) { off } else { 0.0 }) * TAU / nth as f64).collect();
                    if r.chance(0.3) {
                        r.shuffle(&mut dirs);
                    }
                    let conv = match it.conv % 3 {
                        0 => DirectionConvention::From,
                        1 => DirectionConvention::Towards,
                        _ => DirectionConvention::Met,
                    };
                    let energy = fspec::sea(&mut r, &freq, &dirs);
                    ctx.probe("own_source");
                    jobs.push(Box::new(move || follow(&it, seed, Spectra::new(freq, dirs, energy, conv), format!("item {n}: own spectrum"))));
                }
            }
        }
        let got = common::together(p.seed, p.gap, jobs, ctx);
        for g in got {
            match g {
                Err(m) => ctx.violate("panic", m),
                Ok(hops) => {
                    if hops.len() > 1 {
                        ctx.probe("second_grid");
                        ctx.out.nontrivial = true;
                    }
                    for h in &hops {
                        ctx.reach(format!("{} {} {} {}", h.what, h.src.nk(), h.src.nth(), h.freq.len()));
                        ctx.log(format!("{}: {} bins, most {:e}", h.what, h.out.energy.len(), h.out.energy.iter().cloned().fold(0.0, f64::max)));
                        check(h, ctx);
                    }
                }
            }
            if ctx.failed() {
                return;
            }
        }
    }
}
