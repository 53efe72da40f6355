//! Charts of gridded fields that arrive in blocks, hour after hour.
use crate::common::{self, plan_from};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use surfrs::tools::contour::compute_latlng_gridded_contours;
use surfrs::tools::linspace::linspace;

pub struct C18;

#[derive(Serialize, Deserialize, Clone)]
struct Frame {
    c: u64,
    /// hours since the last frame
    dt: i64,
    grid: u64,
    /// lowest and highest level in tenths of the field's unit and their number, where the client sets them
    bottom: Option<i64>,
    top: Option<i64>,
    count: Option<u64>,
    label: bool,
    /// blocks of the field that never came: (first row, rows)
    lost: Vec<(u64, u64)>,
    /// single values lost
    holes: Vec<u64>,
    /// the field came late: hours
    late: u64,
    /// thousandths of the saved chart found after a restart, 0 for no restart
    saved: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Grid {
    cols: u64,
    rows: u64,
    /// microdegrees
    lng: i64,
    dlng: i64,
    lat: i64,
    dlat: i64,
    land: bool,
    flat: bool,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    grids: Vec<Grid>,
    frames: Vec<Frame>,
}

impl Grid {
    fn size(&self) -> (usize, usize) {
        (self.cols.clamp(3, 400) as usize, self.rows.clamp(3, 60) as usize)
    }
    fn place(&self, x: f64, y: f64) -> (f64, f64) {
        ((self.lng as f64 + x * self.dlng as f64) / 1e6, (self.lat as f64 + y * self.dlat as f64) / 1e6)
    }
    fn around(&self) -> bool {
        self.dlng * self.size().0 as i64 == 360_000_000
    }
    /// The sea at an hour: storms under way over a background, land where there is none.
    fn field(&self, world: u64, hour: i64) -> Vec<f64> {
        let (nx, ny) = self.size();
        let mut r = Rng::keyed(&[world, fnv(b"c18"), self.lng as u64, self.cols, self.rows]);
        let storms: Vec<(f64, f64, f64, f64, f64, f64)> = (0..4)
            .map(|_| {
                (
                    r.range(0, 1000) as f64 / 1000.0 * nx as f64,
                    r.range(0, 1000) as f64 / 1000.0 * ny as f64,
                    r.range(-300, 300) as f64 / 1000.0,
                    r.range(-100, 100) as f64 / 1000.0,
                    r.range(50, 900) as f64 / 100.0,
                    1.0 + r.range(0, 1000) as f64 / 1000.0 * nx.min(ny) as f64 / 4.0,
                )
            })
            .collect();
        let base = r.range(-300, 300) as f64 / 100.0;
        let land: Vec<(f64, f64, f64)> = (0..3).map(|_| (r.range(0, 1000) as f64 / 1000.0 * nx as f64, r.range(0, 1000) as f64 / 1000.0 * ny as f64, r.range(0, 300) as f64 / 100.0)).collect();
        let mut v = vec![];
        for j in 0..ny {
            for i in 0..nx {
                let (x, y) = (i as f64, j as f64);
                // the storms go around with the grid
                let gap = |a: f64, b: f64| {
                    let d = (a - b).rem_euclid(nx as f64);
                    d.min(nx as f64 - d)
                };
                if self.land && land.iter().any(|l| gap(x, l.0).powi(2) + (y - l.1).powi(2) < l.2 * l.2) {
                    v.push(f64::NAN);
                    continue;
                }
                let s: f64 = storms.iter().map(|s| s.4 * (-(gap(x, s.0 + s.2 * hour as f64).powi(2) + (y - s.1 - s.3 * hour as f64).powi(2)) / (2.0 * s.5 * s.5)).exp()).sum();
                let z = base + s + if self.flat { 0.0 } else { r.range(0, 1000) as f64 / 2e4 };
                v.push(if self.flat { (z * 2.0).round() / 2.0 } else { z });
            }
        }
        v
    }
}

/// A level of a chart: its place in the range, its label and its outlines.
#[derive(Clone, PartialEq, Debug)]
struct Level {
    normalized: f64,
    threshold: f64,
    label: Option<String>,
    rings: Vec<Vec<(f64, f64)>>,
}

fn level(f: &Value) -> Option<Level> {
    let p = f.get("properties")?;
    let polys = f.get("geometry")?.get("coordinates")?.as_array()?;
    let rings = polys
        .iter()
        .flat_map(|p| p.as_array().into_iter().flatten())
        .map(|r| r.as_array().into_iter().flatten().map(|q| (q[0].as_f64().unwrap_or(f64::NAN), q[1].as_f64().unwrap_or(f64::NAN))).collect())
        .collect();
    Some(Level {
        normalized: p.get("normalized").and_then(|v| v.as_f64()).unwrap_or(f64::NAN),
        threshold: p.get("threshold").or(p.get("value")).and_then(|v| v.as_f64()).unwrap_or(f64::NAN),
        label: p.get("label").and_then(|v| v.as_str()).map(|s| s.into()),
        rings,
    })
}

struct Out {
    chart: Result<Vec<Option<Level>>, String>,
    saved: Option<Result<Vec<Option<Level>>, String>>,
}

fn chart(g: &Grid, f: &Frame, data: Vec<f64>) -> Out {
    let (nx, ny) = g.size();
    let (a, b) = (g.place(0.0, 0.0), g.place(nx as f64 - 1.0, ny as f64 - 1.0));
    let label = f.label.then_some(|i: &usize, v: &f64| format!("{i}:{v:.2}"));
    let features = compute_latlng_gridded_contours(
        data,
        nx,
        ny,
        a.0,
        b.0,
        a.1,
        b.1,
        f.bottom.map(|v| v as f64 / 10.0),
        f.top.map(|v| v as f64 / 10.0),
        f.count.map(|c| c.clamp(2, 24) as usize),
        label,
    );
    match features {
        Err(e) => Out { chart: Err(format!("{e:?}")), saved: None },
        Ok(features) => {
            let v: Vec<Value> = features.iter().map(|f| serde_json::to_value(f).unwrap_or(Value::Null)).collect();
            let saved = (f.saved > 0).then(|| {
                let text = serde_json::to_string(&v).unwrap();
                let cut = if f.saved >= 1000 { text.len() } else { (text.len() * f.saved as usize / 1000).min(text.len() - 1) };
                load(&features, text.get(..cut).unwrap_or("")).map(|v| v.iter().map(|f| level(&serde_json::to_value(f).unwrap_or(Value::Null))).collect())
            });
            Out { chart: Ok(v.iter().map(level).collect()), saved }
        }
    }
}

/// Reads what was saved of a list like the given one.
fn load<T: serde::de::DeserializeOwned>(_: &[T], text: &str) -> Result<Vec<T>, String> {
    serde_json::from_str(text).map_err(|e| e.to_string())
}

fn enclosed(rings: &[Vec<(f64, f64)>], p: (f64, f64)) -> bool {
    let mut inside = false;
    for r in rings {
        for i in 0..r.len() {
            let (a, b) = (r[i], r[(i + 1) % r.len()]);
            if (a.1 > p.1) != (b.1 > p.1) && p.0 < (b.0 - a.0) * (p.1 - a.1) / (b.1 - a.1) + a.0 {
                inside = !inside;
            }
        }
    }
    inside
}

fn check(g: &Grid, f: &Frame, data: &[f64], levels: &[Option<Level>], ctx: &mut Ctx) -> Result<(), (&'static str, String)> {
    let (nx, ny) = g.size();
    let known = || data.iter().copied().filter(|v| !v.is_nan());
    let (min, max) = (known().fold(f64::INFINITY, f64::min), known().fold(f64::NEG_INFINITY, f64::max));
    let (bottom, top) = (f.bottom.map_or(min, |v| v as f64 / 10.0), f.top.map_or(max, |v| v as f64 / 10.0));
    let n = f.count.map_or(20, |c| c.clamp(2, 24) as usize);
    if levels.len() != n {
        return Err(("levels", format!("{} levels instead of {n}", levels.len())));
    }
    if !(bottom.is_finite() && top.is_finite()) {
        // there are no levels to speak of
        ctx.probe("nothing_came");
        return Ok(());
    }
    // the legend, listed by the client from the top, from the bottom, or from both ends
    let even: Vec<f64> = (0..n).map(|k| bottom + (top - bottom) * k as f64 / (n - 1) as f64).collect();
    let mut down: Vec<f64> = linspace(bottom, top, n).rev().collect();
    down.reverse();
    let mut ends = linspace(bottom, top, n);
    let (mut low, mut high) = (vec![], vec![]);
    for k in 0..n + 2 {
        let left = ends.len();
        let next = if (k as u64 + f.count.unwrap_or(3)) % 3 == 0 { ends.next_back().map(|v| high.push(v)) } else { ends.next().map(|v| low.push(v)) };
        if left != n.saturating_sub(k) || next.is_some() != (k < n) {
            return Err(("legend", format!("{left} levels are left after {k} of {n}")));
        }
    }
    high.reverse();
    low.append(&mut high);
    for legend in [linspace(bottom, top, n).collect(), down, low] {
        if legend.len() != n || legend.iter().zip(&even).any(|(a, b)| (a - b).abs() > 1e-9 * bottom.abs().max(top.abs())) {
            return Err(("legend", format!("{legend:?} instead of {even:?}")));
        }
    }
    // columns of the chart: on a grid around the world the first one comes again at its end
    let around = g.around();
    let cols = nx + around as usize;
    let at = |i: i64, j: i64| -> f64 {
        if i < 0 || j < 0 || i >= cols as i64 || j >= ny as i64 {
            return f64::NAN;
        }
        data[j as usize * nx + i as usize % nx]
    };
    if around {
        ctx.probe("around_the_world");
    }
    for (k, l) in levels.iter().enumerate() {
        let t = bottom + (top - bottom) * k as f64 / (n - 1) as f64;
        let Some(l) = l else {
            return Err(("feature", format!("level {k} is no outline with properties")));
        };
        let scale = (top - bottom).abs().max(1e-3);
        if !l.threshold.is_nan() && (l.threshold - t).abs() > 1e-6 * scale {
            return Err(("threshold", format!("level {k} is {} instead of {t}", l.threshold)));
        }
        if top != bottom && !((l.normalized - k as f64 / (n - 1) as f64).abs() < 1e-6) {
            return Err(("normalized", format!("level {k} of {n} is said to be at {}", l.normalized)));
        }
        match &l.label {
            Some(s) if f.label && s.starts_with(&format!("{k}:")) => {}
            None if !f.label => {}
            s => return Err(("label", format!("level {k} is labelled {s:?}"))),
        }
        // in columns and rows of the grid
        let rings: Vec<Vec<(f64, f64)>> =
            l.rings.iter().map(|r| r.iter().map(|p| ((p.0 * 1e6 - g.lng as f64) / g.dlng as f64, (p.1 * 1e6 - g.lat as f64) / g.dlat as f64)).collect()).collect();
        let eps = 1e-4 * scale;
        for p in rings.iter().flatten() {
            ctx.out.checks += 1;
            let edge = |v: f64, n: usize| v < 1e-4 || v > n as f64 - 1.0 - 1e-4;
            let far = |v: f64, n: usize| !(v > -0.51 && v < n as f64 - 0.49);
            if far(p.0, cols) || far(p.1, ny) {
                return Err(("place", format!("the outline of {t} passes column {} row {} of {cols} by {ny}", p.0, p.1)));
            }
            if edge(p.0, cols) || edge(p.1, ny) {
                continue;
            }
            // two neighbours between which the field has this level
            let fits = |a: f64, b: f64, w: f64| a.is_nan() || b.is_nan() || (a + (b - a) * w - t).abs() < eps + 1e-4 * (b - a).abs();
            let (x, y) = *p;
            let on = |v: f64| (v - v.round()).abs() < 1e-4;
            let ok = [0.0, 1e-4, -1e-4].iter().any(|e| {
                let (fx, fy) = ((x + e).floor(), (y + e).floor());
                (on(y) && fits(at(fx as i64, y.round() as i64), at(fx as i64 + 1, y.round() as i64), x - fx))
                    || (on(x) && fits(at(x.round() as i64, fy as i64), at(x.round() as i64, fy as i64 + 1), y - fy))
            });
            if !ok {
                let q = g.place(x, y);
                return Err(("outline", format!("the outline of {t} passes {} {}, column {x} row {y}, where the field has another value", q.0, q.1)));
            }
        }
        for j in 0..ny as i64 {
            for i in 0..cols as i64 {
                let v = at(i, j);
                // beside a missing value an outline passes right at the known one
                let lone = [(1, 0), (-1, 0), (0, 1), (0, -1)].iter().any(|d| at(i + d.0, j + d.1).is_nan());
                if !v.is_nan() && (v - t).abs() < (2e-3 * scale).max(if lone { 0.01 } else { 1e-6 }) {
                    continue;
                }
                ctx.out.checks += 1;
                if enclosed(&rings, (i as f64 + 1.3e-9, j as f64 + 1.7e-9)) != (v > t) {
                    let q = g.place(i as f64, j as f64);
                    return Err(("enclosed", format!("the value {v} at {} {} (column {i}, row {j}) is {} the outline of {t}", q.0, q.1, if v > t { "outside" } else { "inside" })));
                }
            }
        }
        ctx.probe_n("outlines", rings.len() as u64);
    }
    ctx.reach(format!("{cols}x{ny} {n} {} {}", around, levels.iter().flatten().map(|l| l.rings.len().min(9)).sum::<usize>()));
    Ok(())
}

impl Property for C18 {
    fn info(&self) -> Info {
        Info {
            id: "C18",
            rule: "A run simulates clients that chart the fields of a model hour after hour, on grids of a region, over the date line or around the world, listed from north or south; blocks and single values are lost on the way, frames come late, land has no values; charts are saved and read back after restarts with torn saves; several clients are preempted inside each other's calls. Every corner of every outline is held against the neighbours it lies between, every point of the grid against every outline. Non-trivial: a fault, a restart or a grid around the world. State signature: grid, levels and number of outlines.",
            real: &["surfrs tools::contour", "contour, geojson, serde_json"],
            stub: &["model and its messages", "network (fault injector)", "storage", "client scheduler"],
            assumptions: &["Longitudes of a grid are stated in one direction without a jump; grids have at least three columns and rows.", "Points within a few thousandths of the range of a level's value may be on either side; outlines may end anywhere from the outermost points to half a cell beyond; between a value and none they may run anywhere."],
            quick_runs: 24_000,
            thorough_runs: 100_000,
            digest_is_property: false,
            expect_probes: &["around_the_world", "outlines", "nothing_came", "lost_block", "lost_value", "late", "crash", "torn_save"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let grids = (0..1 + r.usize(2))
            .map(|_| {
                let around = r.chance(0.4);
                let (cols, dlng) = if around {
                    let c = *r.pick(&[12i64, 18, 24, 36, 36, 72, 360]);
                    (c, 360_000_000 / c)
                } else {
                    (r.range(3, 26), *r.pick(&[160_000i64, 250_000, 500_000, 1_000_000, 166_667, 2_500_000]))
                };
                let rows = if cols > 100 { r.range(3, 5) } else { r.range(3, 20) };
                let dlat = *r.pick(&[250_000i64, 500_000, 1_000_000, 2_000_000, 166_667]) * *r.pick(&[-1, 1, -1]);
                Grid {
                    cols: cols as u64,
                    rows: rows as u64,
                    lng: if around { *r.pick(&[0i64, 0, -180_000_000, 500_000, 125_000]) } else { r.range(-1800, 1800) * 100_000 },
                    dlng,
                    lat: -dlat * rows / 2 + r.range(-40, 40) * 1_000_000,
                    dlat,
                    land: r.chance(0.5),
                    flat: r.chance(0.2),
                }
            })
            .collect();
        let frames = (0..1 + r.usize(if thorough { 8 } else { 4 }))
            .map(|_| {
                let fixed = r.chance(0.5);
                let bottom = (fixed && r.chance(0.8)).then(|| r.range(-40, 40));
                Frame {
                    c: r.below(3),
                    dt: r.range(0, 6),
                    grid: r.below(4),
                    bottom,
                    top: (fixed && r.chance(0.8)).then(|| bottom.unwrap_or(60).max(60) + r.range(1, 100)),
                    count: if r.chance(0.6) { Some(r.range(2, 12) as u64) } else { None },
                    label: r.chance(0.5),
                    lost: if r.chance(0.3) { vec![(r.below(20), *r.pick(&[1, 1, 2, 2, 3, 4, 4, 5, 8, 40]))] } else { vec![] },
                    holes: if r.chance(0.3) { (0..1 + r.below(4)).map(|_| r.below(400)).collect() } else { vec![] },
                    late: if r.chance(0.2) { 1 + r.below(6) } else { 0 },
                    saved: *r.pick(&[0, 0, 0, 1000, 999, 400]),
                }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r), grids, frames }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        if p.grids.is_empty() {
            return;
        }
        let mut t = common::clamp_time(p.start);
        for (round, frames) in p.frames.chunks(3).enumerate() {
            let mut jobs: Vec<Box<dyn FnOnce() -> Out + Send>> = vec![];
            let mut meta = vec![];
            for f in frames.iter().cloned() {
                let add = f.dt.clamp(0, 1000) * 3600;
                t = common::clamp_time(t + add);
                ctx.out.sim_secs += add as u64;
                simkit::seams::set_now(t, 0);
                let g = p.grids[f.grid as usize % p.grids.len()].clone();
                if g.dlng < 50_000 || g.dlat.abs() < 50_000 {
                    continue;
                }
                let mut hour = (t / 3600) % 240;
                if f.late > 0 {
                    ctx.fault("late");
                    hour -= f.late.min(240) as i64;
                }
                let mut data = g.field(p.world, hour);
                let (nx, ny) = g.size();
                for (row, rows) in &f.lost {
                    ctx.fault("lost_block");
                    let a = *row as usize % ny * nx;
                    let b = (a + *rows as usize % 64 * nx).min(data.len());
                    data[a..b].iter_mut().for_each(|v| *v = f64::NAN);
                    // a block longer than the field takes all of it
                    if *rows > 30 {
                        data.iter_mut().for_each(|v| *v = f64::NAN);
                    }
                }
                for h in &f.holes {
                    ctx.fault("lost_value");
                    let n = data.len();
                    data[*h as usize % n] = f64::NAN;
                }
                if f.saved > 0 {
                    ctx.fault("crash");
                    if f.saved < 1000 {
                        ctx.fault("torn_save");
                    }
                }
                meta.push((g.clone(), f.clone(), data.clone()));
                jobs.push(Box::new(move || chart(&g, &f, data)));
            }
            let got = common::together(p.seed.wrapping_add(round as u64), p.gap, jobs, ctx);
            for ((g, f, data), o) in meta.into_iter().zip(got) {
                let (a, b) = (g.place(0.0, 0.0), g.place(g.size().0 as f64 - 1.0, g.size().1 as f64 - 1.0));
                let what = format!("client {}, {} by {} values from {} {} to {} {}", f.c, g.size().0, g.size().1, a.0, a.1, b.0, b.1);
                ctx.checked();
                ctx.out.nontrivial |= g.around();
                match o {
                    Err(e) => ctx.violate("panic", format!("{what}: {e}")),
                    Ok(Out { chart: Err(e), .. }) => ctx.violate("no chart", format!("{what}: {e}")),
                    Ok(Out { chart: Ok(levels), saved }) => {
                        ctx.log(format!("{what}: {} levels, {} corners", levels.len(), levels.iter().flatten().map(|l| l.rings.iter().map(|r| r.len()).sum::<usize>()).sum::<usize>()));
                        if let Err((c, m)) = check(&g, &f, &data, &levels, ctx) {
                            ctx.violate(c, format!("{what}: {m}"));
                        }
                        // a number may come back one digit off in its last place
                        let num = |a: f64, b: f64| a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-12 * (1.0 + a.abs());
                        let same = |a: &Option<Level>, b: &Option<Level>| match (a, b) {
                            (Some(a), Some(b)) => {
                                num(a.normalized, b.normalized)
                                    && num(a.threshold, b.threshold)
                                    && a.label == b.label
                                    && a.rings.len() == b.rings.len()
                                    && a.rings.iter().zip(&b.rings).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| num(p.0, q.0) && num(p.1, q.1)))
                            }
                            _ => a.is_none() == b.is_none(),
                        };
                        match saved {
                            Some(Ok(_)) if f.saved < 1000 => ctx.violate("torn save", format!("{what}: a torn save was read")),
                            Some(Ok(v)) if v.len() != levels.len() || !v.iter().zip(&levels).all(|(a, b)| same(a, b)) => ctx.violate("saved", format!("{what}: the chart came back changed from a save")),
                            Some(Err(e)) if f.saved >= 1000 => ctx.violate("saved", format!("{what}: a whole save was refused: {e}")),
                            _ => {}
                        }
                    }
                }
                if ctx.failed() {
                    return;
                }
            }
        }
    }
}
