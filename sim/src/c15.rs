//! Surf estimated at beaches from the swells of faulty feeds, tide after tide.
use crate::common::{self, plan_from};
use crate::objs;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::{fnv, Rng};
use simkit::{Ctx, Info, Property};
use std::f64::consts::PI;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::tools::waves::{
    break_wave, celerity, estimate_breaking_wave_height, ldis, refraction_coefficient, shoaling_coefficient, second_spectral_moment, steepness_coefficient, wave_energy, wavelength, wavenu3, wavenuma, zero_spectral_moment,
};
use surfrs::units::{Direction, UnitConvertible, UnitSystem};

pub struct C15;

const G: f64 = 9.81;

#[derive(Serialize, Deserialize, Clone)]
struct Item {
    /// a document kind, or "list" (swells as a client enters them)
    src: String,
    st: u64,
    dt: i64,
    n: u64,
    faults: Vec<Fault>,
    /// which way the beach faces (hundredths of degrees), its slope (ten thousandths), and its depth at low tide (centimetres)
    beach: (i64, i64, i64),
    /// range of the tide in centimetres
    tide: i64,
    /// thousandths of the save it restarts from, 0 for no restart
    saved: u64,
    /// shows the swells in feet before
    feet: bool,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    items: Vec<Item>,
}

/// One swell at one depth, and everything said about it.
struct Look {
    swell: Swell,
    /// the same swell after it was shown in other units
    feet: bool,
    depth: f64,
    est: Option<f64>,
    /// period, height and angle asked about directly
    asked: (f64, f64, f64),
    broke: Option<(f64, f64)>,
    length: Option<f64>,
    /// wavenumber and group velocity
    beji: (f64, f64),
    chen: f64,
    speed: (f64, f64),
    lengths: (f64, f64),
    refraction: (f64, f64),
    shoaling: f64,
    energy: f64,
    /// zero and second moment of a sea of that height about that period, and its steepness
    moments: (f64, f64, f64),
}

/// Wavenumber at a depth by bisection of the dispersion relation.
fn wavenumber(period: f64, depth: f64) -> f64 {
    let om2 = (2.0 * PI / period).powi(2);
    let (mut lo, mut hi) = (om2 / G, om2 / G + (om2 / G / depth).sqrt() + 1.0);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if G * m * (m * depth).tanh() < om2 {
            lo = m;
        } else {
            hi = m;
        }
    }
    0.5 * (lo + hi)
}

/// Frequency, bandwidth and energy of the bins of a sea of some height about some period.
fn sea(period: f64, height: f64) -> Vec<(f64, f64, f64)> {
    let shape = [(0.8, 0.1, 1.0), (1.0, 0.12, 4.0), (1.3, 0.2, 1.5), (2.0, 0.4, 0.25)];
    let sum: f64 = shape.iter().map(|(_, df, e)| df * e).sum();
    shape.iter().map(|(f, df, e)| (f / period, df / period, e / sum * period * height * height / 16.0)).collect()
}

fn look(s: &Swell, it: &Item, tide: i64, feet: bool) -> Look {
    let (angle, slope) = (it.beach.0.rem_euclid(36000) as f64 / 100.0, it.beach.1.clamp(10, 3000) as f64 / 1e4);
    let depth = (it.beach.2.clamp(20, 600_000) + tide) as f64 / 100.0;
    let est = estimate_breaking_wave_height(s, angle, slope, depth).ok();
    let period = s.period.value.filter(|p| *p >= 0.5 && *p < 100.0).unwrap_or(9.0);
    let height = s.wave_height.value.filter(|h| *h > 0.001 && *h < 100.0).unwrap_or(1.0);
    let oblique = (it.beach.0.rem_euclid(8900)) as f64 / 100.0;
    let length = ldis(period, depth).ok();
    let l = 2.0 * PI / wavenumber(period, depth);
    Look {
        swell: s.clone(),
        feet,
        depth,
        est,
        asked: (period, height, oblique),
        broke: break_wave(period, oblique, height, slope, depth).ok(),
        length,
        beji: wavenu3(2.0 * PI / period, depth),
        chen: wavenuma(2.0 * PI / period, depth),
        speed: (celerity(1.0 / period, Some(depth)), celerity(1.0 / period, None)),
        lengths: (wavelength(1.0 / period, Some(depth)), wavelength(1.0 / period, None)),
        refraction: refraction_coefficient(l, depth, oblique),
        shoaling: shoaling_coefficient(l, depth),
        energy: wave_energy(height, period),
        moments: {
            let bins = sea(period, height);
            let m0 = bins.iter().map(|(f, df, e)| zero_spectral_moment(*e, *df) + 0.0 * f).sum::<f64>();
            let m2 = bins.iter().map(|(f, df, e)| second_spectral_moment(*e, *df, *f)).sum::<f64>();
            (m0, m2, steepness_coefficient(m0, m2))
        },
    }
}

fn session(it: &Item, summaries: Vec<SwellSummary>) -> Vec<Look> {
    let mut out = vec![];
    for (i, mut s) in summaries.into_iter().take(24).enumerate() {
        if it.feet {
            s.to_units(&UnitSystem::English);
        }
        if it.saved > 0 {
            let text = serde_json::to_string(&s).unwrap();
            let cut = if it.saved >= 1000 { text.len() } else { text.len() * it.saved as usize / 1000 };
            // a torn save is of no use, and the swells are fetched again
            if let Some(b) = text.get(..cut).and_then(|t| serde_json::from_str(t).ok()) {
                s = b;
            }
        }
        if it.feet {
            s.to_units(&UnitSystem::Metric);
        }
        let tide = (it.tide.clamp(0, 1500) as f64 * (0.5 + 0.5 * (i as f64 * 0.8).sin())) as i64;
        out.extend(std::iter::once(&s.summary).chain(&s.components).map(|c| look(c, it, tide, it.feet)));
    }
    out
}

/// What a wave of the given period and height breaks at, coming in at an angle: height and depth (Komar and Gaughan; Weggel).
fn breaker(period: f64, height: f64, angle: f64, slope: f64, depth: f64) -> (f64, f64) {
    let (a, l0) = (angle.to_radians(), G * period * period / (2.0 * PI));
    let theta = (a.sin() * (2.0 * PI / wavenumber(period, depth)) / l0).min(1.0).asin();
    let h0 = height * (a.cos().max(0.0) / theta.cos()).sqrt();
    let hb = 0.56 * h0.powf(0.8) * l0.powf(0.2);
    let gamma = 1.56 / (1.0 + (-19.5 * slope).exp()) - 43.8 * (1.0 - (-19.0 * slope).exp()) * hb / (G * period * period);
    (hb, hb / gamma)
}

fn near(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * b.abs() + 1e-9
}

fn check(l: &Look, it: &Item, ctx: &mut Ctx) -> Result<(), String> {
    let (period, height, angle) = l.asked;
    let d = l.depth;
    let slope = it.beach.1.clamp(10, 3000) as f64 / 1e4;
    let k = wavenumber(period, d);
    let (length, kd, deep) = (2.0 * PI / k, k * d, G * period * period / (2.0 * PI));
    ctx.probe(if kd > PI { "deep" } else if kd < 0.3 { "shallow" } else { "between" });
    let n = 0.5 * (1.0 + if kd > 300.0 { 0.0 } else { 2.0 * kd / (2.0 * kd).sinh() });
    let of = format!("a wave of {period} s in {d} m");
    for (what, got, want, tol) in [
        ("wavelength (Newton)", l.length.unwrap_or(f64::NAN), length, 1e-3),
        ("wavenumber (Beji)", l.beji.0, k, 1e-3),
        ("group velocity (Beji)", l.beji.1, n * length / period, 3e-3),
        ("wavenumber (Chen and Thomson)", l.chen, k, 2e-3),
        ("celerity", l.speed.0, length / period, 3e-3),
        ("celerity in deep water", l.speed.1, deep / period, 3e-3),
        ("wavelength", l.lengths.0, length, 3e-3),
        ("wavelength in deep water", l.lengths.1, deep, 3e-3),
        ("shoaling coefficient", l.shoaling, (1.0 / (kd.tanh() * 2.0 * n)).sqrt(), 1e-3),
    ] {
        if !near(got, want, tol) {
            return Err(format!("{what} of {of} is {got}, by the dispersion relation {want}"));
        }
    }
    // mean energy flux in deep water: rho g^2 H^2 T / (64 pi) per unit, here by period squared
    let e = 1029.0 * G * G / (16.0 * PI) * height * height * period * period / 1000.0;
    if !near(l.energy, e, 1e-6) {
        return Err(format!("energy of a wave of {height} m and {period} s is {}, should be {e}", l.energy));
    }
    // the height over the deep-water length of a wave of the mean zero-crossing period
    let (m0, m2) = sea(period, height).iter().fold((0.0, 0.0), |a, (f, df, e)| (a.0 + e * df, a.1 + e * df * f * f));
    let steep = 4.0 * m0.sqrt() / (G * m0 / m2 / (2.0 * PI));
    if !near(l.moments.0, m0, 1e-6) || !near(l.moments.1, m2, 1e-6) || !near(l.moments.2, steep, 1e-3) {
        return Err(format!("a sea of {height} m about {period} s has the moments and steepness {:?}, should be ({m0}, {m2}, {steep})", l.moments));
    }
    let shallow = (angle.to_radians().sin() * kd.tanh()).asin();
    let kr = (angle.to_radians().cos() / shallow.cos()).sqrt();
    if !near(l.refraction.0, kr, 1e-3) || (l.refraction.1 - shallow.to_degrees()).abs() > 0.02 {
        return Err(format!("{of} coming in at {angle} degrees is refracted {:?}, should be ({kr}, {})", l.refraction, shallow.to_degrees()));
    }
    let want = breaker(period, height, angle, slope, d);
    match l.broke {
        Some(b) if near(b.0, want.0, 2e-3) && (near(b.1, want.1, 1e-2) || want.1.abs() > 1e3 || want.0 / want.1 < 0.2) => {}
        b => return Err(format!("{of}, {height} m high, on a slope of {slope} at {angle} degrees breaks at {b:?} (height, depth), should be {want:?}")),
    }
    // the estimate for the swell itself
    let s = &l.swell;
    let (Some(h), Some(t), Some(dir)) = (s.wave_height.value, s.period.value, s.direction.value.as_ref()) else {
        ctx.probe("nothing_to_go_by");
        return match l.est {
            None => Ok(()),
            Some(e) => Err(format!("{s}, of which something is missing, breaks at {e} m")),
        };
    };
    if !(h > 0.001 && h < 100.0 && t >= 0.5 && t < 100.0) {
        return Ok(());
    }
    let facing = it.beach.0.rem_euclid(36000) as f64 / 100.0;
    let apart = crate::rec::circ(dir.degrees as f64, facing);
    if (dir.degrees as f64 - facing).abs() > 180.0 && apart < 90.0 {
        ctx.probe("across_north");
    }
    // angles are told to the degree
    let say = format!("{h} m at {t} s from {} on a beach facing {facing}, slope {slope}, depth {d}{}", dir.degrees, if l.feet { ", shown in feet before" } else { "" });
    match l.est {
        None if apart < 89.0 => Err(format!("{say}: no estimate")),
        None => {
            ctx.probe("off_the_beach");
            Ok(())
        }
        Some(e) if apart > 91.0 => Err(format!("{say}: {e} m, though it comes from behind the beach")),
        // along the shore nothing is left to go by
        Some(_) if apart > 88.0 => Ok(()),
        Some(e) => {
            ctx.probe("estimated");
            ctx.reach(format!("{:.0} {:.0} {:.0} {:.1}", h.ln() * 2.0, t, apart / 10.0, d.ln()));
            let (hi, lo) = (breaker(t, h, (apart - 1.0).max(0.0), slope, d).0, breaker(t, h, (apart + 1.0).min(90.0), slope, d).0);
            if e.is_finite() && e >= lo * 0.998 - 1e-6 && e <= hi * 1.002 + 1e-6 {
                Ok(())
            } else {
                Err(format!("{say}: breaks {e} m high, should be between {lo} and {hi}"))
            }
        }
    }
}

impl Property for C15 {
    fn info(&self) -> Info {
        Info {
            id: "C15",
            rule: "A run simulates clients at beaches facing any way, with slopes and depths of their own and a tide, that estimate the surf from the swells of bulletins, buoys and point forecasts fetched over a faulty network, or entered by hand, after restarts from torn saves and after showing the swells in feet; several clients are preempted inside each other's calls. Every number is held against the dispersion relation solved by bisection and the breaking relations on top of it. Non-trivial: a fault, a restart or a swell without direction. State signature: height, period, angle and depth of the swell.",
            real: &["surfrs tools::waves", "swells of the records and spectra decoded", "serde_json, regex, csv"],
            stub: &["buoy and model publishers", "network (fault injector)", "storage", "client scheduler"],
            assumptions: &["Formulas that approximate the dispersion relation may be off by one per cent, solvers by 0.1; estimates may round angles to a degree; breaking depths are compared where the breaker index is above 0.2.", "Swells of 1 mm to 100 m and half a second to 100 s."],
            quick_runs: 30_000,
            thorough_runs: 300_000,
            digest_is_property: false,
            expect_probes: &["deep", "shallow", "between", "across_north", "off_the_beach", "estimated", "crash", "torn_save"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let items = (0..1 + r.usize(if thorough { 5 } else { 3 }))
            .map(|_| Item {
                src: r.pick(&["cbull", "five", "fspec", "spec", "list", "list", "list"]).to_string(),
                st: r.below(200),
                dt: r.range(0, 40) * 3600,
                n: 1 + r.below(6),
                faults: (0..*r.pick(&[0usize, 0, 1, 2, 4])).map(|_| net::gen_fault(r, net::KINDS)).collect(),
                beach: (
                    if r.chance(0.3) { *r.pick(&[0i64, 50, 100, 35900, 35950, 9000, 18000, 27000]) } else { r.range(0, 35999) },
                    *r.pick(&[50, 100, 200, 500, 1000, 1500]) + r.range(0, 40),
                    *r.pick(&[30, 100, 200, 500, 1000, 3000, 10_000, 50_000, 400_000]) + r.range(0, 90),
                ),
                tide: *r.pick(&[0, 100, 300, 1200]),
                saved: *r.pick(&[0, 0, 1000, 999, 500, 20]),
                feet: r.chance(0.3),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r), items }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        let mut t = common::clamp_time(p.start);
        let mut jobs: Vec<Box<dyn FnOnce() -> Vec<Look> + Send>> = vec![];
        for (n, it) in p.items.iter().cloned().enumerate() {
            t = common::clamp_time(t + it.dt);
            ctx.out.sim_secs += it.dt.unsigned_abs();
            simkit::seams::set_now(t, 0);
            if it.saved > 0 {
                ctx.fault("crash");
                if it.saved < 1000 {
                    ctx.fault("torn_save");
                }
            }
            let world = p.world;
            if it.src == "list" {
                let mut r = Rng::keyed(&[world, fnv(b"c15"), n as u64, it.st]);
                let sums: Vec<SwellSummary> = (0..it.n.clamp(1, 8)).map(|_| list(&mut r, it.beach.0)).collect();
                jobs.push(Box::new(move || session(&it, sums)));
                continue;
            }
            let kind = objs::DOC_KINDS.iter().find(|x| **x == it.src).copied().unwrap_or("spec");
            let mut texts = objs::publish(kind, world, it.st, t);
            for (i, fa) in it.faults.iter().enumerate() {
                let m = texts.len();
                let (b, changed) = net::apply(std::mem::take(&mut texts[i % m]).into_bytes(), fa, &|| vec![]);
                if changed {
                    ctx.fault(&fa.k);
                }
                texts[i % m] = String::from_utf8_lossy(&b[..b.len().min(400_000)]).into_owned();
            }
            jobs.push(Box::new(move || {
                let sums = objs::decode(kind, world, it.st, &texts).unwrap_or_default().iter().take(60).filter_map(|o| o.swell()).filter_map(|s| s.ok()).collect();
                session(&it, sums)
            }));
        }
        for (n, g) in common::together(p.seed, p.gap, jobs, ctx).into_iter().enumerate() {
            match g {
                Err(m) => ctx.violate("panic", m),
                Ok(looks) => {
                    for (i, l) in looks.iter().enumerate() {
                        ctx.checked();
                        ctx.log(format!("client {n} swell {i}: {} breaks at {:?}", l.swell, l.est));
                        if let Err(m) = check(l, &p.items[n], ctx) {
                            ctx.violate("surf", format!("client {n}, {} {i}: {m}", p.items[n].src));
                            break;
                        }
                    }
                }
            }
            if ctx.failed() {
                return;
            }
        }
    }
}

/// Swells as entered by hand, many of them near the beach's own direction or its edges, some without a direction or period.
fn list(r: &mut Rng, facing: i64) -> SwellSummary {
    let mut one = |i: usize| {
        let dir = match r.usize(4) {
            0 => r.range(0, 359),
            1 => facing / 100 + *r.pick(&[-91, -90, -89, -88, 88, 89, 90, 91, 180]),
            _ => facing / 100 + r.range(-95, 95),
        };
        let height = *r.pick(&[0.05, 0.3, 1.0, 2.5, 6.0, 14.0]) * (1.0 + r.range(-200, 200) as f64 / 1000.0);
        let period = r.range(15, 250) as f64 / 10.0;
        let mut s = Swell::new(&UnitSystem::Metric, height, period, Direction::from_degrees(dir.rem_euclid(360) as i32), None, None, Some(i));
        match r.usize(12) {
            0 => s.direction.value = None,
            1 => s.period.value = None,
            2 => s.wave_height.value = None,
            _ => {}
        }
        s
    };
    let summary = one(0);
    SwellSummary { summary, components: (1..6).map(one).collect() }
}
