//! Clients polling for the newest model run on clocks of their own.
use crate::common::{self, plan_from};
use chrono::{DateTime, Duration, TimeZone, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::tools::date::*;

pub struct C05;

#[derive(Serialize, Deserialize)]
struct Poll {
    /// seconds of true time since the last poll
    dt: i64,
    /// which client
    c: u64,
    /// step of this client's clock before the poll
    step: i64,
    ns: i64,
    mult: u64,
    /// window end relative to its start
    win: i64,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    start: i64,
    /// initial skew and drift (ppm) of each client's clock
    skew: Vec<i64>,
    drift: Vec<i64>,
    seed: u64,
    gap: u64,
    polls: Vec<Poll>,
}

/// The reference: latest multiple of `every` seconds at least `delay` old.
fn newest(t: &DateTime<Utc>, delay: i64, every: i64) -> DateTime<Utc> {
    Utc.timestamp_opt((t.timestamp() - delay).div_euclid(every) * every, 0).unwrap()
}

type Out = (DateTime<Utc>, DateTime<Utc>, DateTime<Utc>, DateTime<Utc>, Vec<DateTime<Utc>>);

impl Property for C05 {
    fn info(&self) -> Info {
        Info {
            id: "C05",
            rule: "A run is a history of polls by up to five clients whose simulated clocks are skewed, drift, and are stepped forwards and backwards; each poll reads the clock through the clock seam and asks for the newest gridded, station and hourly run, a rounding and a run list, several clients at once under a seeded schedule. Non-trivial: a clock fault or a crossed cycle boundary. State signature: per poll the offset into the cycle (quarter hours) and clock fault.",
            real: &["surfrs tools::date", "chrono", "Utc::now through the interposed clock_gettime"],
            stub: &["clock", "client scheduler"],
            assumptions: &["Rounding multiples are 1 to 48 hours; a multiple that does not divide 24 floors within the UTC day."],
            quick_runs: 60_000,
            thorough_runs: 200_000,
            digest_is_property: false,
            expect_probes: &["clock_skew", "clock_step_back", "clock_step_forward", "clock_drift", "run_changed"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let n = 1 + r.usize(5);
        let skewed = r.chance(0.7);
        let steps = r.chance(0.6);
        let fine = r.chance(0.5);
        let k = r.range(3, if thorough { 120 } else { 50 });
        let dense = r.chance(0.3);
        let polls = (0..k)
            .map(|_| Poll {
                dt: if dense { r.range(0, 900) } else { *r.pick(&[0, 1, 30, 600, 3599, 3600, 7200, 18000, 21600, 43200, 86400, 40 * 86400]) + r.range(-2, 2) },
                c: r.below(n as u64),
                step: if steps && r.chance(0.2) { *r.pick(&[-86400 * 2, -21600, -3600, -61, -1, 1, 59, 3600, 21600, 86400 * 3]) } else { 0 },
                ns: if fine { *r.pick(&[0, 1, 500_000_000, 999_999_999, 999_999_999]) } else { 0 },
                mult: *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 24, 25, 48]),
                win: *r.pick(&[-1, 0, 1, 3600, 21599, 21600, 21601, 86400, 5 * 86400, -21600, 10 * 86400 + 7, 17 * 86400, 40 * 86400 + 1, 366 * 86400]),
            })
            .collect();
        let mut start = common::gen_start(r);
        if r.chance(0.04) {
            // a clock that lost its battery, seconds to decades before its epoch
            let before = *r.pick(&[5i64, 40_000, 90_000, 2_000_000_000]);
            start = -r.range(0, before);
        }
        if r.chance(0.5) {
            // land on or beside a boundary the choice depends on
            start = start.div_euclid(3600) * 3600 + r.range(-2, 2);
        }
        let p = Plan {
            start,
            skew: (0..n).map(|_| if skewed { r.range(-40000, 40000) } else { 0 }).collect(),
            drift: (0..n).map(|_| if skewed { r.range(-300, 300) } else { 0 }).collect(),
            seed: r.u64() >> 12,
            gap: common::gen_gap(r),
            polls,
        };
        serde_json::to_value(p).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut now = plan.start;
        let mut step: BTreeMap<u64, i64> = BTreeMap::new();
        // the choices each client has been given, for the history checks
        let mut seen: BTreeMap<u64, Vec<(DateTime<Utc>, Out)>> = BTreeMap::new();
        for (round, chunk) in plan.polls.chunks(4).enumerate() {
            let mut jobs: Vec<Box<dyn FnOnce() -> (DateTime<Utc>, Out) + Send>> = vec![];
            let mut meta = vec![];
            // polls of one chunk happen at the same true time, side by side
            now = (now + chunk.iter().map(|p| p.dt).sum::<i64>()).clamp(-2_200_000_000, 4_200_000_000);
            ctx.out.sim_secs += chunk.iter().map(|p| p.dt.unsigned_abs()).sum::<u64>();
            let ns = chunk[0].ns.clamp(0, 999_999_999);
            simkit::seams::set_now(now, ns);
            for p in chunk {
                let n = plan.skew.len().max(1) as u64;
                let c = p.c % n;
                let s = step.entry(c).or_default();
                *s += p.step;
                match p.step {
                    x if x < 0 => ctx.fault("clock_step_back"),
                    x if x > 0 => ctx.fault("clock_step_forward"),
                    _ => {}
                }
                let drift = plan.drift.get(c as usize).copied().unwrap_or(0);
                let skew = plan.skew.get(c as usize).copied().unwrap_or(0);
                if skew != 0 {
                    ctx.fault("clock_skew");
                }
                if drift != 0 {
                    ctx.fault("clock_drift");
                }
                let off = skew + *s + (now - plan.start) * drift / 1_000_000;
                let (mult, win) = (p.mult.clamp(1, 48) as u32, p.win.clamp(-864000, 40_000_000));
                meta.push((c, mult, win, p.step));
                jobs.push(Box::new(move || {
                    simkit::seams::set_skew(off);
                    // before the epoch the system clock cannot be read this way; clients have other clocks
                    let t = if now + off < 0 { Utc.timestamp_opt(now + off, ns as u32).unwrap() } else { Utc::now() };
                    let list = gfs_model_fmrc_datetimes((t, t + Duration::seconds(win)));
                    let o = (
                        closest_gfs_model_gridded_datetime(&t),
                        closest_gfs_model_stations_datetime(&t),
                        closest_hourly_model_datetime(&t),
                        round_to_nearest_multiple_hour(&t, mult),
                        list,
                    );
                    (t, o)
                }));
            }
            let got = common::together(plan.seed.wrapping_add(round as u64), plan.gap, jobs, ctx);
            for ((c, mult, win, stepped), g) in meta.into_iter().zip(got) {
                let (t, o) = match g {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violate("panic", format!("client {c} at {now}: {e}"));
                        continue;
                    }
                };
                ctx.checked();
                ctx.log(format!("client {c} reads {t:?}: gridded {} stations {} hourly {}", o.0, o.1, o.2));
                ctx.reach(format!("{} {}", t.timestamp().rem_euclid(21600) / 900, stepped.signum()));
                for (name, got, want) in [
                    ("gridded run", o.0, newest(&t, 5 * 3600, 21600)),
                    ("station run", o.1, newest(&t, 6 * 3600, 21600)),
                    ("hourly run", o.2, newest(&t, 2 * 3600, 3600)),
                ] {
                    if got != want {
                        ctx.violate("choice", format!("{name} at {t:?}: chose {got:?}, newest published is {want:?}"));
                    }
                }
                let day = t.timestamp().div_euclid(86400) * 86400;
                let h = t.timestamp().rem_euclid(86400) / 3600;
                let want = Utc.timestamp_opt(day + h / mult as i64 * mult as i64 * 3600, 0).unwrap();
                if o.3 != want {
                    ctx.violate("rounding", format!("{t:?} rounded to {mult} h gave {:?}, expected {want:?}", o.3));
                }
                let end = t + Duration::seconds(win);
                let mut want = vec![];
                let mut x = newest(&t, 0, 21600);
                while x <= end {
                    want.push(x);
                    x += Duration::seconds(21600);
                }
                if o.4 != want {
                    ctx.violate("run list", format!("runs from {t:?} to {end:?}: {:?}, expected {want:?}", o.4));
                }
                seen.entry(c).or_default().push((t, o));
            }
        }
        // history checks per client, in the order of its clock readings
        for (c, mut h) in seen {
            h.sort_by_key(|x| x.0);
            for w in h.windows(2) {
                let ((t1, a), (t2, b)) = (&w[0], &w[1]);
                if a.0 != b.0 {
                    ctx.probe("run_changed");
                    ctx.out.nontrivial = true;
                }
                if b.0 < a.0 || b.1 < a.1 || b.2 < a.2 {
                    ctx.violate("goes back", format!("client {c}: the choice at {t2:?} is older than the one at {t1:?}"));
                }
                if *t2 - *t1 <= Duration::hours(6) && (b.0 - a.0 > Duration::hours(6) || b.1 - a.1 > Duration::hours(6)) {
                    ctx.violate("skips a run", format!("client {c}: polled at {t1:?} and {t2:?}, chose {:?} then {:?}", a.0, b.0));
                }
                if *t2 - *t1 <= Duration::hours(1) && b.2 - a.2 > Duration::hours(1) {
                    ctx.violate("skips an hour", format!("client {c}: {:?} then {:?}", a.2, b.2));
                }
                if b.1 > b.0 {
                    ctx.violate("order", format!("client {c}: station run {:?} newer than gridded run {:?}", b.1, b.0));
                }
            }
        }
    }
}
