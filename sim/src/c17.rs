//! Clients that show when the sun rises and sets at their places, day after day on clocks of their own.
use crate::common::{self, plan_from};
use crate::rec::circ;
use chrono::{DateTime, TimeZone, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::location::Location;
use surfrs::solar::{calculate_solar_events, SolarEvents};

pub struct C17;

#[derive(Serialize, Deserialize)]
struct Look {
    /// seconds of true time since the last look
    dt: i64,
    c: u64,
    /// step of this client's clock before the look
    step: i64,
    place: u64,
    /// longitudes from 0 to 360 instead of on both sides of Greenwich
    east: bool,
    /// days of the almanac, from the clock's own day on
    days: u64,
    /// the client restarts from what it saved of the almanac; this much of it (thousandths) was written
    saved: u64,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    start: i64,
    skew: Vec<i64>,
    /// latitude and longitude in hundredths of degrees
    places: Vec<(i64, i64)>,
    seed: u64,
    gap: u64,
    looks: Vec<Look>,
}

/// Where the sun stands: declination in degrees, and the Greenwich hour angle in degrees (low precision formulas of the Astronomical Almanac).
fn sun(t: f64) -> (f64, f64) {
    let n = t / 86400.0 + 2440587.5 - 2451545.0;
    let l = 280.460 + 0.9856474 * n;
    let g = (357.528 + 0.9856003 * n).to_radians();
    let lambda = (l + 1.915 * g.sin() + 0.020 * (2.0 * g).sin()).to_radians();
    let eps = (23.439 - 0.0000004 * n).to_radians();
    let ra = (eps.cos() * lambda.sin()).atan2(lambda.cos()).to_degrees();
    let dec = (eps.sin() * lambda.sin()).asin().to_degrees();
    let gmst = (18.697374558 + 24.06570982441908 * n) * 15.0;
    (dec, (gmst - ra).rem_euclid(360.0))
}

/// How high the sun stands at a place, and whether it is rising.
fn height(t: f64, lat: f64, lon: f64) -> (f64, bool) {
    let (dec, gha) = sun(t);
    let ha = (gha + lon).rem_euclid(360.0);
    let (p, d) = (lat.to_radians(), dec.to_radians());
    ((p.sin() * d.sin() + p.cos() * d.cos() * ha.to_radians().cos()).asin().to_degrees(), ha > 180.0)
}

type Day = (i64, Option<(i64, i64)>);
fn pair(e: Option<SolarEvents>) -> Option<(i64, i64)> {
    e.map(|e| (e.sunrise.timestamp(), e.sunset.timestamp()))
}

struct Out {
    t: DateTime<Utc>,
    days: Vec<Day>,
    /// the same days asked for at another time of day, with the longitude stated the other way
    again: Vec<Option<(i64, i64)>>,
    /// what came back from disk
    saved: Option<Result<Vec<Option<(i64, i64)>>, String>>,
}

const HORIZON: f64 = -50.0 / 60.0;

impl Property for C17 {
    fn info(&self) -> Info {
        Info {
            id: "C17",
            rule: "A run is a history of looks by up to four clients, with clocks that are skewed and stepped, at the sun times of places anywhere from pole to pole, their longitudes stated either way, for the day on their clock and days to come, which they save and read back after restarts with torn saves; several clients at once under a seeded schedule. Every time is held against the height of the sun computed from its own formulas. Non-trivial: a clock fault, a restart, or a polar day or night. State signature: band of latitude, season, sector of longitude.",
            real: &["surfrs::solar, Location", "sunrise, chrono, serde_json", "Utc::now through the interposed clock_gettime"],
            stub: &["clock", "storage", "client scheduler"],
            assumptions: &["Times may be off by what moves the sun 1.3 degrees up or down, and by half an hour around noon; days on which the sun only just reaches the horizon may have events or none.", "Places lie at sea level."],
            quick_runs: 110_000,
            thorough_runs: 300_000,
            digest_is_property: false,
            expect_probes: &["clock_skew", "clock_step_back", "clock_step_forward", "crash", "torn_save", "polar", "day_with_events", "date_line"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let n = 1 + r.usize(4);
        let skewed = r.chance(0.5);
        let polar = r.chance(0.4);
        let places = (0..1 + r.usize(4))
            .map(|_| {
                let lat = if polar && r.chance(0.6) { *r.pick(&[-1, 1]) * r.range(6400, 9000) } else { r.range(-6700, 6700) };
                let lon = match r.usize(5) {
                    0 => *r.pick(&[-18000, 18000, 17999, -17999, 0, 1, -1, 9000, -9000]),
                    1 => *r.pick(&[-1, 1]) * r.range(16500, 18000),
                    _ => r.range(-18000, 18000),
                };
                (lat, lon)
            })
            .collect();
        let looks = (0..r.range(2, if thorough { 40 } else { 16 }))
            .map(|_| Look {
                dt: *r.pick(&[0, 1, 600, 3600, 43200, 86399, 86400, 30 * 86400, 91 * 86400]),
                c: r.below(n as u64),
                step: if r.chance(0.2) { *r.pick(&[-400 * 86400, -86400, -3600, -1, 1, 3600, 86400, 100 * 86400]) } else { 0 },
                place: r.below(8),
                east: r.chance(0.5),
                days: *r.pick(&[1, 1, 2, 7, 30]),
                saved: *r.pick(&[0, 0, 0, 1000, 1000, 999, 500, 10]),
            })
            .collect();
        let mut start = common::gen_start(r);
        if r.chance(0.5) {
            // beside midnight
            start = start.div_euclid(86400) * 86400 + r.range(-3, 3);
        }
        serde_json::to_value(Plan { start, skew: (0..n).map(|_| if skewed { r.range(-90000, 90000) } else { 0 }).collect(), places, seed: r.u64() >> 12, gap: common::gen_gap(r), looks }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        if plan.places.is_empty() {
            return;
        }
        let mut now = plan.start;
        let mut step: BTreeMap<u64, i64> = BTreeMap::new();
        for (round, chunk) in plan.looks.chunks(4).enumerate() {
            let add: i64 = chunk.iter().map(|l| l.dt.clamp(0, 400_000_000)).sum();
            now = common::clamp_time(now + add);
            ctx.out.sim_secs += add as u64;
            simkit::seams::set_now(now, 0);
            let mut jobs: Vec<Box<dyn FnOnce() -> Out + Send>> = vec![];
            let mut meta = vec![];
            for l in chunk {
                let c = l.c % plan.skew.len().max(1) as u64;
                let s = step.entry(c).or_default();
                *s += l.step;
                match l.step {
                    x if x < 0 => ctx.fault("clock_step_back"),
                    x if x > 0 => ctx.fault("clock_step_forward"),
                    _ => {}
                }
                let skew = plan.skew.get(c as usize).copied().unwrap_or(0);
                if skew != 0 {
                    ctx.fault("clock_skew");
                }
                // keeps a client's clock where the system's can be
                let off = (now + skew + *s).clamp(0, 4_200_000_000) - now;
                let (lat, lon) = plan.places[l.place as usize % plan.places.len()];
                let (lat, lon) = (lat.clamp(-9000, 9000) as f64 / 100.0, lon.clamp(-18000, 18000) as f64 / 100.0);
                let (east, days, saved) = (l.east, l.days.clamp(1, 60) as i64, l.saved.min(1000) as usize);
                if saved > 0 {
                    ctx.fault("crash");
                    if saved < 1000 {
                        ctx.fault("torn_save");
                    }
                }
                meta.push((c, lat, lon));
                jobs.push(Box::new(move || {
                    simkit::seams::set_skew(off);
                    let t = Utc::now();
                    // the date line itself, stated the other way, has its noon a day earlier
                    let stated = |east: bool| Location::new(lat, if east && lon < 0.0 && lon > -180.0 { lon + 360.0 } else { lon }, "place".into());
                    let ask = |i: i64| t + chrono::Duration::days(i);
                    let almanac: Vec<Option<SolarEvents>> = (0..days).map(|i| calculate_solar_events(&stated(east), &ask(i))).collect();
                    let other = |i: i64| {
                        let d = ask(i).timestamp().div_euclid(86400) * 86400;
                        Utc.timestamp_opt(d + (t.timestamp() * 7919).rem_euclid(86400), 0).unwrap()
                    };
                    let again = (0..days).map(|i| pair(calculate_solar_events(&stated(!east), &other(i)))).collect();
                    let text = serde_json::to_string(&almanac).unwrap();
                    let back = (saved > 0).then(|| {
                        let cut = if saved == 1000 { text.len() } else { (text.len() * saved / 1000).min(text.len() - 1) };
                        serde_json::from_str::<Vec<Option<SolarEvents>>>(&text[..cut]).map(|v| v.into_iter().map(pair).collect()).map_err(|e| e.to_string())
                    });
                    // a torn save must be refused
                    let back = back.filter(|b| saved == 1000 || b.is_ok());
                    Out { t, days: (0..days).map(|i| ask(i).timestamp().div_euclid(86400) * 86400).zip(almanac.into_iter().map(pair)).collect(), again, saved: back }
                }));
            }
            let got = common::together(plan.seed.wrapping_add(round as u64), plan.gap, jobs, ctx);
            for (((c, lat, lon), l), g) in meta.into_iter().zip(chunk).zip(got) {
                let o = match g {
                    Ok(o) => o,
                    Err(e) => {
                        ctx.violate("panic", format!("client {c} at {lat} {lon}: {e}"));
                        continue;
                    }
                };
                ctx.checked();
                let what = format!("client {c}, whose clock shows {}, at {lat} {lon}", o.t);
                ctx.log(format!("{what}: {:?}", o.days));
                ctx.reach(format!("{} {} {}", (lat / 10.0).floor(), o.t.timestamp().rem_euclid(31_557_600) / 2_629_800, (lon / 45.0).floor()));
                if lon.abs() > 179.0 {
                    ctx.probe("date_line");
                }
                for (day, e) in &o.days {
                    if let Err(m) = check(*day, *e, lat, lon, ctx) {
                        ctx.violate("sun", format!("{what}: {m}"));
                        break;
                    }
                }
                let days: Vec<_> = o.days.iter().map(|d| d.1).collect();
                // restating a longitude may round it
                let close = |a: &Option<(i64, i64)>, b: &Option<(i64, i64)>| match (a, b) {
                    (Some(a), Some(b)) => (a.0 - b.0).abs() <= 2 && (a.1 - b.1).abs() <= 2,
                    _ => a.is_none() == b.is_none(),
                };
                if days.len() != o.again.len() || !days.iter().zip(&o.again).all(|(a, b)| close(a, b)) {
                    ctx.violate("restated", format!("{what}: {days:?}, asked for at another time of these days with the longitude stated the other way {:?}", o.again));
                }
                match o.saved {
                    Some(Ok(v)) if l.saved.min(1000) < 1000 => ctx.violate("torn save", format!("{what}: a torn save was read as {v:?}")),
                    Some(Ok(v)) if v == days => {}
                    Some(x) => ctx.violate("saved", format!("{what}: {days:?} came back as {x:?}")),
                    None => {}
                }
            }
        }
    }
}

fn check(day: i64, e: Option<(i64, i64)>, lat: f64, lon: f64, ctx: &mut Ctx) -> Result<(), String> {
    let date = Utc.timestamp_opt(day, 0).unwrap().format("%Y-%m-%d").to_string();
    let noon = day as f64 + 43200.0 - lon * 240.0;
    let dec = sun(noon).0;
    let (highest, lowest) = (90.0 - (lat - dec).abs(), (lat + dec).abs() - 90.0);
    let room = (highest - HORIZON).min(HORIZON - lowest);
    match e {
        None if room > 1.3 => Err(format!("no events on {date} though the sun stands {highest:.1} degrees high at noon and {lowest:.1} at midnight")),
        Some(e) if room < -1.3 => Err(format!("events {e:?} on {date} though the sun stands {highest:.1} degrees high at noon and {lowest:.1} at midnight")),
        None => {
            ctx.probe("polar");
            ctx.out.nontrivial = true;
            Ok(())
        }
        Some((up, down)) => {
            ctx.probe("day_with_events");
            let show = |t: i64| Utc.timestamp_opt(t, 0).single().map(|t| t.to_string()).unwrap_or_else(|| format!("{t} s"));
            if !(up < down && down - up < 86400) {
                return Err(format!("on {date} the sun rises {} and sets {}", show(up), show(down)));
            }
            let middle = (up + down) as f64 / 2.0;
            if (middle - noon).abs() > 1800.0 {
                return Err(format!("on {date} the sun rises {} and sets {}, noon of that day is {}", show(up), show(down), show(noon as i64)));
            }
            // the sun is highest in the middle of the day
            let (_, gha) = sun(middle);
            if circ(gha + lon, 0.0) > 2.0 {
                return Err(format!("on {date} the middle between sunrise {} and sunset {} is {:.1} degrees from noon", show(up), show(down), circ(gha + lon, 0.0)));
            }
            for (name, t, rising) in [("rises", up, true), ("sets", down, false)] {
                let (h, r) = height(t as f64, lat, lon);
                // close to midnight or noon it hardly moves
                if (h - HORIZON).abs() > 1.3 || r != rising && room > 1.0 {
                    return Err(format!("on {date} the sun {name} {}, when it stands {h:.2} degrees high, {}", show(t), if r { "rising" } else { "setting" }));
                }
            }
            Ok(())
        }
    }
}
