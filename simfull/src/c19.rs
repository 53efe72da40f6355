//! Clients that bring in every output of a model run, with interruptions.
use crate::c13::{file, model, newest, MODELS};
use crate::common::{self, plan_from};
use chrono::{TimeZone, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use std::collections::{BTreeMap, BTreeSet};
use surfrs::model::{ModelDataSource, ModelTimeOutputResolution};

pub struct C19;

/// What one client does next.
#[derive(Serialize, Deserialize, Clone)]
struct Act {
    k: String,
    #[serde(default)]
    a: u64,
    #[serde(default)]
    b: u64,
}
#[derive(Serialize, Deserialize)]
struct Session {
    model: u64,
    /// for a client that follows its own schedule instead of a model's: kind of resolution and cut-off
    free: Option<(u64, u64, u64)>,
    acts: Vec<Act>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    start: i64,
    seed: u64,
    gap: u64,
    sessions: Vec<Session>,
}

/// Every `step` hours up to `cut`, then every `later` hours up to `last`.
fn schedule(step: usize, cut: usize, later: usize, last: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut h = 0;
    while h <= last {
        v.push(h);
        h += if h < cut { step } else { later };
    }
    v
}

/// The resolution and the outputs of a free schedule.
fn free_schedule((kind, cut, more): (u64, u64, u64)) -> (ModelTimeOutputResolution, Vec<usize>) {
    let (cut, more) = (cut as usize % 400, 1 + more as usize % 400);
    match kind % 4 {
        0 => (ModelTimeOutputResolution::Hourly, schedule(1, 0, 1, cut + more)),
        1 => (ModelTimeOutputResolution::HybridHourlyThreeHourly(cut), schedule(1, cut, 3, cut + 3 * more)),
        2 => (ModelTimeOutputResolution::ThreeHourly, schedule(3, 0, 3, 3 * more)),
        _ => (ModelTimeOutputResolution::HybridThreeHourlySixHourly(3 * cut), schedule(3, 3 * cut, 6, 3 * cut + 6 * more)),
    }
}

fn published(name: &str) -> Vec<usize> {
    match name {
        "box" => schedule(1, 145, 1, 145),
        "mean.global.0p25" | "spread.global.0p25" => schedule(3, 240, 6, 384),
        _ => schedule(1, 120, 3, 384),
    }
}

struct Report {
    /// outputs in the order they were stored
    stored: Vec<usize>,
    wrong: Vec<String>,
    lost: u64,
    restarts: u64,
    ranges: u64,
    asked: u64,
}

/// One client: fetches outputs in order, one at a time or by ranges of hours, keeping only what it stored when it restarts.
fn follow(res: &ModelTimeOutputResolution, hours: &[usize], acts: &[Act], fetch: &dyn Fn(usize) -> Result<(), String>) -> Report {
    let mut r = Report { stored: vec![], wrong: vec![], lost: 0, restarts: 0, ranges: 0, asked: 0 };
    let pos: BTreeMap<usize, usize> = hours.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    let last = *hours.last().unwrap();
    let mut next = 0; // volatile: the index to fetch next
    let wrong = |r: &mut Report, e: String| {
        if r.wrong.len() < 5 {
            r.wrong.push(e)
        }
    };
    let one = |r: &mut Report, next: &mut usize, lost: bool| {
        if *next >= hours.len() {
            return;
        }
        let h = res.hour_for_index(*next);
        r.asked += 1;
        if lost {
            r.lost += 1;
            return;
        }
        match fetch(h) {
            Ok(()) if pos.contains_key(&h) => {
                if r.stored.last().map_or(h != 0, |l| pos.get(l).map_or(true, |i| hours.get(i + 1) != Some(&h))) {
                    wrong(r, format!("output {next} is hour {h}, after hour {:?}", r.stored.last()));
                }
                r.stored.push(h);
                *next += 1;
            }
            Ok(()) => {
                wrong(r, format!("output {next} is taken for hour {h}, which is not an output"));
                *next += 1;
            }
            Err(e) => {
                wrong(r, e);
                *next += 1;
            }
        }
    };
    let acts_len = acts.len();
    for k in 0..acts_len + hours.len() * 2 {
        let a = acts.get(k).cloned().unwrap_or(Act { k: "get".into(), a: 1, b: 0 });
        if k >= acts_len && next >= hours.len() {
            break;
        }
        match a.k.as_str() {
            "get" => {
                for _ in 0..1 + a.a % 40 {
                    one(&mut r, &mut next, false);
                }
            }
            "lost" => one(&mut r, &mut next, true),
            "restart" => {
                // all that survives is what was stored: take up again after the last stored hour
                r.restarts += 1;
                next = match r.stored.last() {
                    None => 0,
                    Some(h) => res.index_for_hour(*h) + 1,
                };
                if next > hours.len() {
                    let e = format!("after hour {:?} comes output {next}", r.stored.last());
                    wrong(&mut r, e);
                    next = hours.len();
                }
            }
            "range" => {
                // the outputs between two outputs, both included
                r.ranges += 1;
                let (i, j) = ((a.a as usize) % hours.len(), (a.b as usize) % hours.len());
                let (i, j) = (i.min(j), i.max(j));
                let got = res.hours_for_hour_range(hours[i], hours[j]);
                if got != hours[i..=j] {
                    wrong(&mut r, format!("outputs between hours {} and {}: {}", hours[i], hours[j], brief(&got, &hours[i..=j])));
                }
                let got = res.hours_for_index_range(i, j);
                if got != hours[i..=j] {
                    wrong(&mut r, format!("outputs {i} to {j}: {}", brief(&got, &hours[i..=j])));
                }
            }
            "loose" => {
                // a window of hours with ends between outputs: every output inside it is there, once, and none after it
                r.ranges += 1;
                let (s, e) = ((a.a as usize) % (last + 1), (a.b as usize) % (last + 1));
                let (s, e) = (s.min(e), s.max(e));
                let got = res.hours_for_hour_range(s, e);
                let inside: Vec<usize> = hours.iter().copied().filter(|h| *h >= s && *h <= e).collect();
                let kept: Vec<usize> = got.iter().copied().filter(|h| *h >= s).collect();
                if kept != inside || got.len() > inside.len() + 1 || got.windows(2).any(|w| w[0] >= w[1]) {
                    wrong(&mut r, format!("outputs between hours {s} and {e}: {}", brief(&got, &inside)));
                }
                // the output in force at each hour of the window
                let at = res.indexes_for_hour_range(s, e);
                for (h, i) in (s..=e).zip(&at) {
                    let want = hours.iter().rposition(|x| *x <= h).unwrap();
                    if *i != want {
                        wrong(&mut r, format!("output in force at hour {h}: {i} instead of {want}"));
                        break;
                    }
                }
                if at.len() != e - s + 1 {
                    wrong(&mut r, format!("{} outputs for the hours {s} to {e}", at.len()));
                }
            }
            _ => {}
        }
    }
    r
}

fn brief(got: &[usize], want: &[usize]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{} of them, differing at place {k}: {:?} instead of {:?} ({} expected)", got.len(), got.get(k), want.get(k), want.len())
}

impl Property for C19 {
    fn info(&self) -> Info {
        Info {
            id: "C19",
            rule: "A run is a set of concurrent clients, each bringing in every output of a model run (or of a schedule with a drawn cut-off) from a simulated archive: fetch the hour of the next index, lose an answer, restart with only the stored outputs and take up after the last stored hour, or fetch a window of hours; preempted inside library calls. At the end every output must have been stored once and in order. Non-trivial: an answer lost or a restart. State signature: per client the schedule, numbers of restarts, losses and windows (coarse).",
            real: &["surfrs model time resolution and its index arithmetic", "surfrs address building"],
            stub: &["archive", "client", "client scheduler", "gribberish and readap stand-ins (linked, not used here)"],
            assumptions: &[
                "Atlantic, Pacific and global wave runs have outputs hourly to 120 h and three-hourly to 384 h; ensemble runs three-hourly to 240 h and six-hourly to 384 h; nearshore runs hourly to 145 h.",
                "Cut-offs of a free schedule are multiples of its finer step.",
            ],
            quick_runs: 60_000,
            thorough_runs: 200_000,
            digest_is_property: false,
            expect_probes: &["answer_lost", "restart", "windows", "stored"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let calm = index % 16 == 0;
        let sessions = (0..1 + r.usize(4))
            .map(|_| {
                let dense = r.chance(0.3);
                let acts = (0..r.usize(if thorough { 60 } else { 30 }))
                    .map(|_| {
                        let k = *r.pick(if calm { &["get", "range"] } else { &["get", "get", "get", "lost", "restart", "restart", "range", "loose"] });
                        Act { k: k.into(), a: if k == "get" && dense { r.below(4) } else { r.u64() >> 12 }, b: r.u64() >> 12 }
                    })
                    .collect();
                let free = r.chance(0.4).then(|| (r.below(4), r.below(90), 1 + r.below(60)));
                Session { model: r.below(8), free, acts }
            })
            .collect();
        serde_json::to_value(Plan { start: common::gen_start(r), seed: r.u64() >> 12, gap: common::gen_gap(r), sessions }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let now = common::clamp_time(plan.start).max(10_000_000);
        simkit::seams::set_now(now, 0);
        let run = newest(now, 5 * 3600);
        let mut jobs: Vec<Box<dyn FnOnce() -> Report + Send>> = vec![];
        let mut names = vec![];
        for s in &plan.sessions {
            let acts = s.acts.clone();
            if let Some(f) = s.free {
                let (res, hours) = free_schedule(f);
                names.push(format!("{res:?} to {}", hours.last().unwrap()));
                jobs.push(Box::new(move || follow(&res, &hours, &acts, &|_| Ok(()))));
            } else {
                let name = MODELS[(s.model % 8) as usize];
                names.push(name.to_string());
                jobs.push(Box::new(move || {
                    let m = model(name);
                    let hours = published(name);
                    let archive: BTreeSet<String> = hours.iter().filter_map(|h| file(name, "nomads", run, *h)).collect();
                    let asked = Utc.timestamp_opt(now, 0).unwrap();
                    let got = follow(&m.time_resolution(), &hours, &acts, &|h| {
                        let u = m.create_url(&ModelDataSource::NOMADS, h, Some(asked));
                        if archive.contains(&u) { Ok(()) } else { Err(format!("the archive has no {u}")) }
                    });
                    let mut got = got;
                    for (i, h) in hours.iter().enumerate() {
                        if m.hour_for_index(i) != *h || m.index_for_hour(*h) != i {
                            got.wrong.push(format!("output {i} is hour {}, hour {h} is output {}", m.hour_for_index(i), m.index_for_hour(*h)));
                            break;
                        }
                    }
                    got
                }));
            }
        }
        let got = common::together(plan.seed, plan.gap, jobs, ctx);
        for ((s, g), name) in plan.sessions.iter().zip(got).zip(&names) {
            ctx.checked();
            let r = match g {
                Ok(r) => r,
                Err(e) => {
                    ctx.violate("panic", format!("{name}: {e}"));
                    continue;
                }
            };
            for _ in 0..r.lost {
                ctx.fault("answer_lost");
            }
            for _ in 0..r.restarts {
                ctx.fault("restart");
            }
            ctx.probe_n("windows", r.ranges);
            ctx.probe_n("stored", r.stored.len() as u64);
            ctx.log(format!("{name}: {} requests, {} stored, {} lost, {} restarts, {} windows", r.asked, r.stored.len(), r.lost, r.restarts, r.ranges));
            ctx.reach(format!("{name} {} {} {}", r.restarts.min(4), r.lost.min(4), r.ranges.min(3)));
            for w in &r.wrong {
                ctx.violate("outputs", format!("{name}: {w}"));
            }
            let hours = match s.free {
                None => published(name),
                Some(f) => free_schedule(f).1,
            };
            if r.stored != hours && r.wrong.is_empty() {
                ctx.violate("outputs", format!("{name}: stored {}", brief(&r.stored, &hours)));
            }
        }
    }
}
