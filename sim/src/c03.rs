//! Model cycles over the years, and when each bulletin row says it is.
use crate::common::{self, plan_from};
use crate::feeds::{self, Doc, Line};
use crate::rec::{match_delivery, Exp, Rec, V};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use surfrs::data::forecast_cbulletin_wave_data_record::ForecastCBulletinWaveRecordCollection;

pub struct C03;

#[derive(Serialize, Deserialize)]
struct Cyc {
    dt: i64,
    st: u64,
    n: i64,
    step: i64,
    from: i64,
    faults: Vec<Fault>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    cycles: Vec<Cyc>,
}

struct Got {
    name: String,
    lat: f64,
    lon: f64,
    run: i64,
    rows: Vec<i64>,
}

fn read(text: &str) -> Result<Got, String> {
    let mut c = ForecastCBulletinWaveRecordCollection::from_data(text);
    let (m, it) = c.records().map_err(|e| e.to_string())?;
    Ok(Got {
        name: m.location.name.clone(),
        lat: m.location.latitude,
        lon: m.location.longitude,
        run: m.model_run_date.timestamp(),
        rows: it.map(|r| r.date.timestamp()).collect(),
    })
}

fn dates(rec: &Option<Rec>) -> Option<Rec> {
    rec.as_ref().map(|r| Rec { f: r.f.iter().take(1).cloned().collect() })
}

impl Property for C03 {
    fn info(&self) -> Info {
        Info {
            id: "C03",
            rule: "A run is a history of model cycles on a simulated calendar (jumps of 6 h to years, starts concentrated around month, year and leap-day boundaries); each cycle publishes bulletins with row hours up to 16 days ahead, a faulty network delivers them to concurrent clients, and the date of every intact row and the reported run date and place are compared with the publisher's. Non-trivial: a fault changed a document or a row lies in another month than its cycle. State signature: month of the cycle, months crossed, horizon class, faults.",
            real: &["surfrs bulletin decoder", "csv", "chrono"],
            stub: &["model publisher", "network (fault injector)", "calendar", "client scheduler"],
            assumptions: &["Rows lie between the cycle and 16 days after it, so the day of month decides the month."],
            quick_runs: 16_000,
            thorough_runs: 250_000,
            digest_is_property: false,
            expect_probes: &["month_crossed", "year_crossed", "leap_day_rows", "lose_line", "truncate"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let mut ks: Vec<&str> = net::KINDS.to_vec();
        r.shuffle(&mut ks);
        ks.truncate(1 + r.usize(8));
        let k = 1 + r.usize(if thorough { 10 } else { 5 });
        let calm = index % 5 == 0;
        let cycles = (0..k)
            .map(|_| {
                let (n, step) = *r.pick(&[(3i64, 1i64), (25, 1), (49, 3), (121, 1), (129, 3), (385, 1), (17, 24), (65, 6)]);
                let from = if r.chance(0.5) { r.range(0, (384 - (n - 1) * step).max(0)) } else { 0 };
                let nf = if calm { 0 } else { *r.pick(&[0usize, 0, 1, 1, 2, 4]) };
                Cyc {
                    dt: *r.pick(&[0, 21600, 21600, 43200, 86400, 5 * 86400, 31 * 86400, 365 * 86400, 1461 * 86400]),
                    st: r.below(6),
                    n,
                    step,
                    from,
                    faults: (0..nf).map(|_| net::gen_fault(r, &ks)).collect(),
                }
            })
            .collect();
        let start = match r.below(4) {
            // a cycle within 16 days of a year end or of the end of February
            0 => {
                let y = r.range(1999, 2060);
                let t = chrono::NaiveDate::from_ymd_opt(y as i32, 12, 31).unwrap().and_hms_opt(18, 0, 0).unwrap().and_utc().timestamp();
                t - r.range(0, 64) * 21600
            }
            1 => {
                let y = r.range(1999, 2060);
                let t = chrono::NaiveDate::from_ymd_opt(y as i32, 3, 1).unwrap().and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp();
                t - r.range(0, 64) * 21600
            }
            _ => common::gen_start(r),
        };
        serde_json::to_value(Plan { world: r.u64() >> 24, start, seed: r.u64() >> 12, gap: common::gen_gap(r), cycles }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut t = plan.start;
        for (round, chunk) in plan.cycles.chunks(3).enumerate() {
            let mut ds = vec![];
            for c in chunk {
                t = common::clamp_time(t + c.dt);
                ctx.out.sim_secs += c.dt.unsigned_abs();
                simkit::seams::set_now(t, 0);
                let step = c.step.clamp(1, 24);
                let n = c.n.clamp(0, 385).min(384 / step + 1);
                let from = c.from.clamp(0, 384 - (n - 1).max(0) * step);
                let doc = feeds::cbull_build(plan.world, c.st, t, n, step, from);
                let cyc = feeds::cycle_of(t);
                let (text, docs, _) = common::damage(&c.faults, vec![doc], ctx, |k| {
                    feeds::cbull_build(plan.world, c.st, common::clamp_time(feeds::older("cbull", t, k)), n, step, from)
                });
                use chrono::Datelike;
                let (a, z) = (feeds::at(cyc), feeds::at(cyc + (from + (n - 1).max(0) * step) * 3600));
                if a.month() != z.month() {
                    ctx.probe("month_crossed");
                    ctx.out.nontrivial = true;
                }
                if a.year() != z.year() {
                    ctx.probe("year_crossed");
                }
                let leap = (0..n).any(|i| {
                    let d = feeds::at(cyc + (from + i * step) * 3600);
                    d.month() == 2 && d.day() == 29
                });
                if leap {
                    ctx.probe("leap_day_rows");
                }
                ctx.reach(format!("{} {} {} {}", a.month(), z.month(), n / 20, c.faults.len()));
                ds.push((cyc, c.st, text, docs));
            }
            let jobs: Vec<Box<dyn FnOnce() -> Result<Got, String> + Send>> = ds
                .iter()
                .map(|(_, _, text, _)| {
                    let text = text.as_str();
                    Box::new(move || read(text)) as Box<dyn FnOnce() -> _ + Send>
                })
                .collect();
            let got = common::together(plan.seed.wrapping_add(round as u64), plan.gap, jobs, ctx);
            for ((cyc, st, text, docs), g) in ds.into_iter().zip(got) {
                ctx.checked();
                let what = format!("bulletin of cycle {} station {st}", feeds::at(cyc));
                let docs: Vec<Doc> = docs
                    .into_iter()
                    .map(|d| Doc { lines: d.lines.into_iter().map(|l| Line { rec: dates(&l.rec), text: l.text }).collect() })
                    .collect();
                let exp = feeds::expect("cbull", &text, &docs);
                let head: Vec<&str> = text.split('\n').take(3).collect();
                let head_ok = head.len() == 3 && (0..3).all(|i| head[i] == docs[0].lines[i].text) && text.matches('\n').count() >= 3;
                match g {
                    Err(p) => ctx.violate("panic", format!("{what}: {p}")),
                    Ok(Err(e)) => {
                        ctx.log(format!("{what}: refused: {e}"));
                        if head_ok {
                            ctx.violate("refused", format!("{what}: refused with an undamaged header: {e}"));
                        }
                    }
                    Ok(Ok(g)) => {
                        ctx.log(format!("{what}: run {} rows {:?}", g.run, g.rows));
                        if head_ok {
                            let (name, lat, lon) = feeds::cbull_place(plan.world, st);
                            if g.run != cyc {
                                ctx.violate("run date", format!("{what}: reported run date {}", feeds::at(g.run)));
                            }
                            if g.name != name || (g.lat - lat).abs() > 1e-9 || (g.lon - lon).abs() > 1e-9 {
                                ctx.violate("place", format!("{what}: reported {} {} {}, published {name} {lat} {lon}", g.name, g.lat, g.lon));
                            }
                        }
                        let recs: Vec<Rec> = g
                            .rows
                            .iter()
                            .map(|d| {
                                let mut r = Rec::new();
                                r.put("date", V::I(*d));
                                r
                            })
                            .collect();
                        let must = exp.iter().filter(|e| matches!(e, Exp::Must(_))).count();
                        ctx.probe_n("intact_rows", must as u64);
                        if let Err(e) = match_delivery(&exp, &recs) {
                            ctx.violate("row date", format!("{what}: {e}"));
                        }
                    }
                }
            }
        }
    }
}
