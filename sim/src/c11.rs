//! Tide and weather documents: whole and exact, or refused.
use crate::common::{self, plan_from};
use crate::jdocs;
use crate::rec::Rec;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};

pub struct C11;

#[derive(Serialize, Deserialize)]
struct Get {
    kind: String,
    st: u64,
    /// "", "cut" (connection closed early), "spoil" (a required field lost, renamed or of a wrong type)
    #[serde(default)]
    fault: String,
    #[serde(default)]
    a: u64,
    #[serde(default)]
    b: u64,
}
#[derive(Serialize, Deserialize)]
struct Batch {
    dt: i64,
    seed: u64,
    gap: u64,
    gets: Vec<Get>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    batches: Vec<Batch>,
}

impl Property for C11 {
    fn info(&self) -> Info {
        Info {
            id: "C11",
            rule: "A run is servers publishing tide predictions, tide station lists, weather grid points and hourly forecasts at simulated times, in varying field order, spacing, number style and zone offset and with unknown fields, delivered whole, cut short at any byte, or with a required field lost, renamed or of a wrong type, to concurrent clients. Whole documents must decode to exactly what was published, the others must be refused. Non-trivial: a fault was injected. State signature: kinds, faults, places cut (in tenths), record counts.",
            real: &["surfrs JSON decoders", "serde_json", "chrono", "unit parsing"],
            stub: &["servers (truth model)", "network (fault injector)", "client scheduler", "clock"],
            assumptions: &["A panic of TideStations::from_raw_data counts as a refusal here; C02 lists it."],
            quick_runs: 60_000,
            thorough_runs: 300_000,
            digest_is_property: false,
            expect_probes: &["whole", "cut", "spoil", "tides", "tide_stations", "gridpoint", "weather"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let batches = (0..1 + r.usize(if thorough { 5 } else { 3 }))
            .map(|_| Batch {
                dt: *r.pick(&[0, 360, 3600, 86400, 40 * 86400]) + r.range(0, 59),
                seed: r.u64() >> 12,
                gap: common::gen_gap(r),
                gets: (0..1 + r.usize(4))
                    .map(|_| {
                        let fault = if index % 10 == 0 { "" } else { *r.pick(&["", "", "cut", "cut", "spoil"]) };
                        Get { kind: r.pick(jdocs::KINDS).to_string(), st: r.below(6), fault: fault.into(), a: r.u64() >> 12, b: r.u64() >> 12 }
                    })
                    .collect(),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), batches }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut t = plan.start;
        for b in &plan.batches {
            t = common::clamp_time(t + b.dt);
            simkit::seams::set_now(t, 0);
            ctx.out.sim_secs += b.dt.unsigned_abs();
            let mut ds = vec![];
            for g in &b.gets {
                let kind = jdocs::KINDS.iter().find(|k| **k == g.kind).copied().unwrap_or("tides");
                let mut d = jdocs::publish(kind, plan.world, g.st, t);
                let mut how = String::new();
                let mut text = d.text();
                match g.fault.as_str() {
                    "cut" => {
                        let mut at = (g.a % text.len() as u64) as usize;
                        // near the ends more often than chance would have it
                        if g.b % 4 == 0 {
                            at = text.len() - 1 - (g.a % text.len().min(40) as u64) as usize;
                        }
                        while !text.is_char_boundary(at) {
                            at -= 1;
                        }
                        how = format!("cut at {at} of {}", text.len());
                        ctx.reach(format!("cut {}", at * 10 / text.len()));
                        text.truncate(at);
                        ctx.fault("cut");
                        ctx.probe("cut");
                    }
                    "spoil" => {
                        let mut all = vec![];
                        d.j.required(&mut vec![], &mut all);
                        let p = all[(g.a % all.len() as u64) as usize].clone();
                        let k = d.j.spoil(&p, g.b);
                        how = format!("required field {k} {}", ["lost", "renamed", "of a wrong type", "not one"][(g.b % 4) as usize]);
                        text = d.text();
                        ctx.fault("spoil");
                        ctx.probe("spoil");
                        ctx.reach(format!("spoil {k} {}", g.b % 4));
                    }
                    _ => ctx.probe("whole"),
                }
                ctx.probe(kind);
                ds.push((kind, g.st, how, text, d));
            }
            let jobs: Vec<Box<dyn FnOnce() -> Result<Vec<Rec>, String> + Send>> = ds
                .iter()
                .map(|(k, _, _, text, _)| {
                    let (k, text) = (*k, text.as_str());
                    Box::new(move || jdocs::decode(k, text)) as Box<dyn FnOnce() -> _ + Send>
                })
                .collect();
            let got = common::together(b.seed, b.gap, jobs, ctx);
            for ((kind, st, how, _, d), g) in ds.iter().zip(got) {
                ctx.checked();
                let what = format!("{kind} document of station {st} at {t}");
                ctx.reach(format!("{kind} {}", d.recs.len().min(6)));
                let g = match g {
                    Err(p) if *kind == "tide_stations" && jdocs::is_station_list_refusal(&p) => Err(p),
                    Err(p) => {
                        ctx.violate("panic", format!("{what} ({how}): {p}"));
                        continue;
                    }
                    Ok(r) => r,
                };
                match (g, how.is_empty()) {
                    (Err(e), true) => ctx.violate("refused", format!("{what}: arrived whole but was refused: {e}")),
                    (Err(e), false) => ctx.log(format!("{what}: {how}: refused: {e}")),
                    (Ok(r), false) => ctx.violate("partial", format!("{what}: {how}, yet {} entries were delivered", r.len())),
                    (Ok(r), true) => {
                        ctx.log(format!("{what}: {} entries", r.len()));
                        if r.len() != d.recs.len() {
                            ctx.violate("content", format!("{what}: {} entries instead of {}", r.len(), d.recs.len()));
                        }
                        for (i, (a, b)) in d.recs.iter().zip(&r).enumerate() {
                            ctx.log(b.brief());
                            if let Some(e) = a.diff(b) {
                                ctx.violate("content", format!("{what}: entry {i}: {e}"));
                            }
                        }
                    }
                }
            }
        }
    }
}
