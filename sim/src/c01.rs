use crate::common::{self, plan_from, Plan};
use crate::feeds;
use crate::rec::{match_delivery, Exp};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};

pub struct C01;

impl Property for C01 {
    fn info(&self) -> Info {
        Info {
            id: "C01",
            rule: "A run is a simulated deployment: buoys and models publish text feeds at simulated times, a network with a swarm-chosen subset of fault kinds delivers them (possibly damaged or stale) to concurrent clients preempted inside library calls, and every delivered record is matched in order against the published rows. Non-trivial: at least one fault changed a document. State signature: per fetch the feed, kinds of faults, and numbers of intact rows, damaged rows and records (coarse).",
            real: &["surfrs text-feed decoders", "csv", "chrono", "unit conversion", "swell_data of text records"],
            stub: &["publishers (truth model)", "network (fault injector)", "client scheduler", "clock"],
            assumptions: &["A row counts as undamaged when its line arrived byte for byte as published and, for bulletins, the six header lines did too."],
            quick_runs: 24_000,
            thorough_runs: 200_000,
            digest_is_property: false,
            expect_probes: &["intact_rows", "damaged_lines", "stale_copy", "splice_older", "quote", "truncate"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        serde_json::to_value(common::gen_plan(r, index, thorough, feeds::FEEDS, simkit::net::KINDS)).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut t = plan.start;
        for b in &plan.batches {
            t = common::clamp_time(t + b.dt);
            simkit::seams::set_now(t, 0);
            ctx.out.sim_secs += b.dt.unsigned_abs();
            let ds: Vec<_> = b.fetches.iter().map(|f| common::deliver(&plan, f, t, ctx)).collect();
            let jobs: Vec<Box<dyn FnOnce() -> Result<Vec<crate::rec::Rec>, String> + Send>> = ds
                .iter()
                .map(|d| {
                    let (feed, text) = (d.feed.as_str(), d.text.as_str());
                    Box::new(move || feeds::decode(feed, text)) as Box<dyn FnOnce() -> _ + Send>
                })
                .collect();
            let got = common::together(b.seed, b.gap, jobs, ctx);
            for ((d, f), g) in ds.iter().zip(&b.fetches).zip(got) {
                let exp = feeds::expect(&d.feed, &d.text, &d.docs);
                let must = exp.iter().filter(|e| matches!(e, Exp::Must(_))).count();
                let may = exp.iter().filter(|e| matches!(e, Exp::May(n) if *n > 0)).count();
                ctx.probe_n("intact_rows", must as u64);
                ctx.probe_n("damaged_lines", may as u64);
                ctx.checked();
                let what = format!("{} of station {} at {}", d.feed, d.st, t);
                match g {
                    Err(p) => ctx.violate("panic", format!("{what}: {p}")),
                    Ok(Err(e)) => {
                        ctx.probe("refused_documents");
                        ctx.log(format!("{what}: refused: {e}"));
                        if must > 0 {
                            ctx.violate("refused", format!("{what}: document refused ({e}) though {must} rows and the header arrived undamaged"));
                        }
                        ctx.reach(format!("{} refused", d.feed));
                    }
                    Ok(Ok(recs)) => {
                        ctx.probe_n("records", recs.len() as u64);
                        if d.pristine {
                            ctx.probe("pristine_documents");
                        }
                        let kinds: Vec<&str> = f.faults.iter().map(|f| f.k.as_str()).collect();
                        ctx.log(format!("{what}: faults {kinds:?}, {} lines ({must} intact rows, {may} damaged), {} records", exp.len(), recs.len()));
                        for r in &recs {
                            ctx.log(r.brief());
                        }
                        ctx.reach(format!("{} {kinds:?} {} {} {}", d.feed, must.min(4), may.min(3), recs.len().min(5)));
                        if let Err(e) = match_delivery(&exp, &recs) {
                            ctx.violate(&format!("delivery:{}", d.feed), format!("{what}: {e}"));
                        }
                    }
                }
            }
        }
    }
}
