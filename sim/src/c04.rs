//! Point spectral forecasts through a faulty network.
use crate::common::{self, plan_from};
use crate::feeds;
use crate::fspec::{self, Decoded, Forecast};
use crate::rec::{match_delivery, Exp};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::net::{self, Fault};
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};

pub struct C04;

#[derive(Serialize, Deserialize)]
struct Get {
    dt: i64,
    st: u64,
    steps: u64,
    faults: Vec<Fault>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    gets: Vec<Get>,
}

/// What may be delivered for the lines received: intact steps must be, gaps may yield at
/// most one record per line a step could start at. None: the header did not arrive intact.
pub fn expect(text: &str, docs: &[Forecast]) -> Option<(Vec<Exp>, Option<i64>)> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let h = &docs[0].header;
    if lines.len() < h.len() || (0..h.len()).any(|i| lines[i] != h[i]) {
        return None;
    }
    let lines = &lines[h.len()..];
    let same_grid = |d: &Forecast| d.nk == docs[0].nk && d.nth == docs[0].nth && d.header == *h;
    let mut exp = vec![];
    let mut gap = 0usize;
    let mut first_ref = None;
    let mut clean_start = true;
    let mut i = 0;
    while i < lines.len() {
        let mut hit = None;
        for d in docs.iter().filter(|d| same_grid(d)) {
            if let Some(s) = d.steps.iter().find(|s| s.lines[0] == lines[i]) {
                if i + s.lines.len() <= lines.len() && (0..s.lines.len()).all(|k| lines[i + k] == s.lines[k]) {
                    hit = Some(s);
                }
                if clean_start && first_ref.is_none() {
                    first_ref = Some(s.time);
                }
            }
        }
        if first_ref.is_none() {
            clean_start = false;
        }
        match hit {
            Some(s) => {
                if gap > 0 {
                    exp.push(Exp::May(gap));
                    gap = 0;
                }
                exp.push(Exp::Must(s.rec.clone()));
                i += s.lines.len();
            }
            None => {
                // the decoder can only begin a record at a line that starts like a date
                let l = lines[i];
                for part in l.split('\r') {
                    if part.len() >= 12 && part.as_bytes()[0].is_ascii_digit() || part.starts_with('+') {
                        gap += 1;
                    }
                }
                i += 1;
            }
        }
    }
    if gap > 0 {
        exp.push(Exp::May(gap));
    }
    Some((exp, first_ref))
}

/// The first delivered step whose energies are not those of consecutive whole lines of the document,
/// in order after those of the step before.
fn made_up(text: &str, steps: &[&[f64]]) -> Option<usize> {
    let mut values: Vec<u64> = vec![];
    let mut bounds = vec![0];
    for l in text.lines() {
        values.extend(l.split_whitespace().filter_map(|v| v.parse::<f64>().ok()).map(f64::to_bits));
        bounds.push(values.len());
    }
    bounds.dedup();
    let mut from = 0;
    for (i, e) in steps.iter().enumerate() {
        let e: Vec<u64> = e.iter().map(|v| v.to_bits()).collect();
        let at = bounds.iter().copied().find(|b| *b >= from && values[*b..].starts_with(&e) && bounds.binary_search(&(b + e.len())).is_ok());
        match at {
            Some(b) => from = b + e.len(),
            None => return Some(i),
        }
    }
    None
}

impl Property for C04 {
    fn info(&self) -> Info {
        Info {
            id: "C04",
            rule: "A run is a model publishing point spectral forecasts (grids of 3-50 frequencies by 4-36 directions, one to six steps, several sea states) that a network with a swarm-chosen subset of fault kinds delivers to concurrent clients; every intact step must be delivered in order exactly as published and every delivered step must be complete. Non-trivial: a fault changed the document. State signature: grid, faults, numbers of intact steps and records.",
            real: &["surfrs spectral forecast decoder", "Spectra", "unit conversion", "regex"],
            stub: &["model publisher", "network (fault injector)", "client scheduler", "clock"],
            assumptions: &["A step counts as intact when all its lines arrived byte for byte and in sequence, and so did the header."],
            quick_runs: 24_000,
            thorough_runs: 150_000,
            digest_is_property: false,
            expect_probes: &["intact_steps", "damaged_steps_possible", "lose_line", "dup_line", "truncate", "splice_older", "header_damaged"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let mut ks: Vec<&str> = net::KINDS.to_vec();
        r.shuffle(&mut ks);
        ks.truncate(1 + r.usize(8));
        let calm = index % 12 == 0;
        let gets = (0..1 + r.usize(if thorough { 5 } else { 3 }))
            .map(|_| {
                let nf = if calm { 0 } else { *r.pick(&[0usize, 1, 1, 1, 2, 3, 5]) };
                Get { dt: *r.pick(&[0, 3600, 21600, 86400, 31 * 86400]), st: r.below(4), steps: *r.pick(&[1, 2, 3, 4, 5, 6, 12, 24]), faults: (0..nf).map(|_| net::gen_fault(r, &ks)).collect() }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: *r.pick(&[0, 30, 120, 500, 3000]), gets }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        let mut t = plan.start;
        let mut ds = vec![];
        for g in &plan.gets {
            t = common::clamp_time(t + g.dt);
            ctx.out.sim_secs += g.dt.unsigned_abs();
            let steps = g.steps.clamp(0, 24) as usize;
            let big = plan.world % 16 == 0;
            let doc = fspec::publish(plan.world, g.st, t, steps, big);
            let (text, docs) = damage(&g.faults, doc, ctx, |k| fspec::publish(plan.world, g.st, common::clamp_time(feeds::older("cbull", t, k)), steps, big));
            ds.push((text, docs, g));
        }
        simkit::seams::set_now(t, 0);
        let jobs: Vec<Box<dyn FnOnce() -> Result<Decoded, String> + Send>> =
            ds.iter().map(|(text, _, _)| Box::new(move || fspec::decode(text)) as Box<dyn FnOnce() -> _ + Send>).collect();
        let got = common::together(plan.seed, plan.gap, jobs, ctx);
        for ((text, docs, g), d) in ds.iter().zip(got) {
            ctx.checked();
            let what = format!("forecast of station {} ({} steps of {}x{})", g.st, docs[0].steps.len(), docs[0].nk, docs[0].nth);
            let exp = expect(text, docs);
            let kinds: Vec<&str> = g.faults.iter().map(|f| f.k.as_str()).collect();
            let d = match d {
                Err(p) => {
                    ctx.violate("panic", format!("{what}: {p}"));
                    continue;
                }
                Ok(Err(e)) => {
                    ctx.log(format!("{what}: faults {kinds:?}: refused: {e}"));
                    if exp.is_some() {
                        ctx.violate("refused", format!("{what}: refused though its header arrived intact: {e}"));
                    }
                    continue;
                }
                Ok(Ok(d)) => d,
            };
            ctx.log(format!("{what}: faults {kinds:?}, {} bytes, {} records", text.len(), d.recs.len()));
            for (r, _, _) in &d.recs {
                ctx.log(r.brief());
            }
            for (r, _, e) in &d.recs {
                if e.len() != d.freq.len() * d.nth {
                    ctx.violate("incomplete", format!("{what}: step delivered with {} energies for a {}x{} grid: {}", e.len(), d.freq.len(), d.nth, r.brief()));
                }
            }
            if let Some(i) = made_up(text, &d.recs.iter().map(|r| &r.2[..]).collect::<Vec<_>>()) {
                ctx.violate("made_up", format!("{what}: step delivered with energies that are not those of whole lines received: {}", d.recs[i].0.brief()));
            }
            if d.recs.windows(2).any(|w| w[0].1 != w[1].1) {
                ctx.violate("reference", format!("{what}: steps of one decode report different reference times"));
            }
            let Some((exp, first)) = exp else {
                ctx.probe("header_damaged");
                continue;
            };
            let must = exp.iter().filter(|e| matches!(e, Exp::Must(_))).count();
            ctx.probe_n("intact_steps", must as u64);
            ctx.probe_n("damaged_steps_possible", exp.iter().map(|e| if let Exp::May(n) = e { *n as u64 } else { 0 }).sum());
            ctx.reach(format!("{}x{} {kinds:?} {must} {}", docs[0].nk, docs[0].nth, d.recs.len()));
            if d.freq != docs[0].freq || d.nth != docs[0].nth {
                ctx.violate("grid", format!("{what}: grid read as {}x{}", d.freq.len(), d.nth));
            }
            if let (Some(f), Some(r)) = (first, d.recs.first()) {
                if r.1 != f {
                    ctx.violate("reference", format!("{what}: reference time {} instead of the first step's {}", feeds::at(r.1), feeds::at(f)));
                }
            }
            let recs: Vec<_> = d.recs.into_iter().map(|x| x.0).collect();
            if let Err(e) = match_delivery(&exp, &recs) {
                ctx.violate("delivery", format!("{what}: {e}"));
            }
        }
    }
}

pub fn damage(faults: &[Fault], doc: Forecast, ctx: &mut Ctx, older: impl Fn(u64) -> Forecast) -> (String, Vec<Forecast>) {
    let mut bytes = doc.text().into_bytes();
    let mut docs = vec![doc];
    for fa in faults {
        let old = if fa.k == "splice_older" { Some(older(fa.b)) } else { None };
        let old_text = old.as_ref().map(|d| d.text().into_bytes()).unwrap_or_default();
        let (b, changed) = net::apply(bytes, fa, &|| old_text.clone());
        bytes = b;
        if changed {
            ctx.fault(&fa.k);
            docs.extend(old);
        }
        bytes.truncate(2_000_000);
    }
    (String::from_utf8_lossy(&bytes).into_owned(), docs)
}
