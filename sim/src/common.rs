//! Plans shared by the feed properties: who fetches what, when, and what the network does.
use crate::feeds::{self, Doc};
use serde::{Deserialize, Serialize};
use simkit::net::{self, Fault};
use simkit::rng::Rng;
use simkit::Ctx;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fetch {
    pub feed: String,
    #[serde(default)]
    pub st: u64,
    #[serde(default)]
    pub faults: Vec<Fault>,
    /// served from a cache this many publications old (0: current)
    #[serde(default)]
    pub stale: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
    /// seconds since the batch before
    pub dt: i64,
    /// schedule of the concurrent clients of this batch
    pub seed: u64,
    /// mean allocations between preemptions (0: none)
    pub gap: u64,
    pub fetches: Vec<Fetch>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub world: u64,
    pub start: i64,
    pub batches: Vec<Batch>,
}

const EDGES: &[i64] = &[
    1704067200,  // 2024-01-01
    1735689600,  // 2025-01-01
    1709164800,  // 2024-02-29
    1709251200,  // 2024-03-01
    1677628800,  // 2023-03-01
    951782400,   // 2000-02-29
    946684800,   // 2000-01-01
    4107542400,  // 2100-03-01
    1711929600,  // 2024-04-01
    1719792000,  // 2024-07-01
    2145916800,  // 2038-01-01
    2147483648,  // 2038-01-19
];

/// A start time: anywhere over decades, or close to a month, year or leap-day boundary.
pub fn gen_start(r: &mut Rng) -> i64 {
    if r.chance(0.5) {
        r.range(915_148_800, 2_208_988_800)
    } else {
        *r.pick(EDGES) + r.range(-20 * 86400, 3 * 86400)
    }
}

pub fn gen_gap(r: &mut Rng) -> u64 {
    *r.pick(&[0, 3, 8, 30, 120, 500])
}

pub fn gen_plan(r: &mut Rng, index: u64, thorough: bool, feeds: &[&str], kinds: &[&str]) -> Plan {
    // swarm: each run uses a subset of feeds and fault kinds
    let mut fs: Vec<&str> = feeds.to_vec();
    r.shuffle(&mut fs);
    fs.truncate(1 + r.usize(feeds.len().min(4)));
    let mut ks: Vec<&str> = kinds.to_vec();
    r.shuffle(&mut ks);
    ks.truncate(1 + r.usize(kinds.len()));
    let nb = 1 + r.usize(if thorough { 8 } else { 4 });
    let calm = index % 16 == 0;
    let mut batches = vec![];
    for _ in 0..nb {
        let nf = 1 + r.usize(if thorough { 6 } else { 4 });
        let mut fetches = vec![];
        for _ in 0..nf {
            let n = if calm { 0 } else { *r.pick(&[0usize, 1, 1, 1, 2, 3, 5]) };
            let faults = (0..n).map(|_| net::gen_fault(r, &ks)).collect();
            fetches.push(Fetch { feed: r.pick(&fs).to_string(), st: r.below(5), faults, stale: if r.chance(0.15) { 1 + r.below(4) } else { 0 } });
        }
        batches.push(Batch { dt: *r.pick(&[0, 60, 600, 1800, 3600, 21600, 86400, 31 * 86400]) + r.range(0, 59), seed: r.u64() >> 12, gap: gen_gap(r), fetches });
    }
    Plan { world: r.u64() >> 24, start: gen_start(r), batches }
}

/// Keeps a minimised plan's clock inside the range calendars handle.
pub fn clamp_time(t: i64) -> i64 {
    t.clamp(0, 4_200_000_000)
}

pub struct Delivery {
    pub feed: String,
    pub st: u64,
    /// [0] is the publication asked for, the others are older ones that may have leaked in
    pub docs: Vec<Doc>,
    pub text: String,
    pub pristine: bool,
}

pub fn feed_name(f: &str) -> &'static str {
    feeds::FEEDS.iter().find(|x| **x == f).copied().unwrap_or("spec")
}

/// What reaches the client for one fetch at time `t`.
pub fn deliver(plan: &Plan, f: &Fetch, t: i64, ctx: &mut Ctx) -> Delivery {
    let feed = feed_name(&f.feed);
    let mut when = t;
    for _ in 0..f.stale.min(8) {
        when = feeds::older(feed, when, 0);
    }
    if f.stale > 0 {
        ctx.fault("stale_copy");
    }
    let when = clamp_time(when);
    let docs = vec![feeds::publish(feed, plan.world, f.st, when)];
    let (text, docs, pristine) = damage(&f.faults, docs, ctx, |k| feeds::publish(feed, plan.world, f.st, clamp_time(feeds::older(feed, when, k))));
    Delivery { feed: feed.into(), st: f.st, docs, text, pristine }
}

pub fn damage(faults: &[Fault], mut docs: Vec<Doc>, ctx: &mut Ctx, older: impl Fn(u64) -> Doc) -> (String, Vec<Doc>, bool) {
    let orig = docs[0].text().into_bytes();
    let mut bytes = orig.clone();
    for fa in faults {
        let old = if fa.k == "splice_older" { Some(older(fa.b)) } else { None };
        let old_text = old.as_ref().map(|d| d.text().into_bytes()).unwrap_or_default();
        let (b, changed) = net::apply(bytes, fa, &|| old_text.clone());
        bytes = b;
        if changed {
            ctx.fault(&fa.k);
            if let Some(d) = old {
                docs.push(d);
            }
        }
        if bytes.len() > 2_000_000 {
            bytes.truncate(2_000_000);
        }
    }
    let pristine = bytes == orig;
    (String::from_utf8_lossy(&bytes).into_owned(), docs, pristine)
}

/// Runs closures as simulated concurrent clients.
pub fn together<'a, T: Send + 'a>(b_seed: u64, gap: u64, jobs: Vec<Box<dyn FnOnce() -> T + Send + 'a>>, ctx: &mut Ctx) -> Vec<Result<T, String>> {
    let mut out = vec![];
    let mut jobs = jobs;
    while !jobs.is_empty() {
        let rest = if jobs.len() > 12 { jobs.split_off(12) } else { vec![] };
        let (r, st) = simkit::sched::run_tasks(b_seed, gap, jobs);
        ctx.sched(st);
        out.extend(r);
        jobs = rest;
    }
    out
}

pub fn plan_from<T: serde::de::DeserializeOwned>(v: &serde_json::Value) -> T {
    match serde_json::from_value(v.clone()) {
        Ok(p) => p,
        Err(e) => panic!("SIM-BUG plan: {e}"),
    }
}
