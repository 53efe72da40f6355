//! Consumers of documents damaged in every way the network can.
use crate::common::{self, plan_from};
use crate::jdocs;
use crate::objs::{self, Obj};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::ctx::catch;
use simkit::net::{self, Fault};
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use surfrs::swell::Swell;
use surfrs::tools::waves::track_partitions;
use surfrs::units::UnitSystem;

pub struct C02;

#[derive(Serialize, Deserialize)]
struct Use {
    kind: String,
    st: u64,
    faults: Vec<Fault>,
    /// another kind of document arrives instead
    #[serde(default)]
    wrong: String,
    /// which consumers run: 1 units, 2 swell, 4 saving, 8 tracking
    ops: u64,
    #[serde(default)]
    habit: u64,
}
#[derive(Serialize, Deserialize)]
struct Batch {
    dt: i64,
    seed: u64,
    gap: u64,
    uses: Vec<Use>,
    /// one after another on one thread, against one publication each, instead of at once
    #[serde(default)]
    serial: bool,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    batches: Vec<Batch>,
}

fn kind_of(k: &str) -> &'static str {
    objs::DOC_KINDS.iter().find(|x| **x == k).copied().unwrap_or("spec")
}

/// What a consumer got out of a document, and the stage it panicked in, if it did.
struct Seen {
    /// None: refused
    records: Option<usize>,
    text: String,
    swells: usize,
    refused_swells: usize,
    tracked: usize,
    saved: usize,
    panic: Option<(&'static str, String)>,
}

fn consume(kind: &str, world: u64, st: u64, texts: &[String], ops: u64, habit: u64, whole: bool) -> Seen {
    let mut s = Seen { records: None, text: String::new(), swells: 0, refused_swells: 0, tracked: 0, saved: 0, panic: None };
    let mut objs = match catch(|| objs::decode(kind, world, st, texts)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => {
            s.text = e;
            return s;
        }
        Err(p) => {
            s.panic = Some(("decoding", p));
            return s;
        }
    };
    s.records = Some(objs.len());
    if whole {
        s.text = objs.iter().map(|o| o.debug()).collect();
    }
    // long documents: their start, their end and some of the rest
    let n = objs.len();
    let mut picks: Vec<usize> = (0..n.min(3)).chain(n.saturating_sub(3)..n).collect();
    picks.extend((0..n).skip((habit % 7) as usize).step_by(11));
    picks.sort_unstable();
    picks.dedup();
    picks.truncate(24);
    let mut steps: Vec<(chrono::DateTime<chrono::Utc>, Vec<Swell>)> = vec![];
    for i in picks {
        let o = &mut objs[i];
        if ops & 2 != 0 {
            match catch(|| o.swell().map(|r| r.map(|x| (x.probable_false_components().len(), x.filtered_components().len(), x)))) {
                Ok(Some(Ok((_, _, x)))) => {
                    s.swells += 1;
                    let date = match o {
                        Obj::Wave(w) => Some(w.date),
                        Obj::Directional(w) => Some(w.date),
                        Obj::CBull(w) => Some(w.date),
                        Obj::Fspec(w) => Some(w.date),
                        _ => None,
                    };
                    if let Some(d) = date {
                        steps.push((d, x.components));
                    }
                }
                Ok(Some(Err(_))) => s.refused_swells += 1,
                Ok(None) => {}
                Err(p) => {
                    s.panic = Some(("swell extraction", p));
                    return s;
                }
            }
        }
        if ops & 1 != 0 {
            for sys in [UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin, UnitSystem::Metric] {
                if let Err(p) = catch(|| o.to_units(&sys)) {
                    s.panic = Some(("unit conversion", p));
                    return s;
                }
            }
        }
        if ops & 4 != 0 {
            let k = o.kind();
            match catch(|| o.save_by(habit).map(|b| Obj::load_by(k, &b, habit / 3).is_ok())) {
                Ok(_) => s.saved += 1,
                Err(p) => {
                    s.panic = Some(("saving", p));
                    return s;
                }
            }
        }
    }
    if ops & 8 != 0 && !steps.is_empty() {
        let tol = [30.0, 180.0, 10.0][(habit % 3) as usize];
        match catch(|| track_partitions(&steps, tol, 1e6).into_iter().map(|t| t.len()).sum::<usize>()) {
            Ok(n) => s.tracked = n,
            Err(p) => s.panic = Some(("swell tracking", p)),
        }
    }
    s
}

impl Property for C02 {
    fn info(&self) -> Info {
        Info {
            id: "C02",
            rule: "A run serves documents of every kind the library decodes through a network that truncates, corrupts, tears, repeats, reorders, splices and swaps them (several faults per document, documents of the wrong kind included) to concurrent consumers, who extract swell, convert units, save, reload and track whatever was decoded. Panics, aborts and hangs (12 s of processor time) are violations; afterwards the same consumers decode undamaged documents and must see what they saw before the damage. Non-trivial: a fault changed a document. State signature: kinds, fault kinds, outcome per document.",
            real: &["all surfrs decoders, units, swell, tracking, serialisation", "csv, regex, serde_json, chrono, image"],
            stub: &["publishers (truth model)", "network (fault injector)", "client scheduler", "clock"],
            assumptions: &["Bytes reach the decoders as text after lossy UTF-8 decoding, as the API takes str."],
            quick_runs: 14_000,
            thorough_runs: 500_000,
            digest_is_property: false,
            expect_probes: &["refused", "some_delivered", "swell", "swell_refused", "tracked", "saved", "after_damage", "wrong_kind"],
        }
    }
    fn gen(&self, r: &mut Rng, index: u64, thorough: bool) -> Value {
        let mut kinds: Vec<&str> = objs::DOC_KINDS.to_vec();
        r.shuffle(&mut kinds);
        kinds.truncate(1 + r.usize(4));
        let mut faults: Vec<&str> = net::KINDS.to_vec();
        faults.extend(["burst", "burst", "head_token", "head_token", "line_head_token", "line_head_token", "head_digits", "head_digits", "digits", "digits"]);
        r.shuffle(&mut faults);
        faults.truncate(1 + r.usize(faults.len()));
        if index % 2 == 1 {
            // a long spell of bad luck for one client
            let sts = 1 + r.below(3);
            let uses = (0..if thorough { 60 } else { 24 })
                .map(|_| Use {
                    kind: r.pick(&kinds).to_string(),
                    st: r.below(sts) + r.below(2) * (index % 97),
                    faults: (0..*r.pick(&[1usize, 1, 1, 1, 2, 4])).map(|_| net::gen_fault(r, &faults)).collect(),
                    wrong: String::new(),
                    ops: r.below(16),
                    habit: r.below(1000),
                })
                .collect();
            let b = Batch { dt: 0, seed: r.u64() >> 12, gap: 0, uses, serial: true };
            return serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), batches: vec![b] }).unwrap();
        }
        let batches = (0..1 + r.usize(if thorough { 4 } else { 2 }))
            .map(|_| Batch {
                serial: false,
                dt: *r.pick(&[0, 600, 3600, 86400, 31 * 86400]),
                seed: r.u64() >> 12,
                gap: common::gen_gap(r),
                uses: (0..1 + r.usize(3))
                    .map(|_| Use {
                        kind: r.pick(&kinds).to_string(),
                        st: r.below(300),
                        faults: (0..*r.pick(&[1usize, 1, 1, 2, 3, 6])).map(|_| net::gen_fault(r, &faults)).collect(),
                        wrong: if r.chance(0.04) { r.pick(objs::DOC_KINDS).to_string() } else { String::new() },
                        ops: if index % 3 == 0 { 15 } else { r.below(16) },
                        habit: r.below(1000),
                    })
                    .collect(),
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), batches }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let p: Plan = plan_from(plan);
        let mut t = p.start;
        for b in &p.batches {
            t = common::clamp_time(t + b.dt);
            simkit::seams::set_now(t, 0);
            ctx.out.sim_secs += b.dt.unsigned_abs();
            let mut got: Vec<Vec<String>> = vec![];
            let mut clean: Vec<Vec<String>> = vec![];
            for u in &b.uses {
                let kind = kind_of(&u.kind);
                let fresh = objs::publish(kind, p.world, u.st, t);
                let mut served = if u.wrong.is_empty() { fresh.clone() } else { objs::publish(kind_of(&u.wrong), p.world, u.st, t) };
                if !u.wrong.is_empty() {
                    ctx.fault("wrong_document");
                    ctx.probe("wrong_kind");
                    served.resize(fresh.len(), served[0].clone());
                }
                let n = served.len() as u64;
                let older = objs::publish(kind, p.world, u.st, common::clamp_time(t - 6 * 3600));
                let mut texts: Vec<Vec<u8>> = served.into_iter().map(|s| s.into_bytes()).collect();
                for f in &u.faults {
                    // a fault hits one of the documents a consumer needs together
                    let i = ((f.a ^ f.b) % n) as usize;
                    let (d, changed) = net::apply(std::mem::take(&mut texts[i]), f, &|| older[i.min(older.len() - 1)].clone().into_bytes());
                    texts[i] = d;
                    texts[i].truncate(2_000_000);
                    if changed {
                        ctx.fault(&f.k);
                        ctx.reach(&f.k);
                    }
                }
                got.push(texts.into_iter().map(|d| String::from_utf8_lossy(&d).into_owned()).collect());
                clean.push(fresh);
            }
            // before, during and after the damage
            let mut before: Vec<String> = vec![];
            for phase in 0..3 {
                let docs = if phase == 1 { &got } else { &clean };
                let mut asked: Vec<(&String, u64)> = vec![];
                // a serial client decodes each undamaged document once
                let who: Vec<usize> = (0..b.uses.len())
                    .filter(|i| {
                        let k = (&b.uses[*i].kind, b.uses[*i].st);
                        let new = phase == 1 || !b.serial || !asked.contains(&k);
                        asked.push(k);
                        new
                    })
                    .collect();
                let job = |i: usize| {
                    let (u, d) = (&b.uses[i], &docs[i]);
                    let ops = if phase == 1 { u.ops } else { 0 };
                    move || consume(kind_of(&u.kind), p.world, u.st, d, ops, u.habit, phase != 1)
                };
                let seen: Vec<Result<Seen, String>> = if b.serial {
                    who.iter().map(|i| Ok(job(*i)())).collect()
                } else {
                    common::together(b.seed ^ phase, b.gap, who.iter().map(|i| Box::new(job(*i)) as Box<dyn FnOnce() -> Seen + Send>).collect(), ctx)
                };
                for (i, (u, s)) in who.iter().map(|i| &b.uses[*i]).zip(seen).enumerate() {
                    let what = format!("{} document of station {} at {t} ({})", u.kind, u.st, ["before any damage", "damaged", "undamaged, after damaged ones"][phase as usize]);
                    let s = match s {
                        Ok(s) => s,
                        Err(m) => {
                            ctx.violate("panic", format!("{what}: {m}"));
                            return;
                        }
                    };
                    ctx.checked();
                    ctx.log(format!("{what}: {:?} records, {} swells, {} refused, {} tracked, {} saved, {}", s.records, s.swells, s.refused_swells, s.tracked, s.saved, s.text.len()));
                    if let Some((stage, m)) = s.panic {
                        if u.kind == "tide_stations" && stage == "decoding" && jdocs::is_station_list_refusal(&m) && phase == 1 {
                            ctx.violate("tide stations refused by panic", format!("{what}: {m}"));
                            continue;
                        }
                        ctx.violate("panic", format!("{what}: {stage}: {m}"));
                        return;
                    }
                    match phase {
                        0 => before.push(s.text),
                        1 => {
                            ctx.probe(if s.records.is_none() { "refused" } else { "some_delivered" });
                            ctx.probe_n("swell", s.swells as u64);
                            ctx.probe_n("swell_refused", s.refused_swells as u64);
                            ctx.probe_n("tracked", s.tracked as u64);
                            ctx.probe_n("saved", s.saved as u64);
                            ctx.reach(format!("{} {:?} {}", u.kind, s.records.map(|r| r.min(50)), s.swells.min(3)));
                        }
                        _ => {
                            ctx.probe("after_damage");
                            if s.records.is_none() {
                                ctx.violate("refused after", format!("{what}: {}", s.text));
                            } else if s.text != before[i] {
                                ctx.violate("changed after", format!("{what}: decoded differently than before the damage"));
                            }
                        }
                    }
                }
            }
        }
    }
}
