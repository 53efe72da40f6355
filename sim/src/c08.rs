//! Clients that keep what they decoded on simulated storage, crash, and carry on.
use crate::common::{self, plan_from};
use crate::objs::{self, same_text, Obj};
use chrono::{DateTime, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::{fnv, key, Rng};
use simkit::{Ctx, Info, Property};
use std::collections::BTreeMap;
use surfrs::swell::Swell;
use surfrs::tools::waves::track_partitions;
use surfrs::units::UnitSystem;

pub struct C08;

#[derive(Serialize, Deserialize)]
struct Act {
    /// "fetch" (decode and save), "sync" (make what was saved durable), "crash", "restart" (orderly)
    op: String,
    #[serde(default)]
    kind: String,
    #[serde(default)]
    st: u64,
    #[serde(default)]
    dt: i64,
    /// how the client writes and reads
    #[serde(default)]
    habit: u64,
    /// what a crash leaves of each file not synced
    #[serde(default)]
    tear: u64,
    /// the client edits what it decoded through its public fields before saving (0: not)
    #[serde(default)]
    edit: u64,
}
#[derive(Serialize, Deserialize)]
struct Client {
    /// writes a temporary file and renames it
    rename: bool,
    acts: Vec<Act>,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    world: u64,
    start: i64,
    seed: u64,
    gap: u64,
    clients: Vec<Client>,
}

/// One version of a file: what it says and the bytes.
#[derive(Clone)]
struct Version {
    bytes: Vec<u8>,
    /// the value in memory when it was saved
    said: std::sync::Arc<Obj>,
}
#[derive(Default, Clone)]
struct File {
    durable: Option<Version>,
    pending: Vec<Version>,
    /// bytes a torn write left
    torn: Option<Vec<u8>>,
}

#[derive(Default)]
struct Report {
    log: Vec<String>,
    bad: Vec<(String, String)>,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<String, u64>,
    loads: u64,
}

fn bits_equal(a: &str, b: &str) -> bool {
    a == b
}

/// Work resumed on a reloaded value against the same work on the original.
fn resume(orig: &Obj, back: &Obj, habit: u64, rep: &mut Report) {
    let exact = bits_equal(&orig.debug(), &back.debug());
    *rep.probes.entry(if exact { "reloaded_exact".into() } else { "reloaded_rounded".into() }).or_default() += 1;
    let kind = orig.kind();
    let bad = std::cell::RefCell::new(vec![]);
    let cmp = |what: &str, a: String, b: String| {
        let r = if exact { if a == b { Ok(()) } else { Err(same_text(&a, &b).err().unwrap_or("differs in the last digits".into())) } } else { same_text(&a, &b) };
        if let Err(e) = r {
            bad.borrow_mut().push(("resumed".to_string(), format!("{what} of a reloaded {kind}: {e}")));
        }
    };
    // conversions are continuous: round-off stays round-off
    let (mut a, mut b) = (clone(orig, habit), clone(back, habit));
    if let (Some(a), Some(b)) = (&mut a, &mut b) {
        let s = [UnitSystem::English, UnitSystem::Metric, UnitSystem::Knots, UnitSystem::Kelvin][(habit % 4) as usize].clone();
        if a.to_units(&s) {
            b.to_units(&s);
            if exact {
                cmp("unit conversion", a.debug(), b.debug());
            }
        }
    }
    if exact {
        if let (Some(a), Some(b)) = (orig.swell(), back.swell()) {
            cmp("swell", format!("{a:?}"), format!("{b:?}"));
        }
        if let (Some(a), Some(b)) = (orig.spectra(), back.spectra()) {
            if a.nk() * a.nth() == a.energy.len() && a.nk() > 1 && a.nk() * a.nth() <= 400 {
                let p = |s: &surfrs::spectra::Spectra| s.project_cartesian(&s.energy, 8, Some(20.0), None);
                cmp("projection", format!("{:?}", p(a)), format!("{:?}", p(b)));
                cmp("one-dimensional spectrum", format!("{:?}", a.oned(surfrs::spectra::SpectralAxis::Frequency)), format!("{:?}", b.oned(surfrs::spectra::SpectralAxis::Frequency)));
            }
        }
    } else if let (Some(Ok(a)), Some(Ok(b))) = (orig.swell(), back.swell()) {
        let (x, y) = (a.summary.wave_height.get_value(), b.summary.wave_height.get_value());
        if (x - y).abs() > 1e-6 * x.abs() {
            bad.borrow_mut().push(("resumed".to_string(), format!("total height of a reloaded {kind}: {x} became {y}")));
        }
    }
    if let (Obj::Steps(a), Obj::Steps(b)) = (orig, back) {
        if exact {
            cmp("tracking", format!("{:?}", track_partitions(a, 30.0, 1e6)), format!("{:?}", track_partitions(b, 30.0, 1e6)));
        }
    }
    rep.bad.extend(bad.into_inner());
}

/// A copy by another save and load, only used where the bits survived.
fn clone(o: &Obj, habit: u64) -> Option<Obj> {
    let c = Obj::load_by(o.kind(), &o.save_by(habit).ok()?, 1).ok()?;
    Some(c)
}

fn life(plan: &Plan, c: &Client) -> Report {
    let mut rep = Report::default();
    let mut disk: BTreeMap<String, File> = BTreeMap::new();
    let mut t = plan.start;
    let mut steps: BTreeMap<u64, Vec<(DateTime<Utc>, Vec<Swell>)>> = BTreeMap::new();
    for (n, a) in c.acts.iter().enumerate() {
        t = common::clamp_time(t + a.dt);
        match a.op.as_str() {
            "fetch" => {
                let kind = objs::DOC_KINDS.iter().find(|k| **k == a.kind).copied().unwrap_or("spec");
                let Ok(all) = objs::decode(kind, plan.world, a.st, &objs::publish(kind, plan.world, a.st, t)) else {
                    rep.log.push(format!("{kind} of station {} refused", a.st));
                    continue;
                };
                // some of what was decoded, and what it offers
                let mut pick: Vec<Obj> = vec![];
                let m = all.len();
                for (i, o) in all.into_iter().enumerate() {
                    if i + 1 != m && i as u64 % 7 != a.habit % 7 {
                        continue;
                    }
                    if pick.len() < 4 {
                        if let Some(Ok(s)) = o.swell() {
                            let date = match &o {
                                Obj::CBull(x) => Some(x.date),
                                Obj::Fspec(x) => Some(x.date),
                                Obj::Directional(x) => Some(x.date),
                                Obj::Wave(x) => Some(x.date),
                                _ => None,
                            };
                            if let Some(d) = date {
                                let h = steps.entry(a.st).or_default();
                                if h.len() < 12 {
                                    h.push((d, s.filtered_components()));
                                }
                            }
                            if let Some(c) = s.components.first() {
                                pick.push(Obj::Swell(c.clone()));
                            }
                            pick.push(Obj::Dim(s.summary.wave_height.clone()));
                            pick.push(Obj::Dir(s.summary.direction.clone()));
                            pick.push(Obj::Summary(s));
                        }
                        match &o {
                            Obj::Fspec(f) => {
                                pick.push(Obj::Spectra(f.spectra.clone()));
                                pick.push(Obj::Loc(f.location.clone()));
                            }
                            Obj::CBullMeta(m) => pick.push(Obj::Loc(m.location.clone())),
                            _ => {}
                        }
                    }
                    pick.push(o);
                }
                if let Some(h) = steps.get(&a.st) {
                    pick.push(Obj::Steps(h.clone()));
                }
                if a.edit > 0 {
                    // an edited value beside the decoded one
                    let mut r = Rng::keyed(&[a.edit, n as u64]);
                    let m = pick.len();
                    for i in 0..m {
                        if i > 0 && i + 1 < m && r.chance(0.5) {
                            continue;
                        }
                        let Some(mut o) = clone(&pick[i], 0) else { continue };
                        for _ in 0..1 + r.usize(3) {
                            o.touch(&mut r);
                        }
                        *rep.probes.entry("edited".into()).or_default() += 1;
                        pick.push(o);
                    }
                }
                for (i, o) in pick.into_iter().enumerate() {
                    let name = format!("{}-{}-{i}", o.kind(), a.st);
                    match o.save_by(a.habit) {
                        Ok(bytes) => {
                            let f = disk.entry(name).or_default();
                            f.torn = None;
                            f.pending.push(Version { bytes, said: std::sync::Arc::new(o) });
                        }
                        Err(e) => rep.bad.push(("not saved".into(), format!("{name}: {e}"))),
                    }
                }
            }
            "sync" => disk.values_mut().for_each(|f| {
                if let Some(v) = f.pending.pop() {
                    f.durable = Some(v);
                    f.pending.clear();
                }
            }),
            op => {
                if op == "crash" {
                    *rep.faults.entry("crash").or_default() += 1;
                    for (name, f) in disk.iter_mut() {
                        if f.pending.is_empty() {
                            continue;
                        }
                        let mut r = Rng::keyed(&[a.tear, fnv(name.as_bytes()), n as u64]);
                        let newest = f.pending.last().cloned().unwrap();
                        let choice = r.below(if c.rename { 3 } else { 8 });
                        match choice {
                            0 => {
                                *rep.faults.entry("lost_write").or_default() += 1;
                            }
                            1 | 2 => {
                                if f.pending.len() > 1 && choice == 2 {
                                    *rep.faults.entry("stale_version").or_default() += 1;
                                    f.durable = Some(f.pending[r.usize(f.pending.len())].clone());
                                } else {
                                    f.durable = Some(newest);
                                }
                            }
                            k => {
                                *rep.faults.entry(if k == 7 { "torn_write_zero_tail" } else { "torn_write" }).or_default() += 1;
                                let n = newest.bytes.len();
                                let cut = match k {
                                    3 => n - 1,
                                    4 => n.saturating_sub(1 + r.usize(30)),
                                    5 => (r.usize(n / 512 + 1)) * 512 % n,
                                    _ => r.usize(n),
                                };
                                let mut b = newest.bytes[..cut].to_vec();
                                if k == 7 {
                                    b.resize(n, 0);
                                }
                                f.torn = Some(b);
                                f.durable = None;
                            }
                        }
                        f.pending.clear();
                    }
                    disk.retain(|_, f| f.durable.is_some() || f.torn.is_some());
                    steps.clear();
                } else {
                    *rep.faults.entry("restart").or_default() += 1;
                    disk.values_mut().for_each(|f| {
                        if let Some(v) = f.pending.pop() {
                            f.durable = Some(v);
                            f.pending.clear();
                        }
                    });
                }
                // the client comes back and reads its files
                let mut gone = vec![];
                for (name, f) in disk.iter() {
                    let kind = objs::OBJ_KINDS.iter().find(|k| name.starts_with(&format!("{k}-"))).unwrap();
                    rep.loads += 1;
                    if let Some(b) = &f.torn {
                        match Obj::load_by(kind, b, a.habit) {
                            Err(e) => rep.log.push(format!("{name}: {} bytes left: refused: {}", b.len(), e.chars().take(60).collect::<String>())),
                            Ok(o) => rep.bad.push(("torn accepted".into(), format!("{name}: {} bytes left of a torn save load as {}", b.len(), o.debug().chars().take(200).collect::<String>()))),
                        }
                        gone.push(name.clone());
                        continue;
                    }
                    let v = f.durable.as_ref().unwrap();
                    *rep.probes.entry(format!("reload_{kind}")).or_default() += 1;
                    let back = match Obj::load_by(kind, &v.bytes, a.habit) {
                        Ok(o) => o,
                        Err(e) => {
                            rep.bad.push(("not loaded".into(), format!("{name}: a complete save of {} bytes is refused: {e}", v.bytes.len())));
                            continue;
                        }
                    };
                    if let Err(e) = same_text(&v.said.debug(), &back.debug()) {
                        rep.bad.push(("changed".into(), format!("{name}: {e}")));
                        continue;
                    }
                    rep.log.push(format!("{name}: reloaded {:016x}", fnv(back.debug().as_bytes())));
                    // saving and loading again changes nothing more
                    let again = back.save_by(0).and_then(|b| Ok((Obj::load_by(kind, &b, a.habit / 4)?, b)));
                    match again {
                        Err(e) => rep.bad.push(("not saved again".into(), format!("{name}: {e}"))),
                        Ok((o, _)) => {
                            if let Err(e) = same_text(&back.debug(), &o.debug()) {
                                rep.bad.push(("changed again".into(), format!("{name}: {e}")));
                            }
                        }
                    }
                    resume(&v.said, &back, a.habit, &mut rep);
                    if let Obj::Steps(h) = back {
                        if let Ok(st) = name.rsplit('-').nth(1).unwrap_or("0").parse() {
                            if op == "crash" {
                                steps.insert(st, h);
                            }
                        }
                    }
                }
                for g in gone {
                    disk.remove(&g);
                }
            }
        }
    }
    rep
}

impl Property for C08 {
    fn info(&self) -> Info {
        Info {
            id: "C08",
            rule: "A run is up to three clients that decode fetched documents (every kind), save records, collections, spectra, swell and tracking histories in their own habit (compact, pretty, through a value tree; in place or by rename; loading from text, bytes, a reader or a value tree), and crash at arbitrary points: saves not synced are lost, kept, torn short or torn with a zero tail. After each restart every file is loaded, compared with the value saved, saved again, and worked on. Non-trivial: a crash or restart. State signature: kinds reloaded, fault kinds.",
            real: &["serde implementations of all public record types", "serde_json", "decoders", "swell extraction, tracking, conversion, projection on reloaded values"],
            stub: &["publishers", "storage (durable and pending bytes per file)", "client scheduler", "clock"],
            assumptions: &["Numbers may change by round-off when text is parsed (serde_json without float_roundtrip); where they did, work with thresholds in it is held to its total height only."],
            quick_runs: 22_000,
            thorough_runs: 100_000,
            digest_is_property: false,
            expect_probes: &[
                "reload_value", "reload_direction", "reload_swell", "reload_summary", "reload_wave", "reload_spectral", "reload_directional", "reload_idx", "reload_cbull", "reload_cbull_meta", "reload_fspec", "reload_fspec_meta",
                "reload_spectra", "reload_tides", "reload_tide_station", "reload_tide_stations", "reload_gridpoint", "reload_weather", "reload_weather_rec", "reload_location", "reload_steps", "reloaded_exact", "reloaded_rounded", "edited",
            ],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let mut ks: Vec<&str> = objs::DOC_KINDS.to_vec();
        r.shuffle(&mut ks);
        ks.truncate(1 + r.usize(4));
        let clients = (0..1 + r.usize(3))
            .map(|_| {
                let n = 2 + r.usize(if thorough { 14 } else { 7 });
                let mut acts: Vec<Act> = (0..n)
                    .map(|_| {
                        let op = *r.pick(&["fetch", "fetch", "fetch", "sync", "crash", "crash", "restart"]);
                        Act { op: op.into(), kind: r.pick(&ks).to_string(), st: r.below(3), dt: *r.pick(&[0, 3600, 21600, 86400, 40 * 86400]), habit: r.below(1000), tear: r.u64() >> 12, edit: if r.chance(0.6) { 1 + (r.u64() >> 12) } else { 0 } }
                    })
                    .collect();
                acts[0].op = "fetch".into();
                let last = acts.len() - 1;
                acts[last].op = if r.chance(0.5) { "crash" } else { "restart" }.into();
                Client { rename: r.chance(0.3), acts }
            })
            .collect();
        serde_json::to_value(Plan { world: r.u64() >> 24, start: common::gen_start(r), seed: r.u64() >> 12, gap: *r.pick(&[0, 30, 200, 2000]), clients }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        simkit::seams::set_now(plan.start, 0);
        let p = &plan;
        let jobs: Vec<Box<dyn FnOnce() -> Report + Send>> = plan.clients.iter().map(|c| Box::new(move || life(p, c)) as Box<dyn FnOnce() -> _ + Send>).collect();
        ctx.out.sim_secs += plan.clients.iter().flat_map(|c| c.acts.iter()).map(|a| a.dt.unsigned_abs()).sum::<u64>();
        let got = common::together(plan.seed, plan.gap, jobs, ctx);
        for (i, g) in got.into_iter().enumerate() {
            match g {
                Err(e) => ctx.violate("panic", format!("client {i}: {e}")),
                Ok(rep) => {
                    rep.log.iter().for_each(|l| ctx.log(format!("client {i}: {l}")));
                    for (k, n) in &rep.faults {
                        for _ in 0..*n {
                            ctx.fault(k);
                        }
                    }
                    for (k, n) in &rep.probes {
                        ctx.probe_n(k, *n);
                    }
                    for _ in 0..rep.loads {
                        ctx.checked();
                    }
                    ctx.reach(format!("{:?} {:?} {:x}", rep.faults, rep.probes, key(&[rep.log.len() as u64])));
                    for (sig, m) in rep.bad {
                        ctx.violate(&sig, format!("client {i}: {m}"));
                    }
                }
            }
        }
    }
}
