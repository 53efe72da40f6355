//! Clients under way that pick stations by distance and by the window of their map.
use crate::common::{self, plan_from};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simkit::rng::Rng;
use simkit::{Ctx, Info, Property};
use surfrs::location::{absolute_longitude, normalize_latitude, normalize_longitude, Location};
use surfrs::station::Station;
use surfrs::tide_station::TideStations;
use surfrs::units::UnitSystem;

pub struct C16;

#[derive(Serialize, Deserialize)]
struct Look {
    c: u64,
    dt: i64,
    /// how far the client has moved, in hundredths of degrees
    go: (i64, i64),
    /// the map around it: half of its height and width
    map: (i64, i64),
    /// longitudes of the client, of its map and of the list from 0 to 360 instead of on both sides of Greenwich
    east: (bool, bool, bool),
    english: bool,
    /// the list it fetches before: (what happens, where)
    fetch: Option<(String, u64)>,
    /// restarts from its saved position; thousandths of it that were written
    saved: u64,
}
#[derive(Serialize, Deserialize)]
struct Plan {
    start: i64,
    clients: Vec<(i64, i64)>,
    stations: Vec<(i64, i64)>,
    seed: u64,
    gap: u64,
    looks: Vec<Look>,
}

/// Hundredths of degrees of longitude, in half a turn to either side.
fn wrap(lon: i64) -> i64 {
    (lon + 18000).rem_euclid(36000) - 18000
}
fn stated(lon: i64, east: bool) -> f64 {
    let l = wrap(lon);
    (if east { l.rem_euclid(36000) } else { l }) as f64 / 100.0
}

/// The angle between two places as seen from the middle of the earth, in radians.
fn apart(a: (i64, i64), b: (i64, i64)) -> f64 {
    let v = |(lat, lon): (i64, i64)| {
        let (p, l) = ((lat as f64 / 100.0).to_radians(), (lon as f64 / 100.0).to_radians());
        [p.cos() * l.cos(), p.cos() * l.sin(), p.sin()]
    };
    let (x, y) = (v(a), v(b));
    let dot: f64 = (0..3).map(|i| x[i] * y[i]).sum();
    let cross = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    cross.iter().map(|c| c * c).sum::<f64>().sqrt().atan2(dot)
}

type Place = (i64, i64);

struct Out {
    /// the list as far as the client could read it
    list: Option<Result<Vec<(String, f64, f64)>, String>>,
    /// of each station known: there, back, to the station after it, inside the map
    of: Vec<(f64, f64, f64, bool)>,
    own: f64,
    norms: Vec<String>,
    back: Option<Result<Location, String>>,
}

impl Property for C16 {
    fn info(&self) -> Info {
        Info {
            id: "C16",
            rule: "A run is a voyage of up to three clients anywhere on earth, over the date line, Greenwich and near the poles, that fetch station lists from a server over a network losing, repeating, reordering and cutting entries, keep the last list they could read, restart from saved positions (torn now and then), and pick stations by distance and by the window of their map; client, map and list may state longitudes either way. Every distance is held against the angle between the places computed from vectors, every choice against the window. Non-trivial: a fault, or a window across a seam. State signature: bands of latitude and longitude, width of the window, conventions.",
            real: &["surfrs::location, TideStations, Station", "serde_json"],
            stub: &["station server", "network", "storage", "client scheduler", "clock"],
            assumptions: &["Distances may be off by 0.3 per cent or 10 m (which radius of the earth).", "A station exactly on the western or eastern edge of a window is in where all longitudes are whole quarters of a degree, else it may be in or out.", "Windows are at most 359 degrees wide, or the whole circle."],
            quick_runs: 110_000,
            thorough_runs: 400_000,
            digest_is_property: false,
            expect_probes: &["lost", "repeated", "reordered", "cut", "crash", "torn_save", "seam_window", "whole_circle", "inside", "outside", "antipodes", "stale_list", "on_the_edge"],
        }
    }
    fn gen(&self, r: &mut Rng, _index: u64, thorough: bool) -> Value {
        let seam = *r.pick(&[0i64, 0, 18000, 9000]);
        let close = r.chance(0.6);
        let place = |r: &mut Rng| -> Place {
            let lat = match r.usize(8) {
                0 => *r.pick(&[-9000, 9000, 0]),
                1 => *r.pick(&[-1, 1]) * r.range(8000, 9000),
                _ => r.range(-7000, 7000),
            };
            let lon = if close { seam + r.range(-1500, 1500) } else { r.range(-18000, 18000) };
            (lat, if r.chance(0.1) { seam } else { wrap(lon) })
        };
        let n = 1 + r.usize(3);
        // whole quarters of a degree have no rounding to hide behind
        let quarters = r.chance(0.5);
        let whole = |p: Place| if quarters { (p.0.div_euclid(25) * 25, wrap(p.1.div_euclid(25) * 25)) } else { p };
        let clients: Vec<Place> = (0..n).map(|_| whole(place(r))).collect();
        let mut stations: Vec<Place> = (0..1 + r.usize(8)).map(|_| place(r)).collect();
        // some next to a client, some on the other side of the earth
        for i in 0..stations.len() {
            let c = *r.pick(&clients);
            match r.usize(8) {
                3 => {
                    // on the edges of a map
                    let at = *r.pick(&[50, 200, 1000, 4500, 6000, 9000]);
                    stations[i] = ((c.0 + *r.pick(&[-1, 0, 1]) * *r.pick(&[50, 200, 1000])).clamp(-9000, 9000), wrap(c.1 + *r.pick(&[-1, 1]) * at));
                }
                0 => stations[i] = (c.0, c.1),
                1 => stations[i] = ((c.0 + r.range(-50, 50)).clamp(-9000, 9000), wrap(c.1 + r.range(-50, 50))),
                2 => stations[i] = (-c.0, wrap(c.1 + 18000)),
                _ => {}
            }
        }
        let looks = (0..r.range(2, if thorough { 30 } else { 12 }))
            .map(|_| Look {
                c: r.below(n as u64),
                dt: *r.pick(&[60, 3600, 86400]),
                go: *r.pick(&[(0, 0), (10, 30), (-100, 200), (500, -900), (0, 18000), (-3000, 100), (0, 0), (25, -25)]),
                map: (*r.pick(&[1, 50, 200, 1000, 4500, 9000, 18000]), *r.pick(&[1, 50, 200, 1000, 6000, 9000, 13500, 17950, 18000])),
                east: (r.chance(0.4), r.chance(0.4), r.chance(0.4)),
                english: r.chance(0.4),
                fetch: if r.chance(0.5) { Some((r.pick(&["whole", "lost", "repeated", "reordered", "cut"]).to_string(), r.u64() >> 12)) } else { None },
                saved: *r.pick(&[0, 0, 0, 1000, 990, 500]),
            })
            .collect();
        serde_json::to_value(Plan { start: common::gen_start(r), clients, stations, seed: r.u64() >> 12, gap: common::gen_gap(r), looks }).unwrap()
    }
    fn run(&self, plan: &Value, ctx: &mut Ctx) {
        let plan: Plan = plan_from(plan);
        if plan.clients.is_empty() || plan.stations.is_empty() {
            return;
        }
        let fit = |p: Place| (p.0.clamp(-9000, 9000), wrap(p.1.clamp(-1_000_000, 1_000_000)));
        let stations: Vec<Place> = plan.stations.iter().map(|p| fit(*p)).collect();
        let mut at: Vec<Place> = plan.clients.iter().map(|p| fit(*p)).collect();
        // what each client knows: index of the station, how the list stated it
        let first: Vec<(usize, bool)> = (0..stations.len()).map(|i| (i, false)).collect();
        let mut known: Vec<Vec<(usize, bool)>> = vec![first; at.len()];
        let mut now = plan.start;
        for (round, chunk) in plan.looks.chunks(3).enumerate() {
            let mut jobs: Vec<Box<dyn FnOnce() -> Out + Send>> = vec![];
            let mut meta = vec![];
            let mut busy = std::collections::BTreeSet::new();
            for l in chunk {
                now = common::clamp_time(now + l.dt.clamp(0, 1_000_000));
                ctx.out.sim_secs += l.dt.clamp(0, 1_000_000) as u64;
                let c = (l.c % at.len() as u64) as usize;
                if !busy.insert(c) {
                    continue;
                }
                at[c] = fit((at[c].0 + l.go.0.clamp(-20000, 20000), at[c].1 + l.go.1.clamp(-40000, 40000)));
                let me = at[c];
                // the list on its way
                let mut order: Vec<usize> = (0..stations.len()).collect();
                let mut cut = 1000;
                if let Some((k, w)) = &l.fetch {
                    let i = *w as usize % order.len();
                    match k.as_str() {
                        "lost" => {
                            ctx.fault("lost");
                            order.remove(i);
                        }
                        "repeated" => {
                            ctx.fault("repeated");
                            order.insert((w / 64) as usize % order.len(), i);
                        }
                        "reordered" => {
                            ctx.fault("reordered");
                            Rng::keyed(&[*w]).shuffle(&mut order);
                        }
                        "cut" => {
                            ctx.fault("cut");
                            cut = (w / 64) as usize % 1000;
                        }
                        _ => {}
                    }
                }
                let text = l.fetch.as_ref().map(|_| {
                    let rows: Vec<String> = order
                        .iter()
                        .map(|i| format!(r#"{{"id":"{i}","name":"station {i}","lat":{},"lng":{},"state":"S{}","reference_id":"{}","type":"R"}}"#, stations[*i].0 as f64 / 100.0, stated(stations[*i].1, l.east.2), i % 3, if i % 2 == 0 { String::new() } else { format!("{}", i * 7) }))
                        .collect();
                    let t = format!(r#"{{"count":{},"units":null,"stations":[{}]}}"#, rows.len(), rows.join(","));
                    t[..t.len() * cut / 1000].to_string()
                });
                if l.fetch.is_some() && cut == 1000 {
                    known[c] = order.iter().map(|i| (*i, l.east.2)).collect();
                } else if l.fetch.is_some() {
                    ctx.probe("stale_list");
                }
                let (half_lat, half_lon) = (l.map.0.clamp(0, 18000), l.map.1.clamp(0, 18000));
                let (south, north) = ((me.0 - half_lat).max(-9000), (me.0 + half_lat).min(9000));
                let whole = half_lon > 17950;
                let (west, east) = (wrap(me.1 - half_lon), wrap(me.1 + half_lon));
                let bbox = if whole {
                    let w = if l.east.1 { 0.0 } else { -180.0 };
                    (w, south as f64 / 100.0, w + 360.0, north as f64 / 100.0)
                } else {
                    (stated(west, l.east.1), south as f64 / 100.0, stated(east, l.east.1), north as f64 / 100.0)
                };
                let saved = l.saved.min(1000) as usize;
                if saved > 0 {
                    ctx.fault("crash");
                    if saved < 1000 {
                        ctx.fault("torn_save");
                    }
                }
                let places: Vec<(f64, f64)> = known[c].iter().map(|(i, e)| (stations[*i].0 as f64 / 100.0, stated(stations[*i].1, *e))).collect();
                let units = if l.english { UnitSystem::English } else { UnitSystem::Metric };
                let own = Location::new(me.0 as f64 / 100.0, stated(me.1, l.east.0), format!("client {c}"));
                meta.push((c, me, known[c].clone(), bbox, (west, south, east, north, whole), own.clone(), l, cut));
                jobs.push(Box::new(move || {
                    let mut odd: Vec<String> = vec![];
                    let list = text.map(|t| {
                        serde_json::from_str::<TideStations>(&t)
                            .map(|v: TideStations| {
                                for s in &v.stations {
                                    let f = serde_json::to_value(s.as_feature()).unwrap_or_default();
                                    let p = &f["geometry"]["coordinates"];
                                    if p[0].as_f64() != Some(s.location().longitude) || p[1].as_f64() != Some(s.location().latitude) || f["properties"]["id"] != s.id() || f["properties"]["name"] != s.name().as_str() {
                                        odd.push(format!("{} at {} {} on the map: {f}", s.id(), s.location().latitude, s.location().longitude));
                                    }
                                    let i: usize = s.id().parse().unwrap_or_default();
                                    let refers = if i % 2 == 0 { String::new() } else { format!("{}", i * 7) };
                                    if s.state != format!("S{}", i % 3) || s.reference_id != refers {
                                        odd.push(format!("{} in {}, of {}", s.id(), s.state, s.reference_id));
                                    }
                                }
                                // the list is kept for the next start
                                if saved > 0 {
                                    let t = serde_json::to_string(&v).unwrap();
                                    let n = if saved == 1000 { t.len() } else { (t.len() * saved / 1000).min(t.len() - 1) };
                                    match serde_json::from_str::<TideStations>(&t[..n]) {
                                        Ok(b) if saved == 1000 && format!("{b:?}") == format!("{v:?}") => {}
                                        Err(_) if saved < 1000 => {}
                                        b => odd.push(format!("list {v:?}, of which {n} of {} bytes were saved, came back as {b:?}", t.len())),
                                    }
                                }
                                v
                            })
                            .map(|v: TideStations| v.stations.iter().map(|s| (s.id().to_string(), s.location().latitude, s.location().longitude)).collect())
                            .map_err(|e| e.to_string())
                    });
                    let of = (0..places.len())
                        .map(|i| {
                            let place = |i: usize| Location::new(places[i].0, places[i].1, String::new());
                            let (a, b) = (place(i), place((i + 1) % places.len()));
                            (own.distance(&a, &units), a.distance(&own, &units), a.distance(&b, &units), a.within_bbox(&bbox))
                        })
                        .collect();
                    let mut norms = odd;
                    let mut same = |what: &str, got: f64, want: f64| {
                        if !((got - want).abs() < 1e-9) {
                            norms.push(format!("{what} of {} {} is {got} instead of {want}", own.latitude, own.longitude));
                        }
                    };
                    let (lo, hi) = (stated(me.1, false), stated(me.1, true));
                    let lat = me.0 as f64 / 100.0;
                    // the date line may be stated on either side
                    if me.1 != -18000 {
                        same("relative longitude", own.relative_longitude(), lo);
                        same("normalised longitude", normalize_longitude(own.longitude), lo);
                    }
                    same("absolute longitude", own.absolute_longitude(), hi);
                    same("absolute longitude", absolute_longitude(own.longitude), hi);
                    same("relative latitude", own.relative_latitude(), lat);
                    same("normalised latitude", normalize_latitude(own.latitude), lat);
                    // an absolute latitude counts the south from 90 on, where it cannot tell the poles apart
                    if me.0 != -9000 {
                        same("absolute latitude, back again,", normalize_latitude(own.absolute_latitude()), lat);
                    }
                    same("absolute latitude", own.absolute_latitude(), if lat < 0.0 { lat + 180.0 } else { lat });
                    let back = (saved > 0).then(|| {
                        let t = serde_json::to_string(&own).unwrap();
                        let n = if saved == 1000 { t.len() } else { (t.len() * saved / 1000).min(t.len() - 1) };
                        serde_json::from_str::<Location>(&t[..n]).map_err(|e| e.to_string())
                    });
                    Out { list, of, own: own.distance(&own.clone(), &units), norms, back }
                }));
            }
            simkit::seams::set_now(now, 0);
            let got = common::together(plan.seed.wrapping_add(round as u64), plan.gap, jobs, ctx);
            for ((c, me, known, bbox, window, own, l, cut), g) in meta.into_iter().zip(got) {
                let what = format!("client {c} at {} {}", own.latitude, own.longitude);
                let o = match g {
                    Ok(o) => o,
                    Err(e) => {
                        ctx.violate("panic", format!("{what}: {e}"));
                        continue;
                    }
                };
                ctx.checked();
                ctx.log(format!("{what}: {:?}", o.of));
                ctx.reach(format!("{} {} {} {:?}", me.0.div_euclid(2000), me.1.div_euclid(4500), l.map.1, l.east));
                match &o.list {
                    Some(Ok(v)) if cut < 1000 => ctx.violate("torn list", format!("{what}: a list cut short was read as {v:?}")),
                    Some(Ok(v)) => {
                        let want: Vec<_> = known.iter().map(|(i, e)| (i.to_string(), stations[*i].0 as f64 / 100.0, stated(stations[*i].1, *e))).collect();
                        if *v != want {
                            ctx.violate("list", format!("{what}: {v:?} instead of {want:?}"));
                        }
                    }
                    Some(Err(e)) if cut == 1000 => ctx.violate("list", format!("{what}: refused: {e}")),
                    _ => {}
                }
                match &o.back {
                    Some(Ok(b)) if l.saved < 1000 => ctx.violate("torn save", format!("{what}: a torn save was read as {b:?}")),
                    Some(Ok(b)) if *b == own => {}
                    Some(Err(_)) if l.saved < 1000 => {}
                    Some(b) => ctx.violate("saved", format!("{what}: came back as {b:?}")),
                    None => {}
                }
                if let Some(n) = o.norms.first() {
                    ctx.violate("coordinates", format!("{what}: {n}"));
                }
                let radius = if l.english { 3958.8 } else { 6371.0 };
                if !(o.own.abs() < 0.01) {
                    ctx.violate("distance", format!("{what}: {} from itself", o.own));
                }
                for (n, (there, back, next, inside)) in o.of.iter().enumerate() {
                    let s = stations[known[n].0];
                    let t = stations[known[(n + 1) % known.len()].0];
                    let place = format!("station at {} {}", s.0 as f64 / 100.0, stated(s.1, known[n].1));
                    for (from, to, d) in [(me, s, there), (s, me, back), (s, t, next)] {
                        let want = apart(from, to) * radius;
                        if want > radius * 3.14 {
                            ctx.probe("antipodes");
                        }
                        if !((d - want).abs() <= 0.003 * want + 0.01) {
                            ctx.violate("distance", format!("{what}, {place}: {d} between {from:?} and {to:?} instead of {want}"));
                            break;
                        }
                    }
                    if (there - back).abs() > 1e-6 * radius {
                        ctx.violate("distance", format!("{what}, {place}: {there} there and {back} back"));
                    }
                    let (west, south, east, north, whole) = window;
                    let lat_in = (south..=north).contains(&s.0);
                    let (off, width) = ((s.1 - west).rem_euclid(36000), (east - west).rem_euclid(36000));
                    let edge = !whole && (off == 0 || off == width);
                    let exact = [s.1, west, east].iter().all(|v| v % 25 == 0);
                    if edge && lat_in && !exact {
                        continue;
                    }
                    if edge && lat_in {
                        ctx.probe("on_the_edge");
                    }
                    let want = lat_in && (whole || off <= width);
                    ctx.probe(if want { "inside" } else { "outside" });
                    if whole {
                        ctx.probe("whole_circle");
                    }
                    if bbox.0 > bbox.2 || bbox.0 < 0.0 && bbox.2 > 0.0 {
                        ctx.probe("seam_window");
                        ctx.out.nontrivial = true;
                    }
                    if *inside != want {
                        ctx.violate("window", format!("{what}: the {place} is {} the window {bbox:?}", if want { "not found inside" } else { "found inside" }));
                    }
                }
            }
        }
    }
}
