//! Canonical form of a delivered record, comparable with the published truth.
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::units::{CardinalDirection, Direction, Unit};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// absent
    N,
    /// value with an allowed absolute difference
    F(f64, f64),
    /// direction in degrees with an allowed difference around the circle
    A(f64, f64),
    I(i64),
    S(String),
    L(Vec<f64>, f64),
    /// not compared
    Any,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rec {
    pub f: Vec<(String, V)>,
}

pub fn circ(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}

/// A direction whose compass point is the closest one to its degrees, else what it says.
pub fn point(d: &Direction) -> V {
    use CardinalDirection::*;
    let all = [North, NorthNorthEast, NorthEast, EastNorthEast, East, EastSouthEast, SouthEast, SouthSouthEast, South, SouthSouthWest, SouthWest, WestSouthWest, West, WestNorthWest, NorthWest, NorthNorthWest];
    if (0..=360).contains(&d.degrees) && *d.cardinal_direction() != all[(d.degrees as f64 / 22.5).round() as usize % 16] {
        return V::S(format!("{} degrees called {:?}", d.degrees, d.cardinal_direction()));
    }
    V::A(d.degrees as f64, 0.0)
}

impl Rec {
    pub fn new() -> Self {
        Rec::default()
    }
    pub fn put(&mut self, k: impl Into<String>, v: V) -> &mut Self {
        self.f.push((k.into(), v));
        self
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        self.f.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    /// A published quantity: present with tolerance or absent.
    pub fn opt(&mut self, k: &str, v: Option<f64>, tol: f64) -> &mut Self {
        self.put(k, v.map(|x| V::F(x, tol)).unwrap_or(V::N))
    }
    pub fn dim(&mut self, k: &str, d: &DimensionalData<f64>) -> &mut Self {
        self.put(k, d.value.map(|x| V::F(x, 0.0)).unwrap_or(V::N));
        self.put(format!("{k}.unit"), V::S(unit_name(&d.unit)))
    }
    pub fn dir(&mut self, k: &str, d: &DimensionalData<Direction>) -> &mut Self {
        self.put(k, d.value.as_ref().map(point).unwrap_or(V::N))
    }
    pub fn swell(&mut self, k: &str, s: &Swell) -> &mut Self {
        self.dim(&format!("{k}.hs"), &s.wave_height);
        self.dim(&format!("{k}.tp"), &s.period);
        self.dir(&format!("{k}.dir"), &s.direction)
    }
    pub fn summary(&mut self, s: &SwellSummary) -> &mut Self {
        self.swell("sum", &s.summary);
        self.put("components", V::I(s.components.len() as i64));
        for (i, c) in s.components.iter().enumerate() {
            self.swell(&format!("c{i}"), c);
        }
        self
    }
    /// None when they agree, otherwise the first difference.
    pub fn diff(&self, got: &Rec) -> Option<String> {
        if self.f.len() != got.f.len() {
            return Some(format!("{} fields instead of {}", got.f.len(), self.f.len()));
        }
        for ((k, a), (k2, b)) in self.f.iter().zip(got.f.iter()) {
            if k != k2 {
                return Some(format!("field {k2} where {k} was expected"));
            }
            let ok = match (a, b) {
                (V::Any, _) => true,
                (V::F(x, t), V::F(y, u)) => (x - y).abs() <= t.max(*u) + 1e-9 * x.abs() || (x.is_nan() && y.is_nan()),
                (V::A(x, t), V::A(y, u)) => circ(*x, *y) <= t.max(*u) + 1e-9,
                (V::L(x, t), V::L(y, _)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p - q).abs() <= t + 1e-9 * p.abs()),
                (p, q) => p == q,
            };
            if !ok {
                return Some(format!("{k}: published {a:?}, delivered {b:?}"));
            }
        }
        None
    }
    pub fn brief(&self) -> String {
        let s = format!("{:?}", self.f);
        s.chars().take(200).collect()
    }
}

pub fn unit_name(u: &Unit) -> String {
    format!("{u:?}")
}

/// What may be delivered for one received line.
#[derive(Clone, Debug)]
pub enum Exp {
    Must(Rec),
    /// up to n records of any content
    May(usize),
}

/// Is `got` a delivery allowed for the lines? Ok, or what went wrong.
pub fn match_delivery(exp: &[Exp], got: &[Rec]) -> Result<(), String> {
    // reach[j] = the first i lines can have produced the first j records
    let m = got.len();
    let mut reach = vec![false; m + 1];
    reach[0] = true;
    for (i, e) in exp.iter().enumerate() {
        let mut next = vec![false; m + 1];
        match e {
            Exp::Must(r) => {
                let mut near: Option<String> = None;
                for j in 0..m {
                    if reach[j] {
                        match r.diff(&got[j]) {
                            None => next[j + 1] = true,
                            Some(d) => near = Some(d),
                        }
                    }
                }
                if !next.iter().any(|x| *x) {
                    let why = near.unwrap_or_else(|| "nothing delivered for it".into());
                    return Err(format!("row {i}: undamaged row not delivered as published ({why})"));
                }
            }
            Exp::May(k) => {
                for j in 0..=m {
                    if reach[j] {
                        for d in 0..=*k {
                            if j + d <= m {
                                next[j + d] = true;
                            }
                        }
                    }
                }
            }
        }
        reach = next;
    }
    if reach[m] {
        Ok(())
    } else {
        let most = (0..=m).rev().find(|j| reach[*j]).unwrap_or(0);
        Err(format!("{m} records delivered where at most {most} can be accounted for; extra: {}", got.get(most).map(|r| r.brief()).unwrap_or_default()))
    }
}
