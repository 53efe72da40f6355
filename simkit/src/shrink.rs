//! Generic minimiser over a plan's JSON: removes array elements, then lowers numbers.
use serde_json::Value;

enum Step {
    Key(String),
    Idx(usize),
}
fn get_mut<'a>(v: &'a mut Value, path: &[Step]) -> Option<&'a mut Value> {
    let mut cur = v;
    for s in path {
        cur = match s {
            Step::Key(k) => cur.get_mut(k.as_str())?,
            Step::Idx(i) => cur.get_mut(*i)?,
        };
    }
    Some(cur)
}
fn walk(v: &Value, path: &mut Vec<Step>, arrays: &mut Vec<Vec<Step>>, nums: &mut Vec<Vec<Step>>) {
    let copy = |p: &Vec<Step>| -> Vec<Step> {
        p.iter()
            .map(|s| match s {
                Step::Key(k) => Step::Key(k.clone()),
                Step::Idx(i) => Step::Idx(*i),
            })
            .collect()
    };
    match v {
        Value::Array(a) => {
            arrays.push(copy(path));
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Idx(i));
                walk(x, path, arrays, nums);
                path.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                path.push(Step::Key(k.clone()));
                walk(x, path, arrays, nums);
                path.pop();
            }
        }
        Value::Number(n) if n.as_i64() != Some(0) => nums.push(copy(path)),
        Value::Bool(true) => nums.push(copy(path)),
        _ => {}
    }
}

/// Returns a smaller plan for which `fails` still holds, and how many candidates were run.
pub fn minimise(plan: &Value, budget: usize, deadline: std::time::Instant, fails: &mut dyn FnMut(&Value) -> bool) -> (Value, usize) {
    let mut best = plan.clone();
    let mut tried = 0;
    let mut progress = true;
    while progress && tried < budget && std::time::Instant::now() < deadline {
        progress = false;
        // pass 1: arrays, in chunks
        let (mut arrays, mut nums) = (vec![], vec![]);
        walk(&best, &mut vec![], &mut arrays, &mut nums);
        for p in &arrays {
            let len = match get_mut(&mut best, p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut chunk = len;
            while chunk >= 1 && tried < budget && std::time::Instant::now() < deadline {
                let mut i = 0;
                loop {
                    let cur = match get_mut(&mut best, p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if i >= cur || tried >= budget {
                        break;
                    }
                    let mut cand = best.clone();
                    if let Some(Value::Array(a)) = get_mut(&mut cand, p) {
                        let e = (i + chunk).min(a.len());
                        a.drain(i..e);
                    }
                    tried += 1;
                    if fails(&cand) {
                        best = cand;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // pass 2: numbers
        let (mut arrays, mut nums) = (vec![], vec![]);
        walk(&best, &mut vec![], &mut arrays, &mut nums);
        for p in &nums {
            let cur = match get_mut(&mut best, p) {
                Some(v) => v.clone(),
                None => continue,
            };
            let cands: Vec<Value> = if let Some(b) = cur.as_bool() {
                if b { vec![Value::from(false)] } else { vec![] }
            } else if let Some(u) = cur.as_u64() {
                [0, 1, u / 1000, u / 2, u.saturating_sub(1)].iter().filter(|x| **x < u).map(|x| Value::from(*x)).collect()
            } else if let Some(i) = cur.as_i64() {
                vec![Value::from(0), Value::from(i / 2)]
            } else {
                vec![]
            };
            for c in cands {
                if tried >= budget || std::time::Instant::now() >= deadline {
                    break;
                }
                let mut cand = best.clone();
                if let Some(v) = get_mut(&mut cand, p) {
                    *v = c;
                }
                tried += 1;
                if fails(&cand) {
                    best = cand;
                    progress = true;
                    break;
                }
            }
        }
    }
    (best, tried)
}
