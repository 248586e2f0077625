//! Generic shrinking over the JSON form of a plan: drops array elements,
//! shortens strings, lowers numbers. Executors accept any plan of the right
//! shape, so a candidate either still fails the same way or is dropped.
use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn at<'a>(v: &'a mut Value, path: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match p {
            Step::Key(k) => v.get_mut(k.as_str())?,
            Step::Idx(i) => v.get_mut(*i)?,
        };
    }
    Some(v)
}

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                here.push(Step::Key(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

/// Shrinks `plan` while `fails(candidate)` holds.
pub fn shrink(plan: Value, budget: Duration, fails: &mut dyn FnMut(&Value) -> bool) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut tried = 0;
    loop {
        let mut progress = false;
        // Arrays first (outermost first), then strings, then numbers.
        for pass in 0..3 {
            let mut ps = vec![];
            paths(&best, &mut vec![], &mut ps);
            for p in ps {
                if t0.elapsed() > budget {
                    return (best, tried);
                }
                let Some(node) = at(&mut best, &p).map(|n| n.clone()) else { continue };
                match (pass, node) {
                    (0, Value::Array(a)) if !a.is_empty() => {
                        let mut a = a;
                        let mut chunk = a.len();
                        while chunk >= 1 {
                            let mut i = 0;
                            while i < a.len() {
                                if t0.elapsed() > budget {
                                    return (best, tried);
                                }
                                let mut b = a.clone();
                                b.drain(i..(i + chunk).min(a.len()));
                                let mut cand = best.clone();
                                *at(&mut cand, &p).unwrap() = Value::Array(b.clone());
                                tried += 1;
                                if fails(&cand) {
                                    best = cand;
                                    a = b;
                                    progress = true;
                                } else {
                                    i += chunk;
                                }
                            }
                            chunk /= 2;
                        }
                    }
                    (1, Value::String(s)) if !s.is_empty() => {
                        let mut s = s;
                        // Whole subtags first.
                        let mut i = 0;
                        while s.contains('-') && i < s.split('-').count() {
                            if t0.elapsed() > budget {
                                return (best, tried);
                            }
                            let rest: Vec<&str> = s.split('-').enumerate().filter(|x| x.0 != i).map(|x| x.1).collect();
                            let b = rest.join("-");
                            let mut cand = best.clone();
                            *at(&mut cand, &p).unwrap() = Value::String(b.clone());
                            tried += 1;
                            if fails(&cand) {
                                best = cand;
                                s = b;
                                progress = true;
                            } else {
                                i += 1;
                            }
                        }
                        let mut s: Vec<char> = s.chars().collect();
                        let mut chunk = s.len();
                        while chunk >= 1 {
                            let mut i = 0;
                            while i < s.len() {
                                if t0.elapsed() > budget {
                                    return (best, tried);
                                }
                                let mut b = s.clone();
                                b.drain(i..(i + chunk).min(s.len()));
                                let mut cand = best.clone();
                                *at(&mut cand, &p).unwrap() = Value::String(b.iter().collect());
                                tried += 1;
                                if fails(&cand) {
                                    best = cand;
                                    s = b;
                                    progress = true;
                                } else {
                                    i += chunk;
                                }
                            }
                            chunk /= 2;
                        }
                    }
                    (2, Value::Number(n)) => {
                        let Some(n) = n.as_u64() else { continue };
                        let mut n = n;
                        for c in [0, 1, n / 2, n.saturating_sub(1)] {
                            if c >= n {
                                continue;
                            }
                            let mut cand = best.clone();
                            *at(&mut cand, &p).unwrap() = Value::from(c);
                            tried += 1;
                            if fails(&cand) {
                                best = cand;
                                n = c;
                                progress = true;
                            }
                        }
                    }
                    (2, Value::Bool(true)) => {
                        let mut cand = best.clone();
                        *at(&mut cand, &p).unwrap() = Value::Bool(false);
                        tried += 1;
                        if fails(&cand) {
                            best = cand;
                            progress = true;
                        }
                    }
                    _ => {}
                }
            }
        }
        if !progress || t0.elapsed() > budget {
            return (best, tried);
        }
    }
}
