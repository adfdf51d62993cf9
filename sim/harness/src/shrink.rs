//! Minimising a failing run: scenario first, then the decisions.

use crate::prop::Entry;
use crate::run::{Decisions, RunOut};
use serde_json::Value;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub struct Shrunk {
    pub scenario: Value,
    pub decisions: Decisions,
    pub out: RunOut,
    pub tries: u64,
}

pub struct Shrinker<'a> {
    e: &'a Entry,
    seed: u64,
    kind: String,
    scratch: PathBuf,
    until: Instant,
    best: Shrunk,
    save: Box<dyn FnMut(&Shrunk) + 'a>,
}

fn size(d: &Decisions) -> usize {
    d.iter().map(|x| x.len()).sum()
}

/// Paths to all leaves and arrays of a JSON value.
fn walk(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                walk(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            out.push(path.clone());
            for (i, x) in a.iter().enumerate().take(40) {
                path.push(i.to_string());
                walk(x, path, out);
                path.pop();
            }
        }
        Value::Number(_) | Value::Bool(true) => out.push(path.clone()),
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Object(m) => m.get_mut(p)?,
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}

impl<'a> Shrinker<'a> {
    pub fn new(
        e: &'a Entry,
        seed: u64,
        scenario: Value,
        out: RunOut,
        scratch: &Path,
        budget: Duration,
        save: Box<dyn FnMut(&Shrunk) + 'a>,
    ) -> Self {
        let kind = out.fail.as_ref().unwrap().kind.clone();
        let decisions = out.logs.clone();
        Shrinker {
            e,
            seed,
            kind,
            scratch: scratch.to_path_buf(),
            until: Instant::now() + budget,
            best: Shrunk { scenario, decisions, out, tries: 0 },
            save,
        }
    }

    fn over(&self) -> bool {
        Instant::now() > self.until
    }

    fn try_it(&mut self, scenario: &Value, d: Decisions) -> bool {
        if self.over() {
            return false;
        }
        self.best.tries += 1;
        let out = (self.e.run)(scenario, self.seed, Some(d), self.scratch.clone(), false);
        let hit = out.fail.as_ref().map_or(false, |f| f.kind == self.kind);
        if hit {
            // Only the decisions actually used differ from the default.
            let tries = self.best.tries;
            self.best = Shrunk { scenario: scenario.clone(), decisions: out.logs.clone(), out, tries };
            (self.save)(&self.best);
        }
        hit
    }

    fn try_scenario(&mut self, cand: Value) -> bool {
        let Some(cand) = (self.e.fix)(&cand) else { return false };
        if cand == self.best.scenario {
            return false;
        }
        let d = self.best.decisions.clone();
        if self.try_it(&cand, d) {
            return true;
        }
        // A changed scenario shifts the decisions; the plain ones may do.
        size(&self.best.decisions) > 0 && self.try_it(&cand, vec![])
    }

    pub fn run(mut self) -> Shrunk {
        let sc = self.best.scenario.clone();
        self.try_it(&sc, vec![]);
        let mut round = 0;
        loop {
            let before = (self.best.scenario.clone(), size(&self.best.decisions));
            self.scenario_pass();
            self.decision_pass();
            round += 1;
            if self.over() || round > 6 || (self.best.scenario == before.0 && size(&self.best.decisions) == before.1) {
                break;
            }
        }
        self.best
    }

    fn scenario_pass(&mut self) {
        let mut paths = Vec::new();
        walk(&self.best.scenario, &mut Vec::new(), &mut paths);
        // Whole arrays first.
        paths.sort_by_key(|p| p.len());
        for path in paths {
            if self.over() {
                return;
            }
            let mut cur = self.best.scenario.clone();
            let Some(v) = at(&mut cur, &path).cloned() else { continue };
            match v {
                Value::Array(a) => self.array(&path, a),
                Value::Bool(true) => {
                    *at(&mut cur, &path).unwrap() = Value::Bool(false);
                    self.try_scenario(cur);
                }
                Value::Number(x) => {
                    if let Some(x) = x.as_u64() {
                        self.number(&path, x)
                    }
                }
                _ => {}
            }
        }
    }

    fn number(&mut self, path: &[String], x: u64) {
        let mut lo = 0u64; // known not to do (or not tried)
        let mut hi = x;
        for c in [0, 1] {
            if c < hi {
                let mut s = self.best.scenario.clone();
                let Some(v) = at(&mut s, path) else { return };
                *v = c.into();
                if self.try_scenario(s) {
                    return;
                }
                lo = c;
            }
        }
        let mut tries = 0;
        while hi - lo > 1 && tries < 12 && !self.over() {
            tries += 1;
            let mid = lo + (hi - lo) / 2;
            let mut s = self.best.scenario.clone();
            let Some(v) = at(&mut s, path) else { return };
            *v = mid.into();
            if self.try_scenario(s) {
                hi = mid;
            } else {
                lo = mid;
            }
        }
    }

    fn array(&mut self, path: &[String], a: Vec<Value>) {
        let mut cur = a;
        let mut chunk = cur.len();
        while chunk >= 1 && !cur.is_empty() && !self.over() {
            let mut i = 0;
            while i < cur.len() && !self.over() {
                let mut next = cur.clone();
                next.drain(i..(i + chunk).min(cur.len()));
                let mut s = self.best.scenario.clone();
                let Some(v) = at(&mut s, path) else { return };
                *v = Value::Array(next.clone());
                if self.try_scenario(s) {
                    // The repair step may have changed it further.
                    match at(&mut self.best.scenario.clone(), path) {
                        Some(Value::Array(a)) if a.len() < cur.len() => cur = a.clone(),
                        _ => return,
                    }
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
    }

    fn decision_pass(&mut self) {
        let mut chunk = size(&self.best.decisions);
        while chunk >= 1 && !self.over() {
            let mut i = 0;
            while i < size(&self.best.decisions) && !self.over() {
                let d = without(&self.best.decisions, i, chunk);
                let sc = self.best.scenario.clone();
                let before = size(&self.best.decisions);
                if self.try_it(&sc, d) && size(&self.best.decisions) < before {
                    continue;
                }
                i += chunk;
            }
            chunk /= 2;
        }
    }
}

fn without(d: &Decisions, from: usize, num: usize) -> Decisions {
    let mut k = 0;
    d.iter()
        .map(|w| {
            w.iter()
                .filter(|_| {
                    let keep = k < from || k >= from + num;
                    k += 1;
                    keep
                })
                .cloned()
                .collect()
        })
        .collect()
}
