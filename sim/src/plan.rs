//! A plan is one run written down: the key lists, the operations, the faults and the schedule. The same plan is always
//! the same execution. Plans are what replay files contain and what gets minimised.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// which of the applicable callback classes (those the operation invokes)
    pub pick: u64,
    /// which invocation of it
    pub sel: u64,
    /// report an error value instead of panicking, where the callback can
    #[serde(default)]
    pub err: bool,
    /// restrict to one class by name
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub class: Option<String>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub op: String,
    #[serde(default)]
    pub a: u64,
    #[serde(default)]
    pub b: u64,
    #[serde(default)]
    pub c: u64,
    #[serde(default)]
    pub d: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<Fault>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub script: Vec<u64>,
    /// the thread that performs it; 0 is the one that sets up
    #[serde(default, skip_serializing_if = "zero")]
    pub t: u64,
    /// preempted after so many machine instructions, and again after so many more
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub gaps: Vec<u64>,
    /// at this callback the thread stalls until all others are done
    #[serde(default, skip_serializing_if = "zero")]
    pub stall: u64,
    /// from this callback on, every callback also reads a shared collection
    #[serde(default, skip_serializing_if = "zero")]
    pub reent: u64,
}

fn zero(x: &u64) -> bool {
    *x == 0
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub sim: String,
    pub targets: Vec<String>,
    #[serde(default)]
    pub knobs: BTreeMap<String, u64>,
    #[serde(default)]
    pub lists: Vec<Vec<u64>>,
    #[serde(default)]
    pub ops: Vec<Op>,
    #[serde(default)]
    pub sched: Vec<u64>,
}

impl Plan {
    pub fn knob(&self, k: &str) -> u64 {
        self.knobs.get(k).copied().unwrap_or(0)
    }
}

/// Smaller variants of a plan, biggest cuts first.
pub fn reductions(p: &Plan) -> Vec<Plan> {
    let mut out = Vec::new();
    let n = p.ops.len();
    // runs of operations
    let mut w = n / 2;
    while w >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.ops.drain(i..(i + w).min(n));
            out.push(q);
            i += w;
        }
        w /= 2;
    }
    // faults
    for i in 0..n {
        if p.ops[i].fault.is_some() {
            let mut q = p.clone();
            q.ops[i].fault = None;
            out.push(q);
        }
    }
    // keys
    for (li, l) in p.lists.iter().enumerate() {
        let mut w = l.len().div_ceil(2);
        while w >= 1 {
            let mut i = 0;
            while i < l.len() && out.len() < 4000 {
                let mut q = p.clone();
                q.lists[li].drain(i..(i + w).min(l.len()));
                out.push(q);
                i += w;
            }
            if w == 1 {
                break;
            }
            w = w.div_ceil(2);
        }
    }
    // scripts
    for i in 0..n {
        let m = p.ops[i].script.len();
        let mut w = m.div_ceil(2);
        while w >= 1 && m > 0 {
            let mut k = 0;
            while k < m {
                let mut q = p.clone();
                q.ops[i].script.drain(k..(k + w).min(m));
                out.push(q);
                k += w;
            }
            if w == 1 {
                break;
            }
            w = w.div_ceil(2);
        }
    }
    // schedule
    let m = p.sched.len();
    let mut w = m.div_ceil(2);
    while w >= 1 && m > 0 {
        let mut k = 0;
        while k < m {
            let mut q = p.clone();
            for x in &mut q.sched[k..(k + w).min(m)] {
                *x = 0;
            }
            if q.sched != p.sched {
                out.push(q);
            }
            let mut q = p.clone();
            q.sched.drain(k..(k + w).min(m));
            out.push(q);
            k += w;
        }
        if w == 1 {
            break;
        }
        w = w.div_ceil(2);
    }
    // what a thread meets on the way
    for i in 0..n {
        let o = &p.ops[i];
        if !o.gaps.is_empty() {
            let mut q = p.clone();
            q.ops[i].gaps.clear();
            out.push(q);
            for k in 0..o.gaps.len() {
                let mut q = p.clone();
                q.ops[i].gaps.remove(k);
                out.push(q);
            }
        }
        if o.stall > 0 {
            let mut q = p.clone();
            q.ops[i].stall = 0;
            out.push(q);
        }
        if o.reent > 0 {
            let mut q = p.clone();
            q.ops[i].reent = 0;
            out.push(q);
        }
    }
    // numbers
    for i in 0..n {
        for f in 0..4 {
            let get = |o: &Op| [o.a, o.b, o.c, o.d][f];
            if get(&p.ops[i]) > 0 {
                let mut q = p.clone();
                let r = &mut q.ops[i];
                match f {
                    0 => r.a = 0,
                    1 => r.b = 0,
                    2 => r.c = 0,
                    _ => r.d = 0,
                }
                out.push(q);
            }
        }
        if let Some(fl) = &p.ops[i].fault {
            if fl.sel > 0 {
                let mut q = p.clone();
                q.ops[i].fault.as_mut().unwrap().sel = 0;
                out.push(q);
            }
        }
    }
    for k in p.knobs.keys() {
        if p.knobs[k] > 0 {
            let mut q = p.clone();
            q.knobs.insert(k.clone(), 0);
            out.push(q);
        }
    }
    out
}
