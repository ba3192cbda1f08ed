//! Shrinks a failing plan while it keeps failing in the same way.
use crate::hview::Viol;
use crate::os::{CrashAt, Policy, Shared};
use crate::plan::*;
use crate::runner::{run_plan, RunOut};
use std::time::{Duration, Instant};

pub fn minimise(plan: &Plan, v: &Viol, base: &str, sh: *mut Shared, budget: Duration, judge: &dyn Fn(&Plan, &RunOut) -> Vec<Viol>) -> (Plan, Viol, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let out = run_plan(&best, base, sh, false);
    let mut bv = judge(&best, &out).into_iter().find(|x| x.kind == v.kind).unwrap_or(v.clone());
    let mut bout = out;
    macro_rules! attempt {
        ($p:expr) => {{
            if t0.elapsed() > budget { false } else {
                let p: Plan = $p;
                let o = run_plan(&p, base, sh, false);
                match judge(&p, &o).into_iter().find(|x| x.kind == v.kind) {
                    Some(x) if o.inconclusive.is_none() => { best = p; bv = x; bout = o; true }
                    _ => false,
                }
            }
        }};
    }
    // 1. the workload and the faults, keeping the scheduling policy
    let mut again = true;
    while again && t0.elapsed() < budget / 2 {
        again = false;
        for e in 0..best.epochs.len() {
            // chunks of operations of each client
            let mut c = 0;
            while c < best.epochs[e].clients.len() {
                let mut p = best.clone();
                p.epochs[e].clients[c].ops.clear();
                if !best.epochs[e].clients[c].ops.is_empty() && attempt!(p) { again = true; }
                let mut step = best.epochs[e].clients[c].ops.len() / 2;
                while step > 0 {
                    let mut i = 0;
                    while i < best.epochs[e].clients[c].ops.len() {
                        let mut p = best.clone();
                        let l = p.epochs[e].clients[c].ops.len();
                        p.epochs[e].clients[c].ops.drain(i..(i + step).min(l));
                        if attempt!(p) { again = true; } else { i += step; }
                    }
                    step /= 2;
                }
                c += 1;
            }
            let n = best.epochs[e].disk.len();
            for i in (0..n).rev() { let mut p = best.clone(); p.epochs[e].disk.remove(i); if attempt!(p) { again = true; } }
            let n = best.epochs[e].jumps.len();
            for i in (0..n).rev() { let mut p = best.clone(); p.epochs[e].jumps.remove(i); if attempt!(p) { again = true; } }
            let n = best.epochs[e].sched.targets.len();
            for i in (0..n).rev() { let mut p = best.clone(); p.epochs[e].sched.targets.remove(i); if attempt!(p) { again = true; } }
            if best.epochs[e].crash != CrashAt::Never { let mut p = best.clone(); p.epochs[e].crash = CrashAt::Never; if attempt!(p) { again = true; } }
            if let CrashAt::Io { n, permille } = best.epochs[e].crash { if permille != 0 { let mut p = best.clone(); p.epochs[e].crash = CrashAt::Io { n, permille: 0 }; attempt!(p); } }
            for q in [Policy::Random { p_sync: 0, gap: 0 }] {
                if best.epochs[e].sched.policy != q { let mut p = best.clone(); p.epochs[e].sched.policy = q; if attempt!(p) { again = true; } }
            }
            let mut step = (best.epochs[e].setup.len() / 2).max(1);
            while step > 0 {
                let mut i = best.epochs[e].setup.len();
                while i > 0 {
                    let lo = i.saturating_sub(step);
                    let mut p = best.clone();
                    p.epochs[e].setup.drain(lo..i);
                    attempt!(p);
                    i = lo;
                }
                step /= 2;
            }
        }
        while best.epochs.len() > 1 {
            let mut p = best.clone();
            p.epochs.pop();
            if attempt!(p) { again = true; } else { break; }
        }
    }
    // 2. the schedule: from "whatever the policy did" to an explicit, short list
    let mut p = best.clone();
    let mut usable = bout.epochs.len() == p.epochs.len();
    for (e, o) in bout.epochs.iter().enumerate() {
        if o.dev_overflow || o.devs.len() > 4000 { usable = false; }
        if e < p.epochs.len() {
            p.epochs[e].sched.policy = Policy::Explicit;
            p.epochs[e].sched.devs = o.devs.clone();
        }
    }
    if usable && attempt!(p) {
        for e in 0..best.epochs.len() {
            let mut step = best.epochs[e].sched.devs.len();
            while step > 0 && t0.elapsed() < budget {
                let mut i = 0;
                while i < best.epochs[e].sched.devs.len() && t0.elapsed() < budget {
                    let mut p = best.clone();
                    let l = p.epochs[e].sched.devs.len();
                    p.epochs[e].sched.devs.drain(i..(i + step).min(l));
                    if !attempt!(p) { i += step; }
                }
                step /= 2;
            }
        }
    }
    (best, bv, bout.digest)
}
