//! Scale: now and then a run of any scenario with far more of everything - hundreds of
//! messages, topics and keys, payloads of hundreds of kilobytes, requests for thousands.
use crate::gen::*;
use crate::os::*;
use crate::plan::*;

const T0: u64 = 1 << 30;

pub fn bulk(name: &str, seed: u64, cfg: Cfg, mut eps: Vec<Epoch>) -> (Cfg, Vec<Epoch>) {
    let mut r = Rng::new(seed ^ 0x6275_6c6b);
    if !matches!(name.as_bytes()[0], b'q' | b's' | b'p' | b'k' | b'd') && name != "t-pipe" { return (cfg, eps); }
    if !(std::env::var("NX_BULK").is_ok() || r.chance(1, 30)) { return (cfg, eps); }
    let mut tag = T0;
    let what = r.below(4);
    if what < 2 {
        let n = if name.starts_with("s-g") || name == "d-s-live" || name == "d-groups" { r.logu(60, 300) } else { r.logu(60, 1300) };
        let e = if eps.len() > 1 && r.chance(1, 3) { r.below(eps.len() as u64 - 1) as usize } else { 0 };
        let levels = *r.pick(&[1u64, 2, 5]);
        let ep = &mut eps[e];
        let mut lists: Vec<&mut Vec<Op>> = vec![&mut ep.setup];
        for c in &mut ep.clients { lists.push(&mut c.ops); }
        'l: for (li, l) in lists.into_iter().enumerate() {
            for i in 0..l.len() {
                let mut add = vec![];
                match &l[i] {
                    Op::QCreate { q, .. } => for _ in 0..n { tag += 1; add.push(Op::QPush { q: q.clone(), tag, size: 8 + r.below(30) as u32, prio: Some(r.below(levels) as u8) }); },
                    Op::SCreate { s, .. } => for _ in 0..n { tag += 1; add.push(Op::SPub { s: s.clone(), tag, size: 8 + r.below(30) as u32 }); },
                    _ => continue,
                }
                // after what looks at the state found on the disk
                let tail = if li == 0 { vec![] } else { l.split_off(i + 1) };
                l.extend(add);
                l.extend(tail);
                break 'l;
            }
        }
        if name.starts_with('p') || name.starts_with("d-p") || name.starts_with("d-r") {
            let depth = r.below(3);
            let n = n.min(400);
            for i in 0..n {
                tag += 1;
                let t = match depth { 0 => format!("bulk{}", i), 1 => format!("bulk/{}", i), _ => format!("b/{}/{}", i % 20, i) };
                ep.setup.push(Op::Pub { t, tag, size: 8 + r.below(30) as u32, retain: Some(true), ttl: None });
            }
        }
        if name.starts_with('k') { for i in 0..n { tag += 1; ep.setup.push(Op::KSet { k: format!("bulk{}", i), tag, size: 8 + r.below(30) as u32, ttl: *r.pick(&[None, Some(1)]) }); }
            for _ in 0..20 { let i = r.below(n); ep.probe.push(Op::KGet { k: format!("bulk{}", i) }); } }
    }
    for ep in &mut eps { ep.sched.dt = ep.sched.dt.min(200); }
    // a crowd of groups with long names
    if matches!(name, "s-gcrash" | "d-groups" | "s-group" | "d-s-live") && r.chance(1, 2) {
        let made = eps[0].setup.iter().find_map(|o| if let Op::SCreate { s, .. } = o { Some(s.clone()) } else { None });
        if let Some(s) = made {
            let n = r.logu(5, 250);
            let pad = "x".repeat(r.below(150) as usize);
            for i in 0..n { eps[0].setup.push(Op::SJoin { s: s.clone(), g: format!("bulk{}{}", i, pad) }); }
            let e = r.below(n);
            eps[0].setup.push(Op::SFetch { s: s.clone(), g: format!("bulk{}{}", e, pad), limit: 3, wait: 0 });
            eps[0].setup.push(Op::SAckAll { s: s.clone(), g: format!("bulk{}{}", e, pad) });
            let last = eps.last_mut().unwrap();
            for i in 0..5 { let g = format!("bulk{}{}", if i == 0 { e } else { r.below(n) }, pad); last.probe.push(Op::SJoin { s: s.clone(), g: g.clone() }); last.probe.push(Op::SFetch { s: s.clone(), g, limit: 3, wait: 0 }); }
        }
    }
    let lim = *r.pick(&[100u64, 255, 256, 500, 1000, 5000, 70_000]);
    for ep in &mut eps {
        let mut lists: Vec<&mut Vec<Op>> = vec![&mut ep.setup];
        for c in &mut ep.clients { lists.push(&mut c.ops); }
        for l in lists {
            for o in l.iter_mut() {
                if let Op::SReadAll { chunk, .. } = o { *chunk = (*chunk).max(60); }
                if r.chance(1, 2) { continue; }
                match o {
                    Op::QConsume { max, .. } => *max = Some(lim),
                    Op::SRead { limit, .. } => *limit = lim,
                    Op::SReadAll { chunk, .. } => *chunk = lim,
                    Op::SFetch { limit, .. } | Op::SDrain { limit, .. } | Op::QPeek { limit, .. } => *limit = lim as u32,
                    _ => {}
                }
            }
        }
        for o in ep.probe.iter_mut() {
            match o { Op::SReadAll { chunk, .. } => *chunk = (*chunk).max(lim), Op::SDrain { limit, .. } => *limit = (*limit).max(lim as u32), _ => {} }
        }
    }
    if what >= 1 {
        let big = r.logu(60_000, 700_000) as u32;
        let mut left = r.range(1, 3);
        for ep in &mut eps {
            for c in &mut ep.clients {
                for o in c.ops.iter_mut() {
                    let o = match o { Op::NoWait(o) => &mut **o, o => o };
                    if let Op::QPush { size, .. } | Op::SPub { size, .. } | Op::Pub { size, .. } | Op::KSet { size, .. } = o {
                        if *size > 0 && left > 0 && r.chance(1, 3) { *size = big; left -= 1; }
                    }
                }
                if let Some(n) = &mut c.tcp { if n.chunk > 0 { n.chunk = n.chunk.max(1000); } if n.rchunk > 0 { n.rchunk = n.rchunk.max(3000); } n.gap_ns = n.gap_ns.min(10_000); }
            }
        }
    }
    (cfg, eps)
}
