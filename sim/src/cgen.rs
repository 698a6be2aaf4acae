//! Scenario generation for whole clusters.
use crate::cluster::*;
use crate::inst::*;
use crate::prng::{hash_all, Prng};
use crate::solo::{gen_spec, Stats};
use crate::types::*;
use crate::wire::*;
use foca::{Message, State};
use std::num::NonZeroU32;
use std::time::Duration;

fn gcfg(r: &mut Prng) -> Cfg {
    let mut c = Cfg::simple();
    c.period = *r.pick(&[1000, 1500, 5000]);
    // rtt < period
    c.rtt = c.period * *r.pick(&[1, 2, 3, 4, 5, 6, 8, 9]) / 10;
    c.fanout = *r.pick(&[1, 2, 3, 3, 4]);
    c.max_tx = r.range(1, 10) as u8;
    c.s2d = c.period * r.range(1, 6);
    c.rd = 86_400_000;
    c.notify_down = r.pct(50);
    if r.pct(50) {
        c.pa = Some((c.period * r.range(1, 10), r.range(1, 3)));
    }
    if r.pct(50) {
        c.pg = Some((*r.pick(&[200, c.period / 2, c.period, 2 * c.period]), r.range(1, 4)));
    }
    if r.pct(40) {
        c.pad = Some((c.period * r.range(1, 10), r.range(1, 2)));
    }
    if r.pct(8) {
        // what the shipped presets choose
        let n = NonZeroU32::new(r.range(1, 12) as u32).unwrap();
        let k = if r.pct(50) { foca::Config::new_lan(n) } else { foca::Config::new_wan(n) };
        let ms = |d: Duration| d.as_millis() as u64;
        let pp = |p: Option<foca::PeriodicParams>| p.map(|p| (ms(p.frequency).max(1), p.num_members.get() as u64));
        let ok = ms(k.probe_rtt) >= 50 && k.probe_rtt < k.probe_period && k.suspect_to_down_after >= k.probe_period;
        if ok {
            (c.period, c.rtt, c.s2d) = (ms(k.probe_period), ms(k.probe_rtt), ms(k.suspect_to_down_after));
            (c.fanout, c.max_tx) = (k.num_indirect_probes.get() as u64, k.max_transmissions.get());
            c.notify_down = k.notify_down_members;
            (c.pa, c.pad, c.pg) = (pp(k.periodic_announce), pp(k.periodic_announce_to_down_members), pp(k.periodic_gossip));
        }
    }
    c
}
/// the application uses its broadcasts meanwhile (and gossips at will, unless what is gossiped is counted)
fn noise(r: &mut Prng, s: &mut ClusterScn, gossip: bool) {
    if !r.pct(15) {
        return;
    }
    let n = s.ids.len();
    for _ in 0..r.range(1, 12) {
        let op = match r.below(if gossip { 5 } else { 3 }) {
            0 => Op::Broadcast,
            1 | 2 => {
                let mut d: Vec<u8> = (0..r.range(1, 40)).map(|_| r.next() as u8).collect();
                d[0] &= 0x33;
                if d.len() as u64 > s.cfg.mps {
                    continue;
                }
                Op::AddBroadcast(Hex(d))
            }
            _ => Op::Gossip,
        };
        s.evs.push(CEv { at: r.below(s.end), what: What::Api { node: r.us(n), op } });
    }
}
fn ids(r: &mut Prng, n: usize, pol: Option<u8>) -> Vec<Id> {
    let tm = *r.pick(&[0u64, 0, 4, 12]);
    let same = if r.pct(50) { Some(r.below(tm + 1) as u8) } else { None };
    (0..n)
        .map(|i| id(i as u16 + 1, r.below(3) as u16, pol.unwrap_or(*r.pick(&[POL_NEXT, POL_NONE])), same.unwrap_or_else(|| r.below(tm + 1) as u8)))
        .collect()
}
/// bytes needed for a Feed that lists the whole cluster (and for any other header plus one member)
fn feed_size(k: CodecKind, v: &[Id]) -> u64 {
    let big = *v.iter().max_by_key(|i| i.tail).unwrap();
    let big = Id { addr: u16::MAX, gen: u16::MAX, ..big };
    let h = H { src: big, src_incarnation: u16::MAX, dst: big, message: Message::Feed };
    let hl = k.enc_h(&h).len();
    let all: usize = v.iter().map(|i| k.m_len(&mem(Id { gen: u16::MAX, addr: u16::MAX, ..*i }, u16::MAX, State::Suspect))).sum();
    (hl + 2 + all) as u64
}
fn small_size(k: CodecKind, v: &[Id]) -> u64 {
    let t = v.iter().map(|i| i.tail).max().unwrap();
    crate::solo::min_mps(k, t)
}
fn lat(r: &mut Prng, rtt: u64) -> (u64, u64) {
    // strictly below rtt/4
    let hi = (rtt - 1) / 4;
    let hi = match r.below(4) {
        0 => hi,
        1 => hi,
        2 => hi / 2,
        _ => (hi / 10).max(1).min(hi),
    };
    let lo = if r.pct(20) { hi } else { 0 };
    (lo, hi)
}
fn base(r: &mut Prng, n: usize, pol: Option<u8>) -> ClusterScn {
    let codec = *r.pick(&CODECS);
    let cfg = gcfg(r);
    let ids = ids(r, n, pol);
    let l = lat(r, cfg.rtt);
    ClusterScn {
        ids,
        cfg,
        codec,
        spec: HSpec::PLAIN,
        seed: r.next(),
        lat: l,
        timers_first: r.pct(50),
        formed: false,
        incs: vec![],
        evs: vec![],
        drops: vec![],
        crash_steps: vec![],
        wins: vec![],
        skew: vec![],
        end: 0,
        goal: Goal::Watch,
    }
}
/// joins: returns the time of the last announce
fn joins(r: &mut Prng, s: &mut ClusterScn, spread: u64) -> u64 {
    let n = s.ids.len();
    // join order is a random permutation; order[0] is the initial member
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut at = vec![0u64; n];
    for k in 1..n {
        at[k] = r.below(spread + 1);
    }
    at[1..].sort();
    let fed = 2 * s.lat.1 + 1;
    let one_seed = r.pct(30);
    let mut last = 0;
    for k in 1..n {
        // somebody who already is part of the cluster
        let cands: Vec<usize> = (0..k).filter(|j| *j == 0 || at[*j] + fed < at[k]).collect();
        let via = if one_seed { 0 } else { *r.pick(&cands) };
        s.evs.push(CEv { at: at[k], what: What::Join { node: order[k], via: order[via] } });
        last = last.max(at[k]);
    }
    last
}

pub fn c02(r: &mut Prng, nmax: u64) -> ClusterScn {
    let n = r.range(2, nmax) as usize;
    let mut s = base(r, n, None);
    let fits = r.pct(85);
    let (feed, small) = (feed_size(s.codec, &s.ids), small_size(s.codec, &s.ids));
    s.cfg.mps = if fits {
        let lo = feed.max(small);
        *r.pick(&[lo, lo, (lo + 20).min(1400).max(lo), 1400.max(lo)])
    } else {
        r.range(small, feed.max(small))
    };
    let fits = s.cfg.mps >= feed;
    let spread = match r.below(4) {
        0 => 0,
        1 => s.cfg.period,
        2 => 3 * s.cfg.period,
        _ => s.cfg.period * (2 * n as u64 + 4),
    };
    let last = joins(r, &mut s, spread);
    let mut bound = s.cfg.period * (6 * n as u64 + 20);
    if let Some((f, _)) = s.cfg.pa {
        bound += f * (3 * n as u64 + 12);
    }
    s.end = last + bound;
    noise(r, &mut s, false);
    s.goal = Goal::Discover { by: s.end, feed_fits: fits };
    s
}

/// a cluster that is formed when it matters; returns that moment
fn formed(r: &mut Prng, s: &mut ClusterScn) -> u64 {
    let feed = feed_size(s.codec, &s.ids).max(small_size(s.codec, &s.ids));
    s.cfg.mps = *r.pick(&[feed, 1400.max(feed), 1400.max(feed)]);
    if r.pct(30) {
        s.incs = s.ids.iter().map(|_| *r.pick(&[0, 0, 1, 2, 5, 255, 256, 1000])).collect();
    }
    if r.pct(35) {
        s.formed = true;
        return 0;
    }
    // let the probe loops drift apart: everybody starts at a different moment
    let span = *r.pick(&[s.cfg.rtt, s.cfg.period, 3 * s.cfg.period]);
    let mut last = 0;
    for node in 0..s.ids.len() {
        let at = r.below(span);
        last = last.max(at);
        s.evs.push(CEv { at, what: What::Form { node } });
    }
    last + 1
}

pub fn c03(r: &mut Prng, nmax: u64) -> ClusterScn {
    let n = r.range(2, nmax) as usize;
    let mut s = base(r, n, None);
    let n64 = n as u64;
    let t0;
    let joined = r.pct(35);
    if joined {
        // real joins, failures possibly while they are still going on
        let feed = feed_size(s.codec, &s.ids).max(small_size(s.codec, &s.ids));
        s.cfg.mps = 1400.max(feed);
        s.cfg.max_tx = 10;
        let spread = s.cfg.period * 2;
        let last = joins(r, &mut s, spread);
        t0 = last + s.cfg.period * (2 * n64 + 2);
    } else {
        t0 = formed(r, &mut s);
    }
    let k = match r.below(3) {
        0 => 1,
        1 => r.range(1, n64),
        _ => r.range(1, (n64 / 2).max(1)),
    } as usize;
    let mut who: Vec<usize> = (0..n).collect();
    r.shuffle(&mut who);
    let early = joined && r.pct(30);
    let together = r.pct(40);
    let span = s.cfg.period * (n64 + 2);
    let start = if early { r.below(t0) } else { t0 };
    let t_all = start + r.below(span);
    let mut last = 0;
    for w in who.iter().take(k) {
        let at = if together { t_all } else { start + r.below(2 * span) };
        if r.pct(40) {
            s.evs.push(CEv { at, what: What::Leave { node: *w } });
        } else {
            s.evs.push(CEv { at, what: What::Crash { node: *w } });
        }
        last = last.max(at);
    }
    let bound = (2 * n64 + 1) * s.cfg.period + s.cfg.s2d;
    s.end = last.max(t0) + 2 * bound + s.cfg.period;
    noise(r, &mut s, true);
    s.goal = Goal::Complete { strict_from: t0 };
    // crash points at arbitrary event indices, torn sends included
    if r.pct(30) && n > 2 {
        let idx = r.range(10, 60 * n64);
        s.crash_steps.push((idx, r.us(4)));
    }
    s
}

pub fn c04(r: &mut Prng, nmax: u64) -> ClusterScn {
    // a lost datagram hurts most when nobody can help
    let n = if r.pct(35) { 2 } else { r.range(2, nmax) as usize };
    let mut s = base(r, n, None);
    let n64 = n as u64;
    s.cfg.period = *r.pick(&[1000, 1500, 3000]);
    s.cfg.rtt = s.cfg.period * *r.pick(&[1, 2, 3, 4, 5]) / 10;
    s.lat = lat(r, s.cfg.rtt);
    if let Some(x) = s.cfg.pa.as_mut() {
        x.0 = s.cfg.period * r.range(1, 10);
    }
    if let Some(x) = s.cfg.pg.as_mut() {
        x.0 = *r.pick(&[200, s.cfg.period / 2, s.cfg.period]);
    }
    s.cfg.s2d = s.cfg.period * r.range(3, 6);
    let t0 = formed(r, &mut s);
    let rot = s.cfg.period * (2 * n64 + 1);
    s.end = t0 + 2 * rot + s.cfg.s2d + s.cfg.period * (2 * n64 + 6);
    noise(r, &mut s, true);
    s.goal = Goal::SingleLoss { by: s.end, from: t0 };
    s
}

/// pick the datagram to lose: a fault-free rehearsal tells which ones there are
pub fn c04_drop(r: &mut Prng, s: &mut ClusterScn) {
    let mut probe = s.clone();
    probe.goal = Goal::Watch;
    let n64 = s.ids.len() as u64;
    let t0 = match s.goal {
        Goal::SingleLoss { from, .. } => from,
        _ => 0,
    };
    probe.end = t0 + s.cfg.period * (2 * (2 * n64 + 1));
    let mut w = World::new(&probe, "-");
    w.marks = Some(vec![]);
    let _ = w.run();
    let all = w.marks.take().unwrap();
    let mut c: Vec<(u64, &str)> = all.iter().enumerate().filter(|(_, x)| x.0 >= t0).map(|(i, x)| (i as u64, x.1)).collect();
    if r.pct(65) {
        // by kind: some are rare
        let mut kinds: Vec<&str> = c.iter().map(|x| x.1).collect();
        kinds.sort();
        kinds.dedup();
        if !kinds.is_empty() {
            let k = *r.pick(&kinds);
            c.retain(|x| x.1 == k);
        }
    }
    if !c.is_empty() {
        s.drops = vec![r.pick(&c).0];
    }
}

pub fn c05(r: &mut Prng, nmax: u64) -> ClusterScn {
    let n = r.range(3, nmax) as usize;
    let mut s = base(r, n, Some(POL_NEXT));
    let n64 = n as u64;
    s.cfg.notify_down = true;
    let pad = (s.cfg.period * r.range(1, 6), r.range(1, 2));
    s.cfg.pad = Some(pad);
    s.cfg.s2d = s.cfg.period * r.range(1, 4);
    let t0 = formed(r, &mut s) + s.cfg.period;
    let detect = (2 * n64 + 1) * s.cfg.period + s.cfg.s2d;
    let heal;
    if r.pct(20) {
        let a = r.us(n);
        let mut b = r.us(n);
        if a == b {
            b = (a + 1) % n;
        }
        let at = t0 + r.below(s.cfg.period * 3);
        s.evs.push(CEv { at, what: What::FalseDown { at: a, about: b } });
        heal = at;
    } else {
        // every split shape; at least one side keeps two or more
        let mut mask;
        loop {
            mask = r.below(1 << n);
            if mask != 0 && mask != (1 << n) - 1 {
                break;
            }
        }
        let at = t0 + r.below(s.cfg.period);
        s.evs.push(CEv { at, what: What::Partition { mask } });
        heal = at + detect + s.cfg.period + r.below(3 * pad.0 + s.cfg.period);
        s.evs.push(CEv { at: heal, what: What::Heal });
    }
    let bound = detect + (pad.0 + s.cfg.period) * (14 + 4 * n64);
    let mut heal = heal;
    if r.pct(10) {
        // and all over again, perhaps split differently
        let at = heal + bound;
        let mask = r.range(1, (1 << n) - 2);
        s.evs.push(CEv { at, what: What::Partition { mask } });
        heal = at + detect + s.cfg.period + r.below(3 * pad.0 + s.cfg.period);
        s.evs.push(CEv { at: heal, what: What::Heal });
    }
    s.end = heal + bound;
    noise(r, &mut s, true);
    s.goal = Goal::Rejoin { by: s.end, from: heal };
    s
}

/// anything may happen: only the per-instance monitors judge
pub fn chaos(r: &mut Prng, nmax: u64) -> ClusterScn {
    let n = r.range(2, nmax) as usize;
    let mut s = base(r, n, None);
    s.spec = gen_spec(r);
    if matches!(s.spec.rel, Rel::Never | Rel::Version | Rel::Ge) && s.spec.accept != Accept::Refuse {
        // a handler that finds everything new would multiply its own echoes without end
        s.spec.accept = Accept::Unseen;
    }
    let small = small_size(s.codec, &s.ids);
    s.cfg.mps = *r.pick(&[small, small + 10, small + 40, 1400.max(small)]);
    s.cfg.rd = *r.pick(&[s.cfg.period * 3, s.cfg.period * 20, 86_400_000]);
    s.cfg.s2d = *r.pick(&[s.cfg.period / 2, s.cfg.period, s.cfg.period * 4]);
    s.lat = (0, *r.pick(&[1, s.cfg.rtt / 4, s.cfg.rtt, s.cfg.period]));
    let p = s.cfg.period;
    if r.pct(40) {
        s.formed = true;
    } else {
        joins(r, &mut s, p * 3);
    }
    s.end = p * r.range(8, 40);
    let t = |r: &mut Prng| r.below(s.end);
    let mut evs = vec![];
    if r.pct(50) {
        for _ in 0..r.range(1, 3) {
            let at = t(r);
            let node = r.us(n);
            evs.push(CEv { at: at / 2, what: What::Checkpoint { node } });
            evs.push(CEv { at, what: What::Crash { node } });
            if r.pct(70) {
                evs.push(CEv {
                    at: at + r.below(p * 6),
                    what: What::Restart { node, renew: r.pct(50), restore: r.pct(40), via: if r.pct(80) { Some(r.us(n)) } else { None } },
                });
            }
        }
    }
    if r.pct(40) {
        let at = t(r);
        evs.push(CEv { at, what: What::Partition { mask: r.below(1 << n) } });
        evs.push(CEv { at: at + r.below(p * 12), what: What::Heal });
    }
    if r.pct(20) {
        let at = t(r);
        evs.push(CEv { at, what: What::Cut { from: r.us(n), to: r.us(n) } });
    }
    if r.pct(30) {
        evs.push(CEv { at: t(r), what: What::Pause { node: r.us(n), ms: r.below(p * 8) } });
    }
    if r.pct(20) {
        let ms = r.below(p * 4) as i64;
        evs.push(CEv { at: t(r), what: What::Jump { node: r.us(n), ms: if r.pct(50) { ms } else { -ms } } });
    }
    if r.pct(30) {
        evs.push(CEv { at: t(r), what: What::Leave { node: r.us(n) } });
    }
    if r.pct(30) {
        evs.push(CEv { at: t(r), what: What::FalseDown { at: r.us(n), about: r.us(n) } });
    }
    for _ in 0..r.below(12) {
        let node = r.us(n);
        let op = match r.below(8) {
            0 => Op::Gossip,
            1 | 2 => Op::Broadcast,
            3 | 4 => {
                let mut d: Vec<u8> = (0..r.range(1, 20)).map(|_| r.next() as u8).collect();
                d[0] &= 0x33;
                Op::AddBroadcast(Hex(d))
            }
            5 => Op::Reuse,
            6 => Op::ChangeId(Id { gen: s.ids[node].gen + 3 + r.below(4) as u16, ..s.ids[node] }),
            _ => {
                let i = *r.pick(&s.ids);
                Op::ApplyMany(vec![mem(i, r.below(3) as u16, *r.pick(&[State::Alive, State::Suspect]))], r.pct(50))
            }
        };
        evs.push(CEv { at: t(r), what: What::Api { node, op } });
    }
    for (f, pc) in [
        (NetFault::Loss, 35),
        (NetFault::Dup, 25),
        (NetFault::Delay(p * 2), 25),
        (NetFault::Corrupt, 15),
        (NetFault::Truncate, 10),
    ] {
        if r.pct(pc) {
            let from = t(r);
            s.wins.push(Win { from, to: from + r.below(p * 15), pct: *r.pick(&[2, 10, 30, 80]), f });
        }
    }
    if r.pct(25) {
        for i in 0..n {
            s.skew.push((i, *r.pick(&[900, 990, 1000, 1010, 1100, 2000])));
        }
    }
    evs.sort_by_key(|e| e.at);
    s.evs.extend(evs);
    s
}

pub fn make(prop: &str, seed: u64, nmax: u64) -> ClusterScn {
    let mut r = Prng::new(hash_all(&[seed, 77]));
    match prop {
        "C02" => c02(&mut r, nmax),
        "C03" => c03(&mut r, nmax),
        "C04" => {
            let mut s = c04(&mut r, nmax);
            c04_drop(&mut r, &mut s);
            s
        }
        "C05" => c05(&mut r, nmax),
        _ => chaos(&mut r, nmax),
    }
}
pub fn explore(prop: &str, seed: u64, nmax: u64, st: &mut Stats) -> (ClusterScn, Check) {
    let s = make(prop, seed, nmax);
    let c = run(&s, prop, st);
    (s, c)
}
