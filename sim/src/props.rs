//! Which scenarios decide which property, and how one run is made from (property, tier, seed, run number).
use crate::c20;
use crate::cgen;
use crate::cluster::{self, ClusterScn, Goal, What};
use crate::extreme::{self, BigScn, ConsScn};
use crate::inst::{guarded, LAST_PANIC};
use crate::multi::*;
use crate::prng::{hash_all, Prng};
use crate::solo::{self, SOp, SoloScn, Stats};
use crate::types::*;
use serde::{Deserialize, Serialize};

pub const PROPS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Scenario {
    Solo(SoloScn),
    Cluster(ClusterScn),
    Perm(PermScn),
    Pair(PairScn),
    Twin(TwinScn),
    Cascade(CascadeScn),
    Codec(c20::CodecScn),
    Cons(ConsScn),
    Big(BigScn),
    Sock(crate::sock::SockScn),
    /// the same cluster run twice, in this process and in another one, has to give the same history
    Again { inner: Box<Scenario> },
    /// a pinned input, see KNOWN_FINDINGS
    Finding { id: String },
    /// not (yet) written out: the run that aborted or never ended
    Seeded { prop: String, tier: String, seed: u64, run: u64 },
}
impl Scenario {
    pub fn name(&self) -> &'static str {
        match self {
            Scenario::Solo(_) => "solo",
            Scenario::Cluster(_) => "cluster",
            Scenario::Perm(_) => "replicas",
            Scenario::Pair(_) => "exchange",
            Scenario::Twin(_) => "twins",
            Scenario::Cascade(_) => "cascade",
            Scenario::Codec(_) => "codec",
            Scenario::Cons(_) => "constructors",
            Scenario::Big(_) => "huge",
            Scenario::Sock(_) => "sockets",
            Scenario::Again { .. } => "again",
            Scenario::Finding { .. } => "pinned",
            Scenario::Seeded { .. } => "seeded",
        }
    }
}

/// monitors of another property that stand in for this one in single-instance runs
fn mon_of(prop: &str) -> &str {
    match prop {
        "C20" => "C07",
        "C17" | "C18" => "-",
        p => p,
    }
}
fn relabel(prop: &str, c: Check) -> Check {
    c.map_err(|mut v| {
        v.prop = prop.to_string();
        v
    })
}
/// Execute a scenario. Everything is decided by its contents.
pub fn run(s: &Scenario, prop: &str, st: &mut Stats) -> Check {
    STRICT.with(|s| s.set(prop == "C06"));
    relabel(prop, run0(s, prop, st))
}
fn run0(s: &Scenario, prop: &str, st: &mut Stats) -> Check {
    match s {
        Scenario::Solo(s) => solo::run(s, mon_of(prop), st),
        Scenario::Cluster(s) => cluster::run(s, mon_of(prop), st),
        Scenario::Perm(s) => run_perm(s, prop, st),
        Scenario::Pair(s) => run_pair(s, prop, st),
        Scenario::Twin(s) => run_twin(s, prop, st),
        Scenario::Cascade(s) => run_cascade(s, prop, st),
        Scenario::Codec(s) => c20::run(s, prop, st),
        Scenario::Cons(s) => extreme::run_cons(s, prop, st),
        Scenario::Big(s) => extreme::run_big(s, prop, st),
        Scenario::Sock(s) => crate::sock::run(s, prop, st),
        Scenario::Again { inner } => {
            run0(inner, prop, st)?;
            let mut b = Stats::default();
            run0(inner, prop, &mut b)?;
            st.add("probe_histories_repeated", 1);
            same_again(prop, st.digest, b.digest)
        }
        Scenario::Finding { id } => match (id.as_str(), c20::finding_unlimited_bincode()) {
            ("bincode-unlimited", Some(m)) => Err(viol(prop, id, m)),
            _ => Ok(()),
        },
        Scenario::Seeded { prop, tier, seed, run } => explore(prop, tier, *seed, *run, st).1,
    }
}
pub fn same_again(prop: &str, a: u64, b: u64) -> Check {
    if a != b {
        return Err(viol(prop, "nondeterministic", format!("the same calls with the same seed gave two different histories (digests {a:016x} and {b:016x})")));
    }
    Ok(())
}

/// Make and execute run number `i`. A panic of anything but foca itself is reported too: nothing on a healthy tree gets here.
pub fn explore(prop: &str, tier: &str, seed: u64, i: u64, st: &mut Stats) -> (Scenario, Check) {
    STRICT.with(|s| s.set(prop == "C06"));
    let mut stt = Stats::default();
    let r = guarded(|| {
        let mut st = Stats::default();
        let x = explore0(prop, tier, seed, i, &mut st);
        (x, st)
    });
    let (s, c) = match r {
        Ok((x, s)) => {
            stt = s;
            x
        }
        Err(_) => {
            let m = LAST_PANIC.with(|l| l.borrow().clone());
            (
                Scenario::Seeded { prop: prop.into(), tier: tier.into(), seed, run: i },
                Err(viol(prop, "panic", format!("panicked outside of a guarded call: {m}"))),
            )
        }
    };
    stt.add(&format!("runs_{}", s.name()), 1);
    *st = stt;
    (s, relabel(prop, c))
}

fn explore0(prop: &str, tier: &str, seed: u64, i: u64, st: &mut Stats) -> (Scenario, Check) {
    let thorough = tier == "thorough";
    let mut r = Prng::new(hash_all(&[seed, i, prop[1..].parse().unwrap_or(0), 0x51]));
    let go = |s: Scenario, st: &mut Stats| {
        let c = run0(&s, prop, st);
        (s, c)
    };
    match prop {
        "C02" | "C03" | "C04" | "C05" => {
            let nmax = match (thorough, prop) {
                (false, "C05") => 9,
                (false, _) => 10,
                (true, "C05") => 12,
                (true, _) => 16,
            };
            go(Scenario::Cluster(cgen::make(prop, r.next(), nmax)), st)
        }
        "C20" => {
            if r.pct(75) {
                return go(Scenario::Codec(c20::gen(&mut r)), st);
            }
            let mut p = solo::base_profile(&mut r);
            solo::swarm(&mut p, &mut r);
            p.bundled = true;
            p.naddr = r.range(3, 30);
            p.max_updates = 12;
            p.tailmax = *r.pick(&[0, 3, 9, 40]);
            p.p_down = p.p_down.min(15);
            p.tight = r.pct(15);
            let (s, c) = solo::explore("C07", r.next(), p, true, st);
            (Scenario::Solo(s), c)
        }
        "C18" => go(Scenario::Cascade(gen_cascade(&mut r)), st),
        "C17" => {
            if r.pct(92) {
                go(Scenario::Twin(gen_twin(&mut r)), st)
            } else {
                go(Scenario::Again { inner: Box::new(Scenario::Cluster(cgen::make("-", r.next(), 6))) }, st)
            }
        }
        "C06" if i < 6 || r.pct(1) => {
            if i < 2 || (i >= 6 && r.pct(60)) {
                go(Scenario::Cons(extreme::gen_cons(&mut r, i)), st)
            } else if i < 6 || (thorough && r.pct(2)) {
                go(Scenario::Big(extreme::gen_big(&mut r, !thorough)), st)
            } else {
                go(Scenario::Cons(extreme::gen_cons(&mut r, i)), st)
            }
        }
        "C06" | "C07" | "C09" | "C10" | "C16" | "C19" if r.pct(if prop == "C06" { 3 } else { 1 }) => go(Scenario::Sock(crate::sock::gen(&mut r)), st),
        "C07" if i < 4 || (thorough && r.below(20_000) == 0) => go(Scenario::Big(extreme::gen_big(&mut r, !thorough)), st),
        "C01" if r.pct(45) => go(Scenario::Perm(gen_perm(&mut r)), st),
        "C01" if r.pct(35) => go(Scenario::Pair(gen_pair(&mut r)), st),
        _ => {
            let chaos = match prop {
                "C14" => 3,
                _ => 6,
            };
            if r.pct(chaos) {
                return go(Scenario::Cluster(cgen::make(prop, r.next(), if thorough { 9 } else { 6 })), st);
            }
            let mut p = solo::base_profile(&mut r);
            solo::swarm(&mut p, &mut r);
            let mut in_order = r.pct(50);
            if !in_order {
                p.w_fire_any = 15;
            }
            if thorough && r.pct(20) {
                p.steps = r.range(100, 600);
            }
            match prop {
                "C06" => {
                    p.extreme = r.pct(75);
                    p.w_refire = *r.pick(&[0, 5, 15]);
                    p.w_craft = *r.pick(&[0, 5, 20]);
                    p.w_bad = *r.pick(&[3, 10, 40]);
                    p.p_hi_inc = *r.pick(&[8, 8, 40]);
                    p.cfg_tx = true;
                    p.acc_pct = 20;
                    if p.w_refire + p.w_craft > 0 {
                        in_order = false;
                    }
                }
                "C08" => p.acc_pct = 40,
                // what was accepted keeps the number of transmissions it was accepted with
                "C15" | "C16" => p.cfg_tx = r.pct(40),
                "C07" => {
                    if r.pct(25) {
                        p.naddr = r.range(5, 30);
                        p.max_updates = 12;
                    } else if r.pct(25) {
                        p.tight = true;
                        p.w_addb *= 3;
                    }
                }
                "C14" => {
                    if r.pct(75) {
                        p.stable = true;
                        in_order = true;
                        p.w_fire_any = 0;
                        p.naddr = if r.pct(80) { r.range(1, 12) } else if r.pct(97) { r.range(10, 40) } else { r.range(40, 150) };
                        p.gens = 1;
                        p.max_updates = if p.naddr > 40 { 100 } else { *r.pick(&[5, 12]) };
                    }
                }
                _ => {}
            }
            if !p.stable && r.below(1000) < 5 {
                solo::crowd(&mut p, &mut r);
            } else if !p.stable && r.below(1000) < if matches!(prop, "C11" | "C13") { 12 } else { 4 } {
                // long enough for every 8-bit counter to wrap
                let epochs = matches!(prop, "C06" | "C11" | "C13");
                solo::marathon(&mut p, &mut r, epochs);
                if prop != "C06" {
                    p.max_epochs = if p.cycle != [0; 3] { 240 } else { 200 };
                    in_order |= r.pct(60);
                }
                in_order &= !p.hoard;
                if in_order {
                    p.w_fire_any = 0;
                }
            }
            let (s, c) = solo::explore(mon_of(prop), r.next(), p, in_order, st);
            (Scenario::Solo(s), c)
        }
    }
}

// ------------------------------------------------------------------------------- minimisation
/// sizes of the lists of a scenario from which elements may be taken away without leaving the property's domain
pub fn lists(s: &Scenario) -> Vec<usize> {
    match s {
        Scenario::Solo(s) => {
            let mut v = vec![s.ops.len()];
            for o in &s.ops {
                if let SOp::Do(Op::ApplyMany(u, _)) = o {
                    v.push(u.len());
                }
            }
            v
        }
        Scenario::Cluster(s) => vec![s.drops.len(), s.crash_steps.len(), s.wins.len(), s.skew.len(), s.evs.len()],
        Scenario::Perm(s) => {
            let mut v = vec![s.plans.len(), s.upd.len()];
            v.extend(s.plans.iter().map(|p| p.len()));
            v
        }
        Scenario::Pair(s) => vec![s.a.ops.len(), s.b.ops.len()],
        Scenario::Twin(s) => vec![s.base.ops.len(), s.ins.len()],
        Scenario::Cascade(s) => vec![s.prep.len(), if let First::Msg { members, .. } = &s.first { members.len() } else { 0 }],
        Scenario::Codec(s) => vec![s.items.len(), s.corrupt.len(), s.trail.0.len(), s.junk.0.len()],
        Scenario::Big(s) => vec![s.ops.len()],
        Scenario::Sock(s) => vec![s.ops.len()],
        _ => vec![],
    }
}
/// the scenario without elements from..from+n of list `w`
pub fn cut(s: &Scenario, w: usize, from: usize, n: usize) -> Option<Scenario> {
    fn rm<T>(v: &mut Vec<T>, from: usize, n: usize) {
        v.drain(from..from + n);
    }
    let mut x = s.clone();
    match &mut x {
        Scenario::Solo(s) => {
            if w == 0 {
                rm(&mut s.ops, from, n);
            } else {
                let mut k = 0;
                for o in s.ops.iter_mut() {
                    if let SOp::Do(Op::ApplyMany(u, _)) = o {
                        k += 1;
                        if k == w {
                            rm(u, from, n);
                            break;
                        }
                    }
                }
            }
        }
        Scenario::Cluster(s) => match w {
            0 => rm(&mut s.drops, from, n),
            1 => rm(&mut s.crash_steps, from, n),
            2 => rm(&mut s.wins, from, n),
            3 => rm(&mut s.skew, from, n),
            _ => {
                if s.goal != Goal::Watch {
                    // what makes the goal attainable has to stay
                    let keep = |e: &What| matches!(e, What::Join { .. } | What::Form { .. } | What::Heal | What::Partition { .. } | What::Restart { .. });
                    if s.evs[from..from + n].iter().any(|e| keep(&e.what)) {
                        return None;
                    }
                }
                rm(&mut s.evs, from, n)
            }
        },
        Scenario::Perm(s) => match w {
            0 => rm(&mut s.plans, from, n),
            1 => {
                rm(&mut s.upd, from, n);
                for p in s.plans.iter_mut() {
                    for (c, _) in p.iter_mut() {
                        c.retain(|i| *i < from || *i >= from + n);
                        for i in c.iter_mut() {
                            if *i >= from + n {
                                *i -= n;
                            }
                        }
                    }
                }
            }
            // merging chunks keeps every update: only neighbours of the same kind can be joined
            k => {
                let p = &mut s.plans[k - 2];
                if n != 1 || from + 1 >= p.len() || p[from].1 != p[from + 1].1 {
                    return None;
                }
                let nx = p.remove(from + 1).0;
                p[from].0.extend(nx);
            }
        },
        Scenario::Pair(s) => rm(if w == 0 { &mut s.a.ops } else { &mut s.b.ops }, from, n),
        Scenario::Twin(s) => {
            if w == 0 {
                rm(&mut s.base.ops, from, n);
                for (k, _) in s.ins.iter_mut() {
                    if *k >= from + n {
                        *k -= n;
                    } else if *k > from {
                        *k = from;
                    }
                }
            } else {
                rm(&mut s.ins, from, n)
            }
        }
        Scenario::Cascade(s) => {
            if w == 0 {
                rm(&mut s.prep, from, n)
            } else if let First::Msg { members, .. } = &mut s.first {
                rm(members, from, n)
            }
        }
        Scenario::Codec(s) => match w {
            0 => {
                rm(&mut s.items, from, n);
                if s.items.is_empty() {
                    return None;
                }
            }
            1 => rm(&mut s.corrupt, from, n),
            2 => rm(&mut s.trail.0, from, n),
            _ => rm(&mut s.junk.0, from, n),
        },
        Scenario::Big(s) => rm(&mut s.ops, from, n),
        Scenario::Sock(s) => rm(&mut s.ops, from, n),
        _ => return None,
    }
    Some(x)
}
/// whole-scenario simplifications tried once
fn simpler(s: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    match s {
        Scenario::Solo(s) => {
            if s.use_acc {
                v.push(Scenario::Solo(SoloScn { use_acc: false, ..s.clone() }));
            }
            for f in 0..3 {
                let mut x = s.clone();
                match f {
                    0 => x.cfg.pa = None,
                    1 => x.cfg.pad = None,
                    _ => x.cfg.pg = None,
                }
                if x != *s {
                    v.push(Scenario::Solo(x));
                }
            }
        }
        Scenario::Again { .. } => {}
        _ => {}
    }
    v
}
/// Delta debugging: the smallest scenario found within `ms` that still breaks the property the same way.
pub fn minimise(s: Scenario, v: Violation, prop: &str, ms: u64) -> (Scenario, Violation, u64) {
    let t0 = std::time::Instant::now();
    let mut best = (s, v);
    let mut tries = 0;
    let mut attempt = |x: &Scenario, class: &str| -> Option<Violation> {
        let r = guarded(|| {
            let mut st = Stats::default();
            run(x, prop, &mut st)
        });
        match r {
            Ok(Err(v)) if v.class == class => Some(v),
            _ => None,
        }
    };
    let over = || t0.elapsed().as_millis() as u64 > ms;
    loop {
        let mut progress = false;
        for x in simpler(&best.0) {
            tries += 1;
            if let Some(v) = attempt(&x, &best.1.class) {
                best = (x, v);
                progress = true;
            }
            if over() {
                return (best.0, best.1, tries);
            }
        }
        let mut w = 0;
        while w < lists(&best.0).len() {
            let mut n = lists(&best.0)[w];
            while n >= 1 {
                // from the end: later elements matter least
                let mut from = lists(&best.0).get(w).copied().unwrap_or(0);
                while from > 0 {
                    if over() {
                        return (best.0, best.1, tries);
                    }
                    let lo = from.saturating_sub(n);
                    if let Some(x) = cut(&best.0, w, lo, from - lo) {
                        tries += 1;
                        if let Some(v) = attempt(&x, &best.1.class) {
                            best = (x, v);
                            progress = true;
                        }
                    }
                    from = lo.min(lists(&best.0).get(w).copied().unwrap_or(0));
                }
                n /= 2;
            }
            w += 1;
        }
        if !progress {
            return (best.0, best.1, tries);
        }
    }
}

/// everything the given property's check had executed, in words
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "seeded runs: a multiset of updates delivered to several replicas in different orders, chunkings, duplications and transports (apply_many, Gossip, Feed, sender header) against an executable join-semilattice model; pairs of instances with independent histories exchanging full states; adversarial single-instance histories and faulty clusters with every record change checked against the precedence order. Non-trivial: more than one update / at least one record compared / at least one effect produced",
        "C02" => "seeded fault-free clusters (2..nmax instances, random configuration, codec, packet size, join order and moments, latencies within probe_rtt); non-trivial: at least one datagram sent",
        "C03" => "seeded clusters in which members crash (also in the middle of a call, with part of its datagrams sent) or leave; non-trivial: at least one datagram sent",
        "C04" => "seeded formed clusters in which one chosen datagram (uniform over the run or over one message kind) is lost; non-trivial: at least one datagram sent",
        "C05" => "seeded clusters of renewable identities partitioned until both sides declared each other Down, then healed; non-trivial: at least one datagram sent",
        "C18" => "seeded instances with arbitrary earlier histories; one datagram is injected with timers held and all replies are delivered in a random order until silence; non-trivial: at least one reply",
        "C17" => "seeded single-instance histories executed twice, once with inputs that must be rejected inserted at random places, compared effect by effect; whole clusters executed twice; and the first runs executed again in a second process. Non-trivial: at least one insertion",
        "C20" => "seeded values of nine identity types through five codec configurations with trailing data, short output buffers, every truncation, corruption and random bytes; plus single-instance histories with bundled codecs and tight packets. Non-trivial: at least one value decoded / one effect produced",
        _ => "seeded single-instance histories against an adversarial environment (valid, corrupted and random datagrams, late / reordered / duplicated timers, API calls, reconfiguration) and whole clusters under loss, duplication, delay, corruption, partitions, crashes, restarts, pauses and clock jumps, every step judged by the property's monitor. Non-trivial: at least one effect was produced",
    }
}
