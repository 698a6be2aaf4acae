//! One real instance in a simulated adversarial world.
use crate::inst::*;
use crate::mon::{make, MonOpts, Monitor};
use crate::prng::Prng;
use crate::types::*;
use crate::wire::*;
use foca::{Message, State, Timer};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    Do(Op),
    /// fire the k-th outstanding timer in deadline order (0 = the next one), modulo their number
    Fire(u32),
    /// let the clock run without delivering anything: timers get late
    Late(u64),
    /// deliver again a timer that already fired
    Refire(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SoloScn {
    pub id: Id,
    pub cfg: Cfg,
    pub codec: CodecKind,
    pub spec: HSpec,
    pub seed: u64,
    pub use_acc: bool,
    /// timers are only ever delivered in deadline order, each exactly once
    pub in_order: bool,
    pub ops: Vec<SOp>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub c: BTreeMap<String, u64>,
    pub sim_ms: u64,
    pub digest: u64,
    pub steps: u64,
    pub nontrivial: bool,
    /// distinct step shapes, see `shape`
    pub shapes: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v == 0 {
            return;
        }
        if let Some(x) = self.c.get_mut(k) {
            *x += v;
        } else {
            self.c.insert(k.to_string(), v);
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.c {
            if k.starts_with("max_") {
                let e = self.c.entry(k.clone()).or_default();
                *e = (*e).max(*v);
            } else {
                self.add(k, *v);
            }
        }
        self.sim_ms += o.sim_ms;
        self.steps += o.steps;
        self.shapes.extend(o.shapes.iter());
    }
}

pub struct Solo {
    pub inst: Inst,
    pub now: u64,
    /// (deadline, seq, timer)
    pub out: Vec<(u64, u64, T)>,
    seq: u64,
    pub fired: Vec<T>,
    pub mons: Vec<Box<dyn Monitor>>,
    pub st: Stats,
    in_order: bool,
    /// last Ping sent: target, number
    pub ping: Option<(Id, u8)>,
    pub asked: Vec<Id>,
    pub my_inc: u16,
    pub last: Option<Step>,
}

impl Solo {
    pub fn new(s: &SoloScn, prop: &str) -> Solo {
        let mut inst = Inst::new(s.id, s.cfg.clone(), s.codec, s.spec, s.seed);
        inst.use_acc = s.use_acc;
        Solo {
            inst,
            now: 0,
            out: vec![],
            seq: 0,
            fired: vec![],
            mons: make(prop, MonOpts { in_order: s.in_order, spec: s.spec }),
            st: Stats::default(),
            in_order: s.in_order,
            ping: None,
            asked: vec![],
            my_inc: 0,
            last: None,
        }
    }
    pub fn apply(&mut self, o: &SOp) -> Check {
        let op = match o {
            SOp::Do(op) => op.clone(),
            SOp::Late(ms) => {
                self.now = self.now.saturating_add(*ms);
                self.st.add("timers_delayed", 1);
                return Ok(());
            }
            SOp::Fire(k) => {
                if self.out.is_empty() {
                    return Ok(());
                }
                let k = (*k as usize) % self.out.len();
                if k > 0 {
                    if self.in_order {
                        return Ok(());
                    }
                    self.st.add("timers_out_of_order", 1);
                }
                let (d, _, t) = self.out.remove(k);
                self.now = self.now.max(d);
                if self.fired.len() < 400 {
                    self.fired.push(t.clone());
                }
                Op::Timer(t)
            }
            SOp::Refire(k) => {
                if self.fired.is_empty() || self.in_order {
                    return Ok(());
                }
                self.st.add("timers_duplicated", 1);
                Op::Timer(self.fired[*k as usize % self.fired.len()].clone())
            }
        };
        if self.inst.dead {
            return Ok(());
        }
        let s = self.inst.exec(op);
        self.st.steps += 1;
        self.st.digest = digest(self.st.digest, &s);
        self.st.shapes.insert(shape(&s));
        self.st.add(&format!("op_{}", s.op.kind()), 1);
        if let Some(c) = &s.inp {
            let k = match c {
                InClass::TooBig => "in_too_big",
                InClass::BadHeader => "in_bad_header",
                InClass::FromSelf => "in_from_self",
                InClass::BadFraming => "in_bad_framing",
                InClass::NotForUs => "in_not_for_us",
                InClass::BadMembers => "in_bad_members",
                InClass::Ok(_) => "in_processed",
            };
            self.st.add(k, 1);
        }
        if !s.eff.is_empty() {
            self.st.nontrivial = true;
        }
        for e in &s.eff {
            match e {
                Eff::Timer { t, after } => {
                    let d = self.now.saturating_add(u64::try_from(after.as_millis()).unwrap_or(u64::MAX));
                    self.seq += 1;
                    let e = (d, self.seq, t.clone());
                    let pos = self
                        .out
                        .partition_point(|x| x.0 < e.0 || (x.0 == e.0 && (x.2.cmp(&e.2), x.1).lt(&(std::cmp::Ordering::Equal, e.1))));
                    self.out.insert(pos, e);
                }
                Eff::Send { to, pkt: Ok(p), .. } => {
                    if p.hdr.src == s.post.id {
                        self.my_inc = p.hdr.src_incarnation;
                    }
                    match p.hdr.message {
                        Message::Ping(n) => {
                            self.ping = Some((*to, n));
                            self.asked.clear();
                        }
                        Message::PingReq { .. } => self.asked.push(*to),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        if s.pre.id != s.post.id {
            self.my_inc = 0;
        }
        for m in self.mons.iter_mut() {
            m.step(&s)?;
        }
        self.last = Some(s);
        Ok(())
    }
    pub fn finish(mut self) -> Stats {
        self.st.sim_ms = crate::solo::sane(self.now);
        let mut o = BTreeMap::new();
        for m in &self.mons {
            m.probes(&mut o);
        }
        for (k, v) in o {
            self.st.add(&format!("probe_{k}"), v);
        }
        self.st
    }
}

/// clocks that ran into absurd deadlines don't count as simulated time
pub fn sane(ms: u64) -> u64 {
    if ms > 365 * 86_400_000 {
        0
    } else {
        ms
    }
}

pub fn run(s: &SoloScn, prop: &str, st: &mut Stats) -> Check {
    let mut w = Solo::new(s, prop);
    let mut r = Ok(());
    for o in &s.ops {
        r = w.apply(o);
        if r.is_err() {
            break;
        }
    }
    *st = w.finish();
    r
}

// ------------------------------------------------------------------------------- generation
/// Probabilities and domains of one generated history.
#[derive(Clone, Debug)]
pub struct Profile {
    pub steps: u64,
    pub naddr: u64,
    pub gens: u64,
    pub tailmax: u8,
    pub w_data: u32,
    pub w_bad: u32,
    pub w_fire: u32,
    pub w_fire_any: u32,
    pub w_refire: u32,
    pub w_craft: u32,
    pub w_late: u32,
    pub w_announce: u32,
    pub w_gossip: u32,
    pub w_broadcast: u32,
    pub w_addb: u32,
    pub w_leave: u32,
    pub w_reuse: u32,
    pub w_change: u32,
    pub w_setcfg: u32,
    pub w_apply: u32,
    pub w_answer: u32,
    /// percentages inside generated updates
    pub p_self: u32,
    pub p_ownaddr: u32,
    pub p_down: u32,
    pub p_susp: u32,
    pub p_hi_inc: u32,
    pub p_turn: u32,
    pub p_items: u32,
    pub max_updates: u64,
    pub extreme: bool,
    /// set_config may alter
    pub cfg_tx: bool,
    pub cfg_mps: bool,
    pub acc_pct: u32,
    /// finish with a quiet phase of nothing but successful probe rounds
    pub stable: bool,
    /// only the bundled codecs
    pub bundled: bool,
    /// packet sizes that leave next to no room behind some header
    pub tight: bool,
    /// so many members, updates and items that backlogs outgrow a datagram's usual load
    pub crowd: bool,
    /// end the history after this many connection epochs (tokens are 8 bits wide)
    pub max_epochs: u32,
    /// percentage: members known as Down come back renewed
    pub climb: u32,
    /// calm and stormy phases of this many steps take turns
    pub burst: u32,
    /// timers of finished epochs stay undelivered until their token happens to be in use again
    pub hoard: bool,
    /// epochs end one right after the other, by (change of identity, leaving, losing everybody)
    pub cycle: [u32; 3],
}

pub fn base_profile(r: &mut Prng) -> Profile {
    Profile {
        steps: r.range(20, 120),
        naddr: r.range(1, 8),
        gens: r.range(1, 4),
        tailmax: *r.pick(&[0, 0, 3, 9, 40]),
        w_data: 40,
        w_bad: 3,
        w_fire: 30,
        w_fire_any: 0,
        w_refire: 0,
        w_craft: 0,
        w_late: 3,
        w_announce: 1,
        w_gossip: 3,
        w_broadcast: 2,
        w_addb: 3,
        w_leave: 1,
        w_reuse: 1,
        w_change: 1,
        w_setcfg: 1,
        w_apply: 8,
        w_answer: 15,
        p_self: 6,
        p_ownaddr: 4,
        p_down: 20,
        p_susp: 25,
        p_hi_inc: 8,
        p_turn: 5,
        p_items: 15,
        max_updates: 5,
        extreme: false,
        cfg_tx: false,
        cfg_mps: true,
        acc_pct: 0,
        stable: false,
        bundled: false,
        tight: false,
        crowd: false,
        max_epochs: u32::MAX,
        climb: 0,
        burst: 0,
        hoard: false,
        cycle: [0; 3],
    }
}

/// Swarm testing: switch whole categories off or up at random.
pub fn swarm(p: &mut Profile, r: &mut Prng) {
    for w in [
        &mut p.w_bad, &mut p.w_late, &mut p.w_announce, &mut p.w_gossip, &mut p.w_broadcast, &mut p.w_addb,
        &mut p.w_leave, &mut p.w_reuse, &mut p.w_change, &mut p.w_setcfg, &mut p.w_apply, &mut p.w_answer,
        &mut p.p_self, &mut p.p_ownaddr, &mut p.p_down, &mut p.p_susp, &mut p.p_hi_inc, &mut p.p_turn, &mut p.p_items,
    ] {
        match r.below(10) {
            0..=2 => *w = 0,
            3 => *w *= 3,
            4 => *w *= 2,
            _ => {}
        }
    }
    for w in [&mut p.p_self, &mut p.p_ownaddr, &mut p.p_down, &mut p.p_susp, &mut p.p_hi_inc, &mut p.p_turn] {
        *w = (*w).min(60);
    }
}

/// Many probe rounds (or, with `epochs`, sometimes many identity changes, exits and returns) in a single history.
pub fn marathon(p: &mut Profile, r: &mut Prng, epochs: bool) {
    p.steps = r.range(900, 1600);
    p.naddr = r.range(2, 6);
    p.w_bad = r.below(2) as u32;
    p.w_announce = r.below(2) as u32;
    p.w_apply = r.below(4) as u32;
    p.w_data = r.range(3, 12) as u32;
    if epochs && r.pct(50) {
        p.w_change = 30;
        p.w_leave = 12;
        p.w_reuse = 12;
        p.w_fire = 20;
        p.burst = *r.pick(&[0, 20, 40, 80]);
        p.hoard = r.pct(50);
        if r.pct(35) {
            p.hoard = true;
            p.burst = 0;
            p.w_fire = 1;
            p.cycle = *r.pick(&[[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 1], [1, 1, 1], [1, 1, 0], [5, 1, 1], [1, 0, 4], [0, 1, 3]]);
            p.steps = 1400;
            p.naddr = r.range(1, 3);
            return;
        }
        if r.pct(60) {
            // losing the last member and finding it again, over and over
            p.naddr = r.range(1, 2);
            p.gens = 1;
            p.climb = 40;
            p.p_down = 45;
            p.w_change = *r.pick(&[0, 3, 30]);
            p.w_leave = *r.pick(&[0, 1]);
            p.w_data = 20;
            p.w_apply = 12;
            p.w_fire = *r.pick(&[20, 40, 80]);
        }
        return;
    }
    p.w_leave = 0;
    p.w_reuse = 1;
    p.w_change = 0;
    p.w_fire = 80;
    p.w_answer = *r.pick(&[10, 30, 40]);
    p.w_gossip = *r.pick(&[0, 2, 10]);
    p.p_down = 3;
    p.p_self = r.below(2) as u32;
    p.p_ownaddr = r.below(2) as u32;
    p.p_turn = 0;
}

/// Large clusters: tens to hundreds of members learned in bulk, big datagrams, long backlogs.
pub fn crowd(p: &mut Profile, r: &mut Prng) {
    p.crowd = true;
    p.tight = false;
    p.steps = r.range(25, 100);
    p.naddr = *r.pick(&[40, 100, 100, 300, 300, 700]);
    p.gens = r.range(1, 2);
    p.max_updates = *r.pick(&[20, 100, 400]);
    p.tailmax = p.tailmax.min(9);
    p.w_data = *r.pick(&[10, 40]);
    p.w_apply = 12;
    p.w_fire = p.w_fire.max(20);
    p.w_addb = *r.pick(&[3, 30, 80]);
    p.p_items = p.p_items.max(15);
    p.p_down = p.p_down.min(20);
    p.p_turn = p.p_turn.min(1);
    p.w_announce += 2;
    p.w_gossip += 6;
    p.w_broadcast += 4;
}

pub fn token(t: &T) -> Option<u8> {
    match t {
        Timer::ProbeRandomMember(x) | Timer::PeriodicAnnounce(x) | Timer::PeriodicAnnounceDown(x) | Timer::PeriodicGossip(x) => Some(*x),
        Timer::SendIndirectProbe { token, .. } | Timer::ChangeSuspectToDown { token, .. } => Some(*token),
        Timer::RemoveDown(_) => None,
    }
}

/// smallest packet size for which no header or single member can fail to encode
pub fn min_mps(k: CodecKind, tailmax: u8) -> u64 {
    let big = id(u16::MAX, u16::MAX, 3, tailmax);
    let h = H { src: big, src_incarnation: u16::MAX, dst: big, message: Message::PingReq { target: big, probe_number: 255 } };
    (k.enc_h(&h).len() + 2 + k.enc_m(&mem(big, u16::MAX, State::Down)).len()) as u64
}

pub fn gen_cfg(r: &mut Prng, k: CodecKind, p: &Profile) -> Cfg {
    let mut c = Cfg::simple();
    c.period = *r.pick(&[300, 1000, 1500, 5000]);
    c.rtt = (c.period * r.range(1, 9) / 10).max(1);
    c.fanout = *r.pick(&[1, 1, 2, 3, 3, 5]);
    c.max_tx = *r.pick(&[1, 1, 2, 3, 5, 10, 10, 255]);
    c.s2d = *r.pick(&[c.period / 2, c.period, 2 * c.period, 3 * c.period, 10 * c.period]);
    c.rd = *r.pick(&[c.period, 3 * c.period, 15_000, 86_400_000]);
    c.mps = gen_mps(r, k, p);
    if p.crowd && r.pct(30) {
        c.fanout = r.range(8, 100);
    }
    c.notify_down = r.pct(50);
    let mut pp = |r: &mut Prng| if r.pct(30) { Some((*r.pick(&[c.period / 3 + 1, c.period, 2 * c.period, 10_000]), r.range(1, 3))) } else { None };
    c.pa = pp(r);
    c.pad = pp(r);
    c.pg = pp(r);
    if p.extreme {
        extreme_cfg(r, &mut c);
    }
    c
}
fn gen_mps(r: &mut Prng, k: CodecKind, p: &Profile) -> u64 {
    if p.tight && r.pct(80) {
        let t = |r: &mut Prng| r.below(p.tailmax as u64 + 1) as u8;
        let (a, b, c) = (id(1, 1, 0, t(r)), id(2, 1, 0, t(r)), id(3, 1, 0, t(r)));
        let message = match r.below(4) {
            0 => Message::PingReq { target: c, probe_number: 1 },
            1 => Message::Broadcast,
            _ => Message::Gossip,
        };
        return (k.enc_h(&H { src: a, src_incarnation: 1, dst: b, message }).len() as u64 + r.below(9)).max(1);
    }
    let m = min_mps(k, p.tailmax);
    if p.crowd && r.pct(85) {
        return *r.pick(&[600, 1400, 1400, 3000, 9000, 65507]);
    }
    match r.below(8) {
        0 => m,
        1 => m + r.range(1, 4),
        2 => m + r.range(5, 40),
        3 | 4 => m + r.range(20, 200),
        5 => 65507.max(m),
        _ => 1400.max(m),
    }
}
fn extreme_cfg(r: &mut Prng, c: &mut Cfg) {
    let big = [0u64, 1, 2, 1 << 31, u64::MAX / 1_000_000, u64::MAX];
    let sz = [1u64, 2, 3, 7, 20, 65534, 65535, 65536, 65537, 70000, 1 << 20, 1 << 32, 1 << 62, u64::MAX];
    for _ in 0..r.range(1, 4) {
        match r.below(10) {
            0 => c.period = *r.pick(&big),
            1 => c.rtt = *r.pick(&big),
            2 => c.fanout = *r.pick(&sz),
            3 => c.max_tx = *r.pick(&[1, 254, 255]),
            4 => c.s2d = *r.pick(&big),
            5 => c.rd = *r.pick(&big),
            6 | 7 => c.mps = *r.pick(&sz),
            8 => c.pad = Some((*r.pick(&big), *r.pick(&sz))),
            _ => {
                c.pa = Some((*r.pick(&big), *r.pick(&sz)));
                c.pg = Some((*r.pick(&big), *r.pick(&sz)));
            }
        }
    }
}

pub struct Gen {
    pub r: Prng,
    pub p: Profile,
    pub pool: Vec<Id>,
    own: Vec<Id>,
    recent: Vec<Vec<u8>>,
    n: u32,
    revive: bool,
}

impl Gen {
    pub fn new(mut r: Prng, p: Profile, me: Id) -> Gen {
        let mut pool = vec![];
        let base = if r.pct(90) { me.addr.wrapping_add(1) } else { r.next() as u16 };
        for a in 0..p.naddr {
            let mut addr = base.wrapping_add(a as u16);
            if addr == me.addr {
                addr = addr.wrapping_add(500);
            }
            let g0 = if r.pct(85) { r.below(3) as u16 } else { u16::MAX - 3 };
            for g in 0..p.gens {
                pool.push(id(addr, g0.saturating_add(g as u16), if r.pct(70) { POL_NONE } else { POL_NEXT }, r.below(p.tailmax as u64 + 1) as u8));
            }
        }
        let mut own = vec![];
        for g in 0..p.gens + 1 {
            own.push(Id { gen: me.gen.saturating_sub(1).saturating_add(g as u16), ..me });
        }
        own.push(Id { tail: r.below(p.tailmax as u64 + 1) as u8, gen: me.gen.saturating_add(1), ..me });
        pool.sort();
        pool.dedup();
        Gen { r, p, pool, own, recent: vec![], n: 0, revive: false }
    }
    fn peer_id(&mut self, v: &View) -> Id {
        if self.p.climb > 0 && !v.state.is_empty() && self.r.pct(self.p.climb) {
            let m = self.r.pick(&v.state);
            if !is_active(m) && m.id().addr != v.id.addr {
                return Id { gen: m.id().gen.saturating_add(1), ..*m.id() };
            }
        }
        if !v.state.is_empty() && self.r.pct(45) {
            let i = *self.r.pick(&v.state).id();
            if i.addr != v.id.addr {
                return i;
            }
        }
        *self.r.pick(&self.pool)
    }
    fn any_id(&mut self, v: &View) -> Id {
        if self.r.pct(self.p.p_self) {
            return v.id;
        }
        if self.r.pct(self.p.p_ownaddr) {
            return *self.r.pick(&self.own);
        }
        self.peer_id(v)
    }
    fn active_id(&mut self, v: &View) -> Id {
        if !v.active.is_empty() && self.r.pct(80) {
            return *self.r.pick(&v.active).id();
        }
        self.peer_id(v)
    }
    fn inc(&mut self, known: u16) -> u16 {
        if self.r.pct(self.p.p_hi_inc) {
            return *self.r.pick(&[u16::MAX, u16::MAX - 1, u16::MAX - 2, 1000]);
        }
        match self.r.below(10) {
            0..=3 => known,
            4 | 5 => known.saturating_add(1),
            6 => known.saturating_sub(1),
            7 => 0,
            8 => known.saturating_add(2),
            _ => self.r.below(4) as u16,
        }
    }
    fn known_inc(&self, i: &Id, v: &View, my: u16) -> u16 {
        if *i == v.id {
            return my;
        }
        v.state.iter().find(|m| m.id() == i).map(|m| m.incarnation()).unwrap_or(0)
    }
    pub fn update(&mut self, v: &View, my: u16) -> M {
        let i = self.any_id(v);
        let k = self.known_inc(&i, v, my);
        let inc = self.inc(k);
        let x = self.r.below(100) as u32;
        let st = if x < self.p.p_down {
            State::Down
        } else if x < self.p.p_down + self.p.p_susp {
            State::Suspect
        } else {
            State::Alive
        };
        mem(i, inc, st)
    }
    fn updates(&mut self, v: &View, my: u16) -> Vec<M> {
        let n = self.r.below(self.p.max_updates + 1);
        let mut u: Vec<M> = (0..n).map(|_| self.update(v, my)).collect();
        if u.len() > 1 && self.r.pct(15) {
            let x = u[0].clone();
            u.push(x);
        }
        u
    }
    fn item(&mut self, cfg: &Cfg) -> Vec<u8> {
        let n = match self.r.below(12) {
            0 => 1,
            _ if (self.p.tight || self.p.crowd) && self.r.pct(60) => self.r.range(1, 4),
            1..=7 => self.r.range(2, 8),
            8 | 9 => self.r.range(8, 40),
            10 => self.r.range(1, cfg.mps.min(1500)),
            _ => {
                if self.p.extreme {
                    *self.r.pick(&[65534, 65535, 65536, 65537, 70000])
                } else {
                    self.r.range(1, cfg.mps.min(300))
                }
            }
        };
        let keys = if self.p.crowd { 16 } else { 3 };
        let mut d = vec![(self.r.below(keys) as u8) << 4 | self.r.below(keys) as u8; n as usize];
        if n > 1 {
            d[1] = self.r.below(4) as u8;
        }
        if n < 5000 {
            for b in d.iter_mut().skip(2) {
                *b = self.r.next() as u8;
            }
        }
        d
    }
    fn message(&mut self, w: &Solo, v: &View, src: &mut Id) -> Msg {
        if self.r.pct(self.p.p_turn) {
            return Message::TurnUndead;
        }
        let n = w.ping.map(|p| p.1).unwrap_or(0);
        let num = |r: &mut Prng| match r.below(6) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            2 => r.next() as u8,
            _ => n,
        };
        match self.r.below(14) {
            0 | 1 => Message::Ping(self.r.next() as u8),
            2 => {
                if let (Some((t, _)), true) = (w.ping, self.r.pct(75)) {
                    if t.addr != v.id.addr {
                        *src = t;
                    }
                }
                Message::Ack(num(&mut self.r))
            }
            3 => Message::PingReq { target: self.target(v), probe_number: self.r.next() as u8 },
            4 => Message::IndirectPing { origin: self.target(v), probe_number: self.r.next() as u8 },
            5 => Message::IndirectAck { target: self.target(v), probe_number: num(&mut self.r) },
            6 | 7 => {
                if !w.asked.is_empty() && self.r.pct(75) {
                    let a = *self.r.pick(&w.asked);
                    if a.addr != v.id.addr {
                        *src = a;
                    }
                }
                let origin = match (w.ping, self.r.pct(75)) {
                    (Some((t, _)), true) => t,
                    _ => self.target(v),
                };
                Message::ForwardedAck { origin, probe_number: num(&mut self.r) }
            }
            8 | 9 => Message::Announce,
            10 => Message::Feed,
            11 => Message::Broadcast,
            _ => Message::Gossip,
        }
    }
    fn target(&mut self, v: &View) -> Id {
        if self.r.pct(12) {
            v.id
        } else {
            self.any_id(v)
        }
    }
    /// a datagram a peer could have produced
    pub fn data(&mut self, w: &Solo, v: &View) -> Vec<u8> {
        if !self.recent.is_empty() && self.r.pct(6) {
            return self.r.pick(&self.recent).clone();
        }
        let mut src = if self.r.pct(75) { self.active_id(v) } else { self.peer_id(v) };
        let message = self.message(w, v, &mut src);
        let dst = match self.r.below(40) {
            0 => *self.r.pick(&self.own),
            _ => v.id,
        };
        let k = self.known_inc(&src, v, 0);
        let si = if self.r.pct(60) { k } else { self.inc(k) };
        let h = H { src, src_incarnation: si, dst, message };
        self.assemble(w, v, h)
    }
    fn assemble(&mut self, w: &Solo, v: &View, h: H) -> Vec<u8> {
        let codec = w.inst.codec;
        let mps = w.inst.cfg.mps as usize;
        let hl = codec.enc_h(&h).len();
        let mut room = mps.saturating_sub(hl);
        let mut ms = vec![];
        let section = has_members(&h.message) && room > 2;
        if section {
            room -= 2;
            for m in self.updates(v, w.my_inc) {
                let l = codec.m_len(&m);
                if l <= room {
                    room -= l;
                    ms.push(m);
                }
            }
        }
        let mut items = vec![];
        if may_carry_custom(&h.message) && self.r.pct(self.p.p_items) {
            let most = if self.p.crowd { *self.r.pick(&[3, 20, 150]) } else { 3 };
            for _ in 0..self.r.range(1, most) {
                let i = self.item(&w.inst.cfg);
                if i.len() + 2 <= room && i.len() <= 65535 {
                    room -= i.len() + 2;
                    items.push(i);
                }
            }
        }
        let section = section && !(ms.is_empty() && items.is_empty() && self.r.pct(15));
        let d = build(codec, &h, if section { Some(&ms) } else { None }, &items);
        if self.recent.len() < 12 {
            self.recent.push(d.clone());
        } else {
            let k = self.r.us(12);
            self.recent[k] = d.clone();
        }
        d
    }
    /// corrupted or random bytes
    pub fn bad(&mut self, w: &Solo, v: &View) -> Vec<u8> {
        let mps = w.inst.cfg.mps;
        if self.r.pct(10) {
            let n = self.r.below(mps.min(200) + 2);
            return (0..n).map(|_| self.r.next() as u8).collect();
        }
        let mut d = self.data(w, v);
        match self.r.below(9) {
            0 => {
                let n = self.r.us(d.len() + 1);
                d.truncate(n);
            }
            1 => {
                for _ in 0..self.r.range(1, 3) {
                    let i = self.r.us(d.len());
                    d[i] ^= 1 << self.r.below(8);
                }
            }
            2 => {
                for _ in 0..self.r.range(1, 4) {
                    d.push(*self.r.pick(&[0, 0, 1, 255, 7]));
                }
            }
            3 => {
                let i = self.r.us(d.len());
                d[i] = self.r.next() as u8;
            }
            4 => {
                // one stray byte right after the header
                if let Ok((_, hl)) = w.inst.codec.dec_h(&d) {
                    d.truncate(hl);
                    d.push(0);
                }
            }
            5 => {
                // lie about the number of members
                if let Ok((h, hl)) = w.inst.codec.dec_h(&d) {
                    if h.message != Message::Broadcast && d.len() >= hl + 2 {
                        let c = self.r.pick(&[0u16, 1, 2, 255, 65535]).to_be_bytes();
                        d[hl] = c[0];
                        d[hl + 1] = c[1];
                    }
                }
            }
            6 => {
                // claims to come from ourselves
                if let Ok((mut h, hl)) = w.inst.codec.dec_h(&d) {
                    h.src = if self.r.pct(50) { v.id } else { *self.r.pick(&self.own) };
                    let mut x = w.inst.codec.enc_h(&h);
                    x.extend_from_slice(&d[hl..]);
                    d = x;
                }
            }
            7 => {
                // somebody else's mail
                if let Ok((mut h, hl)) = w.inst.codec.dec_h(&d) {
                    h.dst = self.any_id(v);
                    let mut x = w.inst.codec.enc_h(&h);
                    x.extend_from_slice(&d[hl..]);
                    d = x;
                }
            }
            _ => {
                if mps < 100_000 {
                    d.resize(mps as usize + self.r.range(0, 2) as usize, 0);
                }
            }
        }
        d
    }
    fn craft_timer(&mut self, w: &Solo, v: &View) -> T {
        // tokens are opaque numbers: borrow one from real timers or guess
        let mut tok = self.r.below(4) as u8;
        if let (Some((_, _, t)), true) = (w.out.last(), self.r.pct(70)) {
            tok = match t {
                Timer::ProbeRandomMember(x) | Timer::PeriodicAnnounce(x) | Timer::PeriodicAnnounceDown(x) | Timer::PeriodicGossip(x) => *x,
                Timer::SendIndirectProbe { token, .. } | Timer::ChangeSuspectToDown { token, .. } => *token,
                Timer::RemoveDown(_) => tok,
            };
        }
        let i = self.any_id(v);
        match self.r.below(7) {
            0 => Timer::ProbeRandomMember(tok),
            1 => Timer::SendIndirectProbe { probed_id: i, token: tok },
            2 => {
                let k = self.known_inc(&i, v, 0);
                let inc = self.inc(k);
                Timer::ChangeSuspectToDown { member_id: i, incarnation: inc, token: tok }
            }
            3 => Timer::PeriodicAnnounce(tok),
            4 => Timer::PeriodicAnnounceDown(tok),
            5 => Timer::PeriodicGossip(tok),
            _ => Timer::RemoveDown(i),
        }
    }
    fn new_identity(&mut self, v: &View) -> Id {
        match self.r.below(6) {
            0 => v.id,
            1 => Id { gen: v.id.gen.saturating_sub(1), ..v.id },
            2 => *self.r.pick(&self.own),
            3 => Id { pol: self.r.below(4) as u8, gen: v.id.gen.saturating_add(1), ..v.id },
            4 if self.r.pct(40) => {
                // an address that is (or was) somebody else's
                let i = self.any_id(v);
                Id { pol: v.id.pol, gen: i.gen.saturating_add(self.r.range(20, 22) as u16), ..i }
            }
            4 => {
                // a brand new address nobody talks about
                let mut a = 40_000 + self.r.below(1000) as u16;
                while v.rec(a).map(is_active).unwrap_or(false) || self.pool.iter().any(|p| p.addr == a) {
                    a += 1;
                }
                Id { addr: a, ..v.id }
            }
            _ => Id { gen: v.id.gen.saturating_add(1), ..v.id },
        }
    }
    /// something that happens without changing who is a member and who is active
    fn same_set(&mut self, w: &Solo) -> Option<SOp> {
        let v = w.inst.view();
        if v.active.is_empty() {
            return None;
        }
        let some = |g: &mut Gen| -> M {
            let m = g.r.pick(&v.state).clone();
            let i = m.incarnation().saturating_add(*g.r.pick(&[0, 0, 0, 1, 2])).min(u16::MAX - 1);
            let st = if is_active(&m) { *g.r.pick(&[State::Alive, State::Suspect]) } else { State::Down };
            mem(*m.id(), i, st)
        };
        let n = self.r.below(4);
        let ms: Vec<M> = (0..n).map(|_| some(self)).collect();
        let src = *self.r.pick(&v.active).id();
        let known = |i: &Id| v.state.iter().find(|m| m.id() == i).map(|m| m.incarnation()).unwrap_or(0);
        let num = w.ping.map(|p| p.1).unwrap_or(0);
        let (src, message) = match self.r.below(9) {
            0 => return Some(SOp::Do(Op::Gossip)),
            1 => return Some(SOp::Do(Op::Broadcast)),
            2 => return Some(SOp::Do(Op::ApplyMany(ms, self.r.pct(50)))),
            3 => (src, Message::Ping(self.r.next() as u8)),
            4 => (src, Message::Announce),
            5 => (src, Message::PingReq { target: *self.r.pick(&v.active).id(), probe_number: self.r.next() as u8 }),
            6 | 7 if !w.asked.is_empty() && w.ping.is_some() => {
                (*self.r.pick(&w.asked), Message::ForwardedAck { origin: w.ping.unwrap().0, probe_number: num })
            }
            _ => (src, Message::Gossip),
        };
        if !v.is_active(&src) {
            return None;
        }
        let h = H { src, src_incarnation: known(&src), dst: v.id, message };
        let d = build(w.inst.codec, &h, if has_members(&h.message) { Some(&ms) } else { None }, &[]);
        if d.len() as u64 > w.inst.cfg.mps {
            return None;
        }
        Some(SOp::Do(Op::Data(Hex(d))))
    }
    /// an old timer that has the token of today, else the first one of the current epoch
    fn hoarded(&mut self, w: &Solo) -> u32 {
        let Some((last, now)) = w.out.iter().filter_map(|(_, n, t)| Some((*n, token(t)?))).max() else {
            return 0;
        };
        let since = w.out.iter().filter(|(_, n, t)| *n < last && token(t).is_some_and(|x| x != now)).map(|x| x.1).max().unwrap_or(0);
        if self.r.pct(60) {
            if let Some(k) = w.out.iter().position(|(_, n, t)| *n < since && token(t) == Some(now)) {
                return k as u32;
            }
        }
        w.out.iter().position(|(_, _, t)| token(t).is_none_or(|x| x == now)).unwrap_or(0) as u32
    }
    /// one epoch after the other
    fn cycle(&mut self, w: &Solo, v: &View) -> Option<SOp> {
        if self.r.pct(4) {
            return None;
        }
        if self.revive {
            self.revive = false;
            return Some(SOp::Do(if self.r.pct(70) || self.p.w_change == 0 { Op::Reuse } else { Op::ChangeId(Id { gen: v.id.gen.saturating_add(1), ..v.id }) }));
        }
        if v.active.is_empty() {
            let i = *self.r.pick(&self.pool);
            let i = Id { addr: i.addr, gen: v.rec(i.addr).map_or(0, |m| m.id().gen.saturating_add(1)), ..i };
            return Some(SOp::Do(Op::ApplyMany(vec![M::alive(i)], self.r.pct(50))));
        }
        let (last, now) = w.out.iter().filter_map(|(_, n, t)| Some((*n, token(t)?))).max()?;
        let since = w.out.iter().filter(|(_, n, t)| *n < last && token(t).is_some_and(|x| x != now)).map(|x| x.1).max().unwrap_or(0);
        let alike: Vec<usize> = w.out.iter().enumerate().filter(|(_, (_, n, t))| *n < since && token(t) == Some(now)).map(|x| x.0).collect();
        if !alike.is_empty() && self.r.pct(80) {
            return Some(SOp::Fire(*self.r.pick(&alike) as u32));
        }
        if self.r.pct(8) {
            // a suspicion, so that a timeout is among what is kept
            let m = self.r.pick(&v.active);
            return Some(SOp::Do(Op::ApplyMany(vec![M::new(*m.id(), m.incarnation(), State::Suspect)], true)));
        }
        Some(SOp::Do(match self.r.weighted(&self.p.cycle) {
            0 => Op::ChangeId(Id { gen: v.id.gen.saturating_add(1), ..v.id }),
            1 => {
                self.revive = true;
                Op::Leave
            }
            _ => Op::ApplyMany(v.active.iter().map(|m| M::new(*m.id(), m.incarnation(), State::Down)).collect(), self.r.pct(50)),
        }))
    }
    pub fn next(&mut self, w: &Solo) -> SOp {
        let v = w.inst.view();
        let mut p = self.p.clone();
        self.n += 1;
        if p.cycle != [0; 3] {
            if let Some(o) = self.cycle(w, &v) {
                return o;
            }
        }
        if p.burst > 0 && (self.n / p.burst) % 2 == 0 {
            (p.w_change, p.w_leave, p.w_fire, p.w_data, p.w_answer) = (0, 0, 80, 6, 15);
        }
        // answer the outstanding probe like a live member would
        if p.w_answer > 0 && self.r.below(100) < p.w_answer as u64 {
            if let Some((t, n)) = w.ping {
                let k = self.known_inc(&t, &v, 0);
                let mk = |src: Id, m: Msg, inc: u16| H { src, src_incarnation: inc, dst: v.id, message: m };
                if self.r.pct(60) || w.asked.is_empty() {
                    let h = mk(t, Message::Ack(n), k);
                    if t.addr != v.id.addr {
                        return SOp::Do(Op::Data(Hex(self.assemble(w, &v, h))));
                    }
                } else {
                    let s = *self.r.pick(&w.asked);
                    let k = self.known_inc(&s, &v, 0);
                    let h = mk(s, Message::ForwardedAck { origin: t, probe_number: n }, k);
                    if s.addr != v.id.addr {
                        return SOp::Do(Op::Data(Hex(self.assemble(w, &v, h))));
                    }
                }
            }
        }
        let ws = [
            p.w_data, p.w_bad, p.w_fire, p.w_fire_any, p.w_refire, p.w_craft, p.w_late, p.w_announce, p.w_gossip,
            p.w_broadcast, p.w_addb, p.w_leave, p.w_reuse, p.w_change, p.w_setcfg, p.w_apply,
        ];
        match self.r.weighted(&ws) {
            0 => SOp::Do(Op::Data(Hex(self.data(w, &v)))),
            1 => SOp::Do(Op::Data(Hex(self.bad(w, &v)))),
            2 if p.hoard && !w.in_order => SOp::Fire(self.hoarded(w)),
            2 => SOp::Fire(0),
            3 => SOp::Fire(self.r.below(64) as u32),
            4 => SOp::Refire(self.r.below(400) as u32),
            5 => SOp::Do(Op::Timer(self.craft_timer(w, &v))),
            6 => SOp::Late(*self.r.pick(&[1, 100, w.inst.cfg.rtt, w.inst.cfg.period, 5_000, 100_000])),
            7 => SOp::Do(Op::Announce(if p.extreme || self.r.pct(10) { self.any_id(&v) } else { self.peer_id(&v) })),
            8 => SOp::Do(Op::Gossip),
            9 => SOp::Do(Op::Broadcast),
            10 => {
                let d = if self.r.pct(4) { vec![] } else { self.item(&w.inst.cfg) };
                SOp::Do(Op::AddBroadcast(Hex(d)))
            }
            11 => SOp::Do(Op::Leave),
            12 => SOp::Do(Op::Reuse),
            13 => SOp::Do(Op::ChangeId(self.new_identity(&v))),
            14 => {
                let mut c = gen_cfg(&mut self.r, w.inst.codec, &p);
                let cur = &w.inst.cfg;
                if self.r.pct(85) {
                    c.period = cur.period;
                    c.rtt = cur.rtt;
                    if cur.pa.is_none() {
                        c.pa = None;
                    }
                    if cur.pad.is_none() {
                        c.pad = None;
                    }
                    if cur.pg.is_none() {
                        c.pg = None;
                    }
                }
                if !p.cfg_tx {
                    c.max_tx = cur.max_tx;
                }
                if !p.cfg_mps {
                    c.mps = cur.mps;
                }
                SOp::Do(Op::SetConfig(c))
            }
            _ => {
                let mut u = self.updates(&v, w.my_inc);
                if self.r.pct(10) {
                    u = v.state.clone();
                }
                let b = self.r.pct(65);
                SOp::Do(Op::ApplyMany(u, b))
            }
        }
    }
}

pub fn gen_spec(r: &mut Prng) -> HSpec {
    HSpec {
        rel: *r.pick(&RELS),
        pred: *r.pick(&[Pred::All, Pred::All, Pred::Nobody, Pred::EvenAddr, Pred::OddGen, Pred::LowAddr]),
        accept: *r.pick(&[Accept::Unseen, Accept::All, Accept::Mixed, Accept::Unseen, Accept::Refuse]),
    }
}

/// Generate and execute one history; returns the scenario that was executed.
pub fn explore(prop: &str, seed: u64, p: Profile, in_order: bool, st: &mut Stats) -> (SoloScn, Check) {
    explore_as(prop, seed, p, in_order, st, None)
}
pub fn explore_as(prop: &str, seed: u64, p: Profile, in_order: bool, st: &mut Stats, addr: Option<u16>) -> (SoloScn, Check) {
    let mut r = Prng::new(seed);
    let codec = if p.bundled { *r.pick(&[CodecKind::BincodeStd, CodecKind::BincodeFixed, CodecKind::Postcard]) } else { *r.pick(&[CodecKind::Var, CodecKind::Fixed, CodecKind::BincodeStd, CodecKind::BincodeFixed, CodecKind::Postcard, CodecKind::Var]) };
    let mut cfg = gen_cfg(&mut r, codec, &p);
    let flaky = p.stable && r.pct(50);
    if flaky {
        // suspicions stay suspicions for as long as the run lasts
        cfg.s2d = 30 * 86_400_000;
    }
    let me = id(
        if r.pct(90) { 1 } else { r.next() as u16 },
        if r.pct(85) { r.below(3) as u16 } else { *r.pick(&[u16::MAX, u16::MAX - 1, 300]) },
        *r.pick(&[POL_NEXT, POL_NEXT, POL_NONE, POL_NONE, POL_SAME, POL_LOSE, POL_TIE]),
        r.below(p.tailmax as u64 + 1) as u8,
    );
    let me = Id { addr: addr.unwrap_or(me.addr), ..me };
    let mut p = p;
    let mut me = me;
    if me.pol == POL_TIE && addr.is_some() {
        me.pol = POL_NONE;
    }
    if me.pol == POL_TIE {
        (me.addr, me.gen) = TIE;
        // no one else is to use an identity that ties with ours
        p.w_change = 0;
        p.p_ownaddr = 0;
        if p.cycle[0] > 0 {
            p.cycle = [0, 1, 1];
        }
    }
    let spec = gen_spec(&mut r);
    let mut scn = SoloScn { id: me, cfg, codec, spec, seed: r.next(), use_acc: r.pct(p.acc_pct), in_order, ops: vec![] };
    let steps = p.steps;
    let stable = p.stable;
    let w = guarded(|| Solo::new(&scn, prop));
    let mut w = match w {
        Ok(w) => w,
        Err(e) => return (scn, Err(viol(prop, "panic", format!("constructor panicked: {e}")))),
    };
    let mut g = Gen::new(r, p, me);
    let mut res = Ok(());
    let max_epochs = g.p.max_epochs;
    let mut epochs = 0;
    for _ in 0..steps {
        let o = g.next(&w);
        scn.ops.push(o.clone());
        w.last = None;
        res = w.apply(&o);
        if res.is_err() || w.inst.dead {
            break;
        }
        if let Some(s) = &w.last {
            epochs += s.notes().filter(|n| matches!(n, Note::Idle | Note::Defunct)).count() as u32;
            let rejoins = s.notes().filter(|n| matches!(n, Note::Rejoin(_))).count() as u32;
            epochs += rejoins.max((s.pre.id != s.post.id || matches!(s.op, Op::Reuse)) as u32);
            if epochs >= max_epochs {
                break;
            }
        }
    }
    if stable {
        // nothing happens anymore but probing, and whoever is probed answers; or (flaky) not everyone answers
        // and everything else goes on too, but the set of members and who is active stays as it is
        let n = w.inst.foca.num_members() as u32;
        let mut budget = (40 + 14 * n) * if flaky { 2 } else { 1 };
        while budget > 0 && res.is_ok() && !w.inst.dead && !w.out.is_empty() {
            budget -= 1;
            if flaky && g.r.pct(45) {
                if let Some(o) = g.same_set(&w) {
                    scn.ops.push(o.clone());
                    res = w.apply(&o);
                    continue;
                }
            }
            let o = match w.ping.take() {
                Some((t, num)) if flaky && g.r.pct(50) => {
                    // no direct answer: maybe a relayed one (later), maybe none
                    if g.r.pct(50) {
                        w.ping = Some((t, num));
                    }
                    SOp::Fire(0)
                }
                Some((t, num)) if t.addr != w.inst.id().addr => {
                    let v = w.inst.view();
                    let inc = v.state.iter().find(|m| *m.id() == t).map(|m| m.incarnation()).unwrap_or(0);
                    let h = H { src: t, src_incarnation: inc, dst: v.id, message: Message::Ack(num) };
                    SOp::Do(Op::Data(Hex(build(w.inst.codec, &h, Some(&[]), &[]))))
                }
                _ => SOp::Fire(0),
            };
            scn.ops.push(o.clone());
            res = w.apply(&o);
        }
    }
    *st = w.finish();
    (scn, res)
}
