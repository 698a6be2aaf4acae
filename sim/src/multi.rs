//! Scenarios with several real instances outside of the timed network: replicas, state exchange, twins, cascades.
use crate::inst::*;
use crate::model::*;
use crate::prng::{hash_all, mix, Prng};
use crate::solo::*;
use crate::types::*;
use crate::wire::*;
use foca::{Message, State, Timer};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn brief(v: &BTreeMap<u16, M>) -> Vec<String> {
    v.values().map(m_brief).collect()
}
/// every record except the given addresses; the incarnation next to Down is not comparable
fn third(v: &View, skip: &[u16]) -> BTreeMap<u16, M> {
    v.state
        .iter()
        .filter(|m| !skip.contains(&m.id().addr))
        .map(|m| (m.id().addr, if m.state() == State::Down { mem(*m.id(), 0, State::Down) } else { m.clone() }))
        .collect()
}

// ------------------------------------------------------------------ C01: replicas
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    /// apply_many, broadcasting or not
    Apply(bool),
    /// a datagram from a member that's never in question
    Gossip,
    /// in a Feed
    Feed,
    /// the update's subject itself says so in a datagram header (only possible for Alive updates)
    Header,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PermScn {
    pub id: Id,
    pub cfg: Cfg,
    pub codec: CodecKind,
    pub upd: Vec<M>,
    /// per replica: chunks of indices into `upd`
    pub plans: Vec<Vec<(Vec<usize>, Via)>>,
    pub seed: u64,
}
pub const COURIER: Id = id(60_000, 0, POL_NONE, 0);

pub fn gen_update(r: &mut Prng, naddr: u64, gens: u64, base: u16) -> M {
    let i = id(base.wrapping_add(r.below(naddr) as u16), (r.below(gens) as u16).wrapping_add(if r.pct(5) { u16::MAX - 2 } else { 0 }), *r.pick(&[POL_NONE, POL_NONE, POL_NEXT]), r.below(2) as u8);
    let inc = *r.pick(&[0, 0, 1, 1, 2, 3, u16::MAX - 1, u16::MAX]);
    mem(i, inc, *r.pick(&[State::Alive, State::Alive, State::Suspect, State::Suspect, State::Down]))
}

pub fn gen_perm(r: &mut Prng) -> PermScn {
    let me = id(1, 5, *r.pick(&[POL_NONE, POL_NEXT]), 0);
    let (na, ge) = (r.range(1, 6), r.range(1, 4));
    let own = r.pct(25);
    let n = r.range(1, 14);
    let mut upd = vec![];
    for _ in 0..n {
        let base = if own && r.pct(30) { 1 } else { 2 };
        let m = gen_update(r, na, ge, base);
        // our own identity isn't a third party
        if *m.id() == me || (m.id().addr == 1 && m.id().gen >= 4) {
            continue;
        }
        upd.push(m);
    }
    let k = r.range(2, 4);
    let mut plans = vec![];
    for _ in 0..k {
        let mut order: Vec<usize> = (0..upd.len()).collect();
        for _ in 0..r.below(upd.len() as u64 + 1) {
            if !upd.is_empty() {
                order.push(r.us(upd.len()));
            }
        }
        r.shuffle(&mut order);
        let mut plan = vec![];
        while !order.is_empty() {
            let take = r.range(1, order.len().min(6) as u64) as usize;
            let rest = order.split_off(take);
            let via = match r.below(6) {
                0 | 1 => Via::Apply(true),
                2 => Via::Apply(false),
                3 => Via::Feed,
                4 => Via::Header,
                _ => Via::Gossip,
            };
            plan.push((order, via));
            order = rest;
        }
        plans.push(plan);
    }
    let mut cfg = Cfg::simple();
    cfg.mps = 65507;
    cfg.notify_down = r.pct(50);
    cfg.fanout = r.range(1, 3);
    PermScn { id: me, cfg, codec: *r.pick(&CODECS), upd, plans, seed: r.next() }
}

pub fn run_perm(s: &PermScn, prop: &str, st: &mut Stats) -> Check {
    // what it has to amount to, whatever the order
    let mut want: BTreeMap<u16, M> = BTreeMap::new();
    let cour = mem(COURIER, 0, State::Alive);
    want.insert(COURIER.addr, cour.clone());
    for m in &s.upd {
        let m = if m.id().addr == s.id.addr { mem(*m.id(), 0, State::Down) } else { m.clone() };
        let (r, _) = join(want.get(&m.id().addr), &m);
        want.insert(m.id().addr, r);
    }
    for m in want.values_mut() {
        if m.state() == State::Down {
            *m = mem(*m.id(), 0, State::Down);
        }
    }
    let mut digest_v = 0;
    for (k, plan) in s.plans.iter().enumerate() {
        let mut i = Inst::new(s.id, s.cfg.clone(), s.codec, HSpec::PLAIN, hash_all(&[s.seed, k as u64]));
        let mut x = i.exec(Op::ApplyMany(vec![cour.clone()], true));
        for (chunk, via) in plan {
            let ms: Vec<M> = chunk.iter().filter_map(|n| s.upd.get(*n).cloned()).collect();
            let ops: Vec<Op> = match via {
                Via::Apply(b) => vec![Op::ApplyMany(ms, *b)],
                Via::Gossip | Via::Feed => {
                    let message = if *via == Via::Gossip { Message::Gossip } else { Message::Feed };
                    let h = H { src: COURIER, src_incarnation: 0, dst: s.id, message };
                    vec![Op::Data(Hex(build(s.codec, &h, Some(&ms), &[])))]
                }
                Via::Header => ms
                    .into_iter()
                    .map(|m| {
                        if m.state() == State::Alive && m.id().addr != s.id.addr {
                            let h = H { src: *m.id(), src_incarnation: m.incarnation(), dst: s.id, message: Message::Gossip };
                            Op::Data(Hex(build(s.codec, &h, Some(&[]), &[])))
                        } else {
                            Op::ApplyMany(vec![m], true)
                        }
                    })
                    .collect(),
            };
            for op in ops {
                x = i.exec(op);
                st.steps += 1;
                digest_v = digest(digest_v, &x);
                st.shapes.insert(shape(&x));
                if let Res::Panic(p) = &x.res {
                    return Err(viol(prop, "panic", format!("foca panicked: {p}\n    at: {}", x.brief())));
                }
                if let Res::Err(e) = &x.res {
                    return Err(viol(prop, "error", format!("replica {k}: unexpected {e:?}\n    at: {}", x.brief())));
                }
            }
        }
        let got = third(&x.post, &[]);
        if got != want {
            return Err(viol(
                prop,
                "order-dependent",
                format!("replica {k} ends with {:?}, expected {:?} whatever the order\n    updates {:?}\n    plan {plan:?}", brief(&got), brief(&want), s.upd.iter().map(m_brief).collect::<Vec<_>>()),
            ));
        }
        let act = got.values().filter(|m| is_active(m)).count();
        if x.post.num != act {
            return Err(viol(prop, "num-members", format!("replica {k}: num_members()={} but {act} records are active", x.post.num)));
        }
        st.add("probe_replicas_compared", 1);
    }
    st.digest = mix(digest_v ^ 0x11);
    st.nontrivial = s.upd.len() > 1;
    Ok(())
}

// ------------------------------------------------------------------ C01: exchange of full states
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PairScn {
    pub a: SoloScn,
    pub b: SoloScn,
    /// both states are taken before either is applied
    pub simultaneous: bool,
    pub broadcast: bool,
}
fn build_solo(s: &SoloScn, prop: &str, st: &mut Stats) -> Solo {
    let mut w = Solo::new(s, "-");
    for o in &s.ops {
        let _ = w.apply(o);
    }
    st.steps += w.st.steps;
    st.digest = mix(st.digest ^ w.st.digest);
    st.shapes.extend(w.st.shapes.iter());
    let _ = prop;
    w
}
pub fn run_pair(s: &PairScn, prop: &str, st: &mut Stats) -> Check {
    let mut a = build_solo(&s.a, prop, st).inst;
    let mut b = build_solo(&s.b, prop, st).inst;
    if a.dead || b.dead {
        return Ok(());
    }
    for x in [&mut a, &mut b] {
        let v = x.view();
        // being told about our own current identity is news for us, not for the list
        if v.state.iter().any(|m| *m.id() == v.id) {
            continue;
        }
        let upd = v.upd;
        let y = x.exec(Op::ApplyMany(v.state.clone(), s.broadcast));
        if y.post.sorted() != y.pre.sorted() || y.post.upd != upd || !y.eff.iter().all(|e| matches!(e, Eff::Note(Note::Active) | Eff::Timer { .. })) {
            return Err(viol(prop, "self-reapply", format!("re-applying an instance's own state is not a no-op\n    before {:?}\n    after {:?}\n    at: {}", y.pre.sorted().iter().map(m_brief).collect::<Vec<_>>(), y.post.sorted().iter().map(m_brief).collect::<Vec<_>>(), y.brief())));
        }
        st.add("probe_self_reapplied", 1);
    }
    let skip = [a.id().addr, b.id().addr];
    let (va, vb) = (a.view(), b.view());
    let y = b.exec(Op::ApplyMany(va.state.clone(), s.broadcast));
    if let Res::Panic(p) = &y.res {
        return Err(viol(prop, "panic", p.clone()));
    }
    let vb2 = b.view();
    let y2 = a.exec(Op::ApplyMany(if s.simultaneous { vb.state.clone() } else { vb2.state.clone() }, s.broadcast));
    if let Res::Panic(p) = &y2.res {
        return Err(viol(prop, "panic", p.clone()));
    }
    for y in [&y, &y2] {
        if matches!(y.res, Res::Err(_)) {
            // a gossip that doesn't fit may cut the exchange short
            return Ok(());
        }
    }
    let (ta, tb) = (third(&a.view(), &skip), third(&b.view(), &skip));
    if ta != tb {
        return Err(viol(
            prop,
            "exchange-disagree",
            format!(
                "after exchanging full states (simultaneously: {}) {:?} and {:?} disagree about third parties:\n    {:?}\n    {:?}\n    before: {:?}\n    and {:?}",
                s.simultaneous,
                a.id(),
                b.id(),
                brief(&ta),
                brief(&tb),
                va.state.iter().map(m_brief).collect::<Vec<_>>(),
                vb.state.iter().map(m_brief).collect::<Vec<_>>()
            ),
        ));
    }
    st.add("probe_states_exchanged", 1);
    st.add("probe_records_agreed", ta.len() as u64);
    st.nontrivial = !ta.is_empty();
    Ok(())
}
pub fn gen_pair(r: &mut Prng) -> PairScn {
    let mut mk = |addr: u16| -> SoloScn {
        let mut p = base_profile(r);
        swarm(&mut p, r);
        p.steps = r.range(3, 40);
        p.naddr = r.range(1, 5);
        let mut st = Stats::default();
        explore_as("-", r.next(), p, true, &mut st, Some(addr)).0
    };
    let a = mk(1);
    let b = mk(2);
    PairScn { a, b, simultaneous: r.pct(50), broadcast: r.pct(50) }
}

// ------------------------------------------------------------------ C17: twins
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TwinScn {
    pub base: SoloScn,
    /// (before which base op, what)
    pub ins: Vec<(usize, Op)>,
}
struct Epochs {
    conn: ConnT,
    issued: Vec<(T, u32)>,
}
impl Epochs {
    fn new() -> Self {
        Epochs { conn: ConnT::new(), issued: vec![] }
    }
    /// timers carry the epoch in which they were submitted
    fn step(&mut self, s: &Step) {
        self.conn.begin(s);
        for e in &s.eff {
            match e {
                Eff::Note(n) => self.conn.note(n),
                Eff::Timer { t, .. } if !matches!(t, Timer::RemoveDown(_)) => self.issued.push((t.clone(), self.conn.epoch)),
                _ => {}
            }
        }
    }
    fn stale(&self, t: &T) -> bool {
        // the same value may have been issued again in this epoch
        self.issued.iter().any(|(x, e)| x == t && *e < self.conn.epoch && self.conn.epoch - e < 200)
            && !self.issued.iter().any(|(x, e)| x == t && (*e == self.conn.epoch || self.conn.epoch - e >= 200))
    }
}
/// must this call be rejected without a trace?
fn rejected(op: &Op, i: &Inst, ep: &Epochs) -> Option<&'static str> {
    match op {
        Op::Data(d) => match classify(i.codec, &d.0, &i.id(), i.cfg.mps) {
            InClass::TooBig => Some("too_big"),
            InClass::BadHeader => Some("bad_header"),
            InClass::FromSelf => Some("from_self"),
            InClass::BadFraming => Some("bad_framing"),
            InClass::NotForUs => Some("not_for_us"),
            InClass::BadMembers => Some("bad_members"),
            InClass::Ok(_) => None,
        },
        Op::Timer(t) => ep.stale(t).then_some("stale_timer"),
        Op::Reuse => (ep.conn.conn != Conn::Defunct).then_some("not_undead"),
        Op::ChangeId(x) => (*x == i.id()).then_some("same_identity"),
        Op::SetConfig(c) => (!i.cfg.allows(c)).then_some("invalid_config"),
        Op::AddBroadcast(d) => (d.0.is_empty() || d.0.len() as u64 > i.cfg.mps).then_some("bad_broadcast"),
        _ => None,
    }
}
fn same_step(a: &Step, b: &Step) -> Option<String> {
    if a.res != b.res {
        return Some(format!("result {:?} became {:?}", a.res, b.res));
    }
    if a.eff != b.eff {
        for k in 0..a.eff.len().max(b.eff.len()) {
            let f = |e: Option<&Eff>| e.map(eff_brief).unwrap_or("nothing".into());
            if a.eff.get(k) != b.eff.get(k) {
                return Some(format!("effect {k}: {} became {}", f(a.eff.get(k)), f(b.eff.get(k))));
            }
        }
    }
    if a.post != b.post {
        return Some("observable state differs".into());
    }
    if a.hlog != b.hlog {
        return Some("broadcast handler calls differ".into());
    }
    None
}
pub fn run_twin(s: &TwinScn, prop: &str, st: &mut Stats) -> Check {
    let mut a = Solo::new(&s.base, "-");
    let mut b = Solo::new(&s.base, "-");
    let mut ep = Epochs::new();
    let mut k = 0;
    for (n, o) in s.base.ops.iter().enumerate() {
        while k < s.ins.len() && s.ins[k].0 <= n {
            let op = s.ins[k].1.clone();
            k += 1;
            if s.ins[k - 1].0 < n {
                continue;
            }
            insert(&mut b, op, &ep, prop, st)?;
        }
        a.last = None;
        b.last = None;
        let _ = a.apply(o);
        let _ = b.apply(o);
        match (&a.last, &b.last) {
            (Some(x), Some(y)) => {
                if let Res::Panic(p) = &x.res {
                    return Err(viol(prop, "panic", p.clone()));
                }
                if let Some(d) = same_step(x, y) {
                    return Err(viol(prop, "diverged", format!("after rejected inputs were inserted the rest of the history changed: {d}\n    original: {}\n    with insertions: {}", x.brief(), y.brief())));
                }
                ep.step(x);
            }
            (None, None) => {}
            _ => return Err(viol(prop, "diverged", format!("timers differ after rejected inputs were inserted (base op {n})"))),
        }
        if a.inst.dead {
            break;
        }
    }
    st.steps += a.st.steps + b.st.steps;
    st.digest = mix(a.st.digest ^ st.c.len() as u64);
    st.shapes.extend(a.st.shapes.iter());
    st.sim_ms = crate::solo::sane(a.now);
    st.nontrivial = st.c.keys().any(|k| k.starts_with("fault_rejected"));
    Ok(())
}
fn insert(b: &mut Solo, op: Op, ep: &Epochs, prop: &str, st: &mut Stats) -> Check {
    let Some(class) = rejected(&op, &b.inst, ep) else { return Ok(()) };
    let y = b.inst.exec(op);
    st.add(&format!("fault_rejected_{class}"), 1);
    if let Res::Panic(p) = &y.res {
        return Err(viol(prop, "panic", format!("{p}\n    at: {}", y.brief())));
    }
    if !y.quiet() {
        return Err(viol(prop, "had-effect", format!("input to be rejected ({class}) had an effect\n    at: {}", y.brief())));
    }
    let must_err = !matches!(class, "not_for_us" | "stale_timer");
    if must_err && !matches!(y.res, Res::Err(_)) {
        return Err(viol(prop, "not-rejected", format!("input to be rejected ({class}) gave {:?}\n    at: {}", y.res, y.brief())));
    }
    Ok(())
}
pub fn gen_twin(r: &mut Prng) -> TwinScn {
    let mut p = base_profile(r);
    swarm(&mut p, r);
    p.steps = r.range(10, 60);
    if r.pct(20) {
        p.w_fire_any = 10;
    }
    p.cfg_tx = true;
    let long = r.below(1000) < 4;
    if long {
        marathon(&mut p, r, true);
        p.max_epochs = 190;
    } else if r.below(1000) < 4 {
        crowd(&mut p, r);
    }
    let mut st = Stats::default();
    let seed = r.next();
    let (base, _) = explore_as("-", seed, p.clone(), p.w_fire_any == 0, &mut st, None);
    // replay it, throwing in garbage made from the situation at hand
    let mut w = Solo::new(&base, "-");
    let mut g = Gen::new(Prng::new(r.next()), p, base.id);
    let mut ep = Epochs::new();
    let mut ins = vec![];
    let dense = if long { 8 } else { r.range(5, 60) as u32 };
    for (n, o) in base.ops.iter().enumerate() {
        while r.pct(dense) && ins.len() < 200 {
            let v = w.inst.view();
            let op = match if long && r.pct(60) { 6 } else { r.below(12) } {
                0..=4 => Op::Data(Hex(g.bad(&w, &v))),
                5 => {
                    // a valid datagram for somebody else, or for who we used to be
                    let d = g.data(&w, &v);
                    match w.inst.codec.dec_h(&d) {
                        Ok((mut h, hl)) => {
                            h.dst = match r.below(4) {
                                0 => Id { gen: h.dst.gen.wrapping_sub(1), ..h.dst },
                                1 => Id { gen: h.dst.gen.wrapping_add(1), ..h.dst },
                                2 => Id { pol: h.dst.pol ^ 1, ..h.dst },
                                _ => Id { addr: h.dst.addr.wrapping_add(1), ..h.dst },
                            };
                            let mut x = w.inst.codec.enc_h(&h);
                            x.extend_from_slice(&d[hl..]);
                            Op::Data(Hex(x))
                        }
                        Err(_) => continue,
                    }
                }
                6 | 7 => match ep.issued.len() {
                    0 => Op::Reuse,
                    l => {
                        // best of all: one that looks like the current ones
                        let now: Vec<u8> = ep.issued.iter().rev().take_while(|x| x.1 == ep.conn.epoch).filter_map(|x| token(&x.0)).collect();
                        let alike: Vec<&T> = ep.issued.iter().filter(|x| x.1 < ep.conn.epoch && token(&x.0).map(|t| now.contains(&t)).unwrap_or(false)).map(|x| &x.0).collect();
                        if alike.is_empty() || r.pct(30) {
                            Op::Timer(ep.issued[r.us(l)].0.clone())
                        } else {
                            Op::Timer((*r.pick(&alike)).clone())
                        }
                    }
                },
                8 => Op::Reuse,
                9 => Op::ChangeId(w.inst.id()),
                10 => {
                    let mut c = w.inst.cfg.clone();
                    match r.below(5) {
                        0 => c.period += 1,
                        1 => c.rtt += 1,
                        2 => c.pa = Some((1000, 1)),
                        3 => c.pad = Some((1000, 1)),
                        _ => c.pg = Some((1000, 1)),
                    }
                    c.max_tx = c.max_tx.wrapping_add(1).max(1);
                    c.fanout = 1;
                    Op::SetConfig(c)
                }
                _ => {
                    if r.pct(40) {
                        Op::AddBroadcast(Hex(vec![]))
                    } else if w.inst.cfg.mps < 66_000 {
                        Op::AddBroadcast(Hex(vec![7; w.inst.cfg.mps as usize + 1 + r.us(3)]))
                    } else {
                        continue;
                    }
                }
            };
            if rejected(&op, &w.inst, &ep).is_some() {
                ins.push((n, op));
            }
        }
        w.last = None;
        let _ = w.apply(o);
        if let Some(x) = &w.last {
            ep.step(x);
        }
    }
    TwinScn { base, ins }
}

// ------------------------------------------------------------------ C18: cascades
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CascadeScn {
    pub ids: Vec<Id>,
    pub cfgs: Vec<Cfg>,
    pub codec: CodecKind,
    pub seed: u64,
    /// what they went through before the timers are held; whatever is still in flight then is lost
    pub prep: Vec<Prep>,
    pub first: First,
    pub order: u64,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Prep {
    Do(usize, Op),
    /// instance `.0` gets its oldest outstanding timer but `.1`
    Fire(usize, usize),
    /// datagram `.0` of those in flight arrives
    Net(usize),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum First {
    /// a datagram of the past arrives (late, or once more)
    Old(usize),
    /// a datagram `from` could have sent `to` (as they are by then)
    Msg { from: usize, to: usize, kind: usize, third: usize, num: u8, stale_dst: bool, members: Vec<M> },
    /// deliver what a call makes an instance send, one datagram at a time
    Call { at: usize, op: Op },
}
fn kind_msg(k: usize, t: Id, n: u8) -> Msg {
    match k % 11 {
        0 => Message::Ping(n),
        1 => Message::Ack(n),
        2 => Message::PingReq { target: t, probe_number: n },
        3 => Message::IndirectPing { origin: t, probe_number: n },
        4 => Message::IndirectAck { target: t, probe_number: n },
        5 => Message::ForwardedAck { origin: t, probe_number: n },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    }
}
pub fn gen_cascade(r: &mut Prng) -> CascadeScn {
    let n = r.range(2, 4) as usize;
    let codec = *r.pick(&CODECS);
    let ids: Vec<Id> = (0..n)
        .map(|i| id(i as u16 + 1, r.below(3) as u16, *r.pick(&[POL_NEXT, POL_NEXT, POL_NONE, POL_NONE, POL_SAME, POL_LOSE]), 0))
        .collect();
    let nd = r.below(3);
    let cfgs: Vec<Cfg> = (0..n)
        .map(|_| {
            let mut c = Cfg::simple();
            c.fanout = r.range(1, 3);
            c.max_tx = *r.pick(&[1, 3, 10, 255]);
            c.notify_down = match nd {
                0 => true,
                1 => false,
                _ => r.pct(50),
            };
            c
        })
        .collect();
    let mut prep = vec![];
    let mut cur = ids.clone();
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            // what i thinks of j
            let x = match r.below(8) {
                0 => continue,
                1 | 2 => mem(cur[j], 0, State::Alive),
                3 => mem(cur[j], r.below(2) as u16, State::Suspect),
                4 | 5 => mem(cur[j], 0, State::Down),
                6 => mem(Id { gen: cur[j].gen + 1 + r.below(2) as u16, ..cur[j] }, 0, *r.pick(&[State::Alive, State::Down, State::Suspect])),
                _ => mem(Id { gen: cur[j].gen.saturating_sub(1), ..cur[j] }, 0, *r.pick(&[State::Alive, State::Down])),
            };
            prep.push(Prep::Do(i, Op::ApplyMany(vec![x], r.pct(60))));
        }
    }
    for _ in 0..r.below(6) {
        let i = r.us(n);
        let op = match r.below(9) {
            0 => Op::Leave,
            1 => {
                cur[i] = Id { gen: cur[i].gen + 1, ..cur[i] };
                Op::ChangeId(cur[i])
            }
            2 => Op::Reuse,
            // learns of its own demise, or of being suspected
            3 => Op::ApplyMany(vec![mem(cur[i], 0, State::Down)], true),
            4 => Op::ApplyMany(vec![mem(cur[i], *r.pick(&[0, 1, u16::MAX - 1, u16::MAX]), State::Suspect)], true),
            5 => Op::AddBroadcast(Hex(vec![r.below(3) as u8, r.below(4) as u8, 9])),
            6 => {
                let j = r.us(n);
                let st = *r.pick(&[State::Alive, State::Suspect, State::Down]);
                Op::ApplyMany(vec![mem(cur[j], r.below(3) as u16, st)], r.pct(50))
            }
            7 => Op::ApplyMany(vec![mem(id(50 + r.below(3) as u16, 0, POL_NONE, 0), 0, State::Alive)], true),
            _ => Op::Timer(Timer::ProbeRandomMember(r.below(3) as u8)),
        };
        prep.push(Prep::Do(i, op));
    }
    if r.pct(15) {
        // plenty to spread
        for k in 0..r.range(2, 6) {
            let i = r.us(n);
            prep.push(Prep::Do(i, Op::AddBroadcast(Hex(vec![k as u8, r.below(4) as u8, 9]))));
        }
    }
    r.shuffle(&mut prep);
    if r.pct(50) {
        // they talk for a while
        for _ in 0..r.range(1, 25) {
            prep.push(if r.pct(55) { Prep::Net(r.us(8)) } else { Prep::Fire(r.us(n), r.us(3)) });
        }
    }
    let from = r.us(n);
    let to = (from + 1 + r.us(n - 1)) % n;
    let first = if r.pct(20) {
        First::Old(r.us(50))
    } else if r.pct(70) {
        let mut members = vec![];
        for _ in 0..r.below(4) {
            let j = r.us(n);
            members.push(mem(cur[j], *r.pick(&[0, 0, 1, u16::MAX]), *r.pick(&[State::Alive, State::Suspect, State::Down])));
        }
        First::Msg { from, to, kind: if r.pct(25) { 10 } else { r.us(11) }, third: r.us(n), num: r.range(1, 4) as u8, stale_dst: r.pct(5), members }
    } else {
        let op = match r.below(5) {
            0 => Op::Announce(cur[to]),
            1 => Op::Gossip,
            2 => Op::Broadcast,
            3 => Op::Leave,
            _ => Op::Timer(Timer::ProbeRandomMember(r.below(4) as u8)),
        };
        First::Call { at: from, op }
    };
    CascadeScn { ids, cfgs, codec, seed: r.next(), prep, first, order: r.next() }
}
pub fn run_cascade(s: &CascadeScn, prop: &str, st: &mut Stats) -> Check {
    let mut v: Vec<Inst> = s
        .ids
        .iter()
        .enumerate()
        .map(|(i, x)| Inst::new(*x, s.cfgs[i].clone(), s.codec, HSpec::PLAIN, hash_all(&[s.seed, i as u64])))
        .collect();
    let mut net: Vec<(usize, Vec<u8>)> = vec![];
    let mut past: Vec<(usize, Vec<u8>)> = vec![];
    let mut timers: Vec<Vec<Timer<Id>>> = vec![vec![]; v.len()];
    let route = |ids: &[Id], to: &Id| ids.iter().position(|x| x.addr == to.addr);
    for p in &s.prep {
        let (i, op) = match p {
            Prep::Do(i, op) => (*i, op.clone()),
            Prep::Fire(i, k) => match timers[*i].len() {
                0 => continue,
                l => (*i, Op::Timer(timers[*i].remove(k % l))),
            },
            Prep::Net(k) => match net.len() {
                0 => continue,
                l => {
                    let (to, d) = net.swap_remove(k % l);
                    (to, Op::Data(Hex(d)))
                }
            },
        };
        let x = v[i].exec(op);
        st.steps += 1;
        if let Res::Panic(p) = &x.res {
            return Err(viol(prop, "panic", p.clone()));
        }
        for e in &x.eff {
            match e {
                Eff::Timer { t, .. } => timers[i].push(t.clone()),
                Eff::Send { to, data: d, .. } => {
                    if let Some(t) = route(&s.ids, to) {
                        net.push((t, d.clone()));
                        past.push((t, d.clone()));
                    }
                }
                _ => {}
            }
        }
    }
    net.clear();
    match &s.first {
        First::Old(k) => {
            if !past.is_empty() {
                net.push(past[k % past.len()].clone());
            }
        }
        First::Msg { from, to, kind, third, num, stale_dst, members } => {
            let mut dst = v[*to].id();
            if *stale_dst {
                dst.gen = dst.gen.saturating_sub(1);
            }
            let message = kind_msg(*kind, v[*third].id(), *num);
            let h = H { src: v[*from].id(), src_incarnation: 0, dst, message };
            let d = build(s.codec, &h, if has_members(&h.message) { Some(members) } else { None }, &[]);
            net.push((*to, d));
        }
        First::Call { at, op } => {
            let x = v[*at].exec(op.clone());
            for (to, d, _) in x.sends() {
                if let Some(t) = route(&s.ids, to) {
                    net.push((t, d.clone()));
                }
            }
        }
    }
    let mut r = Prng::new(s.order);
    let mut delivered = 0u64;
    let starts = net.len() as u64;
    let mut undead: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    let mut trace: Vec<String> = vec![];
    // worst real cascades observed stay well below this
    let cap = 300 + 100 * starts;
    while !net.is_empty() {
        let k = r.us(net.len());
        let (to, d) = net.swap_remove(k);
        let x = v[to].exec(Op::Data(Hex(d)));
        st.steps += 1;
        delivered += 1;
        st.digest = mix(digest(st.digest, &x) ^ to as u64);
        st.shapes.insert(shape(&x));
        if let Res::Panic(p) = &x.res {
            return Err(viol(prop, "panic", format!("{p}\n    at: {}", x.brief())));
        }
        if delivered + 12 > cap || trace.len() < 8 {
            trace.push(format!("{:?} <- {}", x.pre.id, x.brief()));
        }
        let selfs = x.ok_pkt().map(|p| p.members.iter().filter(|m| m.id().addr == x.pre.id.addr).count()).unwrap_or(0);
        let bound = 2 + (selfs + 1) * 2 * s.cfgs[to].fanout as usize;
        let sent = x.sends().count();
        if sent > bound {
            return Err(viol(prop, "amplification", format!("one datagram caused {sent} new ones (bound {bound})\n    at: {}", x.brief())));
        }
        for (dst, d, pkt) in x.sends() {
            if let Some(t) = route(&s.ids, dst) {
                if let (Ok(p), true) = (pkt, t != to) {
                    if p.hdr.message == Message::TurnUndead {
                        let c = undead.entry((to, t)).or_insert(0);
                        *c += 1;
                    }
                }
                net.push((t, d.clone()));
            }
        }
        if delivered > cap {
            return Err(viol(
                prop,
                "no-termination",
                format!("{delivered} datagrams delivered with timers held and {} still in flight; TurnUndead counts {undead:?}; last deliveries:\n    {}", net.len(), trace.join("\n    ")),
            ));
        }
    }
    let m = st.c.get("max_cascade").copied().unwrap_or(0).max(delivered);
    st.c.insert("max_cascade".into(), m);
    st.add("net_delivered", delivered);
    st.add("probe_cascade_with_turn_undead", !undead.is_empty() as u64);
    st.nontrivial = delivered > 1;
    Ok(())
}

#[allow(dead_code)]
fn _u(_: BTreeSet<u8>) {}
