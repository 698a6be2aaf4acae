//! Small reference model of what inputs mean, independent from foca's implementation.
use crate::inst::*;
use crate::types::*;
use crate::wire::*;
use foca::{Message, State};
use std::collections::BTreeMap;

/// SWIM precedence: the record that results from `upd` meeting `rec`, and whether it changed.
pub fn join(rec: Option<&M>, upd: &M) -> (M, bool) {
    let Some(r) = rec else { return (upd.clone(), true) };
    if r.id() != upd.id() {
        return if r.id().wins(upd.id()) { (r.clone(), false) } else { (upd.clone(), true) };
    }
    let better = match (r.state(), upd.state()) {
        (State::Down, _) => false,
        (_, State::Down) => true,
        (State::Alive, State::Suspect) => upd.incarnation() >= r.incarnation(),
        _ => upd.incarnation() > r.incarnation(),
    };
    if better {
        (upd.clone(), true)
    } else {
        (r.clone(), false)
    }
}

/// same knowledge: identical id and state, and incarnation unless Down
pub fn same_rec(a: &M, b: &M) -> bool {
    a.id() == b.id() && a.state() == b.state() && (a.state() == State::Down || a.incarnation() == b.incarnation())
}

/// is `b` reachable from `a` by forward moves only?
pub fn forward(a: &M, b: &M) -> bool {
    if a.id() != b.id() {
        return b.id().wins(a.id());
    }
    match (a.state(), b.state()) {
        (State::Down, State::Down) => true,
        (State::Down, _) => false,
        (_, State::Down) => true,
        (x, y) => (b.incarnation(), st_num(y)) >= (a.incarnation(), st_num(x)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conn {
    Idle,
    Active,
    Defunct,
}
/// Connection state and timer epoch as the notification stream tells it.
#[derive(Clone, Debug)]
pub struct ConnT {
    pub conn: Conn,
    pub epoch: u32,
}
impl ConnT {
    pub fn new() -> Self {
        ConnT { conn: Conn::Idle, epoch: 0 }
    }
    pub fn begin(&mut self, s: &Step) {
        let reset = match s.op {
            Op::ChangeId(_) => s.pre.id != s.post.id,
            Op::Reuse => s.res == Res::Ok,
            _ => false,
        };
        if reset {
            self.conn = Conn::Idle;
            self.epoch += 1;
        }
    }
    pub fn note(&mut self, n: &Note) {
        match n {
            Note::Active => self.conn = Conn::Active,
            Note::Idle => {
                self.conn = Conn::Idle;
                self.epoch += 1;
            }
            Note::Rejoin(_) => {
                self.conn = Conn::Idle;
                self.epoch += 1;
            }
            Note::Defunct => {
                self.conn = Conn::Defunct;
                self.epoch += 1;
            }
            _ => {}
        }
    }
    pub fn step(&mut self, s: &Step) {
        self.begin(s);
        for n in s.notes() {
            self.note(n);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum WEv {
    /// a record changed; the update as accepted
    Applied { m: M, bcast: bool },
    /// own current identity suspected at `inc`; a gossip burst to min(fanout, active) follows unless defunct
    SelfSuspect { me: Id, inc: u16, active: usize, defunct: bool },
    /// own identity learned Down (or suspected at the maximum incarnation)
    /// `known_dead`: the identity it switched to was already known to be Down
    Death { me: Id, renewed: Option<Id>, active: usize, defunct: bool, by_max: bool, known_dead: bool },
}

/// The meaning of one call's input for membership knowledge.
#[derive(Clone, Debug)]
pub struct Walk {
    pub map: BTreeMap<u16, M>,
    pub me: Id,
    pub defunct: bool,
    pub ev: Vec<WEv>,
    pub sender_active: bool,
    /// payload processed (datagram from an active sender, or an apply_many call)
    pub processed: bool,
    rejoins: Vec<Id>,
}

impl Walk {
    fn active(&self) -> usize {
        self.map.values().filter(|m| is_active(m)).count()
    }
    fn is_down(&self, i: &Id) -> bool {
        self.map.get(&i.addr).map(|m| m.id() == i && !is_active(m)).unwrap_or(false)
    }
    fn apply(&mut self, m: &M, bcast: bool) {
        let addr = m.id().addr;
        let (r, changed) = join(self.map.get(&addr), m);
        if changed {
            self.map.insert(addr, r);
            self.ev.push(WEv::Applied { m: m.clone(), bcast });
        }
    }
    fn death(&mut self, by_max: bool) {
        let mut renewed = None;
        if !self.defunct {
            let mut want = self.me.renewed();
            if let Some(n) = want {
                // pointless to come back as somebody who is known to be dead
                if self.is_down(&n) {
                    want = n.renewed();
                }
            }
            if let Some(n) = want.filter(|n| *n != self.me && n.wins(&self.me)) {
                renewed = Some(if self.rejoins.is_empty() { n } else { self.rejoins.remove(0) });
            }
        }
        let known_dead = renewed.map(|n| self.is_down(&n)).unwrap_or(false);
        self.ev.push(WEv::Death { me: self.me, renewed, active: self.active(), defunct: self.defunct, by_max, known_dead });
        match renewed {
            Some(n) => self.me = n,
            None => self.defunct = true,
        }
    }
    fn update(&mut self, m: &M, bcast: bool) {
        if *m.id() == self.me {
            match m.state() {
                State::Alive => {}
                State::Down => self.death(false),
                State::Suspect => {
                    if m.incarnation() == u16::MAX {
                        self.death(true);
                    } else {
                        self.ev.push(WEv::SelfSuspect {
                            me: self.me,
                            inc: m.incarnation(),
                            active: self.active(),
                            defunct: self.defunct,
                        });
                    }
                }
            }
        } else if m.id().addr == self.me.addr {
            self.apply(&mem(*m.id(), 0, State::Down), bcast);
        } else {
            self.apply(m, bcast);
        }
    }
}

/// None when the op is not about learning updates (timers, API other than apply_many), or is rejected.
pub fn walk(s: &Step, conn: Conn) -> Option<Walk> {
    let mut w = Walk {
        map: s.pre.state.iter().map(|m| (m.id().addr, m.clone())).collect(),
        me: s.pre.id,
        defunct: conn == Conn::Defunct,
        ev: vec![],
        sender_active: false,
        processed: false,
        rejoins: s.notes().filter_map(|n| if let Note::Rejoin(i) = n { Some(*i) } else { None }).collect(),
    };
    match (&s.op, &s.inp) {
        (Op::ApplyMany(v, b), _) => {
            w.processed = true;
            for m in v {
                w.update(m, *b);
            }
        }
        (_, Some(InClass::Ok(p))) => {
            let src = mem(p.hdr.src, p.hdr.src_incarnation, State::Alive);
            w.apply(&src, true);
            let rec = &w.map[&p.hdr.src.addr];
            w.sender_active = *rec.id() == p.hdr.src && is_active(rec);
            if !w.sender_active {
                if p.hdr.message == Message::TurnUndead {
                    w.death(false);
                }
                return Some(w);
            }
            w.processed = true;
            for m in &p.members {
                w.update(m, true);
            }
            if p.hdr.message == Message::TurnUndead && !w.defunct && w.active() > 0 {
                w.death(false);
            }
        }
        _ => return None,
    }
    Some(w)
}

/// Own-incarnation tracker (C10, also used by C07).
#[derive(Clone, Debug)]
pub struct IncT {
    pub exact: Option<u16>,
    pub min: u32,
}
impl IncT {
    pub fn new() -> Self {
        IncT { exact: Some(0), min: 0 }
    }
    fn reset(&mut self) {
        *self = Self::new();
    }
    /// process one call; Err(description) when the headers contradict the discipline
    pub fn step(&mut self, s: &Step, conn_before: Conn) -> Result<(), String> {
        // identity reset through the API
        match s.op {
            Op::ChangeId(_) if s.pre.id != s.post.id => self.reset(),
            Op::Reuse if s.res == Res::Ok => self.reset(),
            _ => {}
        }
        if s.aborted() {
            let base = self.exact.map(|e| e as u32).unwrap_or(self.min);
            *self = IncT { exact: None, min: if s.pre.id == s.post.id { base } else { 0 } };
            return Ok(());
        }
        // segments of the call: identity in use, suspicions against it
        struct Seg {
            me: Id,
            susp: Vec<u16>,
            strict: bool,
            max_defunct: bool,
        }
        let start = if matches!(s.op, Op::ChangeId(_)) { s.post.id } else { s.pre.id };
        let mut segs = vec![Seg { me: start, susp: vec![], strict: true, max_defunct: false }];
        if let Some(w) = walk(s, conn_before) {
            for e in &w.ev {
                match e {
                    WEv::SelfSuspect { inc, active, defunct, .. } => {
                        let g = segs.last_mut().unwrap();
                        g.susp.push(*inc);
                        if *active == 0 || *defunct {
                            g.strict = false;
                        }
                    }
                    WEv::Death { renewed, by_max, .. } => match renewed {
                        Some(n) => segs.push(Seg { me: *n, susp: vec![], strict: true, max_defunct: false }),
                        None => {
                            if *by_max {
                                segs.last_mut().unwrap().max_defunct = true;
                            }
                        }
                    },
                    _ => {}
                }
            }
        } else if let Some(n) = s.notes().find_map(|n| if let Note::Rejoin(i) = n { Some(*i) } else { None }) {
            segs.push(Seg { me: n, susp: vec![], strict: true, max_defunct: false });
        }
        for (n, g) in segs.iter().enumerate() {
            if n > 0 {
                self.reset();
            }
            let base = self.exact.map(|e| e as u32).unwrap_or(self.min);
            let relevant: Vec<u16> = g.susp.iter().copied().filter(|i| *i as u32 >= base).collect();
            let heads: Vec<u16> =
                s.pkts().filter(|(_, p)| p.hdr.src == g.me).map(|(_, p)| p.hdr.src_incarnation).collect();
            if relevant.is_empty() && !g.max_defunct {
                for h in &heads {
                    match self.exact {
                        Some(e) if *h != e => {
                            return Err(format!("{:?} sends with incarnation {h}, but its incarnation is {e} and no suspicion justifies a change", g.me))
                        }
                        None if (*h as u32) < self.min => {
                            return Err(format!("{:?} sends with incarnation {h} after a suspicion that demanded at least {}", g.me, self.min))
                        }
                        _ => self.exact = Some(*h),
                    }
                }
            } else {
                let max = relevant.iter().copied().max().map(|m| m as u32 + 1).unwrap_or(0);
                let mut last = base;
                for h in &heads {
                    if (*h as u32) < last {
                        return Err(format!("{:?}: incarnation went down from {last} to {h}", g.me));
                    }
                    last = *h as u32;
                }
                self.min = self.min.max(base).max(max);
                self.exact = None;
                if g.strict && !g.max_defunct {
                    if let Some(h) = heads.last() {
                        if (*h as u32) < self.min {
                            return Err(format!("{:?}: suspected at {:?} but still sends with incarnation {h}", g.me, g.susp));
                        }
                        self.exact = Some(*h);
                    }
                }
            }
        }
        // at the end only the incarnation of the identity in use matters
        if segs.last().unwrap().me != s.post.id {
            self.reset();
            self.exact = None;
        }
        Ok(())
    }
}
