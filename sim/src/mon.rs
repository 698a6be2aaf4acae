//! Step oracles. Each watches one instance; none predicts foca's random choices.
use crate::inst::*;
use crate::model::*;
use crate::types::*;
use crate::wire::*;
use foca::{Foca, Message, State, Timer};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

pub trait Monitor {
    fn step(&mut self, s: &Step) -> Check;
    /// rarely hit conditions, for the evidence
    fn probes(&self, _out: &mut BTreeMap<&'static str, u64>) {}
}

macro_rules! fail {
    ($p:expr, $c:expr, $s:expr, $($a:tt)*) => {
        return Err(viol($p, $c, format!("{}\n    at: {}", format!($($a)*), $s.brief())))
    };
}

fn panic_check(prop: &str, s: &Step) -> Check {
    if let Res::Panic(p) = &s.res {
        fail!(prop, "panic", s, "foca panicked: {p}");
    }
    Ok(())
}

pub fn make(prop: &str, opts: MonOpts) -> Vec<Box<dyn Monitor>> {
    match prop {
        "C01" => vec![Box::new(C01::default())],
        "C06" => vec![Box::new(C06)],
        "C07" => vec![Box::new(C07::new())],
        "C08" => vec![Box::new(C08::new())],
        "C09" => vec![Box::new(C09::default())],
        "C10" => vec![Box::new(C10::new())],
        "C11" => vec![Box::new(C11::new())],
        "C12" => vec![Box::new(C12::new(opts.in_order))],
        "C13" => vec![Box::new(C13::new(opts.in_order))],
        "C14" => vec![Box::new(C14::default())],
        "C15" => vec![Box::new(C15::new())],
        "C16" => vec![Box::new(C16::new(opts.spec))],
        "C19" => vec![Box::new(C19)],
        _ => vec![],
    }
}
#[derive(Clone, Copy)]
pub struct MonOpts {
    pub in_order: bool,
    pub spec: HSpec,
}

fn bump(o: &mut BTreeMap<&'static str, u64>, k: &'static str, v: u64) {
    *o.entry(k).or_insert(0) += v;
}

// ================================================================= C01
pub struct C01 {
    conn: ConnT,
    replaced: u64,
    lost: u64,
    exact: u64,
}
impl Default for C01 {
    fn default() -> Self {
        C01 { conn: ConnT::new(), replaced: 0, lost: 0, exact: 0 }
    }
}
pub fn check_forward(prop: &str, s: &Step) -> Check {
    for a in &s.pre.state {
        let own = a.id().addr == s.pre.id.addr || a.id().addr == s.post.id.addr;
        match s.post.rec(a.id().addr) {
            None => {
                let forgotten = matches!(&s.op, Op::Timer(Timer::RemoveDown(x)) if x == a.id()) && a.state() == State::Down;
                if !forgotten && !own {
                    fail!(prop, "record-lost", s, "record {} vanished without its forget-timer", m_brief(a));
                }
            }
            Some(b) => {
                if !forward(a, b) {
                    fail!(prop, "backward", s, "record moved backwards: {} -> {}", m_brief(a), m_brief(b));
                }
            }
        }
    }
    Ok(())
}
pub fn check_exact(prop: &str, s: &Step, w: &Walk) -> Check {
    if s.aborted() {
        return Ok(());
    }
    let own = |a: u16| a == s.post.id.addr || a == s.pre.id.addr;
    for (a, m) in &w.map {
        if own(*a) {
            continue;
        }
        match s.post.rec(*a) {
            None => fail!(prop, "missing", s, "expected record {} but there is none", m_brief(m)),
            Some(b) if !same_rec(m, b) => {
                fail!(prop, "wrong-record", s, "expected record {} but found {} (was {:?})", m_brief(m), m_brief(b), s.pre.rec(*a).map(m_brief))
            }
            _ => {}
        }
    }
    for b in &s.post.state {
        if !own(b.id().addr) && !w.map.contains_key(&b.id().addr) {
            fail!(prop, "invented", s, "record {} appeared from nowhere", m_brief(b));
        }
    }
    Ok(())
}
impl Monitor for C01 {
    fn step(&mut self, s: &Step) -> Check {
        panic_check("C01", s)?;
        check_forward("C01", s)?;
        if let Some(w) = walk(s, self.conn.conn) {
            check_exact("C01", s, &w)?;
            self.exact += 1;
            self.replaced += s.notes().filter(|n| matches!(n, Note::Rename(..))).count() as u64;
            if let Some(p) = s.ok_pkt() {
                self.lost += (!w.sender_active) as u64;
                let _ = p;
            }
        } else if !matches!(s.op, Op::Timer(_)) && !s.aborted() {
            // nothing else may touch membership
            let third = |v: &View| -> Vec<M> {
                v.sorted().into_iter().filter(|m| m.id().addr != s.pre.id.addr && m.id().addr != s.post.id.addr).collect()
            };
            if third(&s.pre) != third(&s.post) {
                fail!("C01", "spurious-change", s, "membership changed by a call that carries no update");
            }
        }
        self.conn.step(s);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "exact_compared_steps", self.exact);
        bump(o, "conflict_replacements", self.replaced);
        bump(o, "inactive_senders", self.lost);
    }
}

// ================================================================= C06
pub struct C06;
impl Monitor for C06 {
    fn step(&mut self, s: &Step) -> Check {
        panic_check("C06", s)
    }
}

// ================================================================= C07
pub struct C07 {
    conn: ConnT,
    inc: IncT,
    n: u64,
    truncated: u64,
    none_section: u64,
}
impl C07 {
    fn new() -> Self {
        C07 { conn: ConnT::new(), inc: IncT::new(), n: 0, truncated: 0, none_section: 0 }
    }
}
impl Monitor for C07 {
    fn step(&mut self, s: &Step) -> Check {
        panic_check("C07", s)?;
        // identities this call may legitimately speak for, in order
        let mut chain = vec![s.pre.id];
        for n in s.notes() {
            if let Note::Rejoin(i) = n {
                chain.push(*i);
            }
        }
        if *chain.last().unwrap() != s.post.id {
            chain.push(s.post.id);
        }
        if matches!(s.op, Op::ChangeId(_)) && s.pre.id != s.post.id {
            chain.remove(0);
        }
        let mut at = 0usize;
        for e in &s.eff {
            match e {
                Eff::Note(Note::Rejoin(i)) => {
                    if let Some(p) = chain.iter().position(|c| c == i) {
                        at = at.max(p);
                    }
                }
                Eff::Send { to, data, pkt } => {
                    self.n += 1;
                    if data.len() as u64 > s.cfg.mps {
                        fail!("C07", "too-big", s, "datagram of {} bytes, max_packet_size {}", data.len(), s.cfg.mps);
                    }
                    let p = match pkt {
                        Ok(p) => p,
                        Err(e) => fail!("C07", "grammar", s, "datagram does not follow the grammar: {e}; bytes {}", tohex(data)),
                    };
                    if p.hdr.dst != *to {
                        fail!("C07", "dst", s, "header dst {:?} handed over for {:?}", p.hdr.dst, to);
                    }
                    match chain.iter().skip(at).position(|c| *c == p.hdr.src) {
                        Some(x) => at += x,
                        None => fail!("C07", "src", s, "header src {:?} is not the current identity ({:?})", p.hdr.src, chain),
                    }
                    let room = s.cfg.mps - p.hlen as u64;
                    if has_members(&p.hdr.message) && p.members.is_none() {
                        self.none_section += 1;
                        if room > 2 {
                            fail!("C07", "no-count", s, "{} without member count although {room} bytes were left", kind_name(&p.hdr.message));
                        }
                    }
                    if p.hdr.message == Message::Feed {
                        let ms = p.members.as_deref().unwrap_or(&[]);
                        let mut seen = BTreeSet::new();
                        for m in ms {
                            if !is_active(m) {
                                fail!("C07", "feed-down", s, "Feed lists inactive member {}", m_brief(m));
                            }
                            if m.id() == to || *m.id() == p.hdr.src {
                                fail!("C07", "feed-self", s, "Feed lists its receiver or sender: {}", m_brief(m));
                            }
                            match s.post.state.iter().find(|x| x.id() == m.id()) {
                                Some(x) if x == m => {}
                                o => fail!("C07", "feed-content", s, "Feed lists {} but the record is {:?}", m_brief(m), o.map(m_brief)),
                            }
                            if !seen.insert(*m.id()) {
                                fail!("C07", "feed-dup", s, "Feed lists {} twice", m_brief(m));
                            }
                        }
                        let others = s.post.active.iter().filter(|m| m.id() != to).count();
                        if ms.len() < others {
                            self.truncated += 1;
                        }
                    }
                    if p.hdr.src.addr != to.addr {
                        self.accept(s, *to, data)?;
                    }
                }
                _ => {}
            }
        }
        let c = self.conn.conn;
        if let Err(e) = self.inc.step(s, c) {
            fail!("C07", "src-incarnation", s, "{e}");
        }
        self.conn.step(s);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "datagrams_checked", self.n);
        bump(o, "feeds_truncated_by_space", self.truncated);
        bump(o, "no_room_for_count", self.none_section);
    }
}
impl C07 {
    /// a fresh peer with the same codec and packet size must take it
    fn accept(&self, s: &Step, to: Id, data: &[u8]) -> Check {
        let spec = HSpec { rel: Rel::Never, pred: Pred::Nobody, accept: Accept::All };
        let mut cfg = s.cfg.clone();
        cfg.notify_down = true;
        let mut peer = Inst::new(to, cfg, s.codec, spec, 7);
        let r = peer.exec(Op::Data(Hex(data.to_vec())));
        match r.res {
            Res::Err(EKind::Decode | EKind::MalformedPacket | EKind::DataTooBig | EKind::DataFromOurselves) => {
                fail!("C07", "peer-rejects", s, "a peer {to:?} rejects the datagram {}: {:?}", tohex(data), r.res)
            }
            Res::Panic(p) => fail!("C07", "peer-panics", s, "a peer {to:?} panics on the datagram: {p}"),
            _ => Ok(()),
        }
    }
}

// ================================================================= C08
pub struct C08 {
    up: BTreeSet<Id>,
    conn: ConnT,
    ups: u64,
    renames: u64,
    idles: u64,
    defuncts: u64,
    rejoins: u64,
}
impl C08 {
    fn new() -> Self {
        C08 { up: BTreeSet::new(), conn: ConnT::new(), ups: 0, renames: 0, idles: 0, defuncts: 0, rejoins: 0 }
    }
}
impl Monitor for C08 {
    fn step(&mut self, s: &Step) -> Check {
        panic_check("C08", s)?;
        let before = self.conn.conn;
        if let Some(d) = &s.acc_diff {
            fail!("C08", "accumulating", s, "AccumulatingRuntime differs from a direct runtime: {d}");
        }
        // ---- expected reactions to one's own death
        let mut deaths: Vec<WEv> = vec![];
        if let Some(w) = walk(s, before) {
            deaths = w.ev.iter().filter(|e| matches!(e, WEv::Death { .. })).cloned().collect();
        }
        let want_rejoin: Vec<Id> = deaths.iter().filter_map(|d| if let WEv::Death { renewed: Some(n), .. } = d { Some(*n) } else { None }).collect();
        let mut want_defunct = deaths.iter().any(|d| matches!(d, WEv::Death { renewed: None, defunct: false, .. }));
        let may_defunct = want_defunct || deaths.iter().any(|d| matches!(d, WEv::Death { renewed: None, .. })) || matches!(s.op, Op::Leave);
        if matches!(s.op, Op::Leave) && s.res == Res::Ok && before != Conn::Defunct {
            want_defunct = true;
        }
        self.conn.begin(s);
        let mut got_rejoin = vec![];
        let mut got_defunct = 0;
        for n in s.notes() {
            match n {
                Note::Up(i) => {
                    self.ups += 1;
                    if !self.up.insert(*i) {
                        fail!("C08", "up-twice", s, "MemberUp({i:?}) for a member already up");
                    }
                }
                Note::Down(i) => {
                    if !self.up.remove(i) {
                        fail!("C08", "down-not-up", s, "MemberDown({i:?}) for a member that is not up");
                    }
                }
                Note::Rename(a, b) => {
                    self.renames += 1;
                    if a.addr != b.addr || a == b {
                        fail!("C08", "rename-addr", s, "Rename({a:?},{b:?}) is not a change of identity at one address");
                    }
                    if self.up.remove(a) {
                        self.up.insert(*b);
                    }
                }
                Note::Active => {
                    if self.conn.conn != Conn::Idle {
                        fail!("C08", "active-not-idle", s, "Active while {:?}", self.conn.conn);
                    }
                    if self.up.is_empty() {
                        fail!("C08", "active-empty", s, "Active without any active member");
                    }
                }
                Note::Idle => {
                    self.idles += 1;
                    if self.conn.conn != Conn::Active {
                        fail!("C08", "idle-not-active", s, "Idle while {:?}", self.conn.conn);
                    }
                    if !self.up.is_empty() {
                        fail!("C08", "idle-members", s, "Idle with active members {:?}", self.up);
                    }
                }
                Note::Rejoin(i) => {
                    self.rejoins += 1;
                    got_rejoin.push(*i);
                }
                Note::Defunct => {
                    self.defuncts += 1;
                    got_defunct += 1;
                }
                Note::Other => {}
            }
            self.conn.note(n);
        }
        if !s.aborted() {
            let listed: BTreeSet<Id> = s.post.active.iter().map(|m| *m.id()).collect();
            if listed.len() != s.post.active.len() {
                fail!("C08", "iter-dup", s, "iter_members lists an identity twice");
            }
            if listed != self.up {
                fail!("C08", "mirror", s, "notifications say {:?} are up, iter_members says {listed:?}", self.up);
            }
            if s.post.num != s.post.active.len() {
                fail!("C08", "num-members", s, "num_members()={} but iter_members yields {}", s.post.num, s.post.active.len());
            }
            let st: BTreeSet<Id> = s.post.state.iter().filter(|m| is_active(m)).map(|m| *m.id()).collect();
            if st != listed {
                fail!("C08", "state-mirror", s, "iter_membership_state has {st:?} active, iter_members {listed:?}");
            }
            if self.conn.conn == Conn::Active && s.post.num == 0 {
                fail!("C08", "active-without-members", s, "still Active although no member is active (no Idle notified)");
            }
            if got_rejoin != want_rejoin {
                fail!("C08", "rejoin", s, "expected Rejoin notifications {want_rejoin:?}, got {got_rejoin:?}");
            }
            if !got_rejoin.is_empty() && !want_defunct && s.post.id != *got_rejoin.last().unwrap() {
                fail!("C08", "rejoin-id", s, "Rejoin({:?}) but the identity is {:?}", got_rejoin.last().unwrap(), s.post.id);
            }
            if got_rejoin.is_empty() && s.pre.id != s.post.id && !matches!(s.op, Op::ChangeId(_)) {
                fail!("C08", "silent-rename", s, "identity changed from {:?} to {:?} without Rejoin", s.pre.id, s.post.id);
            }
            if got_defunct > 0 && !may_defunct {
                fail!("C08", "defunct", s, "Defunct although nothing declared {:?} down", s.pre.id);
            }
            if want_defunct && got_defunct == 0 {
                fail!("C08", "no-defunct", s, "own identity is Down but no Defunct was notified");
            }
            if matches!(s.op, Op::ApplyMany(..)) && s.res == Res::Ok && self.conn.conn == Conn::Idle && s.post.num > 0 {
                fail!("C08", "not-active", s, "{} active members after apply_many but Active was never notified", s.post.num);
            }
        }
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "member_up", self.ups);
        bump(o, "rename", self.renames);
        bump(o, "idle", self.idles);
        bump(o, "defunct", self.defuncts);
        bump(o, "rejoin", self.rejoins);
    }
}

// ================================================================= C09
#[derive(Default)]
pub struct C09 {
    conn: Option<ConnT>,
    told: BTreeSet<u16>,
    /// highest identity seen per address since it was last forgotten
    best: BTreeMap<u16, Id>,
    discards: u64,
    own_echo: u64,
}
impl Monitor for C09 {
    fn step(&mut self, s: &Step) -> Check {
        panic_check("C09", s)?;
        let conn = self.conn.get_or_insert_with(ConnT::new);
        let before = conn.conn;
        // addresses it was told about
        match (&s.op, &s.inp) {
            (Op::ApplyMany(v, _), _) => self.told.extend(v.iter().map(|m| m.id().addr)),
            (_, Some(InClass::Ok(p))) => {
                self.told.insert(p.hdr.src.addr);
                self.told.extend(p.members.iter().map(|m| m.id().addr));
            }
            _ => {}
        }
        let mut seen = BTreeSet::new();
        for m in &s.post.state {
            let a = m.id().addr;
            if !seen.insert(a) {
                fail!("C09", "dup-addr", s, "two records for address {a}: {:?}", s.post.state.iter().map(m_brief).collect::<Vec<_>>());
            }
            if a == s.post.id.addr && is_active(m) {
                fail!("C09", "own-active", s, "own address is listed active: {}", m_brief(m));
            }
            if !self.told.contains(&a) {
                fail!("C09", "untold", s, "record {} for an address it was never told about", m_brief(m));
            }
        }
        if s.post.state.len() > self.told.len() {
            fail!("C09", "growth", s, "{} records but only {} addresses known", s.post.state.len(), self.told.len());
        }
        for m in &s.post.active {
            if m.id().addr == s.post.id.addr {
                fail!("C09", "own-active", s, "own address is in iter_members: {}", m_brief(m));
            }
        }
        // identity replacement: forward only, reported
        let mut cur: BTreeMap<u16, Id> = s.pre.state.iter().map(|m| (m.id().addr, *m.id())).collect();
        for n in s.notes() {
            if let Note::Rename(a, b) = n {
                if !b.wins(a) || a.addr != b.addr {
                    fail!("C09", "rename-loses", s, "Rename({a:?},{b:?}) but {b:?} does not win the conflict");
                }
                if let Some(c) = cur.get(&a.addr) {
                    if c != a {
                        fail!("C09", "rename-chain", s, "Rename({a:?},{b:?}) but the record was {c:?}");
                    }
                }
                cur.insert(a.addr, *b);
            }
        }
        for m in &s.pre.state {
            let a = m.id().addr;
            if let Some(p) = s.post.rec(a) {
                if p.id() != m.id() {
                    if !p.id().wins(m.id()) {
                        fail!("C09", "fallback", s, "record {} replaced by {} which does not win", m_brief(m), m_brief(p));
                    }
                    if cur.get(&a) != Some(p.id()) {
                        fail!("C09", "no-rename", s, "record {} replaced by {} without Rename", m_brief(m), m_brief(p));
                    }
                }
            }
        }
        if let Op::Timer(Timer::RemoveDown(i)) = &s.op {
            if s.post.rec(i.addr).is_none() {
                self.best.remove(&i.addr);
            }
        }
        for m in &s.post.state {
            let a = m.id().addr;
            let b = self.best.entry(a).or_insert(*m.id());
            if b.wins(m.id()) {
                fail!("C09", "superseded-back", s, "address {a} fell back from {b:?} to {}", m_brief(m));
            }
            *b = *m.id();
        }
        // own former records vanish only through forgetting; drop bests of vanished records
        self.best.retain(|a, _| s.post.rec(*a).is_some());
        // payload of superseded / Down senders
        if let (Some(p), false) = (s.ok_pkt(), s.aborted()) {
            if let Some(r) = s.pre.rec(p.hdr.src.addr) {
                let dead = (*r.id() == p.hdr.src && !is_active(r)) || r.id().wins(&p.hdr.src);
                if dead {
                    self.discards += 1;
                    if s.pre.sorted() != s.post.sorted() {
                        fail!("C09", "payload-used", s, "membership changed by a datagram from {:?}, whose record is {}", p.hdr.src, m_brief(r));
                    }
                    if !s.hlog.is_empty() {
                        fail!("C09", "payload-used", s, "custom broadcasts consumed from {:?}, whose record is {}", p.hdr.src, m_brief(r));
                    }
                    for (to, q) in s.pkts() {
                        let ok = match q.hdr.message {
                            Message::TurnUndead => *to == p.hdr.src,
                            Message::Gossip | Message::Announce => p.hdr.message == Message::TurnUndead,
                            _ => false,
                        };
                        if !ok {
                            fail!("C09", "payload-used", s, "answered {} to {to:?} on a datagram from {:?}, whose record is {}", kind_name(&q.hdr.message), p.hdr.src, m_brief(r));
                        }
                    }
                    let death = p.hdr.message == Message::TurnUndead;
                    if !death && s.pre.id != s.post.id {
                        fail!("C09", "payload-used", s, "identity changed by the payload of a dead sender");
                    }
                    if !death && s.notes().next().is_some() {
                        fail!("C09", "payload-used", s, "notifications caused by the payload of a dead sender");
                    }
                    if s.timers().next().is_some() {
                        fail!("C09", "payload-used", s, "timers caused by the payload of a dead sender");
                    }
                }
            }
            if p.members.iter().any(|m| m.id().addr == s.pre.id.addr && *m.id() != s.pre.id) {
                self.own_echo += 1;
            }
        }
        let _ = before;
        conn.step(s);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "dead_sender_discards", self.discards);
        bump(o, "own_address_echoes", self.own_echo);
    }
}

// ================================================================= C10
pub struct C10 {
    conn: ConnT,
    inc: IncT,
    told: BTreeMap<Id, u16>,
    mine: BTreeSet<Id>,
    /// identities taken over (through the API) while known as an active member
    usurped: BTreeSet<Id>,
    suspicions: u64,
    stale: u64,
    deaths: u64,
    maxed: u64,
}
impl C10 {
    fn new() -> Self {
        C10 { conn: ConnT::new(), inc: IncT::new(), told: BTreeMap::new(), mine: BTreeSet::new(), usurped: BTreeSet::new(), suspicions: 0, stale: 0, deaths: 0, maxed: 0 }
    }
    fn tell(&mut self, i: &Id, inc: u16) {
        let e = self.told.entry(*i).or_insert(inc);
        *e = (*e).max(inc);
    }
}
impl Monitor for C10 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C10";
        panic_check(P, s)?;
        let before = self.conn.conn;
        self.mine.insert(s.pre.id);
        self.mine.insert(s.post.id);
        // news about whoever used this identity before may still be in the backlog
        if matches!(s.op, Op::ChangeId(_)) && (s.pre.rec(s.post.id.addr).is_some() || self.told.contains_key(&s.post.id)) {
            self.usurped.insert(s.post.id);
        }
        for n in s.notes() {
            if let Note::Rejoin(i) = n {
                self.mine.insert(*i);
            }
        }
        match (&s.op, &s.inp) {
            (Op::ApplyMany(v, _), _) => {
                for m in v {
                    self.tell(m.id(), m.incarnation());
                }
            }
            (_, Some(InClass::Ok(p))) => {
                let p = p.clone();
                self.tell(&p.hdr.src, p.hdr.src_incarnation);
                for m in &p.members {
                    self.tell(m.id(), m.incarnation());
                }
            }
            _ => {}
        }
        // never fabricates incarnations
        for (_, p) in s.pkts() {
            for m in p.members.iter().flatten() {
                if self.mine.contains(m.id()) {
                    if is_active(m) && *m.id() == p.hdr.src && !self.usurped.contains(m.id()) {
                        // talking about itself: at most its own incarnation
                        if m.incarnation() > p.hdr.src_incarnation {
                            fail!(P, "fabricated-own", s, "tells {} about itself, above its own incarnation", m_brief(m));
                        }
                    }
                    continue;
                }
                match self.told.get(m.id()) {
                    Some(t) if *t >= m.incarnation() => {}
                    // an own-address identity is declared Down by ourselves
                    t => fail!(P, "fabricated", s, "tells {} but was told at most {:?}", m_brief(m), t),
                }
            }
        }
        let w = walk(s, before);
        if let Err(e) = self.inc.step(s, before) {
            fail!(P, "incarnation", s, "{e}");
        }
        if let Some(w) = &w {
            for e in &w.ev {
                if let WEv::SelfSuspect { inc, .. } = e {
                    self.suspicions += 1;
                    if *inc >= u16::MAX - 1 {
                        self.maxed += 1;
                    }
                    if self.inc.exact.map(|x| x > inc.saturating_add(1)).unwrap_or(false) {
                        self.stale += 1;
                    }
                }
            }
        }
        if !s.aborted() {
            if let Some(w) = &w {
                let mut rejoins = s.notes().filter_map(|n| if let Note::Rejoin(i) = n { Some(*i) } else { None });
                for e in &w.ev {
                    let WEv::Death { me, renewed, active, defunct, known_dead, .. } = e else { continue };
                    if *known_dead {
                        fail!(P, "rejoined-dead", s, "{me:?} was told it is Down and carried on as {renewed:?}, which it already knew to be Down");
                    }
                    self.deaths += 1;
                    if *defunct {
                        continue;
                    }
                    match renewed {
                        Some(_) => {
                            let Some(n) = rejoins.next() else {
                                // becoming defunct instead is also a legal reaction
                                if s.notes().any(|n| *n == Note::Defunct) {
                                    continue;
                                }
                                fail!(P, "ignored-death", s, "{me:?} learned it is Down and neither rejoined nor became Defunct");
                            };
                            if n == *me || !n.wins(me) {
                                fail!(P, "bad-renewal", s, "{me:?} rejoined as {n:?} which does not win against it");
                            }
                            if *active > 0 {
                                let mut any = false;
                                // (each datagram uses up one of max_transmissions)
                                for (_, p) in s.pkts().filter(|(_, p)| p.hdr.src == n && p.hdr.message == Message::Gossip).take(1) {
                                    any = true;
                                    let has = p.members.iter().flatten().any(|m| m.id() == me && m.state() == State::Down);
                                    let used: usize = p.mlens.iter().sum();
                                    let need = s.codec.m_len(&mem(*me, 0, State::Down));
                                    let left = (s.cfg.mps as usize).saturating_sub(p.hlen + 2 + used);
                                    if !has && need <= left {
                                        fail!(P, "death-not-gossiped", s, "{me:?} -> {n:?}: Gossip does not carry the old identity as Down");
                                    }
                                }
                                if !any {
                                    fail!(P, "death-not-gossiped", s, "{me:?} -> {n:?}: old identity was not gossiped as Down");
                                }
                            // (dying once more in the same call replaces it with news about the newer one, and hearing of
                            // yet another identity of one's own address with news about that one)
                            } else if s.post.id == n && s.post.upd == 0 && s.pre.rec(me.addr) == s.post.rec(me.addr) && !s.pkts().any(|(_, p)| p.members.iter().flatten().any(|m| m.id() == me && m.state() == State::Down)) {
                                fail!(P, "death-not-gossiped", s, "{me:?} -> {n:?}: old identity not queued for gossip");
                            }
                        }
                        None => {
                            if !s.notes().any(|n| *n == Note::Defunct) {
                                fail!(P, "ignored-death", s, "{me:?} learned it is Down, cannot renew, and did not become Defunct");
                            }
                        }
                    }
                }
            }
            // unsolicited identity changes
            let ndeaths = w.as_ref().map(|w| w.ev.iter().filter(|e| matches!(e, WEv::Death { .. })).count()).unwrap_or(0);
            let nre = s.notes().filter(|n| matches!(n, Note::Rejoin(_))).count();
            if nre > ndeaths {
                fail!(P, "unprovoked-rejoin", s, "rejoined although nobody declared it Down");
            }
            if s.notes().any(|n| *n == Note::Defunct) && ndeaths == 0 && !matches!(s.op, Op::Leave) {
                fail!(P, "unprovoked-defunct", s, "Defunct although nobody declared it Down");
            }
        }
        // dead identities do not carry on
        if before == Conn::Defunct && !matches!(s.op, Op::ChangeId(_) | Op::Reuse) {
            if s.notes().any(|n| *n == Note::Active) {
                fail!(P, "zombie-active", s, "became Active while its identity is dead");
            }
            for (_, p) in s.pkts() {
                let user = matches!(s.op, Op::Announce(_) | Op::Gossip | Op::Broadcast | Op::Leave);
                if !user && !matches!(p.hdr.message, Message::TurnUndead) && p.hdr.src == s.pre.id {
                    fail!(P, "zombie-talks", s, "sends {} under a dead identity", kind_name(&p.hdr.message));
                }
            }
        }
        self.conn.step(s);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "self_suspicions", self.suspicions);
        bump(o, "self_suspicions_near_max", self.maxed);
        bump(o, "stale_self_suspicions", self.stale);
        bump(o, "own_deaths", self.deaths);
    }
}

// ================================================================= C11
pub struct C11 {
    conn: ConnT,
    /// issued suspicion timers and the epoch they belong to
    issued: Vec<(T, u32)>,
    /// (addr, Down record, datagrams it may still be missing from)
    must_gossip: Vec<M>,
    fired: u64,
    cancelled: u64,
    stale_epoch: u64,
    reid: u64,
    forgot: u64,
    noforgot: u64,
}
impl C11 {
    fn new() -> Self {
        C11 { conn: ConnT::new(), issued: vec![], must_gossip: vec![], fired: 0, cancelled: 0, stale_epoch: 0, reid: 0, forgot: 0, noforgot: 0 }
    }
}
impl Monitor for C11 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C11";
        panic_check(P, s)?;
        check_forward(P, s)?;
        let w = walk(s, self.conn.conn);
        if let Some(w) = &w {
            check_exact(P, s, w)?;
        }
        let rd = Duration::from_millis(s.cfg.rd);
        // the Down update must be gossiped (unless forgotten or superseded meanwhile)
        self.must_gossip.retain(|m| s.post.rec(m.id().addr).map(|r| r.id() == m.id() && !is_active(r)).unwrap_or(false));
        if s.pre.id != s.post.id {
            // our former identity's death takes the place of whatever was pending about its address
            self.must_gossip.retain(|m| m.id().addr != s.pre.id.addr);
        }
        for (_, p) in s.pkts() {
            if !drains_updates(&p.hdr.message) || s.cfg.mps as usize - p.hlen <= 2 {
                continue;
            }
            if matches!(s.op, Op::Timer(_)) || s.pre == s.post || matches!(s.op, Op::Gossip) {
                let used: usize = p.mlens.iter().sum();
                let left = s.cfg.mps as usize - p.hlen - 2 - used;
                for m in &self.must_gossip {
                    let has = p.members.iter().flatten().any(|x| x.id().addr == m.id().addr && forward(m, x));
                    if !has && s.codec.m_len(m) <= left {
                        fail!(P, "down-not-gossiped", s, "{} was declared Down by timeout but the next datagram does not say so", m_brief(m));
                    }
                }
            }
            self.must_gossip.clear();
        }
        match &s.op {
            Op::Timer(t @ Timer::ChangeSuspectToDown { member_id, incarnation, .. }) => {
                let current = self.issued.iter().any(|(x, e)| x == t && *e == self.conn.epoch);
                let known = self.issued.iter().any(|(x, _)| x == t);
                let rec = s.pre.state.iter().find(|m| m.id() == member_id);
                let takes = current && rec.map(|r| r.incarnation() == *incarnation && is_active(r)).unwrap_or(false);
                if takes {
                    self.fired += 1;
                    let r = s.post.rec(member_id.addr);
                    if !r.map(|r| r.id() == member_id && r.state() == State::Down).unwrap_or(false) {
                        fail!(P, "timeout-ignored", s, "unrefuted suspicion of {member_id:?} timed out but its record is {:?}", r.map(m_brief));
                    }
                    if s.notes().filter(|n| **n == Note::Down(*member_id)).count() != 1 {
                        fail!(P, "no-member-down", s, "MemberDown({member_id:?}) not notified exactly once");
                    }
                    let rm: Vec<_> = s.timers().filter(|(t, _)| matches!(t, Timer::RemoveDown(_))).collect();
                    if rm.len() != 1 || *rm[0].0 != Timer::RemoveDown(*member_id) || *rm[0].1 != rd {
                        fail!(P, "forget-timer", s, "expected RemoveDown({member_id:?}) after {rd:?}, got {rm:?}");
                    }
                    let tu = s.pkts().filter(|(to, p)| *to == member_id && p.hdr.message == Message::TurnUndead).count();
                    if !s.aborted() && tu != s.cfg.notify_down as usize {
                        fail!(P, "turn-undead", s, "notify_down_members={} but {tu} TurnUndead sent", s.cfg.notify_down);
                    }
                    if s.post.upd == 0 {
                        fail!(P, "down-not-gossiped", s, "{member_id:?} went Down but nothing is queued for gossip");
                    }
                    // others untouched
                    let others = |v: &View| v.sorted().into_iter().filter(|m| m.id().addr != member_id.addr).collect::<Vec<_>>();
                    if others(&s.pre) != others(&s.post) {
                        fail!(P, "collateral", s, "other records changed with the timeout");
                    }
                    if s.post.num == 0 && self.conn.conn == Conn::Active && !s.notes().any(|n| *n == Note::Idle) {
                        fail!(P, "no-idle", s, "last member went down without Idle");
                    }
                    self.must_gossip.push(mem(*member_id, *incarnation, State::Down));
                } else if known {
                    self.cancelled += 1;
                    if !current {
                        self.stale_epoch += 1;
                    }
                    if s.pre.rec(member_id.addr).map(|r| r.id() != member_id && r.incarnation() == *incarnation).unwrap_or(false) {
                        self.reid += 1;
                    }
                    // a member already Down by other means may be told again, nothing else
                    let already = rec.map(|r| !is_active(r) && r.incarnation() == *incarnation).unwrap_or(false) && current;
                    let tolerated = already
                        && s.pre == s.post
                        && s.eff.iter().all(|e| matches!(e, Eff::Send { to, pkt: Ok(p), .. } if to == member_id && p.hdr.message == Message::TurnUndead));
                    if !s.quiet() && !tolerated {
                        fail!(P, "cancelled-timeout-acts", s, "cancelled or stale suspicion timeout had an effect (record {:?}, current epoch: {current})", s.pre.rec(member_id.addr).map(m_brief));
                    }
                }
            }
            Op::Timer(Timer::RemoveDown(i)) => {
                let had = s.pre.state.iter().any(|m| m.id() == i && m.state() == State::Down);
                let others = |v: &View| v.sorted().into_iter().filter(|m| m.id() != i || !had).collect::<Vec<_>>();
                if had {
                    self.forgot += 1;
                    if s.post.state.iter().any(|m| m.id() == i) {
                        fail!(P, "not-forgotten", s, "forget-timer of {i:?} did not remove its Down record");
                    }
                } else {
                    self.noforgot += 1;
                }
                if others(&s.pre) != others(&s.post) {
                    fail!(P, "forgot-wrong", s, "forget-timer of {i:?} changed other records: {:?} -> {:?}", s.pre.sorted().iter().map(m_brief).collect::<Vec<_>>(), s.post.sorted().iter().map(m_brief).collect::<Vec<_>>());
                }
                if !s.eff.is_empty() {
                    fail!(P, "forget-effects", s, "forgetting had side effects");
                }
            }
            _ => {}
        }
        // whoever is Down now and was not before is scheduled to be forgotten
        if !s.aborted() {
            for m in s.post.state.iter().filter(|m| !is_active(m)) {
                if s.pre.state.iter().any(|x| x.id() == m.id() && !is_active(x)) {
                    continue;
                }
                let n: Vec<_> = s.timers().filter(|(t, _)| **t == Timer::RemoveDown(*m.id())).collect();
                if n.len() != 1 {
                    fail!(P, "forget-timer", s, "{} became Down but {} forget-timers were scheduled", m_brief(m), n.len());
                }
            }
            for (t, d) in s.timers() {
                if matches!(t, Timer::RemoveDown(_)) && *d != rd {
                    fail!(P, "forget-delay", s, "{t:?} scheduled after {d:?}, remove_down_after is {rd:?}");
                }
            }
        }
        if s.pre.state.iter().any(|a| !is_active(a) && s.post.state.iter().any(|b| b.id() == a.id() && is_active(b))) {
            fail!(P, "resurrected", s, "a Down identity became active again");
        }
        // remember suspicion timers with the epoch at their position in the stream
        self.conn.begin(s);
        for e in &s.eff {
            match e {
                Eff::Note(n) => self.conn.note(n),
                Eff::Timer { t, .. } if matches!(t, Timer::ChangeSuspectToDown { .. }) => self.issued.push((t.clone(), self.conn.epoch)),
                _ => {}
            }
        }
        let ep = self.conn.epoch;
        self.issued.retain(|(_, e)| e + 250 > ep);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "timeouts_taking_effect", self.fired);
        bump(o, "timeouts_cancelled", self.cancelled);
        bump(o, "timeouts_of_stale_epoch", self.stale_epoch);
        bump(o, "timeouts_on_renewed_identity_same_incarnation", self.reid);
        bump(o, "forgotten", self.forgot);
        bump(o, "forget_timer_without_record", self.noforgot);
    }
}

// ================================================================= C12
struct Round {
    target: Id,
    num: u8,
    inc: u16,
    timer: Option<T>,
    asked: Vec<Id>,
    evidence: bool,
    indirect: bool,
}
pub struct C12 {
    conn: ConnT,
    round: Option<Round>,
    last_num: Option<u8>,
    in_order: bool,
    rounds: u64,
    direct: u64,
    indirect: u64,
    failed: u64,
    bogus: u64,
    relays: u64,
    aborted: u64,
    not_active: u64,
}
impl C12 {
    fn new(in_order: bool) -> Self {
        C12 { conn: ConnT::new(), round: None, last_num: None, in_order, rounds: 0, direct: 0, indirect: 0, failed: 0, bogus: 0, relays: 0, aborted: 0, not_active: 0 }
    }
}
impl Monitor for C12 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C12";
        panic_check(P, s)?;
        // (the epoch token is 8 bits wide: beyond that old timers may look current again)
        if s.aborted() || self.conn.epoch > 200 {
            self.round = None;
            self.in_order = false;
            self.conn.step(s);
            return Ok(());
        }
        let before = self.conn.conn;
        let w = walk(s, before);
        // ---- answers
        if let (Some(w), Some(p)) = (&w, s.ok_pkt()) {
            let src = p.hdr.src;
            let me = s.post.id;
            // a renewed identity introduces itself
            let rejoined = s.notes().any(|n| matches!(n, Note::Rejoin(_)));
            let answers: Vec<(Id, &Pkt)> = s
                .pkts()
                .filter(|(_, q)| q.hdr.message != Message::Gossip)
                .filter(|(_, q)| !(q.hdr.message == Message::Announce && rejoined))
                .map(|(t, q)| (*t, q)).collect();
            let mut conn_after = self.conn.clone();
            conn_after.step(s);
            let alive = w.processed && conn_after.conn != Conn::Defunct;
            let mut expect: Option<(Id, Msg)> = None;
            let mut rejected = false;
            if alive {
                match p.hdr.message.clone() {
                    Message::Ping(n) => expect = Some((src, Message::Ack(n))),
                    Message::PingReq { target, probe_number } => {
                        if target == me {
                            rejected = true;
                        } else {
                            expect = Some((target, Message::IndirectPing { origin: src, probe_number }));
                        }
                    }
                    Message::IndirectPing { origin, probe_number } => {
                        if origin == me {
                            rejected = true;
                        } else {
                            expect = Some((src, Message::IndirectAck { target: origin, probe_number }));
                        }
                    }
                    Message::IndirectAck { target, probe_number } => {
                        if target == me {
                            rejected = true;
                        } else {
                            expect = Some((target, Message::ForwardedAck { origin: src, probe_number }));
                        }
                    }
                    Message::ForwardedAck { origin, .. } => rejected = origin == me,
                    Message::Announce => expect = Some((src, Message::Feed)),
                    _ => {}
                }
            }
            if w.processed {
                if let Some((to, m)) = &expect {
                    self.relays += 1;
                    // the sender may have declared itself Down, leaving nobody to talk to
                    let silent = answers.is_empty() && conn_after.conn == Conn::Idle;
                    if !silent && !(answers.len() == 1 && answers[0].0 == *to && answers[0].1.hdr.message == *m) {
                        fail!(P, "answer", s, "expected exactly the answer {m:?} to {to:?}");
                    }
                } else if !answers.is_empty() {
                    fail!(P, "unexpected-answer", s, "expected no answer to {}", kind_name(&p.hdr.message));
                }
                if rejected && conn_after.conn == Conn::Active && !matches!(s.res, Res::Err(_)) {
                    fail!(P, "self-relay", s, "relay request naming this instance was not rejected");
                }
            } else if answers.iter().any(|(_, q)| q.hdr.message != Message::TurnUndead) {
                fail!(P, "unexpected-answer", s, "answered a sender whose payload is to be discarded");
            }
            // ---- evidence
            let epoch_moved = conn_after.epoch != self.conn.epoch;
            if let Some(r) = self.round.as_mut() {
                if alive && !epoch_moved {
                    match p.hdr.message {
                        Message::Ack(n) => {
                            if src == r.target && n == r.num {
                                r.evidence = true;
                                self.direct += 1;
                            } else {
                                self.bogus += 1;
                            }
                        }
                        Message::ForwardedAck { origin, probe_number } if origin != me => {
                            if probe_number == r.num && r.asked.contains(&src) {
                                r.evidence = true;
                                self.indirect += 1;
                            } else {
                                self.bogus += 1;
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        // ---- probing traffic only from the probe timers
        let is_probe_timer = matches!(s.op, Op::Timer(Timer::ProbeRandomMember(_)));
        let is_ind_timer = matches!(s.op, Op::Timer(Timer::SendIndirectProbe { .. }));
        for (to, p) in s.pkts() {
            match p.hdr.message {
                Message::Ping(_) if !is_probe_timer => fail!(P, "stray-ping", s, "Ping to {to:?} outside of the probe timer"),
                Message::PingReq { .. } if !is_ind_timer => fail!(P, "stray-pingreq", s, "PingReq to {to:?} outside of the indirect probe timer"),
                _ => {}
            }
        }
        if !is_probe_timer {
            if let Some((t, _)) = s.timers().find(|(t, _)| matches!(t, Timer::ChangeSuspectToDown { .. } | Timer::SendIndirectProbe { .. })) {
                fail!(P, "stray-timer", s, "{t:?} scheduled outside of the probe timer");
            }
        }
        if let Op::Timer(t @ Timer::SendIndirectProbe { .. }) = &s.op {
            let reqs: Vec<(Id, &Pkt)> = s.pkts().map(|(t, p)| (*t, p)).collect();
            match self.round.as_mut() {
                // (out of order, equal timers of different rounds can't be told apart)
                Some(r) if r.timer.as_ref() == Some(t) && (!r.indirect || !self.in_order) => {
                    r.indirect = true;
                    let needed = !r.evidence && s.pre.is_active(&r.target);
                    if !s.pre.is_active(&r.target) {
                        self.not_active += 1;
                    }
                    let eligible: Vec<Id> = s.pre.active.iter().map(|m| *m.id()).filter(|i| *i != r.target).collect();
                    let want = if needed { (s.cfg.fanout as usize).min(eligible.len()) } else { 0 };
                    if !needed && !reqs.is_empty() {
                        fail!(P, "needless-indirect", s, "indirect probe of {:?} although ack={} active={}", r.target, r.evidence, s.pre.is_active(&r.target));
                    }
                    if reqs.len() > s.cfg.fanout as usize {
                        fail!(P, "too-many-indirect", s, "{} indirect requests, num_indirect_probes={}", reqs.len(), s.cfg.fanout);
                    }
                    if reqs.len() != want {
                        fail!(P, "indirect-count", s, "{} indirect requests, expected {want}", reqs.len());
                    }
                    let mut seen = BTreeSet::new();
                    for (to, p) in reqs {
                        if p.hdr.message != (Message::PingReq { target: r.target, probe_number: r.num }) {
                            fail!(P, "indirect-content", s, "expected PingReq for {:?} number {}, sent {:?}", r.target, r.num, p.hdr.message);
                        }
                        if to == r.target || !eligible.contains(&to) {
                            fail!(P, "indirect-dst", s, "PingReq to {to:?}, not an eligible helper");
                        }
                        if !seen.insert(to) {
                            fail!(P, "indirect-dup", s, "PingReq twice to {to:?}");
                        }
                        r.asked.push(to);
                    }
                }
                _ => {
                    if self.in_order && !reqs.is_empty() {
                        fail!(P, "stale-indirect", s, "indirect timer of another round or epoch sent datagrams");
                    }
                }
            }
        }
        if let Op::Timer(Timer::ProbeRandomMember(_)) = &s.op {
            let ran = s.timers().any(|(t, _)| matches!(t, Timer::ProbeRandomMember(_)));
            if ran {
                let round = self.round.take();
                let downs: Vec<(T, Duration)> = s.timers().filter(|(t, _)| matches!(t, Timer::ChangeSuspectToDown { .. })).map(|(t, d)| (t.clone(), *d)).collect();
                // which records changed?
                let changed: Vec<(M, M)> = s
                    .pre
                    .state
                    .iter()
                    .filter_map(|a| s.post.rec(a.id().addr).map(|b| (a.clone(), b.clone())))
                    .filter(|(a, b)| a != b)
                    .collect();
                match round {
                    Some(r) if r.indirect || !self.in_order => {
                        if r.indirect {
                            self.rounds += 1;
                            let rec = s.pre.state.iter().find(|m| *m.id() == r.target);
                            let must = !r.evidence && rec.map(|m| is_active(m) && m.incarnation() <= r.inc).unwrap_or(false);
                            if r.evidence {
                                if !changed.is_empty() || !downs.is_empty() {
                                    fail!(P, "suspected-despite-ack", s, "{:?} answered the probe but: changes {changed:?} timers {downs:?}", r.target);
                                }
                            } else if must {
                                self.failed += 1;
                                let m = s.post.rec(r.target.addr).unwrap();
                                if m.id() != &r.target || m.state() != State::Suspect || m.incarnation() != r.inc {
                                    fail!(P, "not-suspected", s, "{:?} failed its probe at incarnation {} but its record is {}", r.target, r.inc, m_brief(m));
                                }
                                let good = downs.len() == 1
                                    && matches!(&downs[0].0, Timer::ChangeSuspectToDown { member_id, incarnation, .. } if *member_id == r.target && *incarnation == r.inc)
                                    && downs[0].1 == Duration::from_millis(s.cfg.s2d);
                                if !good {
                                    fail!(P, "suspicion-timer", s, "expected one suspicion timeout for {:?} inc {} after {}ms, got {downs:?}", r.target, r.inc, s.cfg.s2d);
                                }
                            } else {
                                if !changed.is_empty() {
                                    fail!(P, "suspected-refuted", s, "probe of {:?} (incarnation {}) concluded by changing {changed:?}", r.target, r.inc);
                                }
                                if downs.len() > 1 || downs.iter().any(|(t, _)| !matches!(t, Timer::ChangeSuspectToDown { member_id, incarnation, .. } if *member_id == r.target && *incarnation == r.inc)) {
                                    fail!(P, "suspicion-timer", s, "unexpected suspicion timeouts {downs:?}");
                                }
                            }
                            if changed.iter().any(|(a, _)| a.id() != &r.target) {
                                fail!(P, "collateral", s, "probe of {:?} changed other records: {changed:?}", r.target);
                            }
                        }
                    }
                    Some(_) => {}
                    None => {
                        if !changed.is_empty() || !downs.is_empty() {
                            fail!(P, "suspect-without-round", s, "suspicion without a probe round: {changed:?} {downs:?}");
                        }
                    }
                }
                let pings: Vec<(Id, &Pkt)> = s.pkts().map(|(t, p)| (*t, p)).collect();
                if let Some((to, p)) = pings.first() {
                    if let Message::Ping(n) = p.hdr.message {
                        if self.last_num == Some(n) {
                            fail!(P, "probe-number", s, "two consecutive probe rounds share the number {n}");
                        }
                        self.last_num = Some(n);
                        let rec = s.post.state.iter().find(|m| m.id() == to);
                        let Some(rec) = rec else { fail!(P, "ping-unknown", s, "Ping to unknown {to:?}") };
                        let ind: Vec<(T, Duration)> = s.timers().filter(|(t, _)| matches!(t, Timer::SendIndirectProbe { .. })).map(|(t, d)| (t.clone(), *d)).collect();
                        if ind.len() != 1 || ind[0].1 != Duration::from_millis(s.cfg.rtt) || !matches!(&ind[0].0, Timer::SendIndirectProbe { probed_id, .. } if probed_id == to) {
                            fail!(P, "indirect-timer", s, "expected the indirect stage of {to:?} after {}ms, got {ind:?}", s.cfg.rtt);
                        }
                        self.round = Some(Round { target: *to, num: n, inc: rec.incarnation(), timer: Some(ind[0].0.clone()), asked: vec![], evidence: false, indirect: false });
                    }
                }
            } else if !s.quiet() {
                fail!(P, "half-probe", s, "probe timer acted without re-arming itself");
            }
        }
        let e0 = self.conn.epoch;
        self.conn.step(s);
        if self.conn.epoch != e0 {
            if self.round.is_some() {
                self.aborted += 1;
            }
            self.round = None;
        }
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "rounds_concluded", self.rounds);
        bump(o, "direct_acks", self.direct);
        bump(o, "forwarded_acks", self.indirect);
        bump(o, "rounds_failed", self.failed);
        bump(o, "bogus_acks", self.bogus);
        bump(o, "answers_checked", self.relays);
        bump(o, "rounds_aborted", self.aborted);
        bump(o, "target_inactive_at_indirect", self.not_active);
    }
}

// ================================================================= C13
pub struct C13 {
    conn: ConnT,
    out: Vec<(T, u32)>,
    in_order: bool,
    stale: u64,
    effective: u64,
    incomplete: u64,
    epochs: u64,
    over: bool,
}
impl C13 {
    fn new(in_order: bool) -> Self {
        C13 { conn: ConnT::new(), out: vec![], in_order, stale: 0, effective: 0, incomplete: 0, epochs: 0, over: false }
    }
}
impl Monitor for C13 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C13";
        panic_check(P, s)?;
        if self.over {
            return Ok(());
        }
        if s.aborted() {
            fail!(P, "harness", s, "encode error inside the C13 domain");
        }
        if let Op::Timer(t) = &s.op {
            if let Some(pos) = self.out.iter().position(|(x, _)| x == t) {
                let (_, ep) = self.out.remove(pos);
                let cur = ep == self.conn.epoch;
                let recurring = matches!(t, Timer::ProbeRandomMember(_) | Timer::PeriodicAnnounce(_) | Timer::PeriodicAnnounceDown(_) | Timer::PeriodicGossip(_));
                let is_rm = matches!(t, Timer::RemoveDown(_));
                if !is_rm && (!cur || (recurring && self.conn.conn != Conn::Active)) {
                    self.stale += 1;
                    if !s.quiet() || s.res != Res::Ok {
                        fail!(P, "stale-timer-acts", s, "timer issued in epoch {ep}, now {} ({:?}), had an effect", self.conn.epoch, self.conn.conn);
                    }
                } else if cur && recurring {
                    self.effective += 1;
                }
                match (&s.res, self.in_order) {
                    (Res::Ok, _) => {}
                    (Res::Err(EKind::IncompleteProbeCycle), false) => {
                        self.incomplete += 1;
                        if !matches!(t, Timer::ProbeRandomMember(_)) {
                            fail!(P, "timer-error", s, "IncompleteProbeCycle from {t:?}");
                        }
                        // probing resumes right away
                        if !s.pkts().any(|(_, p)| matches!(p.hdr.message, Message::Ping(_))) {
                            fail!(P, "no-recovery", s, "probing did not resume after IncompleteProbeCycle");
                        }
                    }
                    _ => fail!(P, "timer-error", s, "handle_timer returned {:?} (deadline order: {})", s.res, self.in_order),
                }
                if cur && self.conn.conn == Conn::Active {
                    if let Timer::ProbeRandomMember(_) = t {
                        let pings = s.pkts().filter(|(_, p)| matches!(p.hdr.message, Message::Ping(_))).count();
                        if pings != 1 {
                            fail!(P, "probe-idle", s, "effective probe timer sent {pings} pings");
                        }
                    }
                }
            }
        }
        let e0 = self.conn.epoch;
        self.conn.begin(s);
        for e in &s.eff {
            match e {
                Eff::Note(n) => self.conn.note(n),
                Eff::Timer { t, after } => {
                    let want = match t {
                        Timer::ProbeRandomMember(_) => Some(s.cfg.period),
                        Timer::SendIndirectProbe { .. } => Some(s.cfg.rtt),
                        Timer::PeriodicAnnounce(_) => s.cfg.pa.map(|x| x.0),
                        Timer::PeriodicAnnounceDown(_) => s.cfg.pad.map(|x| x.0),
                        Timer::PeriodicGossip(_) => s.cfg.pg.map(|x| x.0),
                        _ => Some(after.as_millis() as u64),
                    };
                    match want {
                        None => fail!(P, "disabled-task", s, "{t:?} scheduled although the task is disabled"),
                        Some(ms) if Duration::from_millis(ms) != *after => {
                            fail!(P, "timer-delay", s, "{t:?} scheduled after {after:?}, configured {ms}ms")
                        }
                        _ => {}
                    }
                    self.out.push((t.clone(), self.conn.epoch));
                }
                _ => {}
            }
        }
        if self.conn.epoch != e0 {
            self.epochs += 1;
        }
        let ep = self.conn.epoch;
        if self.out.iter().any(|(t, e)| e + 200 <= ep && !matches!(t, Timer::RemoveDown(_))) {
            // the epoch token is 8 bits wide: timers this old are outside the property
            self.over = true;
            return Ok(());
        }
        self.out.retain(|(_, e)| e + 200 > ep);
        // become_connected schedules before it notifies, all within one epoch
        let cfg = if let (Op::SetConfig(c), Res::Ok) = (&s.op, &s.res) { c } else { &s.cfg };
        let count = |f: &dyn Fn(&T) -> bool| self.out.iter().filter(|(t, e)| *e == ep && f(t)).count();
        let probe = count(&|t| matches!(t, Timer::ProbeRandomMember(_)));
        let pa = count(&|t| matches!(t, Timer::PeriodicAnnounce(_)));
        let pad = count(&|t| matches!(t, Timer::PeriodicAnnounceDown(_)));
        let pg = count(&|t| matches!(t, Timer::PeriodicGossip(_)));
        if self.conn.conn == Conn::Active {
            if probe != 1 {
                fail!(P, "probe-loop", s, "active with {probe} outstanding probe timers");
            }
            for (n, on, name) in [(pa, cfg.pa.is_some(), "announce"), (pad, cfg.pad.is_some(), "announce-to-down"), (pg, cfg.pg.is_some(), "gossip")] {
                if (on && n != 1) || (!on && n > 1) {
                    fail!(P, "periodic-loop", s, "active with {n} outstanding periodic {name} timers (enabled: {on})");
                }
            }
        } else if probe + pa + pad + pg > 0 {
            fail!(P, "idle-loop", s, "{:?} but {} current recurring timers were issued", self.conn.conn, probe + pa + pad + pg);
        }
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "stale_timers_fired", self.stale);
        bump(o, "effective_recurring_timers", self.effective);
        bump(o, "incomplete_cycles", self.incomplete);
        bump(o, "epoch_changes", self.epochs);
    }
}

// ================================================================= C14
#[derive(Default)]
pub struct C14 {
    /// (id, active) set the current window is about
    set: BTreeSet<(Id, bool)>,
    round: u64,
    last: BTreeMap<Id, u64>,
    windows: u64,
    longest: u64,
}
impl Monitor for C14 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C14";
        panic_check(P, s)?;
        if s.aborted() {
            return Ok(());
        }
        let set: BTreeSet<(Id, bool)> = s.post.state.iter().map(|m| (*m.id(), is_active(m))).collect();
        let pings: Vec<Id> = s.pkts().filter(|(_, p)| matches!(p.hdr.message, Message::Ping(_))).map(|(t, _)| *t).collect();
        let effective = s.timers().any(|(t, _)| matches!(t, Timer::ProbeRandomMember(_))) && matches!(s.op, Op::Timer(Timer::ProbeRandomMember(_)));
        if effective {
            let n = s.post.num as u64;
            if pings.len() != 1 && n > 0 {
                fail!(P, "not-one-ping", s, "probe round sent {} pings with {n} active members", pings.len());
            }
        }
        for t in &pings {
            if !s.post.is_active(t) {
                fail!(P, "ping-inactive", s, "probe round pings {t:?} which is not an active member");
            }
            if t.addr == s.post.id.addr {
                fail!(P, "ping-self", s, "probe round pings itself ({t:?})");
            }
        }
        if set != self.set || s.pre.id != s.post.id {
            self.set = set;
            self.round = 0;
            self.last.clear();
            return Ok(());
        }
        if effective {
            self.round += 1;
            for t in &pings {
                self.last.insert(*t, self.round);
            }
            let n = s.post.num as u64;
            if n > 0 {
                let bound = 2 * n - 1;
                if self.round >= bound {
                    self.windows += 1;
                }
                for m in &s.post.active {
                    let gap = self.round - self.last.get(m.id()).copied().unwrap_or(0);
                    self.longest = self.longest.max(gap);
                    if gap >= bound {
                        fail!(P, "starved", s, "{:?} was not probed in {gap} consecutive rounds with {n} active members", m.id());
                    }
                }
            }
        }
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "full_windows", self.windows);
    }
}

// ================================================================= C15
#[derive(Clone)]
struct Pend {
    m: M,
    rem: u32,
    len: usize,
}
pub struct C15 {
    conn: ConnT,
    pend: Vec<Pend>,
    lost: bool,
    included: u64,
    omitted: u64,
    superseded: u64,
    exhausted: u64,
}
impl C15 {
    fn new() -> Self {
        C15 { conn: ConnT::new(), pend: vec![], lost: false, included: 0, omitted: 0, superseded: 0, exhausted: 0 }
    }
    fn enq(&mut self, m: &M, s: &Step) {
        let n = self.pend.len();
        self.pend.retain(|p| p.m.id().addr != m.id().addr);
        if self.pend.len() < n {
            self.superseded += 1;
        }
        self.pend.push(Pend { m: m.clone(), rem: s.cfg.max_tx as u32, len: s.codec.m_len(m) });
    }
    fn sent(&mut self, p: &Pkt, s: &Step) -> Check {
        const P: &str = "C15";
        if !drains_updates(&p.hdr.message) {
            return Ok(());
        }
        let room = s.cfg.mps as usize - p.hlen;
        let avail = room.saturating_sub(2);
        let empty = vec![];
        let ms = p.members.as_ref().unwrap_or(&empty);
        let mut inc = vec![false; self.pend.len()];
        for m in ms {
            let Some(i) = self.pend.iter().position(|e| e.m.id().addr == m.id().addr) else {
                fail!(P, "not-pending", s, "{} piggybacks {} which is not pending (exhausted or never accepted)", kind_name(&p.hdr.message), m_brief(m));
            };
            if !same_rec(&self.pend[i].m, m) {
                fail!(P, "not-latest", s, "{} piggybacks {} but the latest accepted update is {}", kind_name(&p.hdr.message), m_brief(m), m_brief(&self.pend[i].m));
            }
            if inc[i] {
                fail!(P, "dup-in-datagram", s, "update {} twice in one datagram", m_brief(m));
            }
            inc[i] = true;
            self.included += 1;
        }
        if avail > 0 {
            for (i, e) in self.pend.iter().enumerate() {
                if inc[i] {
                    continue;
                }
                self.omitted += 1;
                let before: usize = self.pend.iter().enumerate().filter(|(j, o)| inc[*j] && o.rem >= e.rem).map(|(_, o)| o.len).sum();
                if e.len <= avail.saturating_sub(before) {
                    fail!(
                        P,
                        "omitted",
                        s,
                        "pending {} (rem {}, {} bytes) omitted; {avail} bytes available, {before} taken by updates with at least as many transmissions left",
                        m_brief(&e.m),
                        e.rem,
                        e.len
                    );
                }
            }
        }
        for (i, e) in self.pend.iter_mut().enumerate() {
            if inc[i] {
                e.rem -= 1;
                if e.rem == 0 {
                    self.exhausted += 1;
                }
            }
        }
        self.pend.retain(|e| e.rem > 0);
        Ok(())
    }
}
impl Monitor for C15 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C15";
        panic_check(P, s)?;
        if self.lost {
            return Ok(());
        }
        if s.aborted() {
            self.lost = true;
            return Ok(());
        }
        let before = self.conn.conn;
        let mut pk: Vec<Pkt> = s.pkts().map(|(_, p)| p.clone()).collect();
        if pk.len() != s.sends().count() {
            self.lost = true;
            return Ok(());
        }
        if s.notes().any(|n| matches!(n, Note::Rejoin(_))) {
            // announcements of a renewed identity: these carry and consume nothing
            if let Some(p) = pk.iter().find(|p| p.hdr.message == Message::Announce && (p.members.is_some() || !p.items.is_empty())) {
                fail!(P, "announce-carries", s, "Announce carries {:?} and {} items", p.members, p.items.len());
            }
            pk.retain(|p| p.hdr.message != Message::Announce);
        }
        let mut cur = 0usize;
        let k = s.cfg.fanout as usize;
        if let Some(w) = walk(s, before) {
            // gossip bursts in the middle of a batch
            let mut bursts = 0;
            for e in &w.ev {
                match e {
                    WEv::SelfSuspect { active, defunct: false, .. } => bursts += k.min(*active),
                    WEv::Death { active, renewed: Some(_), .. } => bursts += k.min(*active),
                    _ => {}
                }
            }
            if pk.iter().filter(|p| p.hdr.message == Message::Gossip).count() != bursts {
                self.lost = true;
                return Ok(());
            }
            for e in &w.ev {
                let n = match e {
                    WEv::Applied { m, bcast } => {
                        if *bcast {
                            self.enq(m, s);
                        }
                        0
                    }
                    WEv::SelfSuspect { active, defunct: false, .. } => k.min(*active),
                    WEv::Death { me, active, renewed: Some(_), .. } => {
                        self.enq(&mem(*me, 0, State::Down), s);
                        k.min(*active)
                    }
                    _ => 0,
                };
                for _ in 0..n {
                    self.sent(&pk[cur], s)?;
                    cur += 1;
                }
            }
        } else {
            match &s.op {
                Op::Timer(_) => {
                    for m in &s.post.state {
                        let old = s.pre.state.iter().find(|x| x.id().addr == m.id().addr);
                        if old != Some(m) {
                            self.enq(m, s);
                        }
                    }
                }
                Op::Leave => self.enq(&mem(s.pre.id, 0, State::Down), s),
                Op::ChangeId(_) if s.pre.id != s.post.id && before != Conn::Defunct => self.enq(&mem(s.pre.id, 0, State::Down), s),
                _ => {}
            }
        }
        while cur < pk.len() {
            self.sent(&pk[cur], s)?;
            cur += 1;
        }
        if self.pend.len() != s.post.upd {
            let l: Vec<String> = self.pend.iter().map(|e| format!("{}x{}", m_brief(&e.m), e.rem)).collect();
            fail!(P, "backlog", s, "updates_backlog()={} but {} updates should be pending: {l:?}", s.post.upd, self.pend.len());
        }
        self.conn.step(s);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "updates_piggybacked", self.included);
        bump(o, "updates_omitted_for_space", self.omitted);
        bump(o, "updates_superseded", self.superseded);
        bump(o, "updates_exhausted", self.exhausted);
        bump(o, "monitor_lost_sync", self.lost as u64);
    }
}

// ================================================================= C16
struct CItem {
    key: Key,
    data: Vec<u8>,
    rem: u32,
}
pub struct C16 {
    spec: HSpec,
    items: Vec<CItem>,
    /// invalidated contents, for the error message
    dead: Vec<Vec<u8>>,
    conn: ConnT,
    sent: u64,
    received: u64,
    invalidated: u64,
    exhausted: u64,
    lost: bool,
    bcasts: u64,
}
impl C16 {
    fn new(spec: HSpec) -> Self {
        C16 { spec, items: vec![], dead: vec![], conn: ConnT::new(), sent: 0, received: 0, invalidated: 0, exhausted: 0, lost: false, bcasts: 0 }
    }
    fn enq(&mut self, data: &[u8], s: &Step) {
        let key = Key::of(self.spec.rel, data);
        let mut keep = vec![];
        for i in self.items.drain(..) {
            if key.inval(&i.key) {
                self.invalidated += 1;
                self.dead.push(i.data);
            } else {
                keep.push(i);
            }
        }
        self.items = keep;
        self.items.push(CItem { key, data: data.to_vec(), rem: s.cfg.max_tx as u32 });
    }
    fn sent(&mut self, to: &Id, p: &Pkt, s: &Step) -> Check {
        const P: &str = "C16";
        let allowed = may_carry_custom(&p.hdr.message);
        let eligible = self.spec.eligible(to);
        if !p.items.is_empty() && !allowed {
            fail!(P, "kind", s, "{} carries custom broadcasts", kind_name(&p.hdr.message));
        }
        if !p.items.is_empty() && !eligible {
            fail!(P, "recipient", s, "custom broadcasts sent to {to:?}, which should_add_broadcast_data excludes");
        }
        let mut used = vec![false; self.items.len()];
        for it in &p.items {
            // prefer the copy with most transmissions left
            let mut best: Option<usize> = None;
            for (i, e) in self.items.iter().enumerate() {
                if !used[i] && e.data == *it && best.map(|b| self.items[b].rem < e.rem).unwrap_or(true) {
                    best = Some(i);
                }
            }
            match best {
                Some(i) => used[i] = true,
                None => {
                    let why = if self.dead.contains(it) { "invalidated" } else { "unknown, altered or exhausted" };
                    fail!(P, "item", s, "datagram carries item {} which is {why}", tohex(it));
                }
            }
            self.sent += 1;
        }
        // (how much of a Feed that had to be cut is left over depends on how the codec fails mid-member)
        let whole = p.hdr.message != Message::Feed
            || s.pre.active.iter().chain(s.post.active.iter()).all(|m| m.id() == to || p.members.iter().flatten().any(|l| l.id() == m.id()));
        if allowed && eligible && whole {
            let left = s.cfg.mps as usize - p.len;
            for (i, e) in self.items.iter().enumerate() {
                if !used[i] && e.data.len() + 2 <= left {
                    fail!(P, "omitted", s, "item {} ({} bytes) fits in the {left} bytes left of a {} to {to:?} but was not sent", tohex(&e.data), e.data.len(), kind_name(&p.hdr.message));
                }
            }
        }
        for (i, e) in self.items.iter_mut().enumerate() {
            if used[i] {
                e.rem -= 1;
                if e.rem == 0 {
                    self.exhausted += 1;
                }
            }
        }
        self.items.retain(|e| e.rem > 0);
        Ok(())
    }
}
impl Monitor for C16 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C16";
        panic_check(P, s)?;
        if self.lost || s.aborted() {
            self.lost = true;
            return Ok(());
        }
        let before = self.conn.conn;
        // ---- what the handler must see
        match (&s.op, s.ok_pkt()) {
            (Op::AddBroadcast(d), _) => {
                let ok = !d.0.is_empty() && d.0.len() as u64 <= s.cfg.mps;
                if d.0.len() <= 65535 {
                    if ok && (s.hlog.len() != 1 || s.hlog[0].data != d.0 || s.hlog[0].sender.is_some()) {
                        fail!(P, "handler-local", s, "handler saw {:?} for a local item", s.hlog);
                    }
                    if !ok && !s.hlog.is_empty() {
                        fail!(P, "handler-local", s, "handler saw an item that is empty or too big");
                    }
                }
                for h in s.hlog.clone() {
                    if h.res == HRes::New {
                        if s.res != Res::Bool(true) {
                            fail!(P, "add-result", s, "accepted item but add_broadcast returned {:?}", s.res);
                        }
                        self.enq(&h.data, s);
                    }
                }
            }
            (_, Some(p)) => {
                let w = walk(s, before).unwrap();
                let mut expect: Vec<Vec<u8>> = vec![];
                if w.processed {
                    let mut t = &p.tail[..];
                    while t.len() > 2 {
                        let l = u16::from_be_bytes([t[0], t[1]]) as usize;
                        t = &t[2..];
                        if l == 0 || t.len() < l {
                            break;
                        }
                        expect.push(t[..l].to_vec());
                        if expect.len() <= s.hlog.len() && s.hlog[expect.len() - 1].res == HRes::Fail {
                            break;
                        }
                        t = &t[l..];
                    }
                }
                self.received += expect.len() as u64;
                let got: Vec<Vec<u8>> = s.hlog.iter().map(|h| h.data.clone()).collect();
                if got != expect {
                    fail!(P, "handler-remote", s, "datagram carried items {:?} but the handler saw {:?}", expect.iter().map(|v| tohex(v)).collect::<Vec<_>>(), got.iter().map(|v| tohex(v)).collect::<Vec<_>>());
                }
                if s.hlog.iter().any(|h| h.sender != Some(p.hdr.src)) {
                    fail!(P, "handler-sender", s, "handler got the wrong sender: {:?}", s.hlog);
                }
            }
            _ => {
                if !s.hlog.is_empty() {
                    fail!(P, "handler-stray", s, "handler called for no reason");
                }
            }
        }
        // ---- sends; received items are queued after the mid-batch gossip and before the answer
        let data_op = s.ok_pkt().is_some();
        let mut pk: Vec<(Id, Pkt)> = s.pkts().map(|(t, p)| (*t, p.clone())).collect();
        if pk.len() != s.sends().count() {
            self.lost = true;
            return Ok(());
        }
        if s.notes().any(|n| matches!(n, Note::Rejoin(_))) {
            // announcements of a renewed identity: these carry and consume nothing
            if let Some((_, p)) = pk.iter().find(|(_, p)| p.hdr.message == Message::Announce && !p.items.is_empty()) {
                fail!(P, "kind", s, "Announce carries {} custom items", p.items.len());
            }
            pk.retain(|(_, p)| p.hdr.message != Message::Announce);
        }
        let mut bursts = pk.len();
        if data_op {
            let w = walk(s, before).unwrap();
            let k = s.cfg.fanout as usize;
            let mut n = 0;
            let mut late = 0;
            let turn = matches!(s.ok_pkt().unwrap().hdr.message, Message::TurnUndead) && w.processed;
            let total = w.ev.len();
            for (i, e) in w.ev.iter().enumerate() {
                let c = match e {
                    WEv::SelfSuspect { active, defunct: false, .. } => k.min(*active),
                    WEv::Death { active, renewed: Some(_), .. } => k.min(*active),
                    _ => 0,
                };
                n += c;
                if turn && i + 1 == total && matches!(e, WEv::Death { .. }) {
                    late = c;
                }
            }
            if pk.iter().filter(|(_, p)| p.hdr.message == Message::Gossip).count() != n {
                self.lost = true;
                return Ok(());
            }
            bursts = n - late;
        }
        let mut drained_empty = false;
        for (i, (to, p)) in pk.iter().enumerate() {
            if i == bursts && data_op {
                self.absorb(s);
            }
            if matches!(s.op, Op::Broadcast) {
                self.bcasts += 1;
                if p.hdr.message != Message::Broadcast || p.members.is_some() {
                    fail!(P, "broadcast-kind", s, "broadcast() sent {}", kind_name(&p.hdr.message));
                }
                if self.items.is_empty() {
                    fail!(P, "broadcast-empty", s, "broadcast() kept sending with a drained backlog");
                }
                drained_empty = true;
            } else if p.hdr.message == Message::Broadcast {
                fail!(P, "broadcast-stray", s, "Broadcast datagram without broadcast()");
            }
            self.sent(to, p, s)?;
        }
        if data_op && pk.len() <= bursts {
            self.absorb(s);
        }
        if matches!(s.op, Op::Broadcast) {
            let el: Vec<Id> = s.pre.active.iter().map(|m| *m.id()).filter(|i| self.spec.eligible(i)).collect();
            let mut seen = BTreeSet::new();
            for (to, _) in &pk {
                if !el.contains(to) || !seen.insert(*to) {
                    fail!(P, "broadcast-dst", s, "broadcast() to {to:?}: not an eligible active member, or twice");
                }
            }
            if pk.len() > s.cfg.fanout as usize {
                fail!(P, "broadcast-fanout", s, "broadcast() sent {} datagrams, num_indirect_probes={}", pk.len(), s.cfg.fanout);
            }
            if s.pre.cust == 0 && !pk.is_empty() {
                fail!(P, "broadcast-empty", s, "broadcast() sent with an empty backlog");
            }
            if s.pre.cust > 0 && !el.is_empty() && pk.is_empty() {
                fail!(P, "broadcast-none", s, "broadcast() sent nothing although {} members are eligible", el.len());
            }
            let _ = drained_empty;
        }
        if self.items.len() != s.post.cust {
            fail!(P, "backlog", s, "custom_broadcast_backlog()={} but {} items should be pending", s.post.cust, self.items.len());
        }
        self.conn.step(s);
        Ok(())
    }
    fn probes(&self, o: &mut BTreeMap<&'static str, u64>) {
        bump(o, "items_sent", self.sent);
        bump(o, "items_received", self.received);
        bump(o, "items_invalidated", self.invalidated);
        bump(o, "items_exhausted", self.exhausted);
        bump(o, "broadcast_datagrams", self.bcasts);
        bump(o, "monitor_lost_sync", self.lost as u64);
    }
}
impl C16 {
    fn absorb(&mut self, s: &Step) {
        for h in s.hlog.clone() {
            if h.res == HRes::New {
                self.enq(&h.data, s);
            }
        }
    }
}

// ================================================================= C19
pub struct C19;
impl Monitor for C19 {
    fn step(&mut self, s: &Step) -> Check {
        const P: &str = "C19";
        panic_check(P, s)?;
        for (to, data, pkt) in s.sends() {
            if to.addr != s.post.id.addr && to.addr != s.pre.id.addr {
                continue;
            }
            let own = if matches!(s.op, Op::ChangeId(_)) { to.addr == s.post.id.addr } else { true };
            if !own {
                continue;
            }
            let Ok(p) = pkt else { continue };
            // relays towards a target named by a peer, and a destination the user named
            let relay = matches!(p.hdr.message, Message::IndirectPing { .. } | Message::ForwardedAck { .. });
            let user = matches!(&s.op, Op::Announce(d) if d == to);
            if relay || user {
                continue;
            }
            fail!(P, "self-destination", s, "{} of {} bytes sent to own address {to:?}", kind_name(&p.hdr.message), data.len());
        }
        Ok(())
    }
}

pub fn _unused() {
    let _: Option<Foca<Id, SimCodec, crate::prng::Prng, Handler>> = None;
}
