//! One real foca instance behind a recording runtime.
use crate::prng::Prng;
use crate::types::*;
use crate::wire::*;
use foca::{AccumulatingRuntime, BroadcastHandler, Error, Foca, Invalidates, NoCustomBroadcast, Notification, OwnedNotification, Runtime};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

// ---------------------------------------------------------------- custom broadcast handler
/// How keys invalidate each other.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rel {
    Never,
    SameKey,
    /// same group (high nibble of byte 0)
    Group,
    /// same key and version (byte 1) not smaller
    Version,
    All,
    /// asymmetric: key numerically greater or equal
    Ge,
    /// keys are byte strings, compared by foca's own `Invalidates for &[u8]`
    Bytes,
}
pub const RELS: [Rel; 7] = [Rel::Never, Rel::SameKey, Rel::Group, Rel::Version, Rel::All, Rel::Ge, Rel::Bytes];
/// byte string keys: prefixes of each other, same lengths, equal contents at different addresses
static NAMES: [&[u8]; 12] =
    [b"", b"a", b"b", b"ab", b"aa", b"abc", b"abd", b"abcd", b"bbc", &[b'x'; 40], b"same name, twice", &[0, 0]];
static NAMES2: [&[u8]; 12] =
    [&[], &[b'a'], &[b'b'], &[b'a', b'b'], &[b'a'; 2], b"abc", b"abd", b"abcd", b"bbc", &[120; 40], b"same name, twice", &[0; 2]];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pred {
    All,
    Nobody,
    EvenAddr,
    OddGen,
    LowAddr,
}
pub const PREDS: [Pred; 5] = [Pred::All, Pred::Nobody, Pred::EvenAddr, Pred::OddGen, Pred::LowAddr];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Accept {
    All,
    /// accept items whose (key, version) was not seen before
    Unseen,
    /// last byte decides: multiple of 5 -> error, multiple of 3 -> not new
    Mixed,
    /// like NoCustomBroadcast
    Refuse,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct HSpec {
    pub rel: Rel,
    pub pred: Pred,
    pub accept: Accept,
}
impl HSpec {
    pub const PLAIN: HSpec = HSpec { rel: Rel::SameKey, pred: Pred::All, accept: Accept::Unseen };
    pub fn eligible(&self, i: &Id) -> bool {
        match self.pred {
            Pred::All => true,
            Pred::Nobody => false,
            Pred::EvenAddr => i.addr % 2 == 0,
            Pred::OddGen => i.gen % 2 == 1,
            Pred::LowAddr => i.addr <= 2,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Key {
    pub k: u8,
    pub v: u8,
    pub rel: Rel,
}
impl Key {
    pub fn of(rel: Rel, data: &[u8]) -> Key {
        Key { k: data[0], v: data.get(1).copied().unwrap_or(0), rel }
    }
    pub fn inval(&self, o: &Key) -> bool {
        match self.rel {
            Rel::Never => false,
            Rel::SameKey => self.k == o.k,
            Rel::Group => self.k >> 4 == o.k >> 4,
            Rel::Version => self.k == o.k && self.v >= o.v,
            Rel::All => true,
            Rel::Ge => self.k >= o.k,
            Rel::Bytes => self.name() == o.name(),
        }
    }
    fn name(&self) -> usize {
        (self.k as usize % 5 + 3 * self.v as usize) % NAMES.len()
    }
}
impl Invalidates for Key {
    fn invalidates(&self, other: &Self) -> bool {
        if self.rel == Rel::Bytes {
            return NAMES[self.name()].invalidates(&NAMES2[other.name()]);
        }
        self.inval(other)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HRes {
    New,
    Old,
    Fail,
}
#[derive(Clone, Debug, PartialEq)]
pub struct HCall {
    pub data: Vec<u8>,
    pub sender: Option<Id>,
    pub res: HRes,
}
#[derive(Debug)]
pub struct HErr;
impl std::fmt::Display for HErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("handler error")
    }
}
impl std::error::Error for HErr {}

pub struct Handler {
    spec: HSpec,
    log: Rc<RefCell<Vec<HCall>>>,
    seen: Vec<(u8, u8)>,
}
impl BroadcastHandler<Id> for Handler {
    type Key = Key;
    type Error = HErr;
    fn receive_item(&mut self, data: &[u8], sender: Option<&Id>) -> Result<Option<Key>, HErr> {
        let kv = (data.first().copied().unwrap_or(0), data.get(1).copied().unwrap_or(0));
        let res = match self.spec.accept {
            Accept::All => HRes::New,
            Accept::Refuse => match BroadcastHandler::<Id>::receive_item(&mut NoCustomBroadcast, data, sender) {
                Ok(Some(_)) => HRes::New,
                Ok(None) => HRes::Old,
                Err(_) => HRes::Fail,
            },
            Accept::Unseen => {
                if self.seen.contains(&kv) {
                    HRes::Old
                } else {
                    self.seen.push(kv);
                    HRes::New
                }
            }
            Accept::Mixed => {
                let l = data.last().copied().unwrap_or(0);
                if l % 5 == 0 {
                    HRes::Fail
                } else if l % 3 == 0 {
                    HRes::Old
                } else {
                    HRes::New
                }
            }
        };
        self.log.borrow_mut().push(HCall { data: data.to_vec(), sender: sender.copied(), res });
        match res {
            HRes::New => Ok(Some(Key { k: kv.0, v: kv.1, rel: self.spec.rel })),
            HRes::Old => Ok(None),
            HRes::Fail => Err(HErr),
        }
    }
    fn should_add_broadcast_data(&self, member: &Id) -> bool {
        if self.spec.pred == Pred::All {
            // as for handlers that don't say anything about it
            return NoCustomBroadcast.should_add_broadcast_data(member);
        }
        self.spec.eligible(member)
    }
}

// ---------------------------------------------------------------- runtime
#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    Up(Id),
    Down(Id),
    Rename(Id, Id),
    Active,
    Idle,
    Defunct,
    Rejoin(Id),
    /// unstable-notifications
    Other,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Send { to: Id, data: Vec<u8>, pkt: Result<Pkt, String> },
    Timer { t: T, after: Duration },
    Note(Note),
}

struct Rt {
    codec: CodecKind,
    eff: Vec<Eff>,
    acc: Option<AccumulatingRuntime<Id>>,
}
fn note_of(n: &Notification<'_, Id>) -> Note {
    match n {
        Notification::MemberUp(i) => Note::Up(**i),
        Notification::MemberDown(i) => Note::Down(**i),
        Notification::Rename(a, b) => Note::Rename(**a, **b),
        Notification::Active => Note::Active,
        Notification::Idle => Note::Idle,
        Notification::Defunct => Note::Defunct,
        Notification::Rejoin(i) => Note::Rejoin(**i),
        #[allow(unreachable_patterns)]
        _ => Note::Other,
    }
}
fn note_of_owned(n: &OwnedNotification<Id>) -> Note {
    match n {
        OwnedNotification::MemberUp(i) => Note::Up(*i),
        OwnedNotification::MemberDown(i) => Note::Down(*i),
        OwnedNotification::Rename(a, b) => Note::Rename(*a, *b),
        OwnedNotification::Active => Note::Active,
        OwnedNotification::Idle => Note::Idle,
        OwnedNotification::Defunct => Note::Defunct,
        OwnedNotification::Rejoin(i) => Note::Rejoin(*i),
        #[allow(unreachable_patterns)]
        _ => Note::Other,
    }
}
impl Runtime<Id> for Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        self.eff.push(Eff::Note(note_of(&n)));
        if let Some(a) = &mut self.acc {
            a.notify(n);
        }
    }
    fn send_to(&mut self, to: Id, data: &[u8]) {
        self.eff.push(Eff::Send { to, data: data.to_vec(), pkt: parse_out(self.codec, data) });
        if let Some(a) = &mut self.acc {
            a.send_to(to, data);
        }
    }
    fn submit_after(&mut self, t: T, after: Duration) {
        self.eff.push(Eff::Timer { t: t.clone(), after });
        if let Some(a) = &mut self.acc {
            a.submit_after(t, after);
        }
    }
}

// ---------------------------------------------------------------- instance
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    /// add_broadcast
    Bool(bool),
    Err(EKind),
    Panic(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EKind {
    DataTooBig,
    DataFromOurselves,
    IndirectForOurselves,
    MalformedPacket,
    NotUndead,
    SameIdentity,
    NotConnected,
    IncompleteProbeCycle,
    InvalidConfig,
    Encode,
    Decode,
    CustomBroadcast,
    Other,
}
fn ekind(e: &Error) -> EKind {
    // errors get logged and compared
    let _ = (format!("{e} {e:?}"), e == e, *e == Error::NotUndead);
    match e {
        Error::DataTooBig => EKind::DataTooBig,
        Error::DataFromOurselves => EKind::DataFromOurselves,
        Error::IndirectForOurselves => EKind::IndirectForOurselves,
        Error::MalformedPacket => EKind::MalformedPacket,
        Error::NotUndead => EKind::NotUndead,
        Error::SameIdentity => EKind::SameIdentity,
        Error::NotConnected => EKind::NotConnected,
        Error::IncompleteProbeCycle => EKind::IncompleteProbeCycle,
        Error::InvalidConfig => EKind::InvalidConfig,
        Error::Encode(_) => EKind::Encode,
        Error::Decode(_) => EKind::Decode,
        Error::CustomBroadcast(_) => EKind::CustomBroadcast,
        #[allow(unreachable_patterns)]
        _ => EKind::Other,
    }
}

/// What can be observed of an instance between calls.
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub id: Id,
    /// iter_membership_state, in order
    pub state: Vec<M>,
    /// iter_members, in order
    pub active: Vec<M>,
    pub num: usize,
    pub upd: usize,
    pub cust: usize,
}
impl View {
    pub fn rec(&self, addr: u16) -> Option<&M> {
        self.state.iter().find(|m| m.id().addr == addr)
    }
    pub fn sorted(&self) -> Vec<M> {
        let mut v = self.state.clone();
        v.sort_by_key(|m| (m.id().key(), m.incarnation(), st_num(m.state())));
        v
    }
    pub fn is_active(&self, i: &Id) -> bool {
        self.state.iter().any(|m| m.id() == i && is_active(m))
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub pre: View,
    pub post: View,
    pub eff: Vec<Eff>,
    pub res: Res,
    pub hlog: Vec<HCall>,
    /// config in force while the call ran
    pub cfg: Cfg,
    pub codec: CodecKind,
    /// classification when op is Data
    pub inp: Option<InClass>,
    /// mismatch between the direct runtime and AccumulatingRuntime
    pub acc_diff: Option<String>,
}
impl Step {
    pub fn sends(&self) -> impl Iterator<Item = (&Id, &Vec<u8>, &Result<Pkt, String>)> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Send { to, data, pkt } => Some((to, data, pkt)),
            _ => None,
        })
    }
    pub fn pkts(&self) -> impl Iterator<Item = (&Id, &Pkt)> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Send { to, pkt: Ok(p), .. } => Some((to, p)),
            _ => None,
        })
    }
    pub fn notes(&self) -> impl Iterator<Item = &Note> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Note(n) => Some(n),
            _ => None,
        })
    }
    pub fn timers(&self) -> impl Iterator<Item = (&T, &Duration)> {
        self.eff.iter().filter_map(|e| match e {
            Eff::Timer { t, after } => Some((t, after)),
            _ => None,
        })
    }
    pub fn ok_pkt(&self) -> Option<&InPkt> {
        match &self.inp {
            Some(InClass::Ok(p)) => Some(p),
            _ => None,
        }
    }
    /// an Encode error aborts a call half way: exactness is off for that step
    pub fn aborted(&self) -> bool {
        matches!(self.res, Res::Err(EKind::Encode) | Res::Panic(_))
    }
    pub fn quiet(&self) -> bool {
        self.eff.is_empty() && self.pre == self.post && self.hlog.is_empty()
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{} res={:?}", op_brief(&self.op, self.codec), self.res);
        for e in &self.eff {
            s.push_str("\n      ");
            s.push_str(&eff_brief(e));
        }
        s
    }
}
pub fn op_brief(op: &Op, k: CodecKind) -> String {
    match op {
        Op::Data(d) => match k.dec_h(&d.0) {
            Ok((h, _)) => match parse_out(k, &d.0) {
                Ok(p) => format!("data {:?}->{:?} inc={} {:?} members={:?} items={}", h.src, h.dst, h.src_incarnation, h.message, p.members.as_ref().map(|v| v.iter().map(m_brief).collect::<Vec<_>>()), p.items.len()),
                Err(e) => format!("data {:?}->{:?} {:?} (+irregular: {e})", h.src, h.dst, h.message),
            },
            Err(_) => format!("data junk[{}]", d.0.len()),
        },
        Op::ApplyMany(v, b) => format!("apply_many {:?} broadcast={b}", v.iter().map(m_brief).collect::<Vec<_>>()),
        o => format!("{o:?}"),
    }
}
pub fn m_brief(m: &M) -> String {
    format!("{:?}@{}{}", m.id(), m.incarnation(), ["A", "S", "D"][st_num(m.state()) as usize])
}
pub fn eff_brief(e: &Eff) -> String {
    match e {
        Eff::Send { to, data, pkt } => match pkt {
            Ok(p) => format!("send to {:?} src={:?} inc={} {:?} members={:?} items={} len={}", to, p.hdr.src, p.hdr.src_incarnation, p.hdr.message, p.members.as_ref().map(|v| v.iter().map(m_brief).collect::<Vec<_>>()), p.items.len(), data.len()),
            Err(er) => format!("send to {:?} UNPARSABLE {er} {}", to, tohex(data)),
        },
        Eff::Timer { t, after } => format!("timer {t:?} after {after:?}"),
        Eff::Note(n) => format!("notify {n:?}"),
    }
}

pub struct Inst {
    pub foca: Foca<Id, SimCodec, Prng, Handler>,
    pub cfg: Cfg,
    pub codec: CodecKind,
    pub spec: HSpec,
    log: Rc<RefCell<Vec<HCall>>>,
    pub use_acc: bool,
    acc: Option<AccumulatingRuntime<Id>>,
    /// what `acc` holds: datagrams, timers, notifications
    acc_want: [std::collections::VecDeque<Eff>; 3],
    /// how many of each are left in there between calls
    acc_keep: usize,
    pub dead: bool,
}

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Silence panics of the code under test, remember where they came from.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = format!("{info}").replace('\n', " ");
            LAST_PANIC.with(|l| *l.borrow_mut() = msg);
        } else {
            old(info);
        }
    }));
}
thread_local! {
    /// print every step (`sim replay FILE --log 1`)
    pub static LOG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

impl Inst {
    pub fn try_new(i: Id, cfg: Cfg, codec: CodecKind, spec: HSpec, seed: u64) -> Result<Inst, String> {
        let log = Rc::new(RefCell::new(Vec::new()));
        let h = Handler { spec, log: log.clone(), seen: vec![] };
        let c = cfg.foca();
        let foca = guarded(move || Foca::with_custom_broadcast(i, c, Prng::new(seed), SimCodec(codec), h))?;
        Ok(Inst { foca, cfg, codec, spec, log, use_acc: false, acc: None, acc_want: Default::default(), acc_keep: [0, 0, 0, 2, 40, 200][(seed >> 7) as usize % 6], dead: false })
    }
    pub fn new(i: Id, cfg: Cfg, codec: CodecKind, spec: HSpec, seed: u64) -> Inst {
        Self::try_new(i, cfg, codec, spec, seed).expect("constructor panicked")
    }
    pub fn view(&self) -> View {
        View {
            id: *self.foca.identity(),
            state: self.foca.iter_membership_state().cloned().collect(),
            active: self.foca.iter_members().cloned().collect(),
            num: self.foca.num_members(),
            upd: self.foca.updates_backlog(),
            cust: self.foca.custom_broadcast_backlog(),
        }
    }
    pub fn id(&self) -> Id {
        *self.foca.identity()
    }
    pub fn exec(&mut self, op: Op) -> Step {
        let pre = self.view();
        let cfg = self.cfg.clone();
        let inp = match &op {
            Op::Data(d) => Some(classify(self.codec, &d.0, &pre.id, cfg.mps)),
            _ => None,
        };
        let mut rt = Rt {
            codec: self.codec,
            eff: vec![],
            acc: if self.use_acc { Some(self.acc.take().unwrap_or_else(AccumulatingRuntime::new)) } else { None },
        };
        self.log.borrow_mut().clear();
        let f = &mut self.foca;
        let r = guarded(|| -> Result<Option<bool>, Error> {
            match &op {
                Op::Data(d) => f.handle_data(&d.0, &mut rt).map(|_| None),
                Op::Timer(t) => f.handle_timer(t.clone(), &mut rt).map(|_| None),
                Op::Announce(i) => f.announce(*i, &mut rt).map(|_| None),
                Op::Gossip => f.gossip(&mut rt).map(|_| None),
                Op::Broadcast => f.broadcast(&mut rt).map(|_| None),
                Op::AddBroadcast(d) => f.add_broadcast(&d.0).map(Some),
                Op::Leave => f.leave_cluster(&mut rt).map(|_| None),
                Op::Reuse => f.reuse_down_identity().map(|_| None),
                Op::ChangeId(i) => f.change_identity(*i, &mut rt).map(|_| None),
                Op::SetConfig(c) => f.set_config(c.foca()).map(|_| None),
                Op::ApplyMany(v, b) => f.apply_many(v.iter().cloned(), *b, &mut rt).map(|_| None),
            }
        });
        let res = match r {
            Ok(Ok(None)) => Res::Ok,
            Ok(Ok(Some(b))) => Res::Bool(b),
            Ok(Err(e)) => Res::Err(ekind(&e)),
            Err(p) => {
                self.dead = true;
                Res::Panic(p)
            }
        };
        if let (Op::SetConfig(c), Res::Ok) = (&op, &res) {
            self.cfg = c.clone();
        }
        let acc_diff = rt.acc.take().and_then(|mut a| {
            for e in &rt.eff {
                let k = match e {
                    Eff::Send { .. } => 0,
                    Eff::Timer { .. } => 1,
                    Eff::Note(_) => 2,
                };
                self.acc_want[k].push_back(e.clone());
            }
            let d = diff_acc(&mut a, &mut self.acc_want, self.acc_keep);
            self.acc = Some(a);
            d
        });
        let post = if self.dead { pre.clone() } else { self.view() };
        let hlog = self.log.borrow_mut().drain(..).collect();
        Step { op, pre, post, eff: rt.eff, res, hlog, cfg, codec: self.codec, inp, acc_diff }
    }
}

fn diff_acc(a: &mut AccumulatingRuntime<Id>, want: &mut [std::collections::VecDeque<Eff>; 3], keep: usize) -> Option<String> {
    let total = |w: &[std::collections::VecDeque<Eff>; 3]| w.iter().map(|q| q.len()).sum::<usize>();
    if a.backlog() != total(want) {
        return Some(format!("backlog() = {} but {} effects are pending", a.backlog(), total(want)));
    }
    for k in 0..3 {
        while want[k].len() > keep {
            let e = want[k].pop_front().unwrap();
            match &e {
                Eff::Send { to, data, .. } => match a.to_send() {
                    Some((t, d)) if t == *to && d[..] == data[..] => {}
                    o => return Some(format!("send to {to:?} came out as {o:?}")),
                },
                Eff::Timer { t, after } => match a.to_schedule() {
                    Some((d, x)) if d == *after && x == *t => {}
                    o => return Some(format!("timer {t:?} came out as {o:?}")),
                },
                Eff::Note(x) => match a.to_notify().map(|n| note_of_owned(&n)) {
                    Some(y) if y == *x => {}
                    o => return Some(format!("notification {x:?} came out as {o:?}")),
                },
            }
        }
    }
    if keep == 0 && (a.to_send().is_some() || a.to_schedule().is_some() || a.to_notify().is_some()) {
        return Some("more came out than went in".into());
    }
    if a.backlog() != total(want) {
        return Some(format!("backlog() = {} but {} effects are pending after draining", a.backlog(), total(want)));
    }
    None
}

/// fold a step into a digest (for determinism checks and distinct-run counting)
pub fn digest(h: u64, s: &Step) -> u64 {
    use crate::prng::mix;
    let mut x = h;
    let mut add = |v: u64| x = mix(x ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let fnv = |b: &[u8]| b.iter().fold(0xcbf29ce484222325u64, |a, c| (a ^ *c as u64).wrapping_mul(0x100000001b3));
    add(fnv(s.op.kind().as_bytes()));
    if let Op::Data(d) = &s.op {
        add(fnv(&d.0));
    }
    match &s.res {
        Res::Ok => add(1),
        Res::Bool(b) => add(2 + *b as u64),
        Res::Err(e) => add(10 + *e as u64),
        Res::Panic(_) => add(9),
    }
    for e in &s.eff {
        match e {
            Eff::Send { to, data, .. } => {
                add(to.key());
                add(fnv(data));
            }
            Eff::Timer { t, after } => {
                add(fnv(format!("{t:?}").as_bytes()));
                add(after.as_millis() as u64);
            }
            Eff::Note(n) => add(fnv(format!("{n:?}").as_bytes())),
        }
    }
    for m in &s.post.state {
        add(m.id().key());
        add((m.incarnation() as u64) << 2 | st_num(m.state()) as u64);
    }
    x
}

/// Coarse fingerprint of one step: what kind of call met what kind of state and had which kinds of effects.
/// The number of distinct ones seen is the coverage measure reported in the evidence.
pub fn shape(s: &Step) -> u64 {
    use crate::prng::mix;
    let mut x = 0u64;
    let mut add = |v: u64| x = mix(x ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let fnv = |b: &[u8]| b.iter().fold(0xcbf29ce484222325u64, |a, c| (a ^ *c as u64).wrapping_mul(0x100000001b3));
    let bucket = |n: usize| n.min(3) as u64;
    add(fnv(s.op.kind().as_bytes()));
    match &s.inp {
        Some(InClass::Ok(p)) => {
            add(fnv(kind_name(&p.hdr.message).as_bytes()));
            add(bucket(p.members.len()));
            add(match s.pre.state.iter().find(|m| m.id().addr == p.hdr.src.addr) {
                None => 20,
                Some(m) => 21 + st_num(m.state()) as u64 + 4 * (m.id() != &p.hdr.src) as u64,
            });
        }
        Some(InClass::TooBig) => add(41),
        Some(InClass::BadHeader) => add(42),
        Some(InClass::FromSelf) => add(43),
        Some(InClass::BadFraming) => add(44),
        Some(InClass::NotForUs) => add(45),
        Some(InClass::BadMembers) => add(46),
        None => {}
    }
    add(match &s.res {
        Res::Ok => 1,
        Res::Bool(b) => 2 + *b as u64,
        Res::Err(e) => 10 + *e as u64,
        Res::Panic(_) => 9,
    });
    add((s.pre.id != s.post.id) as u64);
    add(bucket(s.pre.num) << 4 | bucket(s.post.num));
    add(bucket(s.pre.state.len() - s.pre.num.min(s.pre.state.len())) << 4 | bucket(s.pre.upd) << 2 | bucket(s.pre.cust));
    // record transitions, as a set
    let mut tr: Vec<u64> = s
        .post
        .state
        .iter()
        .filter_map(|m| {
            let o = s.pre.rec(m.id().addr);
            match o {
                None => Some(100 + st_num(m.state()) as u64),
                Some(o) if o == m => None,
                Some(o) => Some(200 + 16 * (o.id() != m.id()) as u64 + 4 * st_num(o.state()) as u64 + st_num(m.state()) as u64),
            }
        })
        .collect();
    tr.sort();
    tr.dedup();
    for t in tr {
        add(t);
    }
    let mut last = 0;
    for e in &s.eff {
        let k = match e {
            Eff::Send { pkt: Ok(p), .. } => fnv(kind_name(&p.hdr.message).as_bytes()) ^ bucket(p.members.as_ref().map(|m| m.len()).unwrap_or(0)) << 1 ^ bucket(p.items.len()) << 3,
            Eff::Send { .. } => 7,
            Eff::Timer { t, .. } => fnv(Op::Timer(t.clone()).kind().as_bytes()),
            Eff::Note(n) => fnv(format!("{n:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").as_bytes()),
        };
        // repetitions of the same effect count once
        if k != last {
            add(k);
        }
        last = k;
    }
    x
}
