//! Identities, configuration, operations: the vocabulary of scenarios.
use foca::{Config, Incarnation, Member, PeriodicParams, State, Timer};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::num::{NonZeroU8, NonZeroUsize};
use std::time::Duration;

pub const POL_NONE: u8 = 0;
pub const POL_NEXT: u8 = 1;
pub const POL_SAME: u8 = 2;
pub const POL_LOSE: u8 = 3;
/// renews to an identity that neither wins nor loses the conflict (only ever the policy of the instance under test)
pub const POL_TIE: u8 = 4;
const POL_TIED: u8 = 5;
pub const TIE: (u16, u16) = (60_001, 60_000);
/// (so specific that no corrupted datagram holds one)
pub const fn pol_ok(addr: u16, gen: u16, pol: u8) -> bool {
    pol <= POL_LOSE || (pol <= POL_TIED && addr == TIE.0 && gen == TIE.1)
}

thread_local! {
    /// identities without renewal behave as the bundled SocketAddr ones: there is no conflict to decide with oneself or
    /// with another address, and being asked to is a panic
    pub static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A member identity: same `addr` = same address; ordering of (gen, pol, tail) decides conflicts.
/// `tail` makes the encoded length variable (tail extra bytes of checked content).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Id {
    pub addr: u16,
    pub gen: u16,
    pub pol: u8,
    pub tail: u8,
}

pub const fn id(addr: u16, gen: u16, pol: u8, tail: u8) -> Id {
    Id { addr, gen, pol, tail }
}

impl Id {
    pub fn tail_byte(&self, i: usize) -> u8 {
        (self.addr as usize)
            .wrapping_mul(31)
            .wrapping_add(self.gen as usize * 7)
            .wrapping_add(i * 13)
            .wrapping_add(5) as u8
    }
    pub fn key(&self) -> u64 {
        (self.addr as u64) << 32 | (self.gen as u64) << 16 | (self.pol as u64) << 8 | self.tail as u64
    }
    pub fn wins(&self, other: &Id) -> bool {
        if self.pol >= POL_TIE && other.pol >= POL_TIE && (self.gen, self.tail) == (other.gen, other.tail) {
            return false;
        }
        (self.gen, self.pol, self.tail) > (other.gen, other.pol, other.tail)
    }
    pub fn renewed(&self) -> Option<Id> {
        match self.pol {
            POL_NEXT => self.gen.checked_add(1).map(|gen| Id { gen, ..*self }),
            POL_SAME => Some(*self),
            POL_LOSE => Some(Id { gen: self.gen.saturating_sub(1), ..*self }),
            POL_TIE => Some(Id { pol: POL_TIED, ..*self }),
            _ => None,
        }
    }
    /// the identity auto-rejoin may switch to, if any
    pub fn can_rejoin(&self) -> Option<Id> {
        self.renewed().filter(|n| n != self && n.wins(self))
    }
}

impl fmt::Debug for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}.{}.{}", self.addr, self.gen, self.pol, self.tail)
    }
}

impl foca::Identity for Id {
    type Addr = u16;
    fn renew(&self) -> Option<Self> {
        self.renewed()
    }
    fn addr(&self) -> u16 {
        self.addr
    }
    fn win_addr_conflict(&self, adversary: &Self) -> bool {
        if self.pol == POL_NONE && (self == adversary || self.addr != adversary.addr) && STRICT.with(|s| s.get()) {
            panic!("asked to decide an address conflict between {self:?} and {adversary:?} (SocketAddr identities panic here)");
        }
        self.wins(adversary)
    }
}

struct Tail(Id);
impl Serialize for Tail {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let n = self.0.tail as usize;
        let mut q = s.serialize_seq(Some(n))?;
        for i in 0..n {
            q.serialize_element(&self.0.tail_byte(i))?;
        }
        q.end()
    }
}

impl Serialize for Id {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            return s.serialize_str(&format!("{self:?}"));
        }
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(4)?;
        t.serialize_element(&self.addr)?;
        t.serialize_element(&self.gen)?;
        t.serialize_element(&self.pol)?;
        t.serialize_element(&Tail(*self))?;
        t.end()
    }
}

struct TailSeed(Id);
impl<'de> de::DeserializeSeed<'de> for TailSeed {
    type Value = Id;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Id, D::Error> {
        d.deserialize_seq(self)
    }
}
impl<'de> de::Visitor<'de> for TailSeed {
    type Value = Id;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identity tail")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Id, A::Error> {
        let mut idv = self.0;
        let mut n = 0usize;
        while let Some(b) = a.next_element::<u8>()? {
            if n >= 255 || b != idv.tail_byte(n) {
                return Err(de::Error::custom("bad tail"));
            }
            n += 1;
        }
        idv.tail = n as u8;
        Ok(idv)
    }
}

struct IdVisitor;
impl<'de> de::Visitor<'de> for IdVisitor {
    type Value = Id;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identity")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Id, A::Error> {
        let e = || de::Error::custom("short");
        let addr = a.next_element::<u16>()?.ok_or_else(e)?;
        let gen = a.next_element::<u16>()?.ok_or_else(e)?;
        let pol = a.next_element::<u8>()?.ok_or_else(e)?;
        if !pol_ok(addr, gen, pol) {
            return Err(de::Error::custom("bad policy"));
        }
        a.next_element_seed(TailSeed(id(addr, gen, pol, 0)))?.ok_or_else(e)
    }
}
impl<'de> Deserialize<'de> for Id {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Id, D::Error> {
        if d.is_human_readable() {
            let s = String::deserialize(d)?;
            let p: Vec<&str> = s.split('.').collect();
            if p.len() != 4 {
                return Err(de::Error::custom("id"));
            }
            let f = |i: usize| p[i].parse::<u16>().map_err(de::Error::custom);
            return Ok(id(f(0)?, f(1)?, f(2)? as u8, f(3)? as u8));
        }
        d.deserialize_tuple(4, IdVisitor)
    }
}

pub type M = Member<Id>;
pub type T = Timer<Id>;

pub fn mem(i: Id, inc: Incarnation, st: State) -> M {
    Member::new(i, inc, st)
}
pub fn is_active(m: &M) -> bool {
    m.state() != State::Down
}
pub fn st_num(s: State) -> u8 {
    match s {
        State::Alive => 0,
        State::Suspect => 1,
        State::Down => 2,
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub period: u64,
    pub rtt: u64,
    pub fanout: u64,
    pub max_tx: u8,
    pub s2d: u64,
    pub rd: u64,
    pub mps: u64,
    pub notify_down: bool,
    /// (frequency ms, num members)
    pub pa: Option<(u64, u64)>,
    pub pad: Option<(u64, u64)>,
    pub pg: Option<(u64, u64)>,
}

fn nz(v: u64) -> NonZeroUsize {
    NonZeroUsize::new(v as usize).unwrap_or(NonZeroUsize::MIN)
}

impl Cfg {
    pub fn simple() -> Cfg {
        Cfg {
            period: 1500,
            rtt: 500,
            fanout: 3,
            max_tx: 10,
            s2d: 3000,
            rd: 86_400_000,
            mps: 1400,
            notify_down: false,
            pa: None,
            pad: None,
            pg: None,
        }
    }
    pub fn foca(&self) -> Config {
        let pp = |o: &Option<(u64, u64)>| {
            o.map(|(f, n)| PeriodicParams { frequency: Duration::from_millis(f), num_members: nz(n) })
        };
        Config {
            probe_period: Duration::from_millis(self.period),
            probe_rtt: Duration::from_millis(self.rtt),
            num_indirect_probes: nz(self.fanout),
            max_transmissions: NonZeroU8::new(self.max_tx).unwrap_or(NonZeroU8::MIN),
            suspect_to_down_after: Duration::from_millis(self.s2d),
            remove_down_after: Duration::from_millis(self.rd),
            max_packet_size: nz(self.mps),
            notify_down_members: self.notify_down,
            periodic_announce: pp(&self.pa),
            periodic_announce_to_down_members: pp(&self.pad),
            periodic_gossip: pp(&self.pg),
        }
    }
    /// would set_config(new) be legal?
    pub fn allows(&self, new: &Cfg) -> bool {
        self.period == new.period
            && self.rtt == new.rtt
            && !(self.pa.is_none() && new.pa.is_some())
            && !(self.pad.is_none() && new.pad.is_some())
            && !(self.pg.is_none() && new.pg.is_some())
    }
}

/// hex-encoded bytes
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Hex(pub Vec<u8>);
impl fmt::Debug for Hex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&tohex(&self.0))
    }
}
pub fn tohex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // run-length friendly form for giant buffers
        if self.0.len() > 4096 && self.0.iter().all(|b| *b == self.0[0]) {
            return s.serialize_str(&format!("rep:{}:{}", self.0[0], self.0.len()));
        }
        s.serialize_str(&tohex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Hex, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(r) = s.strip_prefix("rep:") {
            let (b, n) = r.split_once(':').ok_or_else(|| de::Error::custom("rep"))?;
            let b: u8 = b.parse().map_err(de::Error::custom)?;
            let n: usize = n.parse().map_err(de::Error::custom)?;
            return Ok(Hex(vec![b; n]));
        }
        if s.len() % 2 != 0 {
            return Err(de::Error::custom("hex"));
        }
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(de::Error::custom))
            .collect::<Result<Vec<u8>, _>>()
            .map(Hex)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Data(Hex),
    Timer(T),
    Announce(Id),
    Gossip,
    Broadcast,
    AddBroadcast(Hex),
    Leave,
    Reuse,
    ChangeId(Id),
    SetConfig(Cfg),
    ApplyMany(Vec<M>, bool),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Data(_) => "data",
            Op::Timer(t) => match t {
                Timer::ProbeRandomMember(_) => "t_probe",
                Timer::SendIndirectProbe { .. } => "t_indirect",
                Timer::ChangeSuspectToDown { .. } => "t_s2d",
                Timer::PeriodicAnnounce(_) => "t_announce",
                Timer::PeriodicAnnounceDown(_) => "t_announce_down",
                Timer::PeriodicGossip(_) => "t_gossip",
                Timer::RemoveDown(_) => "t_remove",
            },
            Op::Announce(_) => "announce",
            Op::Gossip => "gossip",
            Op::Broadcast => "broadcast",
            Op::AddBroadcast(_) => "add_broadcast",
            Op::Leave => "leave",
            Op::Reuse => "reuse",
            Op::ChangeId(_) => "change_id",
            Op::SetConfig(_) => "set_config",
            Op::ApplyMany(..) => "apply_many",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Violation {
    pub prop: String,
    /// violation class used while shrinking
    pub class: String,
    pub msg: String,
}

pub fn viol(prop: &str, class: &str, msg: impl Into<String>) -> Violation {
    Violation { prop: prop.into(), class: class.into(), msg: msg.into() }
}

pub type Check = Result<(), Violation>;
