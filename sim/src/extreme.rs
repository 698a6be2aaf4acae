//! Sizes ordinary histories never reach: tens of thousands of members, and every cluster size the
//! configuration constructors accept.
use crate::inst::guarded;
use crate::prng::Prng;
use crate::solo::Stats;
use crate::types::*;
use bytes::{Buf, BufMut};
use foca::{Codec, Config, Foca, Header, Identity, Member, Message, NoCustomBroadcast, Notification, Runtime, State, Timer};
use serde::{Deserialize, Serialize};
use std::num::{NonZeroU32, NonZeroU8, NonZeroUsize};
use std::time::Duration;

// ------------------------------------------------------------------ configuration constructors
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ConsScn {
    pub from: u32,
    pub count: u64,
}
pub fn run_cons(s: &ConsScn, p: &str, st: &mut Stats) -> Check {
    let mut at = (s.from, 0);
    let r = guarded(|| {
        let mut x = 0u64;
        let _ = Config::simple();
        for i in 0..s.count {
            let Ok(n) = u32::try_from(s.from as u64 + i) else { break };
            let Some(nz) = NonZeroU32::new(n) else { continue };
            at = (n, 0);
            let a = Config::new_lan(nz);
            at = (n, 1);
            let b = Config::new_wan(nz);
            x = x.wrapping_mul(31).wrapping_add(a.max_transmissions.get() as u64 + b.suspect_to_down_after.as_millis() as u64 + a.suspect_to_down_after.as_millis() as u64);
        }
        x
    });
    st.steps = s.count * 2;
    st.nontrivial = true;
    st.add("config_constructors", s.count * 2);
    match r {
        Ok(x) => {
            st.digest = x ^ (s.from as u64) << 20;
            Ok(())
        }
        Err(e) => Err(viol(p, "constructor", format!("Config::{}({}) panicked: {e}", if at.1 == 0 { "new_lan" } else { "new_wan" }, at.0))),
    }
}
pub fn gen_cons(r: &mut Prng, i: u64) -> ConsScn {
    match i {
        0 => ConsScn { from: 1, count: 20_000 },
        1 => ConsScn { from: u32::MAX - 20_000, count: 20_001 },
        _ => {
            let c = 1u64 << r.below(33);
            let f = c.saturating_sub(r.below(3000)).max(1).min(u32::MAX as u64) as u32;
            let f = match r.below(4) {
                0 | 1 => f,
                2 => r.next() as u32 >> r.below(32),
                _ => 10u32.pow(r.below(10) as u32).saturating_sub(r.below(3000) as u32),
            };
            let f = f.max(1);
            ConsScn { from: f, count: 6000 }
        }
    }
}

// ------------------------------------------------------------------ huge memberships
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Big(pub u32);
impl Identity for Big {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        None
    }
    fn addr(&self) -> u32 {
        self.0
    }
    fn win_addr_conflict(&self, _: &Self) -> bool {
        false
    }
}
#[derive(Clone, Copy)]
pub struct BigCodec;
#[derive(Debug)]
pub struct BErr;
impl std::fmt::Display for BErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("short")
    }
}
impl std::error::Error for BErr {}
fn need(b: &impl Buf, n: usize) -> Result<(), BErr> {
    if b.remaining() < n {
        Err(BErr)
    } else {
        Ok(())
    }
}
impl Codec<Big> for BigCodec {
    type Error = BErr;
    fn encode_header(&mut self, h: &Header<Big>, mut b: impl BufMut) -> Result<(), BErr> {
        if b.remaining_mut() < 16 {
            return Err(BErr);
        }
        let (k, o, n) = match &h.message {
            Message::Ping(n) => (0u8, 0, *n),
            Message::Ack(n) => (1, 0, *n),
            Message::PingReq { target, probe_number } => (2, target.0, *probe_number),
            Message::IndirectPing { origin, probe_number } => (3, origin.0, *probe_number),
            Message::IndirectAck { target, probe_number } => (4, target.0, *probe_number),
            Message::ForwardedAck { origin, probe_number } => (5, origin.0, *probe_number),
            Message::Announce => (6, 0, 0),
            Message::Feed => (7, 0, 0),
            Message::Gossip => (8, 0, 0),
            Message::Broadcast => (9, 0, 0),
            Message::TurnUndead => (10, 0, 0),
        };
        b.put_u8(k);
        b.put_u8(n);
        b.put_u32(o);
        b.put_u32(h.src.0);
        b.put_u16(h.src_incarnation);
        b.put_u32(h.dst.0);
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl Buf) -> Result<Header<Big>, BErr> {
        need(&b, 16)?;
        let k = b.get_u8();
        let n = b.get_u8();
        let o = Big(b.get_u32());
        let src = Big(b.get_u32());
        let src_incarnation = b.get_u16();
        let dst = Big(b.get_u32());
        let message = match k {
            0 => Message::Ping(n),
            1 => Message::Ack(n),
            2 => Message::PingReq { target: o, probe_number: n },
            3 => Message::IndirectPing { origin: o, probe_number: n },
            4 => Message::IndirectAck { target: o, probe_number: n },
            5 => Message::ForwardedAck { origin: o, probe_number: n },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            10 => Message::TurnUndead,
            _ => return Err(BErr),
        };
        Ok(Header { src, src_incarnation, dst, message })
    }
    fn encode_member(&mut self, m: &Member<Big>, mut b: impl BufMut) -> Result<(), BErr> {
        if b.remaining_mut() < 7 {
            return Err(BErr);
        }
        b.put_u32(m.id().0);
        b.put_u16(m.incarnation());
        b.put_u8(st_num(m.state()));
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl Buf) -> Result<Member<Big>, BErr> {
        need(&b, 7)?;
        let i = Big(b.get_u32());
        let inc = b.get_u16();
        let s = match b.get_u8() {
            0 => State::Alive,
            1 => State::Suspect,
            2 => State::Down,
            _ => return Err(BErr),
        };
        Ok(Member::new(i, inc, s))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BigOp {
    Apply { from: u32, n: u32, state: u8, inc: u16, gossip: bool },
    /// a datagram of this kind from a member
    Data { kind: u8, from: u32 },
    Fire(u32),
    Announce(u32),
    Gossip,
    Broadcast,
    Leave,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BigScn {
    pub mps: u64,
    pub fanout: u64,
    pub periodic: bool,
    pub max_tx: u8,
    pub seed: u64,
    pub ops: Vec<BigOp>,
    /// how many large datagrams a peer is asked to accept
    pub peers: u32,
}
#[derive(Default)]
struct BRt {
    sends: Vec<(Big, Vec<u8>)>,
    timers: Vec<(Duration, Timer<Big>)>,
    notes: u64,
}
impl Runtime<Big> for BRt {
    fn notify(&mut self, _: Notification<'_, Big>) {
        self.notes += 1;
    }
    fn send_to(&mut self, to: Big, d: &[u8]) {
        self.sends.push((to, d.to_vec()));
    }
    fn submit_after(&mut self, t: Timer<Big>, a: Duration) {
        self.timers.push((a, t));
    }
}
fn cfg(s: &BigScn) -> Config {
    let mut c = Config::simple();
    c.max_packet_size = NonZeroUsize::new(s.mps as usize).unwrap_or(NonZeroUsize::MIN);
    c.num_indirect_probes = NonZeroUsize::new(s.fanout as usize).unwrap_or(NonZeroUsize::MIN);
    c.max_transmissions = NonZeroU8::new(s.max_tx).unwrap_or(NonZeroU8::MIN);
    c.notify_down_members = true;
    if s.periodic {
        let p = foca::PeriodicParams { frequency: Duration::from_millis(700), num_members: NonZeroUsize::new(2).unwrap() };
        c.periodic_gossip = Some(p.clone());
        c.periodic_announce = Some(p.clone());
        c.periodic_announce_to_down_members = Some(p);
    }
    c
}
pub fn run_big(s: &BigScn, p: &str, st: &mut Stats) -> Check {
    let me = Big(1);
    let mut f = match guarded(|| Foca::with_custom_broadcast(me, cfg(s), Prng::new(s.seed), BigCodec, NoCustomBroadcast)) {
        Ok(f) => f,
        Err(e) => return Err(viol(p, "panic", format!("constructor: {e}"))),
    };
    let mut out: Vec<(u64, u64, Timer<Big>)> = vec![];
    let (mut now, mut seq) = (0u64, 0u64);
    let mut peers = s.peers;
    st.nontrivial = true;
    for (n, o) in s.ops.iter().enumerate() {
        let mut rt = BRt::default();
        let mut fired = None;
        if let BigOp::Fire(k) = o {
            if out.is_empty() {
                continue;
            }
            let k = *k as usize % out.len();
            let (d, _, t) = out.remove(k);
            now = now.max(d);
            fired = Some(t);
        }
        let r = guarded(|| match o {
            BigOp::Apply { from, n, state, inc, gossip } => {
                let stt = [State::Alive, State::Suspect, State::Down][*state as usize % 3];
                f.apply_many((0..*n).map(|i| Member::new(Big(from.wrapping_add(i)), *inc, stt)), *gossip, &mut rt)
            }
            BigOp::Data { kind, from } => {
                let o = Big(from.wrapping_add(1));
                let message = match kind % 11 {
                    0 => Message::Ping(7),
                    1 => Message::Ack(1),
                    2 => Message::PingReq { target: o, probe_number: 7 },
                    3 => Message::IndirectPing { origin: o, probe_number: 7 },
                    4 => Message::IndirectAck { target: o, probe_number: 7 },
                    5 => Message::ForwardedAck { origin: o, probe_number: 7 },
                    6 => Message::Announce,
                    7 => Message::Feed,
                    8 => Message::Gossip,
                    9 => Message::Broadcast,
                    _ => Message::TurnUndead,
                };
                let mut b = vec![];
                let _ = BigCodec.encode_header(&Header { src: Big(*from), src_incarnation: 0, dst: me, message }, &mut b);
                f.handle_data(&b, &mut rt)
            }
            BigOp::Fire(_) => match fired {
                Some(t) => f.handle_timer(t, &mut rt),
                None => Ok(()),
            },
            BigOp::Announce(t) => f.announce(Big(*t), &mut rt),
            BigOp::Gossip => f.gossip(&mut rt),
            BigOp::Broadcast => f.broadcast(&mut rt),
            BigOp::Leave => f.leave_cluster(&mut rt),
        });
        st.steps += 1;
        match r {
            Err(e) => return Err(viol(p, "panic", format!("op {n} {o:?} panicked: {e}"))),
            Ok(Err(e)) => {
                let ok = matches!(e, foca::Error::IncompleteProbeCycle) || matches!(e, foca::Error::Encode(_)) && s.mps < 64;
                if !ok && matches!(o, BigOp::Apply { .. } | BigOp::Gossip | BigOp::Announce(_) | BigOp::Broadcast) {
                    return Err(viol(p, "error", format!("op {n} {o:?} failed: {e}")));
                }
            }
            Ok(Ok(())) => {}
        }
        for (a, t) in rt.timers {
            seq += 1;
            // keep the pile of forget/suspicion timers bounded
            if out.len() < 5000 {
                let e = (now + a.as_millis() as u64, seq, t);
                let pos = out.partition_point(|x| (x.0, x.1) < (e.0, e.1));
                out.insert(pos, e);
            }
        }
        let active: std::collections::BTreeSet<u32> = if rt.sends.iter().any(|x| x.1[0] == 7) { f.iter_members().map(|m| m.id().0).collect() } else { Default::default() };
        for (to, d) in &rt.sends {
            st.add("big_datagrams", 1);
            let bad = |m: String| Err(viol(p, "big-datagram", format!("op {n} {o:?}: {m}")));
            if d.len() as u64 > s.mps {
                return bad(format!("{} bytes > max_packet_size", d.len()));
            }
            let mut b = &d[..];
            let h = match BigCodec.decode_header(&mut b) {
                Ok(h) => h,
                Err(_) => return bad("undecodable header".into()),
            };
            if h.src != me || h.dst != *to {
                return bad(format!("header {h:?} for {to:?}"));
            }
            if matches!(h.message, Message::Announce | Message::TurnUndead | Message::Broadcast) {
                if !b.is_empty() {
                    return bad(format!("{:?} followed by {} bytes", h.message, b.len()));
                }
            } else {
                if b.len() < 2 {
                    return bad(format!("{:?} without a member section", h.message));
                }
                let c = b.get_u16() as usize;
                if b.len() != c * 7 {
                    return bad(format!("{:?} declares {c} members but {} bytes follow ({} members)", h.message, b.len(), b.len() / 7));
                }
                st.add("big_members", c as u64);
                if c > 60_000 {
                    st.add("probe_datagrams_over_60000_members", 1);
                }
                for m in b.chunks(7) {
                    if m[6] > 2 {
                        return bad("bad member".into());
                    }
                    let i = u32::from_be_bytes([m[0], m[1], m[2], m[3]]);
                    if h.message == Message::Feed && (m[6] == 2 || i == me.0 || i == to.0 || !active.contains(&i)) {
                        return bad(format!("feed lists {i} in state {}", m[6]));
                    }
                }
                if c > 1000 && peers > 0 {
                    peers -= 1;
                    let mut q = Foca::with_custom_broadcast(*to, cfg(s), Prng::new(s.seed ^ 5), BigCodec, NoCustomBroadcast);
                    let mut prt = BRt::default();
                    match guarded(|| q.handle_data(d, &mut prt)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return bad(format!("the peer rejected {:?} with {c} members: {e}", h.message)),
                        Err(e) => return bad(format!("the peer panicked on {:?} with {c} members: {e}", h.message)),
                    }
                }
            }
        }
        st.digest = crate::prng::mix(st.digest ^ rt.sends.iter().fold(rt.notes, |a, x| a.wrapping_mul(31).wrapping_add(x.1.len() as u64)));
    }
    st.sim_ms = crate::solo::sane(now);
    Ok(())
}
pub fn gen_big(r: &mut Prng, quick: bool) -> BigScn {
    let n = *r.pick(&[65_534u32, 65_535, 65_536, 65_537, 66_000, 70_000]);
    let n = if quick { n.min(66_000) } else { n };
    let gossip = r.pct(50);
    let mut ops = vec![BigOp::Apply { from: 2, n, state: 0, inc: 0, gossip }];
    let left = 2 + n;
    for _ in 0..r.range(4, 14) {
        ops.push(match r.below(12) {
            0 | 1 | 2 => BigOp::Data { kind: 6, from: left + 5 + r.below(3) as u32 },
            3 => BigOp::Data { kind: r.below(6) as u8, from: 2 + r.below(n as u64) as u32 },
            4 => BigOp::Gossip,
            5 => BigOp::Broadcast,
            6 | 7 | 8 => BigOp::Fire(r.below(3) as u32),
            9 => BigOp::Apply { from: 2 + r.below(n as u64) as u32, n: r.below(20) as u32, state: r.below(3) as u8, inc: r.below(2) as u16, gossip: true },
            10 => BigOp::Announce(r.below(10) as u32 + 2),
            _ => BigOp::Data { kind: 8, from: 2 + r.below(n as u64) as u32 },
        });
    }
    if r.pct(30) {
        ops.push(BigOp::Leave);
        ops.push(BigOp::Gossip);
    }
    let mps = *r.pick(&[1u64 << 20, 65_535 * 7 + 18, 65_535 * 7 + 17, 65_536 * 7 + 18, 65_536 * 7 + 200, u32::MAX as u64, 65_507]);
    BigScn { mps, fanout: *r.pick(&[1, 3, 3, 70_000, u64::MAX]), periodic: r.pct(50), max_tx: *r.pick(&[1, 10, 255]), seed: r.next(), ops, peers: 1 }
}
