//! Instances as most users build them: `Foca::new` (no custom broadcasts), socket addresses as identities, a bundled
//! codec behind `&mut`. foca's own `Identity for SocketAddr` panics when it is asked to solve a conflict: there is none to solve.
use crate::inst::guarded;
use crate::prng::Prng;
use crate::solo::Stats;
use crate::types::*;
use crate::wire::CodecKind;
use bytes::{Buf, BufMut};
use foca::{BincodeCodec, Codec, Foca, Header, Member, Message, Notification, PostcardCodec, Runtime, State, Timer};
use serde::{Deserialize, Serialize};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::time::Duration;

type Peer = u8;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum KOp {
    Msg { src: Peer, inc: u16, dst: Peer, kind: u8, num: u8, who: Peer, members: Vec<(Peer, u16, u8)>, tail: Hex },
    Raw(Hex),
    Apply(Vec<(Peer, u16, u8)>, bool),
    Fire(u32),
    Refire,
    Announce(Peer),
    Gossip,
    Broadcast,
    AddBroadcast(Hex),
    Leave,
    Reuse,
    Change(Peer),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SockScn {
    pub postcard: bool,
    pub cfg: Cfg,
    pub seed: u64,
    pub ops: Vec<KOp>,
}
fn addr(p: Peer) -> SocketAddr {
    let n = p as u16;
    match p % 3 {
        0 => SocketAddr::new(IpAddr::V6(Ipv6Addr::new(0xfe80, 0, 0, 0, 1, 2, 3, n / 6)), 7000 + n % 2),
        // same host, different ports
        1 => SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), 7000 + n),
        _ => SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 1, p)), 7000),
    }
}
#[derive(Clone)]
enum Any {
    B(BincodeCodec<bincode::config::Configuration<bincode::config::LittleEndian, bincode::config::Varint, bincode::config::Limit<65536>>>),
    P(PostcardCodec),
}
#[derive(Debug)]
struct AErr(String);
impl std::fmt::Display for AErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for AErr {}
macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            Any::B($c) => $e.map_err(|e| AErr(format!("{e}"))),
            Any::P($c) => $e.map_err(|e| AErr(format!("{e}"))),
        }
    };
}
impl Codec<SocketAddr> for Any {
    type Error = AErr;
    fn encode_header(&mut self, h: &Header<SocketAddr>, b: impl BufMut) -> Result<(), AErr> {
        each!(self, c => c.encode_header(h, b))
    }
    fn decode_header(&mut self, b: impl Buf) -> Result<Header<SocketAddr>, AErr> {
        each!(self, c => c.decode_header(b))
    }
    fn encode_member(&mut self, m: &Member<SocketAddr>, b: impl BufMut) -> Result<(), AErr> {
        each!(self, c => c.encode_member(m, b))
    }
    fn decode_member(&mut self, b: impl Buf) -> Result<Member<SocketAddr>, AErr> {
        each!(self, c => c.decode_member(b))
    }
}
#[derive(Default)]
struct Rt {
    sends: Vec<(SocketAddr, Vec<u8>)>,
    timers: Vec<(Duration, Timer<SocketAddr>)>,
    rejoin: bool,
    notes: u64,
}
impl Runtime<SocketAddr> for &mut Rt {
    fn notify(&mut self, n: Notification<'_, SocketAddr>) {
        self.notes += 1;
        self.rejoin |= matches!(n, Notification::Rejoin(_));
    }
    fn send_to(&mut self, to: SocketAddr, data: &[u8]) {
        self.sends.push((to, data.to_vec()));
    }
    fn submit_after(&mut self, event: Timer<SocketAddr>, after: Duration) {
        self.timers.push((after, event));
    }
}
fn member(m: &(Peer, u16, u8)) -> Member<SocketAddr> {
    Member::new(addr(m.0), m.1, [State::Alive, State::Suspect, State::Down][m.2 as usize % 3])
}
pub fn run(s: &SockScn, p: &str, st: &mut Stats) -> Check {
    let mk = || if s.postcard { Any::P(PostcardCodec) } else { Any::B(BincodeCodec(bincode::config::standard().with_limit::<65536>())) };
    let (mut codec, mut own) = (mk(), mk());
    let cfg = s.cfg.foca();
    let mut f = match guarded(|| Foca::new(addr(1), cfg, Prng::new(s.seed), &mut own)) {
        Ok(f) => f,
        Err(e) => return Err(viol(p, "panic", format!("Foca::new panicked: {e}"))),
    };
    let mut out: Vec<(u64, u64, Timer<SocketAddr>)> = vec![];
    let (mut now, mut seq, mut last) = (0u64, 0u64, None);
    let mut changed = false;
    for (n, o) in s.ops.iter().enumerate() {
        let mut rt = Rt::default();
        let mut tm = None;
        if let KOp::Fire(k) = o {
            if out.is_empty() {
                continue;
            }
            let (d, _, t) = out.remove(*k as usize % out.len());
            now = now.max(d);
            last = Some(t.clone());
            tm = Some(t);
        }
        if let KOp::Refire = o {
            tm = last.clone();
        }
        let bytes = if let KOp::Msg { src, inc, dst, kind, num, who, members, tail } = o {
            let (o, probe_number) = (addr(*who), *num);
            let message = match kind % 11 {
                0 => Message::Ping(*num),
                1 => Message::Ack(*num),
                2 => Message::PingReq { target: o, probe_number },
                3 => Message::IndirectPing { origin: o, probe_number },
                4 => Message::IndirectAck { target: o, probe_number },
                5 => Message::ForwardedAck { origin: o, probe_number },
                6 => Message::Announce,
                7 => Message::Feed,
                8 => Message::Gossip,
                9 => Message::Broadcast,
                _ => Message::TurnUndead,
            };
            let mut b = vec![];
            let sect = !matches!(message, Message::Announce | Message::Broadcast | Message::TurnUndead);
            let dst = if *dst == 1 { *f.identity() } else { addr(*dst) };
            let _ = codec.encode_header(&Header { src: addr(*src), src_incarnation: *inc, dst, message }, &mut b);
            if sect {
                b.put_u16(members.len() as u16);
                for m in members {
                    let _ = codec.encode_member(&member(m), &mut b);
                }
            }
            b.extend_from_slice(&tail.0);
            b
        } else {
            vec![]
        };
        let r = guarded(|| match o {
            KOp::Msg { .. } => f.handle_data(&bytes, &mut rt),
            KOp::Raw(b) => f.handle_data(&b.0, &mut rt),
            KOp::Apply(m, b) => f.apply_many(m.iter().map(member), *b, &mut rt),
            KOp::Fire(_) | KOp::Refire => tm.map(|t| f.handle_timer(t, &mut rt)).unwrap_or(Ok(())),
            KOp::Announce(a) => f.announce(addr(*a), &mut rt),
            KOp::Gossip => f.gossip(&mut rt),
            KOp::Broadcast => f.broadcast(&mut rt),
            KOp::AddBroadcast(b) => f.add_broadcast(&b.0).map(|_| ()),
            KOp::Leave => f.leave_cluster(&mut rt),
            KOp::Reuse => f.reuse_down_identity(),
            KOp::Change(a) => f.change_identity(addr(*a), &mut rt),
        });
        st.steps += 1;
        st.add("socket_address_steps", 1);
        let bad = |c: &str, m: String| Err(viol(p, c, format!("op {n} {o:?}: {m}")));
        match r {
            Err(e) => return bad("panic", format!("panicked: {e}")),
            Ok(Err(e)) => {
                let _ = guarded(|| format!("{e} {e:?} {}", e == e));
            }
            Ok(Ok(())) => changed |= matches!(o, KOp::Change(_)),
        }
        if p == "C10" && rt.rejoin {
            return bad("rejoin", "Rejoin notified, but socket addresses cannot be renewed".into());
        }
        if p == "C16" && f.custom_broadcast_backlog() != 0 {
            return bad("custom-item", "Foca::new took in a custom broadcast".into());
        }
        if p == "C10" && !changed && *f.identity() != addr(1) {
            return bad("identity", format!("now called {:?}", f.identity()));
        }
        let mut all: Vec<SocketAddr> = f.iter_membership_state().map(|m| *m.id()).collect();
        let len = all.len();
        all.sort();
        all.dedup();
        if p == "C09" && (all.len() != len || f.iter_members().any(|m| m.id() == f.identity()) || f.iter_members().count() != f.num_members()) {
            return bad("members", format!("{:?}", f.iter_membership_state().collect::<Vec<_>>()));
        }
        let chosen = |to: &SocketAddr| !matches!(o, KOp::Announce(_) | KOp::Change(_)) && !matches!(o, KOp::Msg { kind, .. } if [2, 4].contains(&(kind % 11))) && to == f.identity();
        if p == "C19" && rt.sends.iter().any(|x| chosen(&x.0)) {
            return bad("own-address", "sends to its own address".into());
        }
        for (to, d) in rt.sends.iter().filter(|_| p == "C07") {
            let mut b = &d[..];
            let ok = d.len() as u64 <= s.cfg.mps && codec.decode_header(&mut b).is_ok_and(|h| h.dst == *to && h.src == *f.identity() || matches!(o, KOp::Change(_)));
            if !ok {
                return bad("datagram", format!("for {to:?}: {d:?}"));
            }
        }
        for (a, t) in rt.timers {
            seq += 1;
            let e = (now.saturating_add(a.as_millis() as u64), seq, t);
            let pos = out.partition_point(|x| (x.0, x.1) < (e.0, e.1));
            out.insert(pos, e);
        }
        st.digest = crate::prng::mix(st.digest ^ rt.sends.iter().fold(rt.notes, |a, x| a.wrapping_mul(31).wrapping_add(x.1.len() as u64)));
        st.nontrivial |= !rt.sends.is_empty();
    }
    st.sim_ms = crate::solo::sane(now);
    Ok(())
}
pub fn gen(r: &mut Prng) -> SockScn {
    let mut p = crate::solo::base_profile(r);
    p.tight = false;
    let mut cfg = crate::solo::gen_cfg(r, CodecKind::BincodeStd, &p);
    cfg.mps = *r.pick(&[120, 200, 1400, 1400, 65_507]);
    let peers = r.range(2, 9);
    let incs = [0u16, 0, 0, 1, 2, u16::MAX - 1, u16::MAX];
    let mut ops = vec![];
    let members = |r: &mut Prng, most: u64| -> Vec<(Peer, u16, u8)> {
        (0..r.below(most)).map(|_| (r.below(peers + 1) as u8, *r.pick(&incs), if r.pct(60) { 0 } else { r.below(3) as u8 })).collect()
    };
    let w_fire = *r.pick(&[5, 20, 40]);
    for _ in 0..r.range(5, 70) {
        ops.push(match r.weighted(&[30, 3, 8, w_fire, 1, 3, 3, 2, 2, 1, 1, 1]) {
            0 => {
                let src = if r.pct(3) { 1 } else { 2 + r.below(peers) as u8 };
                let tail = if r.pct(8) { (0..r.range(1, 8)).map(|k| if k == 0 { 0 } else { r.below(6) as u8 }).collect() } else { vec![] };
                KOp::Msg {
                    src,
                    inc: *r.pick(&incs),
                    dst: if r.pct(5) { r.below(peers + 2) as u8 } else { 1 },
                    kind: r.below(11) as u8,
                    num: r.below(6) as u8,
                    who: r.below(peers + 2) as u8,
                    members: members(r, 5),
                    tail: Hex(tail),
                }
            }
            1 => KOp::Raw(Hex((0..r.below(60)).map(|_| if r.pct(50) { r.below(4) as u8 } else { r.next() as u8 }).collect())),
            2 => {
                let m = members(r, 9);
                KOp::Apply(m, r.pct(60))
            }
            3 => KOp::Fire(if r.pct(80) { 0 } else { r.below(20) as u32 }),
            4 => KOp::Refire,
            5 => KOp::Announce(r.below(peers + 2) as u8),
            6 => KOp::Gossip,
            7 => KOp::Broadcast,
            8 => KOp::AddBroadcast(Hex((0..r.below(8)).map(|_| r.next() as u8).collect())),
            9 => KOp::Leave,
            10 => KOp::Reuse,
            _ => KOp::Change(r.below(peers + 2) as u8),
        });
    }
    SockScn { postcard: r.pct(50), cfg, seed: r.next(), ops }
}
