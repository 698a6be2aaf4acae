//! Wire formats: the codecs handed to foca, and an independent encoder / grammar parser for the oracles.
use crate::types::*;
use bytes::{Buf, BufMut};
use foca::{BincodeCodec, Codec, Header, Member, Message, PostcardCodec, State};
use serde::{Deserialize, Serialize};

pub type H = Header<Id>;
pub type Msg = Message<Id>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CodecKind {
    /// hand-written, fixed-length identities
    Fixed,
    /// hand-written, variable-length identities
    Var,
    BincodeStd,
    BincodeFixed,
    Postcard,
}
pub const CODECS: [CodecKind; 5] =
    [CodecKind::Fixed, CodecKind::Var, CodecKind::BincodeStd, CodecKind::BincodeFixed, CodecKind::Postcard];

#[derive(Debug)]
pub struct WireErr(pub String);
impl std::fmt::Display for WireErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for WireErr {}
fn werr<E: std::fmt::Debug>(e: E) -> WireErr {
    WireErr(format!("{e:?}"))
}

/// The codec given to real foca instances.
#[derive(Clone, Copy, Debug)]
pub struct SimCodec(pub CodecKind);

fn bstd() -> impl bincode::config::Config + Copy {
    bincode::config::standard().with_limit::<65536>()
}
fn bfix() -> impl bincode::config::Config + Copy {
    bincode::config::standard().with_big_endian().with_fixed_int_encoding().with_limit::<65536>()
}

// ---- hand written encodings -------------------------------------------------------------
fn id_len(k: CodecKind, i: &Id) -> usize {
    if k == CodecKind::Var {
        6 + i.tail as usize
    } else {
        6
    }
}
fn put_id(k: CodecKind, i: &Id, buf: &mut impl BufMut) {
    buf.put_u16(i.addr);
    buf.put_u16(i.gen);
    buf.put_u8(i.pol);
    buf.put_u8(i.tail);
    if k == CodecKind::Var {
        for n in 0..i.tail as usize {
            buf.put_u8(i.tail_byte(n));
        }
    }
}
fn get_id(k: CodecKind, buf: &mut impl Buf) -> Result<Id, WireErr> {
    if buf.remaining() < 6 {
        return Err(werr("short id"));
    }
    let i = id(buf.get_u16(), buf.get_u16(), buf.get_u8(), buf.get_u8());
    if !pol_ok(i.addr, i.gen, i.pol) {
        return Err(werr("bad policy"));
    }
    if k == CodecKind::Var {
        if buf.remaining() < i.tail as usize {
            return Err(werr("short tail"));
        }
        for n in 0..i.tail as usize {
            if buf.get_u8() != i.tail_byte(n) {
                return Err(werr("bad tail"));
            }
        }
    }
    Ok(i)
}
fn msg_parts(m: &Msg) -> (u8, Option<Id>, Option<u8>) {
    match m {
        Message::Ping(n) => (1, None, Some(*n)),
        Message::Ack(n) => (2, None, Some(*n)),
        Message::PingReq { target, probe_number } => (3, Some(*target), Some(*probe_number)),
        Message::IndirectPing { origin, probe_number } => (4, Some(*origin), Some(*probe_number)),
        Message::IndirectAck { target, probe_number } => (5, Some(*target), Some(*probe_number)),
        Message::ForwardedAck { origin, probe_number } => (6, Some(*origin), Some(*probe_number)),
        Message::Announce => (7, None, None),
        Message::Feed => (8, None, None),
        Message::Gossip => (9, None, None),
        Message::Broadcast => (10, None, None),
        Message::TurnUndead => (11, None, None),
    }
}
fn hand_enc_header(k: CodecKind, h: &H, mut buf: impl BufMut) -> Result<(), WireErr> {
    let (tag, i, n) = msg_parts(&h.message);
    let need = id_len(k, &h.src)
        + 2
        + id_len(k, &h.dst)
        + 1
        + i.map(|i| id_len(k, &i)).unwrap_or(0)
        + n.map(|_| 1).unwrap_or(0);
    if buf.remaining_mut() < need {
        return Err(werr("no space for header"));
    }
    put_id(k, &h.src, &mut buf);
    buf.put_u16(h.src_incarnation);
    put_id(k, &h.dst, &mut buf);
    buf.put_u8(tag);
    if let Some(i) = i {
        put_id(k, &i, &mut buf);
    }
    if let Some(n) = n {
        buf.put_u8(n);
    }
    Ok(())
}
fn hand_dec_header(k: CodecKind, mut buf: impl Buf) -> Result<H, WireErr> {
    let src = get_id(k, &mut buf)?;
    if buf.remaining() < 2 {
        return Err(werr("short"));
    }
    let src_incarnation = buf.get_u16();
    let dst = get_id(k, &mut buf)?;
    if buf.remaining() < 1 {
        return Err(werr("short"));
    }
    let tag = buf.get_u8();
    let mut i = None;
    let mut n = 0;
    if (3..=6).contains(&tag) {
        i = Some(get_id(k, &mut buf)?);
    }
    if (1..=6).contains(&tag) {
        if buf.remaining() < 1 {
            return Err(werr("short"));
        }
        n = buf.get_u8();
    }
    let message = match tag {
        1 => Message::Ping(n),
        2 => Message::Ack(n),
        3 => Message::PingReq { target: i.unwrap(), probe_number: n },
        4 => Message::IndirectPing { origin: i.unwrap(), probe_number: n },
        5 => Message::IndirectAck { target: i.unwrap(), probe_number: n },
        6 => Message::ForwardedAck { origin: i.unwrap(), probe_number: n },
        7 => Message::Announce,
        8 => Message::Feed,
        9 => Message::Gossip,
        10 => Message::Broadcast,
        11 => Message::TurnUndead,
        _ => return Err(werr("bad tag")),
    };
    Ok(Header { src, src_incarnation, dst, message })
}
fn hand_enc_member(k: CodecKind, m: &M, mut buf: impl BufMut) -> Result<(), WireErr> {
    let need = id_len(k, m.id()) + 3;
    if buf.remaining_mut() < need {
        // the contract allows a failed encode to leave the cursor advanced: foca must roll back
        while buf.has_remaining_mut() {
            buf.put_u8(0xEE);
        }
        return Err(werr("no space for member"));
    }
    put_id(k, m.id(), &mut buf);
    buf.put_u16(m.incarnation());
    buf.put_u8(st_num(m.state()) + 1);
    Ok(())
}
fn hand_dec_member(k: CodecKind, mut buf: impl Buf) -> Result<M, WireErr> {
    let i = get_id(k, &mut buf)?;
    if buf.remaining() < 3 {
        return Err(werr("short member"));
    }
    let inc = buf.get_u16();
    let st = match buf.get_u8() {
        1 => State::Alive,
        2 => State::Suspect,
        3 => State::Down,
        _ => return Err(werr("bad state")),
    };
    Ok(Member::new(i, inc, st))
}

impl Codec<Id> for SimCodec {
    type Error = WireErr;
    fn encode_header(&mut self, h: &H, buf: impl BufMut) -> Result<(), WireErr> {
        match self.0 {
            CodecKind::Fixed | CodecKind::Var => hand_enc_header(self.0, h, buf),
            CodecKind::BincodeStd => BincodeCodec(bstd()).encode_header(h, buf).map_err(werr),
            CodecKind::BincodeFixed => BincodeCodec(bfix()).encode_header(h, buf).map_err(werr),
            CodecKind::Postcard => PostcardCodec.encode_header(h, buf).map_err(werr),
        }
    }
    fn decode_header(&mut self, buf: impl Buf) -> Result<H, WireErr> {
        match self.0 {
            CodecKind::Fixed | CodecKind::Var => hand_dec_header(self.0, buf),
            CodecKind::BincodeStd => BincodeCodec(bstd()).decode_header(buf).map_err(werr),
            CodecKind::BincodeFixed => BincodeCodec(bfix()).decode_header(buf).map_err(werr),
            CodecKind::Postcard => PostcardCodec.decode_header(buf).map_err(werr),
        }
    }
    fn encode_member(&mut self, m: &M, buf: impl BufMut) -> Result<(), WireErr> {
        match self.0 {
            CodecKind::Fixed | CodecKind::Var => hand_enc_member(self.0, m, buf),
            CodecKind::BincodeStd => BincodeCodec(bstd()).encode_member(m, buf).map_err(werr),
            CodecKind::BincodeFixed => BincodeCodec(bfix()).encode_member(m, buf).map_err(werr),
            CodecKind::Postcard => PostcardCodec.encode_member(m, buf).map_err(werr),
        }
    }
    fn decode_member(&mut self, buf: impl Buf) -> Result<M, WireErr> {
        match self.0 {
            CodecKind::Fixed | CodecKind::Var => hand_dec_member(self.0, buf),
            CodecKind::BincodeStd => BincodeCodec(bstd()).decode_member(buf).map_err(werr),
            CodecKind::BincodeFixed => BincodeCodec(bfix()).decode_member(buf).map_err(werr),
            CodecKind::Postcard => PostcardCodec.decode_member(buf).map_err(werr),
        }
    }
}

fn pc<T: serde::Serialize>(v: &T) -> Vec<u8> {
    let mut b = [0u8; 4096];
    postcard::to_slice(v, &mut b).unwrap().to_vec()
}

// ---- independent encode / decode (does not go through foca's codec impls) ------------------
impl CodecKind {
    pub fn enc_h(self, h: &H) -> Vec<u8> {
        match self {
            CodecKind::Fixed | CodecKind::Var => {
                let mut v = Vec::new();
                hand_enc_header(self, h, &mut v).unwrap();
                v
            }
            CodecKind::BincodeStd => bincode::serde::encode_to_vec(h, bstd()).unwrap(),
            CodecKind::BincodeFixed => bincode::serde::encode_to_vec(h, bfix()).unwrap(),
            CodecKind::Postcard => pc(h),
        }
    }
    pub fn enc_m(self, m: &M) -> Vec<u8> {
        match self {
            CodecKind::Fixed | CodecKind::Var => {
                let mut v = Vec::new();
                hand_enc_member(self, m, &mut v).unwrap();
                v
            }
            CodecKind::BincodeStd => bincode::serde::encode_to_vec(m, bstd()).unwrap(),
            CodecKind::BincodeFixed => bincode::serde::encode_to_vec(m, bfix()).unwrap(),
            CodecKind::Postcard => pc(m),
        }
    }
    pub fn dec_h(self, b: &[u8]) -> Result<(H, usize), WireErr> {
        match self {
            CodecKind::Fixed | CodecKind::Var => {
                let mut s = b;
                let h = hand_dec_header(self, &mut s)?;
                Ok((h, b.len() - s.len()))
            }
            CodecKind::BincodeStd => bincode::serde::decode_from_slice(b, bstd()).map_err(werr),
            CodecKind::BincodeFixed => bincode::serde::decode_from_slice(b, bfix()).map_err(werr),
            CodecKind::Postcard => {
                let (h, rest) = postcard::take_from_bytes(b).map_err(werr)?;
                Ok((h, b.len() - rest.len()))
            }
        }
    }
    pub fn dec_m(self, b: &[u8]) -> Result<(M, usize), WireErr> {
        match self {
            CodecKind::Fixed | CodecKind::Var => {
                let mut s = b;
                let h = hand_dec_member(self, &mut s)?;
                Ok((h, b.len() - s.len()))
            }
            CodecKind::BincodeStd => bincode::serde::decode_from_slice(b, bstd()).map_err(werr),
            CodecKind::BincodeFixed => bincode::serde::decode_from_slice(b, bfix()).map_err(werr),
            CodecKind::Postcard => {
                let (h, rest) = postcard::take_from_bytes(b).map_err(werr)?;
                Ok((h, b.len() - rest.len()))
            }
        }
    }
    pub fn m_len(self, m: &M) -> usize {
        match self {
            CodecKind::Fixed | CodecKind::Var => id_len(self, m.id()) + 3,
            _ => self.enc_m(m).len(),
        }
    }
}

pub fn kind_name(m: &Msg) -> &'static str {
    match m {
        Message::Ping(_) => "Ping",
        Message::Ack(_) => "Ack",
        Message::PingReq { .. } => "PingReq",
        Message::IndirectPing { .. } => "IndirectPing",
        Message::IndirectAck { .. } => "IndirectAck",
        Message::ForwardedAck { .. } => "ForwardedAck",
        Message::Announce => "Announce",
        Message::Feed => "Feed",
        Message::Gossip => "Gossip",
        Message::Broadcast => "Broadcast",
        Message::TurnUndead => "TurnUndead",
    }
}
pub const KINDS: [&str; 11] = [
    "Ping", "Ack", "PingReq", "IndirectPing", "IndirectAck", "ForwardedAck", "Announce", "Feed", "Gossip",
    "Broadcast", "TurnUndead",
];
pub fn has_members(m: &Msg) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead | Message::Broadcast)
}
/// kinds whose member section is drawn from the update backlog
pub fn drains_updates(m: &Msg) -> bool {
    has_members(m) && *m != Message::Feed
}
pub fn may_carry_custom(m: &Msg) -> bool {
    !matches!(m, Message::Announce | Message::TurnUndead)
}

/// A datagram emitted by foca, parsed by the grammar of property C07.
#[derive(Clone, Debug, PartialEq)]
pub struct Pkt {
    pub hdr: H,
    pub hlen: usize,
    /// None: no member section present
    pub members: Option<Vec<M>>,
    /// encoded lengths of the members
    pub mlens: Vec<usize>,
    pub items: Vec<Vec<u8>>,
    pub len: usize,
}

pub fn parse_out(k: CodecKind, b: &[u8]) -> Result<Pkt, String> {
    let (hdr, hlen) = k.dec_h(b).map_err(|e| format!("header does not decode: {}", e.0))?;
    let mut pos = hlen;
    let mut p = Pkt { hdr, hlen, members: None, mlens: vec![], items: vec![], len: b.len() };
    if has_members(&p.hdr.message) && pos < b.len() {
        if b.len() - pos < 2 {
            return Err("one byte after the header".into());
        }
        let n = u16::from_be_bytes([b[pos], b[pos + 1]]) as usize;
        pos += 2;
        let mut v = Vec::with_capacity(n.min(1024));
        for i in 0..n {
            let (m, l) = k.dec_m(&b[pos..]).map_err(|e| format!("member {i} of {n} does not decode: {}", e.0))?;
            pos += l;
            v.push(m);
            p.mlens.push(l);
        }
        p.members = Some(v);
    }
    if pos < b.len() && !may_carry_custom(&p.hdr.message) {
        return Err(format!("{} carries {} bytes after the header", kind_name(&p.hdr.message), b.len() - pos));
    }
    while pos < b.len() {
        if b.len() - pos < 3 {
            return Err(format!("{} trailing bytes", b.len() - pos));
        }
        let l = u16::from_be_bytes([b[pos], b[pos + 1]]) as usize;
        pos += 2;
        if l == 0 {
            return Err("empty custom item".into());
        }
        if b.len() - pos < l {
            return Err("custom item longer than datagram".into());
        }
        p.items.push(b[pos..pos + l].to_vec());
        pos += l;
    }
    Ok(p)
}

/// Classification of an incoming datagram, independent from foca's decoder.
#[derive(Clone, Debug, PartialEq)]
pub enum InClass {
    TooBig,
    BadHeader,
    FromSelf,
    /// malformed right after the header
    BadFraming,
    NotForUs,
    BadMembers,
    /// processed
    Ok(InPkt),
}
#[derive(Clone, Debug, PartialEq)]
pub struct InPkt {
    pub hdr: H,
    pub members: Vec<M>,
    pub tail: Vec<u8>,
}

pub fn classify(k: CodecKind, b: &[u8], me: &Id, mps: u64) -> InClass {
    if b.len() as u64 > mps {
        return InClass::TooBig;
    }
    let Ok((hdr, hlen)) = k.dec_h(b) else { return InClass::BadHeader };
    if hdr.src.addr == me.addr {
        return InClass::FromSelf;
    }
    let rem = b.len() - hlen;
    if rem == 1 || (hdr.message == Message::Announce && rem > 0) {
        return InClass::BadFraming;
    }
    if !(hdr.dst == *me || (hdr.message == Message::Announce && hdr.dst.addr == me.addr)) {
        return InClass::NotForUs;
    }
    let mut pos = hlen;
    let mut members = vec![];
    if rem >= 2 && hdr.message != Message::Broadcast {
        let n = u16::from_be_bytes([b[pos], b[pos + 1]]);
        pos += 2;
        for _ in 0..n {
            match k.dec_m(&b[pos..]) {
                Ok((m, l)) => {
                    members.push(m);
                    pos += l;
                }
                Err(_) => return InClass::BadMembers,
            }
        }
    }
    InClass::Ok(InPkt { hdr, members, tail: b[pos..].to_vec() })
}

/// Assemble a datagram by hand.
pub fn build(k: CodecKind, h: &H, members: Option<&[M]>, items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = k.enc_h(h);
    if let Some(ms) = members {
        v.extend_from_slice(&(ms.len() as u16).to_be_bytes());
        for m in ms {
            v.extend_from_slice(&k.enc_m(m));
        }
    }
    for i in items {
        v.extend_from_slice(&(i.len() as u16).to_be_bytes());
        v.extend_from_slice(i);
    }
    v
}
