//! The bundled codecs behind faulty readers and writers: short buffers, truncations, corruption, trailing data.
use crate::inst::guarded;
use crate::prng::{mix, Prng};
use crate::solo::Stats;
use crate::types::*;
use bytes::{Buf, BufMut};
use foca::{BincodeCodec, Codec, Header, Member, Message, PostcardCodec, State};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use std::net::SocketAddr;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    BincodeStd,
    BincodeBigFixed,
    BincodeLegacy,
    BincodeUnlimited,
    Postcard,
}
const KINDS: [Kind; 5] = [Kind::BincodeStd, Kind::BincodeBigFixed, Kind::BincodeLegacy, Kind::BincodeUnlimited, Kind::Postcard];
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum IdT {
    Unit,
    U8,
    U64,
    I128,
    Str,
    Socket,
    Rec,
    Opt,
    Sim,
}
const IDTS: [IdT; 9] = [IdT::Unit, IdT::U8, IdT::U64, IdT::I128, IdT::Str, IdT::Socket, IdT::Rec, IdT::Opt, IdT::Sim];

/// raw material of an identity
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Raw {
    pub n: u64,
    pub s: String,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    Header { src: Raw, inc: u16, dst: Raw, kind: u8, third: Raw, num: u8 },
    Member { id: Raw, inc: u16, state: u8 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CodecScn {
    pub kind: Kind,
    pub idt: IdT,
    /// encoded one after the other into one buffer
    pub items: Vec<Item>,
    pub trail: Hex,
    /// (position modulo length, xor) applied to the first item's encoding before decoding it again
    pub corrupt: Vec<(u16, u8)>,
    /// arbitrary bytes to decode
    pub junk: Hex,
    /// bytes already in the buffer before encoding
    pub before: u8,
}

trait IdFrom: Clone + Debug + PartialEq + Serialize + DeserializeOwned {
    fn mk(r: &Raw) -> Self;
}
impl IdFrom for () {
    fn mk(_: &Raw) {}
}
impl IdFrom for u8 {
    fn mk(r: &Raw) -> u8 {
        r.n as u8
    }
}
impl IdFrom for u64 {
    fn mk(r: &Raw) -> u64 {
        r.n
    }
}
impl IdFrom for i128 {
    fn mk(r: &Raw) -> i128 {
        (mix(r.n) as i128) << 64 ^ r.n as i128
    }
}
impl IdFrom for String {
    fn mk(r: &Raw) -> String {
        r.s.clone()
    }
}
impl IdFrom for SocketAddr {
    fn mk(r: &Raw) -> SocketAddr {
        if r.n % 2 == 0 {
            SocketAddr::from((((r.n >> 16) as u32).to_be_bytes(), r.n as u16))
        } else {
            SocketAddr::from((((mix(r.n) as u128) << 64 | r.n as u128).to_be_bytes(), r.n as u16))
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rec {
    addr: SocketAddr,
    bump: u16,
    name: Vec<u8>,
    kind: RecKind,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum RecKind {
    Plain,
    Tagged { tag: String, w: i32 },
    Pair(bool, char),
}
impl IdFrom for Rec {
    fn mk(r: &Raw) -> Rec {
        Rec {
            addr: SocketAddr::mk(r),
            bump: (r.n >> 7) as u16,
            name: r.s.bytes().rev().collect(),
            kind: match r.n % 3 {
                0 => RecKind::Plain,
                1 => RecKind::Tagged { tag: r.s.clone(), w: r.n as i32 },
                _ => RecKind::Pair(r.n & 8 > 0, r.s.chars().next().unwrap_or('\u{10FFFF}')),
            },
        }
    }
}
impl IdFrom for Option<Box<(u32, String)>> {
    fn mk(r: &Raw) -> Self {
        if r.n % 4 == 0 {
            None
        } else {
            Some(Box::new((r.n as u32, r.s.clone())))
        }
    }
}
impl IdFrom for Id {
    fn mk(r: &Raw) -> Id {
        id(r.n as u16, (r.n >> 16) as u16, (r.n >> 32) as u8 % 4, r.s.len().min(60) as u8)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Val<T> {
    H(Header<T>),
    M(Member<T>),
}
fn val<T: IdFrom>(i: &Item) -> Val<T> {
    match i {
        Item::Header { src, inc, dst, kind, third, num } => {
            let t = T::mk(third);
            let n = *num;
            let message = match kind % 11 {
                0 => Message::Ping(n),
                1 => Message::Ack(n),
                2 => Message::PingReq { target: t, probe_number: n },
                3 => Message::IndirectPing { origin: t, probe_number: n },
                4 => Message::IndirectAck { target: t, probe_number: n },
                5 => Message::ForwardedAck { origin: t, probe_number: n },
                6 => Message::Announce,
                7 => Message::Feed,
                8 => Message::Gossip,
                9 => Message::Broadcast,
                _ => Message::TurnUndead,
            };
            Val::H(Header { src: T::mk(src), src_incarnation: *inc, dst: T::mk(dst), message })
        }
        Item::Member { id, inc, state } => Val::M(Member::new(T::mk(id), *inc, match state % 3 {
            0 => State::Alive,
            1 => State::Suspect,
            _ => State::Down,
        })),
    }
}
fn enc<T, C: Codec<T>>(c: &mut C, v: &Val<T>, buf: impl BufMut) -> Result<(), String> {
    match v {
        Val::H(h) => c.encode_header(h, buf),
        Val::M(m) => c.encode_member(m, buf),
    }
    .map_err(|e| e.to_string())
}
fn dec<T, C: Codec<T>>(c: &mut C, member: bool, buf: impl Buf) -> Result<Val<T>, String> {
    if member {
        c.decode_member(buf).map(Val::M)
    } else {
        c.decode_header(buf).map(Val::H)
    }
    .map_err(|e| e.to_string())
}
fn is_m<T>(v: &Val<T>) -> bool {
    matches!(v, Val::M(_))
}
macro_rules! bad {
    ($p:expr, $c:expr, $($a:tt)*) => { return Err(viol($p, $c, format!($($a)*))) };
}
/// whatever comes in: a value or an error, and never more consumed than there is; a decoded value is a good value
fn junk<T: IdFrom, C: Codec<T>>(p: &str, c: &mut C, member: bool, b: &[u8], st: &mut Stats, what: &str) -> Check {
    let mut rest = b;
    let r = match guarded(|| dec(c, member, &mut rest)) {
        Ok(r) => r,
        Err(e) => bad!(p, "decode-panic", "decoding {what} bytes {} panicked: {e}", tohex(b)),
    };
    // the same through another reader
    let mut cur = std::io::Cursor::new(b);
    let r2 = match guarded(|| dec(c, member, &mut cur)) {
        Ok(r) => r,
        Err(e) => bad!(p, "decode-panic", "decoding {what} bytes {} panicked: {e}", tohex(b)),
    };
    if r.is_ok() != r2.is_ok() || r.as_ref().ok() != r2.as_ref().ok() {
        bad!(p, "reader-dependent", "decoding {what} bytes {} gives {r:?} and {r2:?}", tohex(b));
    }
    match r {
        Err(_) => st.add("probe_decode_errors", 1),
        Ok(v) => {
            st.add("probe_decoded_anyway", 1);
            let used = b.len() - rest.len();
            if cur.remaining() != rest.len() {
                bad!(p, "reader-dependent", "decoding {what} bytes {} consumes {used} or {}", tohex(b), b.len() - cur.remaining());
            }
            // nothing past what was consumed may matter
            let mut cut = &b[..used];
            let v2 = match guarded(|| dec(c, member, &mut cut)) {
                Ok(r) => r,
                Err(e) => bad!(p, "decode-panic", "decoding {what} bytes {} panicked: {e}", tohex(&b[..used])),
            };
            if v2.as_ref() != Ok(&v) {
                bad!(p, "reads-past", "decoding {} reads past the {used} bytes it consumes: {v:?} or {v2:?}", tohex(b));
            }
            let mut again = vec![];
            if let Err(e) = enc(c, &v, &mut again) {
                bad!(p, "encode", "a decoded value {v:?} does not encode: {e}");
            }
            let mut r = &again[..];
            let v3 = dec(c, member, &mut r);
            if v3.as_ref() != Ok(&v) || !r.is_empty() {
                bad!(p, "round-trip", "{v:?} decodes back as {v3:?} leaving {} bytes", r.len());
            }
        }
    }
    Ok(())
}
fn drive<T: IdFrom, C: Codec<T>>(p: &str, mut c: C, s: &CodecScn, st: &mut Stats) -> Check {
    let vals: Vec<Val<T>> = s.items.iter().map(val::<T>).collect();
    let head = vec![0xABu8; s.before as usize];
    let mut buf = head.clone();
    let mut ends = vec![];
    for v in &vals {
        let r = match guarded(|| enc(&mut c, v, &mut buf)) {
            Ok(r) => r,
            Err(e) => bad!(p, "encode-panic", "encoding {v:?} panicked: {e}"),
        };
        if let Err(e) = r {
            bad!(p, "encode", "encoding {v:?} into an unbounded buffer failed: {e}");
        }
        ends.push(buf.len());
        st.steps += 1;
    }
    if buf[..head.len()] != head[..] {
        bad!(p, "clobbered", "encoding changed bytes already in the buffer");
    }
    // several items in a row with something behind them
    let mut all = buf[head.len()..].to_vec();
    let enc_end = all.len();
    all.extend_from_slice(&s.trail.0);
    let mut digest = 0;
    for pass in 0..3 {
        let mut rest = &all[..];
        let mut cur = std::io::Cursor::new(&all[..]);
        let mut chain = bytes::Bytes::copy_from_slice(&all);
        for (k, v) in vals.iter().enumerate() {
            let r = guarded(|| match pass {
                0 => dec(&mut c, is_m(v), &mut rest),
                1 => dec(&mut c, is_m(v), &mut cur),
                _ => dec(&mut c, is_m(v), &mut chain),
            });
            let r = match r {
                Ok(r) => r,
                Err(e) => bad!(p, "decode-panic", "decoding {v:?} panicked: {e}"),
            };
            let left = match pass {
                0 => rest.len(),
                1 => cur.remaining(),
                _ => chain.remaining(),
            };
            if r.as_ref() != Ok(v) {
                bad!(p, "round-trip", "item {k}: {v:?} decodes as {r:?} (bytes {})", tohex(&all));
            }
            let pos = all.len() - left;
            if pos != ends[k] - head.len() {
                bad!(p, "consumption", "item {k}: decoding {v:?} ends at byte {pos}, its encoding at {} (of {})", ends[k] - head.len(), all.len());
            }
            digest = mix(digest ^ pos as u64);
        }
    }
    st.add("probe_items_round_tripped", vals.len() as u64);
    // every buffer that's too small, and the one that just fits
    for (k, v) in vals.iter().enumerate() {
        let from = if k == 0 { head.len() } else { ends[k - 1] };
        let whole = &buf[from..ends[k]];
        for cap in 0..=whole.len() + 1 {
            let fits = cap >= whole.len();
            // a fixed slice
            let mut arr = vec![0u8; cap];
            let mut w = &mut arr[..];
            let r = match guarded(|| enc(&mut c, v, &mut w)) {
                Ok(r) => r,
                Err(e) => bad!(p, "encode-panic", "encoding {v:?} into {cap} of {} bytes panicked: {e}", whole.len()),
            };
            let left = w.len();
            if r.is_ok() != fits {
                bad!(p, "short-buffer", "encoding {v:?} ({} bytes) into a buffer of {cap} returned {r:?}", whole.len());
            }
            if fits && (left != cap - whole.len() || &arr[..whole.len()] != whole) {
                bad!(p, "buffer-dependent", "encoding {v:?} depends on the buffer: {} or {}", tohex(whole), tohex(&arr));
            }
            // a bounded view of a growing buffer, the way foca packs its datagrams
            let mut vec = head.clone();
            let mut lim = (&mut vec).limit(cap);
            let r = match guarded(|| enc(&mut c, v, &mut lim)) {
                Ok(r) => r,
                Err(e) => bad!(p, "encode-panic", "encoding {v:?} into {cap} of {} bytes panicked: {e}", whole.len()),
            };
            let left = lim.remaining_mut();
            if r.is_ok() != fits {
                bad!(p, "short-buffer", "encoding {v:?} ({} bytes) with {cap} bytes left returned {r:?}", whole.len());
            }
            if vec.len() > head.len() + cap || vec[..head.len()] != head[..] {
                bad!(p, "overrun", "encoding with {cap} bytes left wrote {} bytes", vec.len() - head.len());
            }
            if fits && (left != cap - whole.len() || vec[head.len()..] != *whole) {
                bad!(p, "buffer-dependent", "encoding {v:?} depends on the buffer: {} or {}", tohex(whole), tohex(&vec[head.len()..]));
            }
            st.add("fault_short_buffer", !fits as u64 * 2);
        }
        // torn input
        for cut in 0..whole.len() {
            junk::<T, C>(p, &mut c, is_m(v), &whole[..cut], st, "truncated")?;
            st.add("fault_truncated_input", 1);
        }
    }
    if let Some(v) = vals.first() {
        let mut d = all[..enc_end.min(ends[0] - head.len())].to_vec();
        if !d.is_empty() {
            for (pos, x) in &s.corrupt {
                let k = *pos as usize % d.len();
                d[k] ^= x;
            }
            st.add("fault_corrupted_input", 1);
            junk::<T, C>(p, &mut c, is_m(v), &d, st, "corrupted")?;
            junk::<T, C>(p, &mut c, !is_m(v), &d, st, "misread")?;
            d.extend_from_slice(&s.trail.0);
            junk::<T, C>(p, &mut c, is_m(v), &d, st, "corrupted")?;
        }
    }
    for m in [false, true] {
        junk::<T, C>(p, &mut c, m, &s.junk.0, st, "random")?;
        st.add("fault_random_input", 1);
    }
    st.digest = mix(digest ^ buf.iter().fold(7, |a, b| mix(a ^ *b as u64)));
    st.nontrivial = !vals.is_empty();
    Ok(())
}
fn by_id<C>(p: &str, c: C, s: &CodecScn, st: &mut Stats) -> Check
where
    C: Copy
        + Codec<()>
        + Codec<u8>
        + Codec<u64>
        + Codec<i128>
        + Codec<String>
        + Codec<SocketAddr>
        + Codec<Rec>
        + Codec<Option<Box<(u32, String)>>>
        + Codec<Id>,
{
    match s.idt {
        IdT::Unit => drive::<(), C>(p, c, s, st),
        IdT::U8 => drive::<u8, C>(p, c, s, st),
        IdT::U64 => drive::<u64, &mut C>(p, &mut { c }, s, st),
        IdT::I128 => drive::<i128, C>(p, c, s, st),
        IdT::Str => drive::<String, &mut C>(p, &mut { c }, s, st),
        IdT::Socket => drive::<SocketAddr, C>(p, c, s, st),
        IdT::Rec => drive::<Rec, C>(p, c, s, st),
        IdT::Opt => drive::<Option<Box<(u32, String)>>, C>(p, c, s, st),
        IdT::Sim => drive::<Id, &mut C>(p, &mut { c }, s, st),
    }
}
const LIM: usize = 1 << 20;
pub fn run(s: &CodecScn, p: &str, st: &mut Stats) -> Check {
    use bincode::config::*;
    match s.kind {
        Kind::BincodeStd => by_id(p, BincodeCodec(standard().with_limit::<LIM>()), s, st),
        Kind::BincodeBigFixed => by_id(p, BincodeCodec(standard().with_big_endian().with_fixed_int_encoding().with_limit::<LIM>()), s, st),
        Kind::BincodeLegacy => by_id(p, BincodeCodec(legacy().with_limit::<LIM>()), s, st),
        Kind::BincodeUnlimited => by_id(p, BincodeCodec(standard()), s, st),
        Kind::Postcard => by_id(p, PostcardCodec, s, st),
    }
}
/// identities whose decoding never allocates on behalf of a length prefix
fn unlimited_ok(t: IdT) -> bool {
    matches!(t, IdT::Unit | IdT::U8 | IdT::U64 | IdT::I128 | IdT::Socket | IdT::Sim)
}
pub fn gen(r: &mut Prng) -> CodecScn {
    let kind = *r.pick(&KINDS);
    let idt = loop {
        let t = *r.pick(&IDTS);
        // see KNOWN_FINDINGS: bincode without a limit and length-prefixed identities
        if kind != Kind::BincodeUnlimited || unlimited_ok(t) {
            break t;
        }
    };
    fn raw(r: &mut Prng) -> Raw {
        let n = match r.below(6) {
            0 => *r.pick(&[0, 1, 250, 251, 252, 127, 128, 255, 256, 16383, 16384, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX]),
            1 => 1u64 << r.below(64),
            2 => (1u64 << r.below(64)).wrapping_sub(1),
            3 => r.below(300),
            _ => r.next(),
        };
        let l = match r.below(8) {
            0 => 0,
            1 => *r.pick(&[126, 127, 128, 129, 249, 250, 251, 252, 255, 256, 257, 300]),
            2 => r.below(60),
            _ => r.below(12),
        };
        let s: String = (0..l).map(|_| *r.pick(&['a', 'Z', '0', '\0', 'é', '\u{7ff}', '\u{ffff}', '\u{10ffff}', '.', ':'])).collect();
        Raw { n, s }
    }
    let inc = |r: &mut Prng| *r.pick(&[0u16, 1, 127, 128, 250, 251, 252, 255, 256, 16383, 16384, 65534, 65535]);
    let k = r.range(1, 4);
    let items = (0..k)
        .map(|_| {
            if r.pct(55) {
                Item::Header { src: raw(r), inc: inc(r), dst: raw(r), kind: r.below(11) as u8, third: raw(r), num: *r.pick(&[0, 1, 127, 128, 250, 251, 254, 255]) }
            } else {
                Item::Member { id: raw(r), inc: if r.pct(70) { inc(r) } else { r.next() as u16 }, state: r.below(3) as u8 }
            }
        })
        .collect();
    let bytes = |r: &mut Prng, n: u64| Hex((0..n).map(|_| if r.pct(25) { *r.pick(&[0u8, 255, 251, 252, 253, 128, 127]) } else { r.next() as u8 }).collect());
    let nt = r.below(20);
    let trail = bytes(r, nt);
    let nj = r.below(60);
    let junk = bytes(r, nj);
    let corrupt = (0..r.below(4)).map(|_| (r.next() as u16, if r.pct(60) { 1 << r.below(8) } else { r.next() as u8 })).collect();
    CodecScn { kind, idt, items, trail, corrupt, junk, before: r.below(5) as u8 }
}

/// KNOWN_FINDINGS, C20: bincode's standard() configuration has no limit, so a length prefix of 2^63 or
/// more makes bincode itself panic ("capacity overflow") while decoding any String/Vec inside an identity.
pub fn finding_unlimited_bincode() -> Option<String> {
    let mut d = vec![253u8];
    d.extend_from_slice(&u64::MAX.to_le_bytes());
    d.extend_from_slice(b"xyz");
    let r = guarded(|| {
        let mut b = &d[..];
        let r: Result<Member<String>, _> = BincodeCodec(bincode::config::standard()).decode_member(&mut b);
        r.map(|_| ()).map_err(|e| e.to_string())
    });
    match r {
        Err(e) if e.contains("capacity overflow") => Some(format!("BincodeCodec(bincode::config::standard()).decode_member::<String>({}) panics inside bincode: capacity overflow", tohex(&d))),
        _ => None,
    }
}
