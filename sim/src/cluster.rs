//! A whole cluster of real instances on one discrete-event simulated network.
use crate::inst::*;
use crate::mon::{make, MonOpts, Monitor};
use crate::prng::hash_all;
use crate::solo::Stats;
use crate::types::*;
use crate::wire::*;
use foca::{Message, State};
use serde::{Deserialize, Serialize};
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    /// node learns about every other node at once (a formed cluster whose members start at different moments)
    Form { node: usize },
    /// node announces to whoever node `via` currently is
    Join { node: usize, via: usize },
    Api { node: usize, op: Op },
    Leave { node: usize },
    Crash { node: usize },
    /// start over: same identity or a renewed one, optionally restoring the membership last checkpointed
    Restart { node: usize, renew: bool, restore: bool, via: Option<usize> },
    /// remember the membership state of a node as its durable state
    Checkpoint { node: usize },
    /// groups as a bit mask: datagrams only flow between nodes on the same side
    Partition { mask: u64 },
    /// one-way cut
    Cut { from: usize, to: usize },
    Heal,
    Pause { node: usize, ms: u64 },
    /// clock jump: pending deadlines come closer (positive) or recede (negative)
    Jump { node: usize, ms: i64 },
    /// `at` is made to believe that `about` is down
    FalseDown { at: usize, about: usize },
}
impl What {
    fn name(&self) -> &'static str {
        match self {
            What::Form { .. } => "ev_form",
            What::Join { .. } => "ev_join",
            What::Api { .. } => "ev_api",
            What::Leave { .. } => "fault_leave",
            What::Crash { .. } => "fault_crash",
            What::Restart { .. } => "fault_restart",
            What::Checkpoint { .. } => "ev_checkpoint",
            What::Partition { .. } => "fault_partition",
            What::Cut { .. } => "fault_one_way_cut",
            What::Heal => "ev_heal",
            What::Pause { .. } => "fault_pause",
            What::Jump { .. } => "fault_clock_jump",
            What::FalseDown { .. } => "fault_false_down",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CEv {
    pub at: u64,
    pub what: What,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum NetFault {
    Loss,
    Dup,
    Corrupt,
    Truncate,
    /// extra delay up to this many ms: reordering
    Delay(u64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Win {
    pub from: u64,
    pub to: u64,
    pub pct: u32,
    pub f: NetFault,
}

/// What the run is expected to achieve.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Goal {
    /// only the per-instance monitors
    Watch,
    /// C02: everyone lists everyone by `by`; no false suspicion ever
    Discover { by: u64, feed_fits: bool },
    /// C03: members failing after `strict_from` are reported within the bound
    Complete { strict_from: u64 },
    /// C04: everyone Alive everywhere at `by`
    SingleLoss { by: u64, from: u64 },
    /// C05: converged by `by`
    Rejoin { by: u64, from: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ClusterScn {
    pub ids: Vec<Id>,
    pub cfg: Cfg,
    pub codec: CodecKind,
    pub spec: HSpec,
    pub seed: u64,
    /// latency range, ms
    pub lat: (u64, u64),
    pub timers_first: bool,
    /// every node starts knowing every other node
    pub formed: bool,
    /// incarnations the members of a formed cluster have reached (0 when missing)
    #[serde(default)]
    pub incs: Vec<u16>,
    pub evs: Vec<CEv>,
    /// indices (in order of emission) of datagrams that vanish
    pub drops: Vec<u64>,
    /// the node that executes the n-th step crashes right after it, with only the first `1` datagrams sent
    pub crash_steps: Vec<(u64, usize)>,
    pub wins: Vec<Win>,
    /// per mille speed of each node's timers (1000 = exact)
    pub skew: Vec<(usize, u32)>,
    pub end: u64,
    pub goal: Goal,
}

/// is the known way for discovery to fail listed in KNOWN_FINDINGS?
pub static EXCUSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

enum K {
    Ev(usize),
    Data { to: usize, bytes: Vec<u8> },
    Timer { node: usize, gen: u32 },
}
struct Q {
    at: u64,
    class: u8,
    due: u64,
    t: Option<T>,
    seq: u64,
    k: K,
}
impl Q {
    fn key(&self) -> (u64, u8, u64, &Option<T>, u64) {
        (self.at, self.class, self.due, &self.t, self.seq)
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.key() == o.key()
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        self.key().cmp(&o.key())
    }
}

struct Node {
    inst: Inst,
    up: bool,
    left: bool,
    gen: u32,
    paused: u64,
    skew: u32,
    mons: Vec<Box<dyn Monitor>>,
    stored: Vec<M>,
    conn: crate::model::ConnT,
    /// when this node stopped being a live member
    gone: Option<u64>,
}

pub struct World<'a> {
    s: &'a ClusterScn,
    prop: &'a str,
    nodes: Vec<Node>,
    by_addr: BTreeMap<u16, usize>,
    q: BinaryHeap<Reverse<Q>>,
    seq: u64,
    pub now: u64,
    /// sides
    mask: Option<u64>,
    cuts: BTreeSet<(usize, usize)>,
    links: BTreeMap<(usize, usize), u64>,
    pub sent: u64,
    pub st: Stats,
    // oracle data
    /// (survivor, gone node identity) -> when it was listed at the failure
    expect_down: BTreeMap<(usize, Id), u64>,
    got_down: BTreeMap<(usize, Id), u64>,
    fail_at: BTreeMap<Id, u64>,
    /// last moment any list changed (C02 statistics)
    pub settled: u64,
    /// (when, kind) of every datagram, when asked for
    pub marks: Option<Vec<(u64, &'static str)>>,
    /// how many datagrams of a node piggybacked the update about an identity
    told: BTreeMap<(usize, Id), u32>,
    /// an excused (known) failure of discovery: who misses whom
    pub known: Option<String>,
    /// ids ever told dead in the Rejoin goal
    rejoined: BTreeSet<usize>,
}

fn cfail<X>(prop: &str, class: &str, now: u64, msg: String) -> Result<X, Violation> {
    Err(viol(prop, class, format!("t={now}ms: {msg}")))
}

impl<'a> World<'a> {
    pub fn new(s: &'a ClusterScn, prop: &'a str) -> World<'a> {
        let mut by_addr = BTreeMap::new();
        let mut nodes = vec![];
        for (i, idv) in s.ids.iter().enumerate() {
            by_addr.insert(idv.addr, i);
            let skew = s.skew.iter().find(|(n, _)| *n == i).map(|x| x.1).unwrap_or(1000);
            nodes.push(Node {
                inst: Inst::new(*idv, s.cfg.clone(), s.codec, s.spec, hash_all(&[s.seed, 11, i as u64, 0])),
                up: true,
                left: false,
                gen: 0,
                paused: 0,
                skew,
                mons: make(prop, MonOpts { in_order: true, spec: s.spec }),
                stored: vec![],
                conn: crate::model::ConnT::new(),
                gone: None,
            });
        }
        let mut w = World {
            s,
            prop,
            nodes,
            by_addr,
            q: BinaryHeap::new(),
            seq: 0,
            now: 0,
            mask: None,
            cuts: BTreeSet::new(),
            links: BTreeMap::new(),
            sent: 0,
            st: Stats::default(),
            expect_down: BTreeMap::new(),
            got_down: BTreeMap::new(),
            fail_at: BTreeMap::new(),
            settled: 0,
            marks: None,
            told: BTreeMap::new(),
            known: None,
            rejoined: BTreeSet::new(),
        };
        for (i, e) in s.evs.iter().enumerate() {
            w.push(e.at, 0, 0, None, K::Ev(i));
        }
        w
    }
    fn push(&mut self, at: u64, class: u8, due: u64, t: Option<T>, k: K) {
        self.seq += 1;
        self.q.push(Reverse(Q { at, class, due, t, seq: self.seq, k }));
    }
    fn ctl(&self) -> (u8, u8) {
        // (datagram class, timer class)
        if self.s.timers_first {
            (2, 1)
        } else {
            (1, 2)
        }
    }
    pub fn run(&mut self) -> Check {
        if self.s.formed {
            for i in 0..self.nodes.len() {
                self.form(i)?;
            }
        }
        loop {
            let Some(Reverse(top)) = self.q.peek() else { break };
            if top.at > self.s.end {
                break;
            }
            let Reverse(mut ev) = self.q.pop().unwrap();
            self.now = ev.at;
            match &ev.k {
                K::Ev(i) => {
                    let i = *i;
                    self.script(i)?;
                }
                K::Data { to, .. } => {
                    let to = *to;
                    if self.nodes[to].paused > self.now {
                        ev.at = self.nodes[to].paused;
                        self.q.push(Reverse(ev));
                        continue;
                    }
                    if !self.nodes[to].up {
                        self.st.add("net_to_dead_node", 1);
                        continue;
                    }
                    let K::Data { bytes, .. } = ev.k else { unreachable!() };
                    self.exec(to, Op::Data(Hex(bytes)), None)?;
                }
                K::Timer { node, gen } => {
                    let (node, gen) = (*node, *gen);
                    if !self.nodes[node].up || self.nodes[node].gen != gen {
                        continue;
                    }
                    if self.nodes[node].paused > self.now {
                        ev.at = self.nodes[node].paused;
                        self.q.push(Reverse(ev));
                        continue;
                    }
                    let t = ev.t.take().unwrap();
                    self.exec(node, Op::Timer(t), None)?;
                }
            }
            if self.st.steps > if self.s.goal == Goal::Watch { 12_000 } else { 400_000 } {
                self.st.add("cap_steps_reached", 1);
                break;
            }
        }
        self.now = self.s.end;
        self.finale()
    }
    fn form(&mut self, i: usize) -> Check {
        let inc = |j: usize| self.s.incs.get(j).copied().unwrap_or(0);
        let all: Vec<M> = self.s.ids.iter().enumerate().filter(|(j, _)| *j != i).map(|(j, x)| mem(*x, inc(j), State::Alive)).collect();
        if inc(i) > 0 {
            let me = mem(self.s.ids[i], inc(i) - 1, State::Suspect);
            self.exec(i, Op::ApplyMany(vec![me], false), None)?;
        }
        self.exec(i, Op::ApplyMany(all, false), None)
    }
    fn script(&mut self, i: usize) -> Check {
        let what = self.s.evs[i].what.clone();
        self.st.add(what.name(), 1);
        match what {
            What::Form { node } => self.form(node)?,
            What::Join { node, via } => {
                if self.nodes[node].up && node != via && self.usable(node) {
                    let dst = self.nodes[via].inst.id();
                    self.exec(node, Op::Announce(dst), None)?;
                }
            }
            What::Api { node, op } => {
                if self.nodes[node].up && self.usable(node) {
                    self.exec(node, op, None)?;
                }
            }
            What::Leave { node } => {
                if self.nodes[node].up && self.nodes[node].gone.is_none() {
                    self.note_failure(node);
                    self.exec(node, Op::Leave, None)?;
                    self.nodes[node].left = true;
                }
            }
            What::Crash { node } => {
                if self.nodes[node].up {
                    self.note_failure(node);
                    self.nodes[node].up = false;
                }
            }
            What::Restart { node, renew, restore, via } => {
                let n = &mut self.nodes[node];
                let old = n.inst.id();
                let idv = if renew { Id { gen: old.gen.saturating_add(1), ..old } } else { old };
                n.gen += 1;
                n.up = true;
                n.left = false;
                n.gone = None;
                n.conn = crate::model::ConnT::new();
                n.inst = Inst::new(idv, self.s.cfg.clone(), self.s.codec, self.s.spec, hash_all(&[self.s.seed, 11, node as u64, n.gen as u64]));
                n.mons = make(self.prop, MonOpts { in_order: true, spec: self.s.spec });
                if restore {
                    let snap = n.stored.clone();
                    self.exec(node, Op::ApplyMany(snap, false), None)?;
                }
                if let Some(v) = via {
                    if v != node {
                        let dst = self.nodes[v].inst.id();
                        self.exec(node, Op::Announce(dst), None)?;
                    }
                }
            }
            What::Checkpoint { node } => {
                if self.nodes[node].up {
                    let v: Vec<M> = self.nodes[node].inst.foca.iter_membership_state().cloned().collect();
                    self.nodes[node].stored = v;
                }
            }
            What::Partition { mask } => self.mask = Some(mask),
            What::Cut { from, to } => {
                self.cuts.insert((from, to));
            }
            What::Heal => {
                self.mask = None;
                self.cuts.clear();
            }
            What::Pause { node, ms } => {
                let u = self.now + ms;
                self.nodes[node].paused = self.nodes[node].paused.max(u);
            }
            What::Jump { node, ms } => {
                let all = std::mem::take(&mut self.q).into_vec();
                let now = self.now;
                self.q = all
                    .into_iter()
                    .map(|Reverse(mut e)| {
                        if matches!(&e.k, K::Timer { node: n, .. } if *n == node) {
                            e.due = (e.due as i64 - ms).max(0) as u64;
                            e.at = e.due.max(now);
                        }
                        Reverse(e)
                    })
                    .collect();
            }
            What::FalseDown { at, about } => {
                if self.nodes[at].up && at != about {
                    let m = mem(self.nodes[about].inst.id(), 0, State::Down);
                    self.exec(at, Op::ApplyMany(vec![m], true), None)?;
                }
            }
        }
        Ok(())
    }
    fn note_failure(&mut self, node: usize) {
        let gone = self.nodes[node].inst.id();
        self.nodes[node].gone = Some(self.now);
        self.fail_at.insert(gone, self.now);
        for i in 0..self.nodes.len() {
            if i != node && self.nodes[i].gone.is_none() && self.nodes[i].inst.foca.iter_members().any(|m| *m.id() == gone) {
                self.expect_down.insert((i, gone), self.now);
            }
        }
        let dead: Vec<_> = self.expect_down.keys().filter(|(i, _)| *i == node).cloned().collect();
        for k in dead {
            self.expect_down.remove(&k);
        }
    }
    /// nobody makes an instance that has left talk: its gossip or announcement, with an incarnation that refutes
    /// the suspicions it keeps hearing of, would bring it back for those who have not heard of its end
    fn usable(&self, node: usize) -> bool {
        self.nodes[node].gone.is_none() || self.s.goal == Goal::Watch
    }
    fn exec(&mut self, i: usize, op: Op, _x: Option<()>) -> Check {
        if self.nodes[i].inst.dead {
            return Ok(());
        }
        let s = self.nodes[i].inst.exec(op);
        self.st.steps += 1;
        let idx = self.st.steps;
        if crate::inst::LOG.with(|l| l.get()) {
            println!("t={}ms node {i}: {}", self.now, s.brief());
        }
        self.st.digest = crate::prng::mix(digest(self.st.digest, &s) ^ i as u64);
        self.st.shapes.insert(shape(&s));
        self.st.add(&format!("op_{}", s.op.kind()), 1);
        if let Res::Panic(p) = &s.res {
            return cfail(self.prop, "panic", self.now, format!("node {i} panicked: {p}\n    at: {}", s.brief()));
        }
        // crash with partially emitted effects
        let mut keep = usize::MAX;
        for (n, k) in &self.s.crash_steps {
            if *n == idx {
                keep = *k;
            }
        }
        let mut nsend = 0;
        let (dc, tc) = self.ctl();
        let gen = self.nodes[i].gen;
        for e in &s.eff {
            match e {
                Eff::Send { to, data, .. } => {
                    nsend += 1;
                    if nsend <= keep {
                        self.transmit(i, to, data, dc);
                    }
                }
                Eff::Timer { t, after } => {
                    let ms = u64::try_from(after.as_millis()).unwrap_or(u64::MAX);
                    let ms = ms.saturating_mul(self.nodes[i].skew as u64) / 1000;
                    let at = self.now.saturating_add(ms);
                    self.push(at, tc, at, Some(t.clone()), K::Timer { node: i, gen });
                }
                Eff::Note(_) => {}
            }
        }
        for n in s.notes() {
            if let Note::Down(x) = n {
                self.got_down.entry((i, *x)).or_insert(self.now);
            }
        }
        if s.pre.state != s.post.state && s.pre.sorted() != s.post.sorted() {
            self.settled = self.now;
        }
        for m in self.nodes[i].mons.iter_mut() {
            if let Err(mut v) = m.step(&s) {
                v.msg = format!("t={}ms node {i}: {}", self.now, v.msg);
                return Err(v);
            }
        }
        self.nodes[i].conn.step(&s);
        self.oracle(i, &s)?;
        if keep != usize::MAX && self.nodes[i].up && self.nodes[i].gone.is_none() {
            self.st.add("fault_crash_mid_step", 1);
            self.note_failure(i);
            self.nodes[i].up = false;
        }
        Ok(())
    }
    fn transmit(&mut self, from: usize, to: &Id, data: &[u8], class: u8) {
        let n = self.sent;
        self.sent += 1;
        self.st.add("net_sent", 1);
        let (now, codec) = (self.now, self.s.codec);
        if let Some(m) = &mut self.marks {
            m.push((now, codec.dec_h(data).map(|(h, _)| kind_name(&h.message)).unwrap_or("?")));
        }
        let Some(&dst) = self.by_addr.get(&to.addr) else {
            self.st.add("net_unroutable", 1);
            return;
        };
        let c = {
            let c = self.links.entry((from, dst)).or_insert(0);
            *c += 1;
            *c
        };
        if self.s.drops.contains(&n) {
            self.st.add("fault_dropped_by_index", 1);
            let k = self.s.codec.dec_h(data).map(|(h, _)| kind_name(&h.message)).unwrap_or("?");
            self.st.add(&format!("fault_dropped_{k}"), 1);
            return;
        }
        if let Some(m) = self.mask {
            if (m >> from) & 1 != (m >> dst) & 1 {
                self.st.add("fault_partition_drop", 1);
                return;
            }
        }
        if self.cuts.contains(&(from, dst)) {
            self.st.add("fault_partition_drop", 1);
            return;
        }
        let h = |salt: u64| hash_all(&[self.s.seed, salt, from as u64, dst as u64, c]);
        let (lo, hi) = self.s.lat;
        let mut lat = lo + h(1) % (hi - lo + 1);
        let mut dup = None;
        let mut bytes = data.to_vec();
        let mut faults: Vec<&'static str> = vec![];
        let mut lost = false;
        for (wi, w) in self.s.wins.iter().enumerate() {
            if self.now < w.from || self.now >= w.to || h(100 + wi as u64) % 100 >= w.pct as u64 {
                continue;
            }
            match w.f {
                NetFault::Loss => {
                    faults.push("fault_loss");
                    lost = true;
                }
                NetFault::Dup => {
                    faults.push("fault_duplicate");
                    dup = Some(lo + h(2) % (4 * hi + 10));
                }
                NetFault::Delay(x) => {
                    faults.push("fault_delay_reorder");
                    lat += h(3) % (x + 1);
                }
                NetFault::Corrupt => {
                    faults.push("fault_corrupt");
                    if !bytes.is_empty() {
                        let k = (h(4) % bytes.len() as u64) as usize;
                        bytes[k] ^= 1 << (h(5) % 8);
                    }
                }
                NetFault::Truncate => {
                    faults.push("fault_truncate");
                    let k = (h(6) % (bytes.len() as u64 + 1)) as usize;
                    bytes.truncate(k);
                }
            }
        }
        for f in faults {
            self.st.add(f, 1);
        }
        if lost {
            return;
        }
        if let Some(d) = dup {
            let at = self.now + lat + d;
            self.push(at, class, 0, None, K::Data { to: dst, bytes: bytes.clone() });
        }
        let at = self.now + lat;
        self.push(at, class, 0, None, K::Data { to: dst, bytes });
    }
    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].gone.is_none()).collect()
    }
    fn who(&self, i: &Id) -> Option<usize> {
        self.by_addr.get(&i.addr).copied()
    }
    /// per-step global oracle
    fn oracle(&mut self, i: usize, s: &Step) -> Check {
        let p = self.prop;
        match &self.s.goal {
            Goal::Watch => {}
            Goal::Discover { feed_fits, .. } => {
                for (to, k) in s.pkts() {
                    let Some(ms) = &k.members else { continue };
                    if k.hdr.message != Message::Feed {
                        for m in ms {
                            *self.told.entry((i, *m.id())).or_insert(0) += 1;
                        }
                    } else if *feed_fits && self.s.ids.iter().all(|x| x.tail == self.s.ids[0].tail) {
                        // (how many members fit is estimated assuming identities of similar sizes)
                        if let Some(x) = s.post.active.iter().find(|x| x.id() != to && !ms.iter().any(|m| m.id() == x.id())) {
                            return cfail(p, "feed-incomplete", self.now, format!("node {i} feeds {to:?} without {:?} although the whole cluster fits\n    at: {}", x.id(), s.brief()));
                        }
                    }
                }
                if let (Some(k), Res::Ok) = (s.ok_pkt(), &s.res) {
                    let src = k.hdr.src;
                    if !s.post.is_active(&src) {
                        return cfail(p, "sender-unlisted", self.now, format!("node {i} got a datagram from live {src:?} and does not list it\n    at: {}", s.brief()));
                    }
                    for m in k.members.iter() {
                        if m.id().addr != s.post.id.addr && !s.post.is_active(m.id()) {
                            return cfail(p, "told-unlisted", self.now, format!("node {i} was told about live {:?} and does not list it\n    at: {}", m.id(), s.brief()));
                        }
                    }
                    if k.hdr.message == Message::Announce && !s.pkts().any(|(to, q)| *to == src && q.hdr.message == Message::Feed) {
                        return cfail(p, "no-feed", self.now, format!("node {i} does not answer {src:?}'s Announce with a Feed\n    at: {}", s.brief()));
                    }
                }
                if matches!(s.res, Res::Err(_)) {
                    return cfail(p, "error", self.now, format!("node {i}: a call failed in a fault-free run\n    at: {}", s.brief()));
                }
                if s.pre.state != s.post.state {
                    for m in &s.post.state {
                        if m.state() != State::Alive {
                            return cfail(p, "false-suspicion", self.now, format!("node {i} records live member {} \n    at: {}", m_brief(m), s.brief()));
                        }
                    }
                }
                for n in s.notes() {
                    if matches!(n, Note::Down(_) | Note::Idle | Note::Defunct | Note::Rejoin(_)) {
                        return cfail(p, "false-note", self.now, format!("node {i} notifies {n:?} in a fault-free run\n    at: {}", s.brief()));
                    }
                }
            }
            Goal::Complete { .. } => {
                for n in s.notes() {
                    match n {
                        Note::Down(x) => {
                            let alive = self.who(x).map(|w| self.nodes[w].gone.is_none() && self.nodes[w].inst.id() == *x).unwrap_or(true);
                            if alive {
                                return cfail(p, "survivor-down", self.now, format!("node {i} declares live member {x:?} Down\n    at: {}", s.brief()));
                            }
                        }
                        Note::Defunct | Note::Rejoin(_) if self.nodes[i].gone.is_none() => {
                            return cfail(p, "survivor-down", self.now, format!("live node {i} notifies {n:?}\n    at: {}", s.brief()));
                        }
                        _ => {}
                    }
                }
                // told by the leaver itself
                if let Some(k) = s.ok_pkt() {
                    let src = k.hdr.src;
                    if k.members.iter().any(|m| *m.id() == src && m.state() == State::Down) && s.pre.is_active(&src) && !s.notes().any(|n| *n == Note::Down(src)) {
                        return cfail(p, "leave-ignored", self.now, format!("node {i} was told by {src:?} that it left but did not report it\n    at: {}", s.brief()));
                    }
                }
                if self.nodes[i].left {
                    for (to, k) in s.pkts() {
                        if matches!(k.hdr.message, Message::Ack(_) | Message::IndirectAck { .. } | Message::ForwardedAck { .. } | Message::IndirectPing { .. }) {
                            return cfail(p, "ghost-answers", self.now, format!("node {i} left the cluster but sends {} to {to:?}\n    at: {}", kind_name(&k.hdr.message), s.brief()));
                        }
                    }
                }
                if matches!(s.op, Op::Leave) && s.res == Res::Ok && !s.pre.active.is_empty() && s.pkts().next().is_none() {
                    return cfail(p, "leave-untold", self.now, format!("node {i} left without telling any of its active members"));
                }
                if matches!(s.op, Op::Leave) && s.res == Res::Ok && !s.notes().any(|n| *n == Note::Defunct) {
                    return cfail(p, "leave-silent", self.now, format!("node {i} left without notifying Defunct"));
                }
            }
            Goal::SingleLoss { from, .. } => {
                for n in s.notes() {
                    if matches!(n, Note::Down(_) | Note::Defunct | Note::Rejoin(_)) && self.now >= *from {
                        return cfail(p, "down-by-one-loss", self.now, format!("node {i} notifies {n:?} after the loss of a single datagram\n    at: {}", s.brief()));
                    }
                }
                if s.pre.state != s.post.state {
                    for m in &s.post.state {
                        if m.state() == State::Down {
                            return cfail(p, "down-by-one-loss", self.now, format!("node {i} records {} after the loss of a single datagram\n    at: {}", m_brief(m), s.brief()));
                        }
                        if m.state() == State::Suspect {
                            self.st.add("probe_suspicions_raised", 1);
                        }
                    }
                }
            }
            Goal::Rejoin { .. } => {
                let mut cur = s.pre.id;
                for n in s.notes() {
                    match n {
                        Note::Defunct => return cfail(p, "defunct", self.now, format!("node {i} became Defunct although its identity is renewable\n    at: {}", s.brief())),
                        Note::Rejoin(x) => {
                            if !x.wins(&cur) || x.addr != cur.addr {
                                return cfail(p, "weak-identity", self.now, format!("node {i} rejoined as {x:?} which does not win against {cur:?}\n    at: {}", s.brief()));
                            }
                            cur = *x;
                            self.rejoined.insert(i);
                            self.st.add("probe_rejoins", 1);
                        }
                        Note::Down(_) => self.st.add("probe_member_downs", 1),
                        _ => {}
                    }
                }
                // told to be down, and did not react?
                if let Some(k) = s.ok_pkt() {
                    let told = k.hdr.message == Message::TurnUndead;
                    if told && self.now > 0 && s.pre.id == k.hdr.dst && s.pre.id == s.post.id && self.nodes[i].gone.is_none() && s.notes().count() == 0 {
                        return cfail(p, "told-and-ignored", self.now, format!("node {i} got TurnUndead for its current identity and kept it\n    at: {}", s.brief()));
                    }
                }
            }
        }
        Ok(())
    }
    fn lists(&self, i: usize) -> BTreeSet<Id> {
        self.nodes[i].inst.foca.iter_members().map(|m| *m.id()).collect()
    }
    fn everyone_but(&self, i: usize) -> BTreeSet<Id> {
        self.live().into_iter().filter(|j| *j != i).map(|j| self.nodes[j].inst.id()).collect()
    }
    pub fn missing(&self) -> Vec<(usize, Id)> {
        let mut v = vec![];
        for i in self.live() {
            let l = self.lists(i);
            for e in self.everyone_but(i) {
                if !l.contains(&e) {
                    v.push((i, e));
                }
            }
        }
        v
    }
    /// The one known way for discovery to fail: with periodic announces off, members that
    /// joined concurrently only hear of each other through piggybacked updates, each of which is
    /// sent max_transmissions times by every instance that accepted it - and all of these went elsewhere.
    fn exhausted(&mut self) -> bool {
        let ms = self.missing();
        if ms.is_empty() || self.s.cfg.pa.is_some() || !EXCUSE.load(std::sync::atomic::Ordering::Relaxed) {
            return false;
        }
        let idx = |x: &Id| self.by_addr[&x.addr];
        for (i, x) in &ms {
            let j = idx(x);
            let me = self.nodes[*i].inst.id();
            // nobody but the two of them is to blame
            if !ms.iter().any(|(a, b)| *a == j && *b == me) {
                return false;
            }
            // a joiner and whoever it joined through
            let joined = self.s.evs.iter().any(|e| matches!(e.what, What::Join { node, via } if (node == *i && via == j) || (node == j && via == *i)));
            if joined {
                return false;
            }
            for z in 0..self.nodes.len() {
                if z == j || !self.lists(z).contains(x) {
                    continue;
                }
                if self.told.get(&(z, *x)).copied().unwrap_or(0) < self.s.cfg.max_tx as u32 {
                    return false;
                }
            }
        }
        self.known = Some(format!("{} pairs of concurrently joined members never hear of each other", ms.len() / 2));
        self.st.add("known_c02_exhausted_dissemination", 1);
        true
    }
    fn check_views(&self, class: &str, all_alive: bool) -> Check {
        for i in self.live() {
            let (got, want) = (self.lists(i), self.everyone_but(i));
            if got != want {
                return cfail(
                    self.prop,
                    class,
                    self.now,
                    format!("node {i} ({:?}) lists {got:?} as active, live members are {want:?}; missing pairs overall: {:?}", self.nodes[i].inst.id(), self.missing()),
                );
            }
            if all_alive {
                for m in self.nodes[i].inst.foca.iter_membership_state() {
                    if want.contains(m.id()) && m.state() != State::Alive {
                        return cfail(self.prop, class, self.now, format!("node {i} still records {}", m_brief(m)));
                    }
                }
            }
        }
        Ok(())
    }
    fn finale(&mut self) -> Check {
        let p = self.prop;
        match &self.s.goal {
            Goal::Watch => {}
            Goal::Discover { feed_fits, .. } => {
                if *feed_fits && !self.exhausted() {
                    self.check_views("undiscovered", true)?;
                }
            }
            Goal::Complete { strict_from } => {
                let n = self.nodes.len() as u64;
                let c = &self.s.cfg;
                for ((i, gone), t) in self.expect_down.clone() {
                    if self.nodes[i].gone.is_some() {
                        continue;
                    }
                    let strict = t >= *strict_from;
                    let bound = if strict { (2 * n + 1) * c.period + c.s2d } else { 2 * ((2 * n + 1) * c.period + c.s2d) };
                    if t + bound > self.s.end {
                        continue;
                    }
                    match self.got_down.get(&(i, gone)) {
                        Some(d) if *d <= t + bound => self.st.add("probe_failures_reported", 1),
                        Some(d) => {
                            return cfail(p, "late-down", self.now, format!("{gone:?} failed at {t}ms; node {i} reported it only at {d}ms, bound {}ms", t + bound))
                        }
                        None => return cfail(p, "no-down", self.now, format!("{gone:?} failed at {t}ms; node {i} never reported it (bound {}ms)", t + bound)),
                    }
                }
            }
            Goal::SingleLoss { .. } => self.check_views("not-recovered", true)?,
            Goal::Rejoin { .. } => {
                self.check_views("not-converged", false)?;
                for i in self.live() {
                    if self.nodes[i].conn.conn != crate::model::Conn::Active {
                        return cfail(p, "not-active", self.now, format!("node {i} never reported Active again ({:?})", self.nodes[i].conn.conn));
                    }
                }
                self.st.add("probe_nodes_rejoined", self.rejoined.len() as u64);
            }
        }
        Ok(())
    }
    pub fn finish(mut self) -> Stats {
        self.st.sim_ms = self.now;
        self.st.nontrivial = self.sent > 0;
        let mut o = BTreeMap::new();
        for n in &self.nodes {
            for m in &n.mons {
                m.probes(&mut o);
            }
        }
        for (k, v) in o {
            self.st.add(&format!("probe_{k}"), v);
        }
        self.st
    }
}

pub fn run(s: &ClusterScn, prop: &str, st: &mut Stats) -> Check {
    let mut w = World::new(s, prop);
    let r = w.run();
    *st = w.finish();
    r
}
