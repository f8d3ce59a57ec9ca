//! A broker and its clients, run to the letter of the MQTT handshakes, that speak only through
//! the codec, over connections the simulator segments, delays, stalls and cuts at any byte, with
//! nodes that crash and restart with only their session state. What the applications get is
//! judged from end to end.
use crate::builds::{self, Build, BUILDS, E};
use crate::engine::*;
use crate::gen::Gen;
use crate::model::*;
use crate::refcodec::{remaining_len, var_len};
use bytes::{BufMut, BytesMut};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};

const MS: u64 = 1_000;
const SEC: u64 = 1_000_000;
const CLIENT: usize = 0;
const BROKER: usize = 1;

const NEVER: u64 = 1 << 60;

/// Simulated time within which everything must be done once faults stop.
const BOUND: u64 = 900 * SEC;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev {
    Publish(usize),
    Wish(usize),
    Dial(usize, u32),
    Flush(usize, usize),
    Seg(usize, usize, Vec<u8>),
    Fin(usize, usize),
    Reset(usize, usize),
    Read(usize, usize),
    Keep(usize, usize),
    Fault(u8, usize),
    Boot(usize),
}

/// A message or will as its sender made it, and what became of it.
struct Msg {
    from: usize,
    p: Publish,
    /// Times the broker took it.
    taken: u32,
    /// The broker turned it down (it may still have taken it before, if QoS 1).
    refused: bool,
    /// Given up by its sender (QoS 0 while not connected, or too big for the peer).
    dropped: bool,
    will: bool,
}

/// What a subscriber is owed of a message.
struct Owed {
    p: Publish,
    n: u32,
    dropped: bool,
}

#[derive(Clone, Debug)]
enum Flight {
    Publish(Box<Publish>),
    Release,
}

/// One side's session state: survives cuts and restarts.
#[derive(Default)]
struct Half {
    queue: VecDeque<Publish>,
    out: VecDeque<(u16, Flight)>,
    /// QoS 2 ids received and not yet released.
    held: BTreeSet<u16>,
    next: u16,
}
impl Half {
    fn id(&mut self, also: &BTreeMap<u16, Vec<usize>>) -> u16 {
        loop {
            self.next = self.next.checked_add(1).unwrap_or(1);
            if !also.contains_key(&self.next) && !self.out.iter().any(|o| o.0 == self.next) {
                return self.next;
            }
        }
    }
    fn idle(&self) -> bool {
        self.queue.is_empty() && self.out.is_empty()
    }
}

struct Wish {
    f: Filter,
    subid: Option<u64>,
    want: bool,
    have: bool,
}

struct Client {
    build: Build,
    up: bool,
    link: Option<usize>,
    dial: u32,
    fails: u32,
    // Survives restarts.
    id: B,
    known: bool,
    half: Half,
    wishes: Vec<Wish>,
    // Configuration.
    keep: u16,
    receive_max: Option<u16>,
    max_size: Option<u32>,
    alias_max: u16,
}

struct Session {
    half: Half,
    subs: Vec<(Filter, Option<u64>)>,
    client: usize,
    link: Option<usize>,
    /// Last words of the present connection.
    will: Option<Publish>,
}

struct Dir {
    out: BytesMut,
    flushing: bool,
    /// Packets written and not yet read, oldest first.
    sent: VecDeque<P>,
    last_at: u64,
    inb: BytesMut,
    /// The reader waits for this many bytes more.
    hint: usize,
    aliases: BTreeMap<u16, B>,
    known: BTreeMap<u16, B>,
    peer_max: Option<u32>,
    peer_aliases: u16,
    quota: u16,
}

struct Link {
    client: usize,
    dir: [Dir; 2],
    alive: [bool; 2],
    cut: bool,
    /// Connected at MQTT level, as each end sees it.
    on: [bool; 2],
    sid: B,
    keep: [u64; 2],
    last: [i64; 2],
    pinged: Option<i64>,
    bye: [bool; 2],
    asked: BTreeMap<u16, Vec<usize>>,
    latency: u64,
    jitter: u64,
    stall: u64,
    opened: i64,
    hinted: [bool; 2],
    seg: usize,
}

struct Net {
    g: Gen,
    t_fault: u64,
    heap: BinaryHeap<std::cmp::Reverse<(u64, u64, Ev)>>,
    seq: u64,
    bbuild: Build,
    bup: bool,
    sessions: BTreeMap<B, Session>,
    assigned: u32,
    clients: Vec<Client>,
    links: Vec<Link>,
    /// Clock rate in percent and offset of each client and, last, the broker.
    clock: Vec<(i64, i64)>,
    msgs: Vec<Msg>,
    owed: BTreeMap<(u32, usize), Owed>,
    topics: Vec<B>,
    cut_rate: u64,
    crash_rate: u64,
    refuse_rate: u64,
    broker_quota: u16,
    broker_aliases: u16,
    rich: bool,
}

/// A message carries its number at the head of its payload or, with a short payload, in its
/// first user property.
fn serial(m: &Publish) -> Option<u32> {
    match m.payload.get(..4) {
        Some(b) => Some(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
        None => m.props.user.first().and_then(|(_, v)| std::str::from_utf8(v).ok()?.parse().ok()),
    }
}

fn total(p: &P) -> u64 {
    let n = remaining_len(p);
    1 + var_len(n) as u64 + n
}

pub fn session(cx: &mut Cx) -> Res {
    let mut n = Net::draw(cx);
    let r = n.run(cx);
    cx.add("msg:published", n.msgs.len() as u64);
    cx.add("msg:owed to subscribers", n.owed.len() as u64);
    cx.add("connections", n.links.len() as u64);
    cx.add("simulated microseconds", cx.now);
    r
}

impl Net {
    fn draw(cx: &mut Cx) -> Net {
        let g = Gen::draw(&mut cx.s, &[44, 8, 1, 0]);
        let s = &mut cx.s;
        let t_fault = s.range(2, 120) * SEC;
        let mut topics: Vec<B> = Vec::new();
        for i in 0..s.range(1, 3) {
            let mut t = g.text(s);
            t.retain(|c| *c != b'#' && *c != b'+' && *c != 0);
            if t.is_empty() || t.len() > 60_000 || std::str::from_utf8(&t).is_err() {
                t = format!("t/{i}").into_bytes();
            }
            topics.push(t);
        }
        topics.sort();
        topics.dedup();
        let same = s.chance(1, 3);
        let bbuild = *s.pick(&BUILDS);
        let starts = [0u16, 0, 126, 254, 255, 65_530, 65_534, 32_767];
        let mut clients = Vec::new();
        let count = s.range(1, 3);
        for i in 0..count {
            let mut wishes = Vec::new();
            for t in 0..topics.len() + 1 {
                if !s.chance(2, 3) {
                    continue;
                }
                let path = if t < topics.len() { topics[t].clone() } else { b"#".to_vec() };
                if t == topics.len() && !s.chance(1, 3) {
                    continue;
                }
                wishes.push(Wish {
                    f: Filter {
                        path,
                        qos: 2 - s.below(3) as u8,
                        nolocal: s.chance(1, 6),
                        rap: s.chance(1, 2),
                        retain_handling: s.below(3) as u8,
                    },
                    subid: if s.chance(1, 2) { Some(g.subid(s).max(1)) } else { None },
                    want: true,
                    have: false,
                });
            }
            if wishes.len() > 1 && s.chance(1, 2) {
                // One identifier (or none) for all, so that they can be asked for together.
                let one = wishes[0].subid;
                for w in &mut wishes {
                    w.subid = one;
                }
            }
            let build = if same { bbuild } else { *s.pick(&BUILDS) };
            clients.push(Client {
                build,
                up: true,
                link: None,
                dial: 0,
                fails: 0,
                id: if s.chance(1, 4) { B::new() } else { format!("client-{i}").into_bytes() },
                known: false,
                half: Half { next: *s.pick(&starts), ..Half::default() },
                wishes,
                keep: *s.pick(&[20, 10, 30]),
                receive_max: if s.chance(1, 2) { Some(*s.pick(&[1, 2, 3, 256])) } else { None },
                max_size: if s.chance(1, 5) { Some(*s.pick(&[400, 1_000, 20_000])) } else { None },
                alias_max: *s.pick(&[0, 1, 3, 600]),
            });
        }
        let mut n = Net {
            g,
            t_fault,
            heap: BinaryHeap::new(),
            seq: 0,
            bbuild,
            bup: true,
            sessions: BTreeMap::new(),
            assigned: 0,
            clock: vec![(100, 0); clients.len() + 1],
            clients,
            links: Vec::new(),
            msgs: Vec::new(),
            owed: BTreeMap::new(),
            topics,
            cut_rate: *s.pick(&[0, 1, 4, 10]),
            crash_rate: *s.pick(&[0, 0, 1, 4]),
            refuse_rate: *s.pick(&[0, 0, 6]),
            broker_quota: *s.pick(&[65_535, 1, 3, 20]),
            broker_aliases: *s.pick(&[0, 2, 65_535]),
            rich: s.chance(2, 3),
        };
        for i in 0..n.clock.len() {
            if s.chance(1, 3) {
                n.clock[i].0 = s.range(85, 118) as i64;
                *cx.st.n.entry("fault:clock skew").or_insert(0) += 1;
                cx.nontrivial = true;
            }
        }
        let s = &mut cx.s;
        let horizon = t_fault / MS;
        for c in 0..n.clients.len() {
            let t = s.below(200) * MS;
            n.at(t, Ev::Dial(c, 0));
            for _ in 0..s.range(0, 10) {
                let t = s.below(horizon) * MS;
                n.at(t, Ev::Publish(c));
            }
            if !n.clients[c].wishes.is_empty() && s.chance(1, 5) {
                let t = s.below(horizon) * MS;
                n.at(t, Ev::Wish(c));
            }
        }
        let faults = *s.pick(&[0, 2, 5, 12]);
        for _ in 0..faults {
            let kind = s.weighted(&[4, 2, 2, 1, 1, 1, 2, 1]) as u8;
            let who = s.usize(n.clients.len() + 1);
            let t = s.below(horizon) * MS;
            n.at(t, Ev::Fault(kind, who));
        }
        n
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.heap.push(std::cmp::Reverse((t, self.seq, e)));
    }

    fn faulty(&self, cx: &Cx) -> bool {
        cx.now < self.t_fault
    }

    fn local(&self, cx: &Cx, node: usize) -> i64 {
        let (rate, off) = self.clock[node];
        cx.now as i64 / 100 * rate + off
    }

    fn node(&self, l: usize, end: usize) -> usize {
        if end == CLIENT {
            self.links[l].client
        } else {
            self.clients.len()
        }
    }

    fn build(&self, l: usize, end: usize) -> Build {
        if end == CLIENT {
            self.clients[self.links[l].client].build
        } else {
            self.bbuild
        }
    }

    fn half(&mut self, l: usize, end: usize) -> &mut Half {
        if end == CLIENT {
            &mut self.clients[self.links[l].client].half
        } else {
            let sid = self.links[l].sid.clone();
            &mut self.sessions.get_mut(&sid).expect("session of a connected link").half
        }
    }

    // ------------------------------------------------------------ the run

    fn run(&mut self, cx: &mut Cx) -> Res {
        let mut steps = 0u32;
        while let Some(std::cmp::Reverse((t, _, e))) = self.heap.pop() {
            cx.now = cx.now.max(t);
            steps += 1;
            if steps > 60_000 {
                cx.hit("run:step bound");
                return Ok(());
            }
            if cx.now >= self.t_fault && self.done() {
                break;
            }
            if cx.now > self.t_fault + BOUND {
                return viol("liveness", format!("{} s after the last fault: {}", BOUND / SEC, self.pending()));
            }
            self.event(cx, e)?;
        }
        cx.add("quiet microseconds until done", cx.now.saturating_sub(self.t_fault));
        self.end(cx)
    }

    fn done(&self) -> bool {
        self.clients.iter().all(|c| {
            c.up && c.half.idle()
                && c.wishes.iter().all(|w| w.want == w.have)
                && c.link.is_some_and(|l| self.links[l].on[CLIENT])
        }) && self.sessions.values().all(|s| s.half.idle())
    }

    fn pending(&self) -> String {
        let mut v = Vec::new();
        for (i, c) in self.clients.iter().enumerate() {
            let on = c.link.is_some_and(|l| self.links[l].on[CLIENT]);
            if !on {
                v.push(format!("client {i} is not connected"));
            }
            if c.wishes.iter().any(|w| w.want != w.have) {
                v.push(format!("client {i} has a subscription request without answer"));
            }
            if !c.half.idle() {
                v.push(format!("client {i} has {} messages unfinished, {} waiting", c.half.out.len(), c.half.queue.len()));
            }
        }
        for s in self.sessions.values().filter(|s| !s.half.idle()) {
            v.push(format!(
                "the broker has {} messages unfinished, {} waiting for client {}",
                s.half.out.len(),
                s.half.queue.len(),
                s.client
            ));
        }
        v.join("; ")
    }

    fn end(&mut self, cx: &mut Cx) -> Res {
        for (i, m) in self.msgs.iter().enumerate() {
            let q = m.p.qos;
            if !m.will && q > 0 && m.taken == 0 && !m.refused && !m.dropped {
                return viol("lost on the way to the broker", format!("message {i} (QoS {q}) was never delivered, nor refused"));
            }
        }
        for ((i, c), o) in &self.owed {
            if o.p.qos > 0 && o.n == 0 && !o.dropped {
                return viol("lost", format!("message {i} (QoS {}) never reached subscriber {c}", o.p.qos));
            }
            cx.hit(match (o.p.qos, o.n) {
                (0, 0) => "msg:QoS 0 not delivered",
                (0, _) => "msg:QoS 0 delivered",
                (1, 0..=1) => "msg:QoS 1 delivered once",
                (1, _) => "msg:QoS 1 delivered again",
                _ => "msg:QoS 2 delivered once",
            });
        }
        Ok(())
    }

    fn event(&mut self, cx: &mut Cx, e: Ev) -> Res {
        match e {
            Ev::Publish(c) => self.publish(cx, c),
            Ev::Wish(c) => {
                let k = cx.s.usize(self.clients[c].wishes.len());
                let w = &mut self.clients[c].wishes[k];
                w.want = !w.want;
                cx.ev(501, c as u64, k as u64, || format!("client {c} changes its mind about filter {k}"));
                self.ask(cx, c)
            }
            Ev::Dial(c, gen) => self.dial(cx, c, gen),
            Ev::Flush(l, end) => self.flush(cx, l, end),
            Ev::Seg(l, end, b) => {
                // `end` receives.
                if self.links[l].cut || !self.links[l].alive[end] {
                    return Ok(());
                }
                cx.ev(502, l as u64, b.len() as u64, || format!("link {l}: {} bytes arrive at the {}", b.len(), name(end)));
                let now = self.local(cx, self.node(l, end));
                let d = &mut self.links[l].dir[1 - end];
                d.inb.put_slice(&b);
                d.hint = d.hint.saturating_sub(b.len());
                if end == BROKER {
                    self.links[l].last[BROKER] = now;
                }
                let slow = if self.faulty(cx) { *cx.s.pick(&[0, 5, 400]) } else { 0 };
                let t = cx.now + cx.s.below(slow + 1) * MS;
                self.at(t, Ev::Read(l, end));
                Ok(())
            }
            Ev::Fin(l, end) => {
                if self.links[l].cut || !self.links[l].alive[end] {
                    return Ok(());
                }
                self.reads(cx, l, end, 10_000)?;
                if self.links[l].alive[end] {
                    self.close(cx, l, end, "the peer closed")?;
                }
                Ok(())
            }
            Ev::Reset(l, end) => {
                if self.links[l].alive[end] {
                    self.close(cx, l, end, "connection reset")?;
                }
                Ok(())
            }
            Ev::Read(l, end) => {
                let k = if self.faulty(cx) { *cx.s.pick(&[64, 1, 3]) } else { 64 };
                self.reads(cx, l, end, k)
            }
            Ev::Keep(l, end) => self.keep(cx, l, end),
            Ev::Fault(k, who) => self.fault(cx, k, who),
            Ev::Boot(who) => self.boot(cx, who),
        }
    }

    // ------------------------------------------------------------ faults

    fn fault(&mut self, cx: &mut Cx, kind: u8, who: usize) -> Res {
        let n = self.clients.len();
        match kind {
            0 | 6 => {
                let Some(l) = self.clients[who % n].link else { return Ok(()) };
                cx.fault("fault:connection cut");
                self.cut(cx, l);
            }
            1 => {
                let Some(l) = self.clients[who % n].link else { return Ok(()) };
                cx.fault("fault:stall");
                let by = cx.s.range(1, 40) * SEC;
                cx.ev(510, l as u64, by, || format!("link {l} stalls for {} s", by / SEC));
                self.links[l].stall = self.links[l].stall.max(cx.now + by);
            }
            2 => self.crash(cx, who),
            3 => {
                // A jump of a clock, forward or back.
                cx.fault("fault:clock jump");
                let d = *cx.s.pick(&[-60i64, -5, 5, 60, 600]) * SEC as i64;
                cx.ev(511, who as u64, d as u64, || format!("the clock of node {who} jumps by {} s", d / SEC as i64));
                self.clock[who].1 += d;
            }
            4 => {
                // The broker shuts down in order.
                if !self.bup {
                    return Ok(());
                }
                cx.fault("fault:orderly shutdown");
                let open: Vec<usize> = (0..self.links.len()).filter(|l| self.links[*l].on[BROKER] && self.links[*l].alive[BROKER]).collect();
                for l in open {
                    let p = self.disconnect(cx, 0x8B);
                    self.send(cx, l, BROKER, p)?;
                    self.links[l].bye[BROKER] = true;
                    self.flush(cx, l, BROKER)?;
                }
                self.crash(cx, n);
            }
            7 => {
                // The broker throws a client out.
                let Some(l) = self.clients[who % n].link else { return Ok(()) };
                if !self.links[l].on[BROKER] || !self.links[l].alive[BROKER] {
                    return Ok(());
                }
                cx.fault("fault:disconnected by the broker");
                let r = *cx.s.pick(&reasons(14)[2..]);
                let p = self.disconnect(cx, r);
                self.send(cx, l, BROKER, p)?;
                if self.links[l].alive[BROKER] {
                    self.links[l].bye[BROKER] = true;
                    self.flush(cx, l, BROKER)?;
                }
                if self.links[l].alive[BROKER] {
                    self.close(cx, l, BROKER, "throws the client out")?;
                }
            }
            _ => {
                // A client takes its leave and comes back.
                let c = who % n;
                let Some(l) = self.clients[c].link else { return Ok(()) };
                if !self.links[l].on[CLIENT] {
                    return Ok(());
                }
                cx.fault("fault:orderly disconnect");
                let r = *cx.s.pick(&[0u8, 0, 4, 0x80, 0x81, 0x82, 0x83, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99]);
                let p = self.disconnect(cx, r);
                self.send(cx, l, CLIENT, p)?;
                self.links[l].bye[CLIENT] = true;
                self.flush(cx, l, CLIENT)?;
                if self.links[l].alive[CLIENT] {
                    self.close(cx, l, CLIENT, "leaves")?;
                }
            }
        }
        Ok(())
    }

    /// The connection is gone; each end finds out soon, late or never.
    fn cut(&mut self, cx: &mut Cx, l: usize) {
        cx.ev(512, l as u64, 0, || format!("link {l} is cut"));
        self.links[l].cut = true;
        for end in [CLIENT, BROKER] {
            if self.links[l].alive[end] && !cx.s.chance(1, 3) {
                let t = cx.now + *cx.s.pick(&[0, 1, 300, 9_000]) * MS;
                self.at(t, Ev::Reset(l, end));
            }
        }
    }

    fn crash(&mut self, cx: &mut Cx, who: usize) {
        let n = self.clients.len();
        let broker = who == n;
        if broker && !self.bup || !broker && !self.clients[who].up {
            return;
        }
        cx.fault(if broker { "fault:broker crash" } else { "fault:client crash" });
        cx.ev(513, who as u64, 0, || if broker { "the broker crashes".into() } else { format!("client {who} crashes") });
        let me = usize::from(broker);
        for l in 0..self.links.len() {
            if !self.links[l].alive[me] || (!broker && self.links[l].client != who) {
                continue;
            }
            let k = &mut self.links[l];
            k.alive[me] = false;
            k.on[me] = false;
            k.dir[me].out.clear();
            k.dir[1 - me].inb.clear();
            if k.alive[1 - me] && !k.cut && !cx.s.chance(1, 3) {
                let t = cx.now + *cx.s.pick(&[0, 1, 300, 9_000]) * MS;
                self.at(t, Ev::Reset(l, 1 - me));
            }
        }
        if broker {
            self.bup = false;
            for s in self.sessions.values_mut() {
                s.link = None;
            }
        } else {
            self.clients[who].up = false;
            self.clients[who].link = None;
        }
        let t = (cx.now + *cx.s.pick(&[1, 50, 2_000, 20_000]) * MS).min(self.t_fault.max(cx.now + MS));
        self.at(t, Ev::Boot(who));
    }

    fn boot(&mut self, cx: &mut Cx, who: usize) -> Res {
        cx.ev(514, who as u64, 0, || format!("node {who} starts again"));
        if who < self.clients.len() {
            self.clients[who].up = true;
            self.redial(cx, who);
            return Ok(());
        }
        self.bup = true;
        // The wills of the connections the crash ended.
        let ids: Vec<B> = self.sessions.keys().cloned().collect();
        for id in ids {
            self.last_words(cx, &id)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ connections

    fn redial(&mut self, cx: &mut Cx, c: usize) {
        let k = &mut self.clients[c];
        k.dial += 1;
        k.fails += 1;
        let wait = (100 << k.fails.min(5)).min(3_000);
        let gen = k.dial;
        let t = cx.now + (1 + cx.s.below(wait)) * MS;
        self.at(t, Ev::Dial(c, gen));
    }

    fn dial(&mut self, cx: &mut Cx, c: usize, gen: u32) -> Res {
        let k = &self.clients[c];
        if !k.up || k.link.is_some() || gen != k.dial {
            return Ok(());
        }
        if !self.bup {
            self.redial(cx, c);
            return Ok(());
        }
        let l = self.links.len();
        let keep = u64::from(k.keep) * SEC;
        let now = [self.local(cx, c), self.local(cx, self.clients.len())];
        let s = &mut cx.s;
        let quota = |v: Option<u16>| v.unwrap_or(65_535);
        let dir = |peer_max, quota| Dir {
            out: BytesMut::new(),
            flushing: false,
            sent: VecDeque::new(),
            last_at: 0,
            inb: BytesMut::new(),
            hint: 0,
            aliases: BTreeMap::new(),
            known: BTreeMap::new(),
            peer_max,
            peer_aliases: 0,
            quota,
        };
        self.links.push(Link {
            client: c,
            dir: [dir(None, self.broker_quota), dir(k.max_size, quota(k.receive_max))],
            alive: [true, true],
            cut: false,
            on: [false, false],
            sid: B::new(),
            keep: [keep, keep],
            last: now,
            pinged: None,
            bye: [false, false],
            asked: BTreeMap::new(),
            latency: *s.pick(&[1, 20, 150]) * MS,
            jitter: *s.pick(&[0, 5, 80]) * MS,
            stall: 0,
            opened: now[CLIENT],
            hinted: [s.chance(1, 3), s.chance(1, 3)],
            seg: *s.pick(&[4_096, 1, 3, 20, 200]),
        });
        self.clients[c].link = Some(l);
        cx.ev(520, l as u64, c as u64, || format!("client {c} opens link {l}"));
        // CONNECT: whatever the generator makes, with the handshake's own fields in it.
        let P::Connect(mut p) = self.g.packet_of(&mut cx.s, 1) else { unreachable!() };
        if !self.rich {
            p.props = Props::default();
        }
        let k = &self.clients[c];
        p.client_id.clone_from(&k.id);
        // A clean start may arrive late, from a connection the client has given up by then, so
        // it is asked for only where no session can be lost by it.
        p.clean = k.id.is_empty() && cx.s.chance(1, 2);
        p.keep_alive = k.keep;
        for id in [17, 33, 39, 34] {
            p.props.single.remove(&id);
        }
        p.props.single.insert(17, Val::U32(u32::MAX));
        if let Some(v) = k.receive_max {
            p.props.single.insert(33, Val::U16(v));
        }
        if let Some(v) = k.max_size {
            p.props.single.insert(39, Val::U32(v));
        }
        if k.alias_max > 0 {
            p.props.single.insert(34, Val::U16(k.alias_max));
        }
        if let Some(w) = &mut p.will {
            let no = self.msgs.len() as u32;
            w.topic = self.topics[cx.s.usize(self.topics.len())].clone();
            w.msg.truncate(60_000);
            w.msg.splice(0..0, no.to_be_bytes());
            let m = Publish {
                dup: false,
                qos: w.qos,
                retain: w.retain,
                topic: w.topic.clone(),
                pkid: 0,
                props: published(&w.props),
                payload: w.msg.clone(),
            };
            self.msgs.push(Msg { from: c, p: m, taken: 0, refused: false, dropped: false, will: true });
        }
        self.send(cx, l, CLIENT, P::Connect(p))?;
        let t = cx.now + SEC;
        self.at(t, Ev::Keep(l, CLIENT));
        self.at(t, Ev::Keep(l, BROKER));
        Ok(())
    }

    /// An end gives its connection up.
    fn close(&mut self, cx: &mut Cx, l: usize, end: usize, why: &str) -> Res {
        cx.ev(521, l as u64, end as u64, || format!("link {l}: the {} closes ({why})", name(end)));
        let was_on = self.links[l].on[end];
        let k = &mut self.links[l];
        k.alive[end] = false;
        k.on[end] = false;
        k.dir[end].out.clear();
        let t = k.dir[end].last_at.max(cx.now + k.latency);
        if !k.cut && k.alive[1 - end] {
            self.at(t, Ev::Fin(l, 1 - end));
        }
        if end == CLIENT {
            let c = self.links[l].client;
            self.clients[c].link = None;
            self.redial(cx, c);
        } else if was_on {
            let sid = self.links[l].sid.clone();
            if let Some(s) = self.sessions.get_mut(&sid) {
                if s.link == Some(l) {
                    s.link = None;
                    self.last_words(cx, &sid)?;
                }
            }
        }
        Ok(())
    }

    fn last_words(&mut self, cx: &mut Cx, sid: &B) -> Res {
        let Some(w) = self.sessions.get_mut(sid).and_then(|s| s.will.take()) else { return Ok(()) };
        let from = self.sessions[sid].client;
        cx.hit("msg:will published");
        self.accept(cx, from, w)
    }

    fn keep(&mut self, cx: &mut Cx, l: usize, end: usize) -> Res {
        if !self.links[l].alive[end] {
            return Ok(());
        }
        let now = self.local(cx, self.node(l, end));
        let k = &self.links[l];
        let keep = k.keep[end] as i64;
        if end == CLIENT {
            if !k.on[CLIENT] {
                if now - k.opened > 15 * SEC as i64 {
                    return self.close(cx, l, CLIENT, "no CONNACK");
                }
            } else if k.pinged.is_some_and(|t| now - t > keep / 2) {
                cx.hit("keep-alive expired at a client");
                return self.close(cx, l, CLIENT, "no PINGRESP");
            } else if k.pinged.is_none() && now - k.last[CLIENT] > keep - 2 * SEC as i64 {
                self.links[l].pinged = Some(now);
                self.send(cx, l, CLIENT, P::PingReq)?;
            }
        } else if now - k.last[BROKER] > keep + keep / 2 {
            cx.hit("keep-alive expired at the broker");
            if k.on[BROKER] {
                let p = self.disconnect(cx, 0x8D);
                self.send(cx, l, BROKER, p)?;
                self.links[l].bye[BROKER] = true;
                self.flush(cx, l, BROKER)?;
            }
            if self.links[l].alive[BROKER] {
                return self.close(cx, l, BROKER, "keep-alive timeout");
            }
            return Ok(());
        }
        let t = cx.now + SEC;
        self.at(t, Ev::Keep(l, end));
        Ok(())
    }

    // ------------------------------------------------------------ the wire

    fn disconnect(&mut self, cx: &mut Cx, reason: u8) -> P {
        let mut p = self.g.packet_of(&mut cx.s, 14);
        if let P::Disconnect { reason: r, props } = &mut p {
            *r = reason;
            props.single.remove(&17);
            if !self.rich {
                *props = Props::default();
            }
        }
        p
    }

    /// Queues a packet; one too big for the peer goes without its optional properties, and a
    /// publish too big for the peer is for the caller to drop.
    fn send(&mut self, cx: &mut Cx, l: usize, end: usize, mut p: P) -> Res {
        if !self.links[l].alive[end] {
            return Ok(());
        }
        let max = u64::from(self.links[l].dir[end].peer_max.unwrap_or(u32::MAX));
        if total(&p) > max {
            let keep18 = matches!(p, P::ConnAck { .. });
            if let Some(q) = p.props_mut() {
                q.user.clear();
                q.single.retain(|k, _| keep18 && matches!(*k, 18 | 33 | 34));
            }
        }
        let build = self.build(l, end);
        let held = builds::make(build, &p);
        let own = cx.s.chance(1, 3);
        let d = &mut self.links[l].dir[end];
        let before = d.out.len();
        match held.write(&mut d.out, own) {
            Err(e) => return viol("panic", format!("writing {} panicked: {}", p.brief(), e.0)),
            Ok(Err(e)) => return viol("write refused", format!("{} could not be written: {e:?}", p.brief())),
            Ok(Ok(_)) => {}
        }
        let added = d.out.len().saturating_sub(before);
        cx.hit("op:write");
        cx.ev(530, l as u64, added as u64, || format!("link {l}: the {} ({build:?}) sends {} ({added} bytes)", name(end), p.brief()));
        let d = &mut self.links[l].dir[end];
        d.sent.push_back(p.norm());
        if !d.flushing {
            d.flushing = true;
            let t = cx.now + *cx.s.pick(&[0, 0, 1, 30]) * MS;
            self.at(t, Ev::Flush(l, end));
        }
        if end == CLIENT {
            self.links[l].last[CLIENT] = self.local(cx, self.node(l, CLIENT));
        }
        if self.faulty(cx) && self.crash_rate > 0 && cx.s.chance(self.crash_rate, 300) {
            let who = self.node(l, end);
            self.crash(cx, who);
        }
        Ok(())
    }

    fn flush(&mut self, cx: &mut Cx, l: usize, end: usize) -> Res {
        let k = &mut self.links[l];
        k.dir[end].flushing = false;
        if !k.alive[end] || k.dir[end].out.is_empty() {
            return Ok(());
        }
        let mut bytes = k.dir[end].out.split().to_vec();
        if k.cut || !k.alive[1 - end] {
            return Ok(());
        }
        let cut = self.faulty(cx) && self.cut_rate > 0 && self.links[l].stall < NEVER && cx.s.chance(self.cut_rate, 100);
        if cut {
            let at = cx.s.usize(bytes.len() + 1);
            cx.fault("fault:cut inside a burst");
            cx.ev(531, l as u64, at as u64, || format!("link {l}: only {at} of {} bytes get through", bytes.len()));
            bytes.truncate(at);
        }
        let seg = self.links[l].seg.max(bytes.len() / 20);
        let mut at = 0;
        let mut late = 0;
        while at < bytes.len() {
            let n = (1 + cx.s.usize(seg)).min(bytes.len() - at);
            let k = &self.links[l];
            let t = (cx.now + k.latency + cx.s.below(k.jitter / MS + 1) * MS).max(k.stall).max(k.dir[end].last_at);
            self.links[l].dir[end].last_at = t;
            late = t;
            self.at(t, Ev::Seg(l, 1 - end, bytes[at..at + n].to_vec()));
            at += n;
        }
        if cut {
            // The cut takes effect once the part that got through has arrived.
            let t = late.max(cx.now);
            self.links[l].stall = NEVER;
            for end in [CLIENT, BROKER] {
                if self.links[l].alive[end] && !cx.s.chance(1, 3) {
                    let t = t + *cx.s.pick(&[0, 1, 300, 9_000]) * MS;
                    self.at(t, Ev::Reset(l, end));
                }
            }
        }
        Ok(())
    }

    fn reads(&mut self, cx: &mut Cx, l: usize, end: usize, max: u32) -> Res {
        for _ in 0..max {
            let k = &self.links[l];
            if !k.alive[end] || k.hinted[end] && k.dir[1 - end].hint > 0 {
                return Ok(());
            }
            let limit = if end == CLIENT { self.clients[k.client].max_size.map(|x| x as usize) } else { None };
            let build = self.build(l, end);
            let d = &mut self.links[l].dir[1 - end];
            let had = d.inb.len();
            cx.hit("op:read");
            let r = match builds::read(build, &mut d.inb, limit) {
                Err(p) => return viol("panic", format!("link {l}: the {}'s read panicked: {}", name(end), p.0)),
                Ok((r, _)) => r,
            };
            match r {
                Err(E::Insufficient(n)) => {
                    d.hint = n;
                    if had > 0 {
                        cx.nontrivial = true;
                        cx.hit("read:incomplete");
                    }
                    return Ok(());
                }
                Err(e) => {
                    let s = d.sent.front().map(|p| p.brief()).unwrap_or_default();
                    return viol("refused", format!("link {l}: the {} could not read {s}: {e:?}", name(end)));
                }
                Ok(h) => {
                    let p = h.model();
                    cx.hit("read:delivered");
                    let sent = d.sent.pop_front();
                    cx.ev(532, l as u64, u64::from(p.kind()), || format!("link {l}: the {} reads {}", name(end), p.brief()));
                    match &sent {
                        Some(P::Publish(a)) => {
                            if let P::Publish(b) = &p {
                                if a.dup != b.dup {
                                    return viol("resend mark", format!("link {l}: sent with DUP {}, received with {}", a.dup, b.dup));
                                }
                            }
                        }
                        Some(q) if *q != p.norm() => {
                            return viol("handshake", format!("link {l}: {} was sent, {} received", q.brief(), p.brief()))
                        }
                        Some(_) => {}
                        None => return viol("invented", format!("link {l}: {} was never sent", p.brief())),
                    }
                    let epoch = self.links.len().min(4) as u64;
                    let out = if self.links[l].on[end] { self.half(l, end).out.len().min(4) as u64 } else { 9 };
                    cx.seen(u64::from(p.kind()) << 8 | out, epoch << 4 | u64::from(matches!(&p, P::Publish(x) if x.dup)), end as u64);
                    self.packet(cx, l, end, p)?;
                }
            }
        }
        let d = &self.links[l].dir[1 - end];
        if self.links[l].alive[end] && !d.inb.is_empty() {
            let t = cx.now + *cx.s.pick(&[0, 1, 20]) * MS;
            self.at(t, Ev::Read(l, end));
        }
        Ok(())
    }

    // ------------------------------------------------------------ the handshakes

    fn packet(&mut self, cx: &mut Cx, l: usize, end: usize, p: P) -> Res {
        match p {
            P::Connect(c) => self.connect(cx, l, *c),
            P::ConnAck { sp, code, props } => {
                let c = self.links[l].client;
                if code != 0 {
                    return self.close(cx, l, CLIENT, "refused");
                }
                if let Some(Val::Str(id)) = props.single.get(&18) {
                    self.clients[c].id.clone_from(id);
                }
                if let Some(Val::U16(k)) = props.single.get(&19) {
                    self.links[l].keep[CLIENT] = u64::from(*k) * SEC;
                }
                if let Some(Val::U16(a)) = props.single.get(&34) {
                    self.links[l].dir[CLIENT].peer_aliases = *a;
                }
                if !sp {
                    // The broker knows nothing of us: a new session.
                    let k = &mut self.clients[c];
                    for (_, f) in std::mem::take(&mut k.half.out) {
                        if let Flight::Publish(m) = f {
                            k.half.queue.push_front(*m);
                        }
                    }
                    k.half.held.clear();
                    for w in &mut k.wishes {
                        w.have = false;
                    }
                }
                self.clients[c].known = true;
                self.clients[c].fails = 0;
                self.links[l].on[CLIENT] = true;
                self.resume(cx, l, CLIENT)?;
                self.ask(cx, c)
            }
            P::Publish(m) => self.received(cx, l, end, *m),
            P::Ack { kind, pkid, reason, .. } => {
                if !self.links[l].on[end] {
                    return Ok(());
                }
                self.acked(cx, l, end, kind, pkid, reason)
            }
            P::Subscribe { pkid, props, filters } => {
                let sid = self.links[l].sid.clone();
                let refusing = self.refuse_rate > 0 && self.faulty(cx);
                let mut codes = Vec::new();
                let Some(s) = self.sessions.get_mut(&sid) else { return Ok(()) };
                for f in filters {
                    if refusing && cx.s.chance(1, 4) {
                        cx.hit("handshake:subscription refused");
                        codes.push(*cx.s.pick(&reasons(9)[3..]));
                        continue;
                    }
                    codes.push(f.qos);
                    s.subs.retain(|x| x.0.path != f.path);
                    s.subs.push((f, props.subids.first().copied()));
                }
                let mut a = self.g.packet_of(&mut cx.s, 9);
                if let P::SubAck { pkid: i, codes: k, props } = &mut a {
                    (*i, *k) = (pkid, codes);
                    if !self.rich {
                        *props = Props::default();
                    }
                }
                self.send(cx, l, BROKER, a)
            }
            P::Unsubscribe { pkid, filters, .. } => {
                let sid = self.links[l].sid.clone();
                let refusing = self.refuse_rate > 0 && self.faulty(cx);
                let Some(s) = self.sessions.get_mut(&sid) else { return Ok(()) };
                let mut codes = Vec::new();
                for f in filters {
                    if refusing && cx.s.chance(1, 4) {
                        cx.hit("handshake:unsubscription refused");
                        codes.push(*cx.s.pick(&reasons(11)[2..]));
                        continue;
                    }
                    let n = s.subs.len();
                    s.subs.retain(|x| x.0.path != f);
                    codes.push(if s.subs.len() < n { 0 } else { 17 });
                }
                let mut a = self.g.packet_of(&mut cx.s, 11);
                if let P::UnsubAck { pkid: i, codes: k, props } = &mut a {
                    (*i, *k) = (pkid, codes);
                    if !self.rich {
                        *props = Props::default();
                    }
                }
                self.send(cx, l, BROKER, a)
            }
            P::SubAck { pkid, codes, .. } | P::UnsubAck { pkid, codes, .. } => {
                let c = self.links[l].client;
                if let Some(w) = self.links[l].asked.remove(&pkid) {
                    if w.len() != codes.len() {
                        return viol(
                            "subscriptions",
                            format!("link {l}: asked about {} filters, got {} answers", w.len(), codes.len()),
                        );
                    }
                    for (w, code) in w.into_iter().zip(codes) {
                        if code < 0x80 {
                            let w = &mut self.clients[c].wishes[w];
                            w.have = !w.have;
                        }
                    }
                }
                self.ask(cx, c)
            }
            P::PingReq => self.send(cx, l, BROKER, P::PingResp),
            P::PingResp => {
                self.links[l].pinged = None;
                Ok(())
            }
            P::Disconnect { reason, .. } => {
                if end == BROKER && reason == 0 {
                    let sid = self.links[l].sid.clone();
                    if let Some(s) = self.sessions.get_mut(&sid) {
                        if s.link == Some(l) {
                            s.will = None;
                        }
                    }
                }
                self.close(cx, l, end, "DISCONNECT")
            }
        }
    }

    fn connect(&mut self, cx: &mut Cx, l: usize, p: Connect) -> Res {
        let c = self.links[l].client;
        if self.refuse_rate > 0 && self.faulty(cx) && cx.s.chance(1, 6) {
            cx.hit("handshake:connection refused");
            let mut a = self.g.packet_of(&mut cx.s, 2);
            if let P::ConnAck { sp, code, props } = &mut a {
                (*sp, *code) = (false, *cx.s.pick(&reasons(2)[1..]));
                if !self.rich {
                    *props = Props::default();
                }
                props.single.remove(&18);
            }
            if let Some(Val::U32(v)) = p.props.single.get(&39) {
                self.links[l].dir[BROKER].peer_max = Some(*v);
            }
            self.send(cx, l, BROKER, a)?;
            if self.links[l].alive[BROKER] {
                self.flush(cx, l, BROKER)?;
            }
            if self.links[l].alive[BROKER] {
                self.close(cx, l, BROKER, "refuses")?;
            }
            return Ok(());
        }
        let mut assigned = None;
        let mut id = p.client_id.clone();
        if id.is_empty() {
            self.assigned += 1;
            id = format!("assigned-{}", self.assigned).into_bytes();
            assigned = Some(id.clone());
        }
        // A connection with the same id takes over.
        if let Some(old) = self.sessions.get(&id).and_then(|s| s.link) {
            cx.hit("session taken over");
            let q = self.disconnect(cx, 0x8E);
            self.send(cx, old, BROKER, q)?;
            if self.links[old].alive[BROKER] {
                self.links[old].bye[BROKER] = true;
                self.flush(cx, old, BROKER)?;
            }
            if self.links[old].alive[BROKER] {
                self.close(cx, old, BROKER, "taken over")?;
            }
            if !self.bup {
                return Ok(());
            }
        }
        let sp = !p.clean && self.sessions.contains_key(&id);
        if !sp {
            let next = *cx.s.pick(&[0, 254, 65_533]);
            let s = Session {
                half: Half { next, ..Half::default() },
                subs: Vec::new(),
                client: c,
                link: None,
                will: None,
            };
            self.sessions.insert(id.clone(), s);
        }
        let s = self.sessions.get_mut(&id).expect("just made");
        s.link = Some(l);
        s.will = p.will.as_ref().map(|w| Publish {
            dup: false,
            qos: w.qos,
            retain: w.retain,
            topic: w.topic.clone(),
            pkid: 0,
            props: published(&w.props),
            payload: w.msg.clone(),
        });
        let k = &mut self.links[l];
        k.sid.clone_from(&id);
        k.on[BROKER] = true;
        k.keep[BROKER] = u64::from(p.keep_alive) * SEC;
        let d = &mut k.dir[BROKER];
        if let Some(Val::U16(v)) = p.props.single.get(&33) {
            d.quota = *v;
        }
        if let Some(Val::U32(v)) = p.props.single.get(&39) {
            d.peer_max = Some(*v);
        }
        if let Some(Val::U16(v)) = p.props.single.get(&34) {
            d.peer_aliases = *v;
        }
        let mut a = self.g.packet_of(&mut cx.s, 2);
        if let P::ConnAck { sp: present, code, props } = &mut a {
            (*present, *code) = (sp, 0);
            if !self.rich {
                *props = Props::default();
            }
            for id in [17, 33, 36, 37, 39, 18, 34, 40, 41, 42, 19] {
                props.single.remove(&id);
            }
            if let Some(i) = assigned {
                props.single.insert(18, Val::Str(i));
            }
            if self.broker_quota != 65_535 {
                props.single.insert(33, Val::U16(self.broker_quota));
            }
            if self.broker_aliases > 0 {
                props.single.insert(34, Val::U16(self.broker_aliases));
            }
            if self.links[l].dir[BROKER].peer_max.is_none() && cx.s.chance(1, 8) {
                props.single.insert(19, Val::U16(12));
                self.links[l].keep[BROKER] = 12 * SEC;
            }
        }
        self.send(cx, l, BROKER, a)?;
        if self.links[l].on[BROKER] {
            self.resume(cx, l, BROKER)?;
        }
        Ok(())
    }

    /// After a (re)connection: everything unfinished is sent again, in order.
    fn resume(&mut self, cx: &mut Cx, l: usize, end: usize) -> Res {
        let out: Vec<(u16, Flight)> = self.half(l, end).out.iter().cloned().collect();
        for (id, f) in out {
            if !self.links[l].on[end] {
                return Ok(());
            }
            match f {
                Flight::Publish(m) => {
                    cx.hit("handshake:publish sent again");
                    self.put(cx, l, end, *m, id, true)?;
                }
                Flight::Release => {
                    cx.hit("handshake:release sent again");
                    self.ack(cx, l, end, 6, id, 0)?;
                }
            }
        }
        self.pump(cx, l, end)
    }

    /// Sends what the peer's receive maximum allows.
    fn pump(&mut self, cx: &mut Cx, l: usize, end: usize) -> Res {
        loop {
            if !self.links[l].on[end] {
                return Ok(());
            }
            let quota = usize::from(self.links[l].dir[end].quota);
            let asked = if end == CLIENT { self.links[l].asked.clone() } else { BTreeMap::new() };
            let h = self.half(l, end);
            let Some(m) = h.queue.front() else { return Ok(()) };
            if m.qos > 0 && h.out.len() >= quota {
                cx.hit("handshake:receive maximum reached");
                return Ok(());
            }
            let m = h.queue.pop_front().expect("front");
            let max = u64::from(self.links[l].dir[end].peer_max.unwrap_or(u32::MAX));
            // Room for an alias is left out of the comparison, so none is used near the limit.
            if total(&P::Publish(Box::new(Publish { pkid: 1, ..m.clone() }))) + 8 > max {
                cx.hit("msg:too big for the subscriber");
                let i = serial(&m).expect("serial");
                let c = self.links[l].client;
                if let Some(o) = self.owed.get_mut(&(i, c)) {
                    o.dropped = true;
                }
                continue;
            }
            let id = if m.qos > 0 {
                let h = self.half(l, end);
                let id = h.id(&asked);
                h.out.push_back((id, Flight::Publish(Box::new(m.clone()))));
                id
            } else {
                0
            };
            self.put(cx, l, end, m, id, false)?;
        }
    }

    /// Writes one publish, with a topic alias where the peer takes them.
    fn put(&mut self, cx: &mut Cx, l: usize, end: usize, mut m: Publish, id: u16, again: bool) -> Res {
        m.pkid = id;
        m.dup = again;
        let d = &mut self.links[l].dir[end];
        if d.peer_aliases > 0 && cx.s.chance(1, 2) {
            let a = match d.aliases.iter().find(|x| *x.1 == m.topic) {
                Some((a, _)) => *a,
                None => 1 + cx.s.below(u64::from(d.peer_aliases)) as u16,
            };
            m.props.single.insert(35, Val::U16(a));
            if d.aliases.get(&a) == Some(&m.topic) {
                cx.hit("handshake:topic alias used");
                m.topic.clear();
            } else {
                d.aliases.insert(a, m.topic.clone());
            }
        }
        self.send(cx, l, end, P::Publish(Box::new(m)))
    }

    fn ack(&mut self, cx: &mut Cx, l: usize, end: usize, kind: u8, id: u16, code: u8) -> Res {
        let mut a = self.g.packet_of(&mut cx.s, kind);
        if let P::Ack { pkid, reason, props, .. } = &mut a {
            (*pkid, *reason) = (id, code);
            if !self.rich {
                *props = Props::default();
            }
        }
        self.send(cx, l, end, a)
    }

    fn received(&mut self, cx: &mut Cx, l: usize, end: usize, mut m: Publish) -> Res {
        if !self.links[l].on[end] {
            return viol("out of turn", format!("link {l}: a publish before the connection stands"));
        }
        let d = &mut self.links[l].dir[1 - end];
        if let Some(Val::U16(a)) = m.props.single.remove(&35) {
            if m.topic.is_empty() {
                match d.known.get(&a) {
                    Some(t) => m.topic.clone_from(t),
                    None => return viol("alias", format!("link {l}: topic alias {a} was never set")),
                }
            } else {
                d.known.insert(a, m.topic.clone());
            }
        }
        let (id, qos) = (m.pkid, m.qos);
        m.pkid = 0;
        m.dup = false;
        if qos == 2 && self.half(l, end).held.contains(&id) {
            cx.hit("handshake:QoS 2 repeat recognised");
            return self.ack(cx, l, end, 5, id, 0);
        }
        let mut code = 0;
        let c = self.links[l].client;
        if end == BROKER {
            if qos > 0 && self.refuse_rate > 0 && cx.s.chance(self.refuse_rate, 40) {
                code = *cx.s.pick(&[0x80, 0x83, 0x87, 0x90, 0x97, 0x99]);
                cx.hit("handshake:publish refused by the broker");
                return self.ack(cx, l, end, if qos == 1 { 4 } else { 5 }, id, code);
            }
            if qos > 0 && cx.s.chance(1, 6) {
                code = 16;
            }
            self.genuine(&m, c)?;
            if qos == 2 {
                self.half(l, end).held.insert(id);
            }
            self.accept(cx, c, m)?;
        } else {
            if qos > 0 && self.refuse_rate > 0 && cx.s.chance(self.refuse_rate, 60) {
                let code = *cx.s.pick(&[0x80, 0x83, 0x87, 0x90, 0x97, 0x99]);
                cx.hit("handshake:publish refused by a client");
                self.owed(&m, c)?.dropped = true;
                return self.ack(cx, l, end, if qos == 1 { 4 } else { 5 }, id, code);
            }
            if qos == 2 {
                self.half(l, end).held.insert(id);
            }
            self.deliver(cx, c, m)?;
        }
        match qos {
            0 => Ok(()),
            1 => self.ack(cx, l, end, 4, id, code),
            _ => self.ack(cx, l, end, 5, id, code),
        }
    }

    /// The message is the one its sender made.
    fn genuine(&self, m: &Publish, c: usize) -> Res {
        let Some(t) = serial(m).and_then(|i| self.msgs.get(i as usize)) else {
            return viol("content", format!("client {c} sent no such message: {}", P::Publish(Box::new(m.clone())).brief()));
        };
        if t.p != *m || t.from != c {
            return viol(
                "content",
                format!("client {} sent {}, the broker got {}", t.from, P::Publish(Box::new(t.p.clone())).brief(), P::Publish(Box::new(m.clone())).brief()),
            );
        }
        Ok(())
    }

    /// The broker takes a message and owes it to every subscriber.
    fn accept(&mut self, cx: &mut Cx, from: usize, m: Publish) -> Res {
        self.genuine(&m, from)?;
        let i = serial(&m).expect("genuine");
        let t = &mut self.msgs[i as usize];
        t.taken += 1;
        if t.taken > 1 && m.qos != 1 {
            return viol("twice", format!("the broker got message {i} (QoS {}) {} times", m.qos, t.taken));
        }
        // The debts are stored at one stroke, then the connections are served.
        let mut wake = Vec::new();
        for s in self.sessions.values_mut() {
            let to = s.client;
            let hits: Vec<&(Filter, Option<u64>)> = s
                .subs
                .iter()
                .filter(|(f, _)| (f.path == m.topic || f.path == b"#" && m.topic[0] != b'$') && !(f.nolocal && to == from))
                .collect();
            let Some(top) = hits.iter().map(|h| h.0.qos).max() else { continue };
            let mut p = m.clone();
            p.qos = top.min(m.qos);
            p.retain = m.retain && hits.iter().any(|h| h.0.rap);
            p.props.subids = hits.iter().filter_map(|h| h.1).collect();
            if p.qos == 0 && s.link.is_none() {
                continue;
            }
            let o = self.owed.entry((i, to)).or_insert_with(|| Owed { p: p.clone(), n: 0, dropped: false });
            if o.p != p || p.qos == 0 && t.taken > 1 {
                // A repeat of a QoS 1 message after the subscriptions have changed.
                continue;
            }
            s.half.queue.push_back(p);
            wake.extend(s.link);
        }
        for l in wake {
            self.pump(cx, l, BROKER)?;
        }
        Ok(())
    }

    /// What the subscriber was to get.
    fn owed(&mut self, m: &Publish, c: usize) -> Result<&mut Owed, Viol> {
        let text = |m: &Publish| P::Publish(Box::new(m.clone())).brief();
        let Some(o) = serial(m).and_then(|i| self.owed.get_mut(&(i, c))) else {
            return viol("content", format!("subscriber {c} got what nobody sent it: {}", text(m)));
        };
        if o.p != *m {
            return viol("content", format!("subscriber {c} was sent {}, got {}", text(&o.p), text(m)));
        }
        Ok(o)
    }

    fn deliver(&mut self, cx: &mut Cx, c: usize, m: Publish) -> Res {
        let i = serial(&m).unwrap_or(0);
        let o = self.owed(&m, c)?;
        o.n += 1;
        let n = o.n;
        cx.ev(540, u64::from(i), c as u64, || format!("message {i} is delivered to the application of client {c}"));
        if n > 1 && m.qos != 1 {
            return viol("twice", format!("subscriber {c} got message {i} (QoS {}) {n} times", m.qos));
        }
        Ok(())
    }

    fn acked(&mut self, cx: &mut Cx, l: usize, end: usize, kind: u8, id: u16, reason: u8) -> Res {
        let h = self.half(l, end);
        let at = h.out.iter().position(|o| o.0 == id);
        match kind {
            4 => {
                if let Some(k) = at {
                    if let Some((_, Flight::Publish(m))) = h.out.remove(k) {
                        if reason >= 0x80 && end == CLIENT {
                            let i = serial(&m).expect("serial");
                            self.msgs[i as usize].refused = true;
                        }
                    }
                }
                self.pump(cx, l, end)
            }
            5 => {
                let Some(k) = at else {
                    return self.ack(cx, l, end, 6, id, 146);
                };
                if reason >= 0x80 {
                    if let Some((_, Flight::Publish(m))) = h.out.remove(k) {
                        if end == CLIENT {
                            let i = serial(&m).expect("serial");
                            self.msgs[i as usize].refused = true;
                        }
                    }
                    return self.pump(cx, l, end);
                }
                h.out[k].1 = Flight::Release;
                self.ack(cx, l, end, 6, id, 0)
            }
            6 => {
                let known = h.held.remove(&id);
                if !known {
                    cx.hit("handshake:release repeated");
                }
                self.ack(cx, l, end, 7, id, if known { 0 } else { 146 })
            }
            _ => {
                if let Some(k) = at {
                    h.out.remove(k);
                }
                self.pump(cx, l, end)
            }
        }
    }

    // ------------------------------------------------------------ the applications

    fn publish(&mut self, cx: &mut Cx, c: usize) -> Res {
        if !self.clients[c].up {
            return Ok(());
        }
        let no = self.msgs.len() as u32;
        let P::Publish(mut m) = self.g.packet_of(&mut cx.s, 3) else { unreachable!() };
        m.topic = self.topics[cx.s.usize(self.topics.len())].clone();
        m.pkid = 0;
        m.dup = false;
        m.qos = 2 - cx.s.below(3) as u8;
        m.props.subids.clear();
        m.props.single.remove(&35);
        if !self.rich {
            m.props = Props::default();
        }
        if cx.s.chance(1, 4) {
            m.payload.truncate(if cx.s.chance(2, 3) { 0 } else { 3 });
            m.props.user.insert(0, (b"no".to_vec(), no.to_string().into_bytes()));
            m.props.some = true;
        } else {
            m.payload.splice(0..0, no.to_be_bytes());
        }
        cx.ev(541, c as u64, u64::from(no), || format!("client {c} publishes message {no}: {}", P::Publish(m.clone()).brief()));
        let on = self.clients[c].link.filter(|l| self.links[*l].on[CLIENT]);
        let drop = m.qos == 0 && on.is_none();
        self.msgs.push(Msg { from: c, p: (*m).clone(), taken: 0, refused: false, dropped: drop, will: false });
        if !drop {
            self.clients[c].half.queue.push_back(*m);
            if let Some(l) = on {
                return self.pump(cx, l, CLIENT);
            }
        }
        Ok(())
    }

    /// Brings the broker's subscriptions in line with what the client wants, one at a time.
    fn ask(&mut self, cx: &mut Cx, c: usize) -> Res {
        let Some(l) = self.clients[c].link.filter(|l| self.links[*l].on[CLIENT]) else { return Ok(()) };
        if !self.links[l].asked.is_empty() {
            return Ok(());
        }
        let Some(k) = self.clients[c].wishes.iter().position(|w| w.want != w.have) else { return Ok(()) };
        let id = self.clients[c].half.id(&BTreeMap::new());
        // Others like it may come along in the same packet.
        let w = &self.clients[c].wishes[k];
        let mut all = vec![k];
        for (i, x) in self.clients[c].wishes.iter().enumerate().skip(k + 1) {
            if x.want != x.have && x.want == w.want && (!x.want || x.subid == w.subid) && cx.s.chance(2, 3) {
                all.push(i);
            }
        }
        if all.len() > 1 {
            cx.hit("handshake:several filters at once");
        }
        self.links[l].asked.insert(id, all.clone());
        let mut p = self.g.packet_of(&mut cx.s, if w.want { 8 } else { 10 });
        match &mut p {
            P::Subscribe { pkid, props, filters } => {
                if !self.rich {
                    *props = Props::default();
                }
                *pkid = id;
                props.subids = w.subid.into_iter().collect();
                *filters = all.iter().map(|i| self.clients[c].wishes[*i].f.clone()).collect();
            }
            P::Unsubscribe { pkid, filters, props } => {
                if !self.rich {
                    *props = Props::default();
                }
                *pkid = id;
                *filters = all.iter().map(|i| self.clients[c].wishes[*i].f.path.clone()).collect();
            }
            _ => unreachable!(),
        }
        self.send(cx, l, CLIENT, p)
    }
}

/// The properties of a will that are properties of the message it becomes.
fn published(p: &Props) -> Props {
    let mut q = p.clone();
    q.single.retain(|k, _| matches!(*k, 1 | 2 | 3 | 8 | 9));
    q
}

fn name(end: usize) -> &'static str {
    if end == CLIENT {
        "client"
    } else {
        "broker"
    }
}
