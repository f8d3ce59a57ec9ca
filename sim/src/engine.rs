//! The simulated world: writers and readers joined by byte pipes, a clock, and a seeded
//! scheduler that decides every write, flush, delay, stall, cut, damage and read.
use crate::alloc::Mem;
use crate::builds::{self, Build, Call, Held, BUILDS, E};
use crate::gen::{noise, Gen};
use crate::model::*;
use crate::refcodec::{decode, encode, frame, head, put_var, Head, Part, Style};
use crate::src::{mix, Src};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::collections::{BTreeMap, BinaryHeap, HashSet, VecDeque};

/// A broken property: a stable class (kept while shrinking) and the particulars.
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    /// Distinct situations met (hashes).
    pub seen: HashSet<u64>,
}

/// Everything one run owns: its choices, clock, log and counters.
pub struct Cx {
    pub s: Src,
    pub now: u64,
    pub hash: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub st: Stats,
    /// Something besides plain delivery happened: a fault, a partial read, a refusal.
    pub nontrivial: bool,
    /// Bytes looked at, about.
    pub cost: u64,
}
impl Cx {
    pub fn new(s: Src, tracing: bool) -> Self {
        Cx { s, now: 0, hash: 0, tracing, trace: Vec::new(), st: Stats::default(), nontrivial: false, cost: 0 }
    }
    pub fn ev(&mut self, code: u64, a: u64, b: u64, f: impl FnOnce() -> String) {
        self.hash = mix(self.hash ^ mix(code ^ mix(a ^ mix(b))));
        if self.tracing {
            let t = format!("[{:>9}us] {}", self.now, f());
            self.trace.push(t);
        }
    }
    pub fn hit(&mut self, what: &'static str) {
        *self.st.n.entry(what).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &'static str, by: u64) {
        *self.st.n.entry(what).or_insert(0) += by;
    }
    pub fn fault(&mut self, what: &'static str) {
        self.nontrivial = true;
        self.hit(what);
    }
    pub fn seen(&mut self, a: u64, b: u64, c: u64) {
        if self.st.seen.len() < 200_000 {
            self.st.seen.insert(mix(a ^ mix(b ^ mix(c))));
        }
    }
}

// ---------------------------------------------------------------- pipes

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// Read until the reader has nothing more, after every arrival.
    Eager,
    /// One read per arrival.
    Single,
    /// Read only when a timer fires.
    Lazy,
    /// After "n bytes missing", read only when n more have arrived.
    Hinted,
    /// As Eager, and also at odd moments when nothing has arrived.
    Nervous,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Damage {
    None,
    /// Bytes after the fixed header of a frame change; framing stays.
    Body,
    /// As Body, and the first byte of a frame may change too; forged bodies.
    Frame,
    /// Anything: flips anywhere, segments lost, repeated, swapped or cut, noise.
    Hostile,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub start: usize,
    pub end: usize,
    /// What was meant, if the frame is a proper packet.
    pub p: Option<P>,
    pub damaged: bool,
    /// For relays: which packet of the first sender this is.
    pub root: usize,
    pub read: bool,
}

pub struct WriteObs {
    pub p: P,
    /// Written by the packet's own writer.
    pub own: bool,
    pub res: Call<Result<usize, E>>,
    pub size: Call<Option<usize>>,
    /// Bytes queued before are still there, unchanged.
    pub intact: bool,
    pub new: Vec<u8>,
    pub queued: usize,
    pub spoiled: Option<&'static str>,
}

pub struct ReadObs {
    pub head: Head,
    /// Bytes in the buffer before the read.
    pub had: usize,
    /// Position in the stream of the first of them.
    pub at: usize,
    pub limit: Option<usize>,
    pub res: Call<Result<Held, E>>,
    pub mem: Mem,
    /// Bytes removed from the front; `None` if the buffer is no longer a tail of what it was.
    pub removed: Option<usize>,
    /// The item that starts where the buffer starts.
    pub item: Option<usize>,
}
impl ReadObs {
    pub fn what(&self) -> String {
        match &self.res {
            Err(p) => format!("panic: {}", p.0),
            Ok(Err(e)) => format!("{e:?}"),
            Ok(Ok(h)) => format!("packet {}", h.model().brief()),
        }
    }
}

pub struct Pipe {
    pub id: usize,
    pub wb: Build,
    pub rb: Build,
    // Writer.
    pub out: BytesMut,
    pub queued: Vec<u8>,
    pub out_mode: u8,
    pub items: Vec<Item>,
    pub roots: usize,
    // Network.
    pub flight: VecDeque<(u64, Seg)>,
    pub last_at: u64,
    pub seg: u8,
    pub lat: u64,
    pub jit: u64,
    pub stall: u64,
    pub flush_gap: u64,
    pub plan: Vec<(usize, u8)>,
    pub down: bool,
    pub flushing: bool,
    // Reader.
    pub stream: Vec<u8>,
    pub arrived: usize,
    pub taken: usize,
    pub inb: BytesMut,
    pub in_mode: u8,
    pub policy: Policy,
    pub need: usize,
    pub limit: Option<usize>,
    pub skip: usize,
    pub broken: bool,
    pub to_send: usize,
    pub forward: Vec<usize>,
    pub epoch: usize,
    pub read_ops: u64,
    pub idle_reads: u32,
}

pub struct Seg {
    pub bytes: Bytes,
    pub copy: Vec<u8>,
}

impl Pipe {
    /// What is queued in the writer's buffer plus what left it: the position of the next byte.
    pub fn head_pos(&self) -> usize {
        self.stream.len() + self.queued.len()
    }

    pub fn write(&mut self, cx: &mut Cx, held: &Held, p: &P, spoiled: Option<&'static str>) -> WriteObs {
        let size = held.size();
        let n = self.queued.len();
        let own = cx.s.chance(1, 3);
        if own {
            cx.hit("write:by the packet's own writer");
        }
        let res = held.write(&mut self.out, own);
        let intact = self.out.len() >= n && self.out[..n] == self.queued[..];
        let new = if self.out.len() >= n { self.out[n..].to_vec() } else { Vec::new() };
        cx.ev(1, self.id as u64, new.len() as u64, || {
            format!(
                "pipe {} ({:?}) writes{} {} after {n} queued bytes -> {res:?}, {} bytes appended{}",
                self.id,
                self.wb,
                if own { " (own writer)" } else { "" },
                p.brief(),
                new.len(),
                if intact { "" } else { ", queued bytes CHANGED" }
            )
        });
        cx.hit("op:write");
        let o = WriteObs { p: p.clone(), own, res, size, intact, new, queued: n, spoiled };
        if !intact {
            self.queued = self.out[..n.min(self.out.len())].to_vec();
        }
        match &o.res {
            Ok(Ok(_)) => {
                let start = self.head_pos();
                self.queued.extend_from_slice(&o.new);
                let end = self.head_pos();
                let root = self.roots;
                self.roots += 1;
                let p = Some(p.norm());
                self.items.push(Item { start, end, p, damaged: false, root, read: false });
            }
            // A refused write that leaves bytes behind is its own check's business: every other
            // world goes on from a clean buffer.
            _ => self.out.truncate(n),
        }
        o
    }

    /// Bytes of an independent peer, as one item.
    pub fn write_raw(&mut self, cx: &mut Cx, bytes: &[u8], p: Option<P>, what: &str) {
        let start = self.head_pos();
        self.out.extend_from_slice(bytes);
        self.queued.extend_from_slice(bytes);
        let id = self.id;
        cx.ev(2, id as u64, bytes.len() as u64, || {
            let t = p.as_ref().map_or_else(|| hex(bytes), P::brief);
            format!("pipe {id}: {what} sends {} bytes: {t}", bytes.len())
        });
        cx.hit("op:foreign frame");
        let root = self.roots;
        self.roots += 1;
        self.items.push(Item {
            start,
            end: start + bytes.len(),
            p: p.map(|p| p.norm()),
            damaged: false,
            root,
            read: false,
        });
    }

    /// How many of the queued bytes the next segment takes.
    fn seg_len(&self, s: &mut Src) -> usize {
        let n = self.queued.len();
        // Long streams go in at most a few hundred segments.
        let floor = (n / 200).max(1);
        let l = match self.seg {
            0 => n,
            1 => 1,
            2 => s.range(1, 8) as usize,
            3 => s.range(1, 64) as usize,
            4 => s.range(1, 1500) as usize,
            5 | 6 => {
                // Around the next frame boundary, or right after a few header bytes.
                let pos = self.stream.len();
                let nxt = self.items.iter().rev().take(64).filter(|i| i.end > pos).map(|i| i.end - pos).min().unwrap_or(n);
                if self.seg == 5 {
                    (nxt as i64 + s.range(0, 6) as i64 - 3).max(1) as usize
                } else {
                    match s.below(4) {
                        0 => s.range(1, 6) as usize,
                        1 => nxt,
                        2 => nxt.saturating_sub(1).max(1),
                        _ => nxt + s.range(1, 5) as usize,
                    }
                }
            }
            7 => *s.pick(&[64, 127, 128, 256, 512, 1024, 4096]),
            _ => s.range(1, n as u64) as usize,
        };
        l.max(floor).min(n)
    }

    /// Moves bytes from the writer's buffer to the network.
    pub fn flush(&mut self, cx: &mut Cx, dmg: Damage) {
        if self.queued.is_empty() || self.down {
            return;
        }
        let l = self.seg_len(&mut cx.s);
        let pos = self.stream.len();
        let mode = if self.out_mode == 5 { cx.s.below(5) as u8 } else { self.out_mode };
        let seg: Bytes = match mode {
            0 => self.out.split_to(l).freeze(),
            1 => {
                let b = Bytes::copy_from_slice(&self.out[..l]);
                self.out.advance(l);
                b
            }
            2 if l == self.out.len() => self.out.split().freeze(),
            3 if l == self.out.len() => {
                let b = Bytes::copy_from_slice(&self.out);
                self.out.clear();
                b
            }
            4 => {
                // The rest moves to a buffer of its own.
                let rest = self.out.split_off(l);
                let b = std::mem::replace(&mut self.out, rest);
                b.freeze()
            }
            _ => self.out.split_to(l).freeze(),
        };
        let mut copy: Vec<u8> = self.queued.drain(..l).collect();
        let mut bytes = seg;
        let mut touched = false;
        for (o, x) in &self.plan {
            if *o >= pos && *o < pos + l {
                copy[o - pos] = *x;
                touched = true;
            }
        }
        self.plan.retain(|(o, _)| *o >= pos + l);
        if dmg == Damage::Hostile && cx.s.chance(1, 6) {
            touched = true;
            let n = copy.len();
            match cx.s.below(7) {
                0 => {
                    let at = cx.s.usize(n);
                    copy[at] ^= 1 << cx.s.below(8);
                    cx.fault("fault:bit flip");
                }
                1 => {
                    copy.clear();
                    cx.fault("fault:segment lost");
                }
                2 => {
                    let c = copy.clone();
                    copy.extend(c);
                    cx.fault("fault:segment repeated");
                }
                3 => {
                    copy.truncate(cx.s.usize(n));
                    cx.fault("fault:segment cut short");
                }
                4 => {
                    let at = cx.s.usize(n + 1);
                    let j = noise(cx.s.below(1 << 16), cx.s.range(1, 12) as usize);
                    copy.splice(at..at, j);
                    cx.fault("fault:bytes inserted");
                }
                5 => {
                    // Out of order: the two halves change places.
                    let at = cx.s.usize(n);
                    copy.rotate_left(at);
                    cx.fault("fault:reordered");
                }
                _ => {
                    let at = cx.s.usize(n);
                    copy[at] = *cx.s.pick(&[0, 0xFF, 0x80, 0x7F, 1]);
                    cx.fault("fault:byte overwritten");
                }
            }
        }
        if touched {
            bytes = Bytes::from(copy.clone());
        }
        let mut d = self.lat + if self.jit > 0 { cx.s.below(self.jit) } else { 0 };
        if self.stall > 0 && cx.s.chance(1, 8) {
            d += cx.s.range(1, self.stall);
            cx.fault("fault:stall");
        }
        let at = (cx.now + d).max(self.last_at);
        self.last_at = at;
        let (id, ln) = (self.id, copy.len());
        cx.ev(3, id as u64, ln as u64, || format!("pipe {id}: segment of {ln} bytes leaves at {pos}, arrives at {at}us"));
        self.stream.extend_from_slice(&copy);
        if !copy.is_empty() {
            self.flight.push_back((at, Seg { bytes, copy }));
        }
    }

    /// Takes a segment off the network into the reader's buffer.
    pub fn arrive(&mut self, cx: &mut Cx, seg: &[u8]) {
        let (id, l) = (self.id, seg.len());
        let mode = if self.in_mode == 6 { cx.s.below(6) as u8 } else { self.in_mode };
        match mode {
            1 => {
                self.inb.reserve(l);
                self.inb.put_slice(seg);
            }
            2 => self.inb.unsplit(BytesMut::from(seg)),
            3 => {
                // A buffer of exactly the right size.
                let mut b = BytesMut::with_capacity(self.inb.len() + l);
                b.extend_from_slice(&self.inb);
                b.extend_from_slice(seg);
                self.inb = b;
            }
            4 => {
                // The tail is split off and put back.
                let at = self.inb.len() / 2;
                let t = self.inb.split_off(at);
                self.inb.unsplit(t);
                self.inb.extend_from_slice(seg);
            }
            5 => {
                // A shared, advanced view.
                let mut b = BytesMut::from(&b"\xE0\x00\x30"[..]);
                b.extend_from_slice(&self.inb);
                b.extend_from_slice(seg);
                b.advance(3);
                self.inb = b;
            }
            _ => self.inb.extend_from_slice(seg),
        }
        self.arrived += l;
        self.need = self.need.saturating_sub(l);
        let have = self.inb.len();
        cx.ev(4, id as u64, l as u64, || format!("pipe {id}: {l} bytes arrive, buffer holds {have}"));
        if self.skip > 0 {
            let k = self.skip.min(self.inb.len());
            self.give_up(k);
            self.skip -= k;
            cx.ev(5, id as u64, k as u64, || format!("pipe {id}: {k} bytes of a refused frame discarded"));
        }
    }

    /// The application discards bytes at the front.
    pub fn give_up(&mut self, k: usize) {
        self.inb.advance(k);
        self.taken += k;
    }

    pub fn buffered(&self) -> &[u8] {
        &self.stream[self.taken..self.arrived]
    }

    pub fn item_at(&self, pos: usize) -> Option<usize> {
        let i = self.items.partition_point(|i| i.start < pos);
        // Empty items do not occur: every frame has at least two bytes.
        (i < self.items.len() && self.items[i].start == pos).then_some(i)
    }

    pub fn read(&mut self, cx: &mut Cx) -> ReadObs {
        let (at, had) = (self.taken, self.arrived - self.taken);
        cx.cost += had as u64;
        debug_assert_eq!(self.inb.len(), had);
        let hd = head(self.buffered());
        let (res, mem) = match builds::read(self.rb, &mut self.inb, self.limit) {
            Err(p) => (Err(p), Mem::default()),
            Ok((r, m)) => (Ok(r), m),
        };
        let left = self.inb.len();
        let removed = (left <= had && self.inb[..] == self.stream[self.arrived - left..self.arrived]).then(|| had - left);
        let o = ReadObs { head: hd, had, at, limit: self.limit, res, mem, removed, item: self.item_at(at) };
        self.read_ops += 1;
        cx.hit("op:read");
        let code = match &o.res {
            Err(_) => 0,
            Ok(Ok(_)) => 1,
            Ok(Err(E::Insufficient(_))) => 2,
            Ok(Err(E::TooBig { .. })) => 3,
            Ok(Err(E::BadLen)) => 4,
            Ok(Err(_)) => 5,
        };
        cx.ev(6, self.id as u64 ^ code << 8, removed.map_or(u64::MAX, |r| r as u64), || {
            format!(
                "pipe {} ({:?}, limit {:?}) reads {had} bytes at {at} -> {}, {} removed",
                self.id,
                self.rb,
                self.limit,
                o.what(),
                removed.map_or("GARBLED".into(), |r| r.to_string())
            )
        });
        match code {
            1 => cx.hit("read:delivered"),
            2 => cx.hit("read:incomplete"),
            3 => cx.hit("read:over the limit"),
            4 => cx.hit("read:bad length"),
            5 => cx.hit("read:rejected"),
            _ => cx.hit("read:panic"),
        }
        if code != 1 {
            cx.nontrivial = true;
        }
        let b1 = self.buffered().first().copied().unwrap_or(0);
        let cut = match hd {
            Head::Partial { .. } => had.min(12) as u64,
            Head::Short => 100 + had as u64,
            Head::BadLen => 200,
            Head::Whole { header, remaining } => 300 + header as u64 + if had > header + remaining { 50 } else { 0 },
        };
        cx.seen(u64::from(b1), code, cut ^ (self.rb as u64) << 32);
        match removed {
            Some(r) => self.taken += r,
            None => {
                // Put the world right so that the run can end in order.
                self.broken = true;
                self.inb = BytesMut::from(&self.stream[self.taken..self.arrived]);
            }
        }
        if let (Some(i), Some(r)) = (o.item, removed) {
            if r > 0 {
                self.items[i].read = true;
            }
        }
        match &o.res {
            Ok(Err(E::Insufficient(n))) => self.need = *n,
            _ => self.need = 0,
        }
        o
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(120) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 120 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

// ---------------------------------------------------------------- worlds

#[derive(Clone, Debug)]
pub struct Cfg {
    pub pipes: (u64, u64),
    pub packets: (u64, u64),
    /// Weights of size classes 0..=3.
    pub sizes: [u32; 4],
    /// Out of 8: share of frames that the independent peer encodes.
    pub foreign: u64,
    pub damage: Damage,
    /// Out of 8: share of frames damaged on purpose.
    pub damage_rate: u64,
    /// Out of 8: share of writes that must be refused.
    pub spoil: u64,
    pub limits: bool,
    pub cuts: bool,
    pub relays: bool,
    pub hold: bool,
    /// Packets are made by the crate's constructors.
    pub short: bool,
}
pub const BASE: Cfg = Cfg {
    pipes: (1, 2),
    packets: (1, 14),
    sizes: [12, 8, 2, 0],
    foreign: 0,
    damage: Damage::None,
    damage_rate: 0,
    spoil: 0,
    limits: false,
    cuts: false,
    relays: false,
    hold: false,
    short: false,
};

/// What a property's check looks at while a world runs.
#[allow(unused_variables)]
pub trait Oracle {
    fn wrote(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &WriteObs) -> Res {
        Ok(())
    }
    /// Just before a read or at an odd moment.
    fn peek(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        Ok(())
    }
    /// After a read. The oracle may keep the packet.
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        Ok(())
    }
    fn keep(&mut self, cx: &mut Cx, w: &World, pipe: usize, h: Held) {}
    /// A segment reaches the other side.
    fn landed(&mut self, cx: &mut Cx, w: &World, pipe: usize, s: &Seg) -> Res {
        Ok(())
    }
    /// All bytes have arrived and the reader still waits for the count it was told.
    fn starved(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        Ok(())
    }
    fn arrived(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        Ok(())
    }
    fn tick(&mut self, cx: &mut Cx, w: &World) -> Res {
        Ok(())
    }
    /// A connection ended after some byte and its reader has read all it could.
    fn cut(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        Ok(())
    }
    fn end(&mut self, cx: &mut Cx, w: &World) -> Res {
        Ok(())
    }
}

pub struct World {
    pub cfg: Cfg,
    pub gen: Gen,
    /// The last packets sent, on any pipe.
    pub recent: Vec<P>,
    pub pipes: Vec<Pipe>,
    pub q: BinaryHeap<std::cmp::Reverse<(u64, u64, u8, usize)>>,
    pub seq: u64,
    pub draining: bool,
    /// The run was broken off at its step bound: its end is not judged.
    pub bounded: bool,
}

const WRITE: u8 = 0;
const FLUSH: u8 = 1;
const ARRIVE: u8 = 2;
const READ: u8 = 3;
const LIMIT: u8 = 4;
const CUT: u8 = 5;
const ODD: u8 = 6;

pub fn new_pipe(cx: &mut Cx, id: usize, wb: Build, rb: Build) -> Pipe {
    let s = &mut cx.s;
    Pipe {
        id,
        wb,
        rb,
        out: match s.below(4) {
            0 => BytesMut::new(),
            1 => BytesMut::with_capacity(s.usize(64)),
            2 => BytesMut::with_capacity(4096),
            _ => {
                let mut b = BytesMut::with_capacity(256);
                b.extend_from_slice(&[0xEE; 100]);
                b.advance(100);
                b
            }
        },
        queued: Vec::new(),
        out_mode: s.below(6) as u8,
        items: Vec::new(),
        roots: 0,
        flight: VecDeque::new(),
        last_at: 0,
        seg: s.below(9) as u8,
        lat: *s.pick(&[0, 50, 1000, 40_000]),
        jit: *s.pick(&[0, 100, 20_000]),
        stall: *s.pick(&[0, 0, 5_000_000]),
        flush_gap: *s.pick(&[10, 200, 5_000]),
        plan: Vec::new(),
        down: false,
        flushing: false,
        stream: Vec::new(),
        arrived: 0,
        taken: 0,
        inb: match s.below(3) {
            0 => BytesMut::new(),
            1 => BytesMut::with_capacity(s.usize(64)),
            _ => BytesMut::with_capacity(8192),
        },
        in_mode: s.below(7) as u8,
        policy: *s.pick(&[Policy::Eager, Policy::Single, Policy::Lazy, Policy::Hinted, Policy::Nervous]),
        need: 0,
        limit: None,
        skip: 0,
        broken: false,
        to_send: 0,
        forward: Vec::new(),
        epoch: 0,
        read_ops: 0,
        idle_reads: 0,
    }
}

impl World {
    pub fn at(&mut self, t: u64, kind: u8, pipe: usize) {
        self.seq += 1;
        self.q.push(std::cmp::Reverse((t, self.seq, kind, pipe)));
    }

    fn flush_soon(&mut self, cx: &mut Cx, i: usize) {
        let p = &mut self.pipes[i];
        if !p.flushing && !p.queued.is_empty() {
            p.flushing = true;
            let t = cx.now + p.flush_gap;
            self.at(t, FLUSH, i);
        }
    }

    pub fn draw(cx: &mut Cx, cfg: &Cfg) -> World {
        let gen = Gen::draw(&mut cx.s, &cfg.sizes);
        let n = cx.s.range(cfg.pipes.0, cfg.pipes.1) as usize;
        let mut w = World {
            cfg: cfg.clone(),
            gen,
            recent: Vec::new(),
            pipes: Vec::new(),
            q: BinaryHeap::new(),
            seq: 0,
            draining: false,
            bounded: false,
        };
        for i in 0..n {
            let (wb, rb) = (*cx.s.pick(&BUILDS), *cx.s.pick(&BUILDS));
            let mut p = new_pipe(cx, i, wb, rb);
            p.to_send = cx.s.range(cfg.packets.0, cfg.packets.1) as usize;
            if w.gen.size >= 3 {
                p.to_send = p.to_send.min(3);
            } else if w.gen.size == 2 {
                p.to_send = p.to_send.min(8);
            }
            w.pipes.push(p);
        }
        if cfg.relays {
            // A chain with a possible fan-out at every relay.
            let hops = cx.s.range(1, 4) as usize;
            let mut tips = vec![0];
            w.pipes.truncate(1);
            for _ in 0..hops {
                let from = *cx.s.pick(&tips);
                let fan = if cx.s.chance(1, 4) { 2 } else { 1 };
                for _ in 0..fan {
                    let id = w.pipes.len();
                    let wb = w.pipes[from].rb;
                    let rb = *cx.s.pick(&BUILDS);
                    let p = new_pipe(cx, id, wb, rb);
                    w.pipes.push(p);
                    w.pipes[from].forward.push(id);
                    tips.push(id);
                }
                tips.retain(|t| *t != from);
            }
        }
        for i in 0..w.pipes.len() {
            let p = &w.pipes[i];
            let (b, m) = (p.wb, p.rb);
            let (seg, om, im, pol) = (p.seg, p.out_mode, p.in_mode, p.policy);
            let (lat, jit, st) = (p.lat, p.jit, p.stall);
            cx.ev(7, i as u64, u64::from(seg), || {
                format!(
                    "pipe {i}: writer {b:?}, reader {m:?}, segments mode {seg}, latency {lat}+{jit}us, stalls up to {st}us, \
                     reader {pol:?}, buffer modes {om}/{im}"
                )
            });
            cx.hit(match pol {
                Policy::Eager => "reader:eager",
                Policy::Single => "reader:one read per arrival",
                Policy::Lazy => "reader:timer",
                Policy::Hinted => "reader:waits for the reported count",
                Policy::Nervous => "reader:premature",
            });
            let t = cx.now;
            w.at(t, WRITE, i);
            if cfg.limits {
                w.new_limit(cx, i);
                let t = cx.now + cx.s.below(20_000);
                w.at(t, LIMIT, i);
            }
            if cfg.cuts {
                let t = cx.now + cx.s.below(200_000);
                w.at(t, CUT, i);
            }
            if w.pipes[i].policy == Policy::Nervous {
                w.at(t, ODD, i);
            }
        }
        w
    }

    fn new_limit(&mut self, cx: &mut Cx, i: usize) {
        let p = &mut self.pipes[i];
        let next = p.items.iter().find(|x| x.start >= p.taken).map(|x| {
            let b: Vec<u8> = p.stream.iter().chain(p.queued.iter()).skip(x.start).take(5).copied().collect();
            head(&b).remaining().unwrap_or(0)
        });
        p.limit = match cx.s.below(8) {
            0 => cx.s.lucky().map(|v| v as usize),
            1 => Some(cx.s.usize(300)),
            2 => Some(*cx.s.pick(&[
                0, 1, 2, 127, 128, 255, 256, 16_383, 16_384, 32_768, 65_535, 65_536, 2_097_151, 2_097_152, 268_435_455,
                268_435_456, 1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 1, usize::MAX,
            ])),
            3 | 4 => next,
            5 => next.map(|n| n.saturating_sub(1)),
            6 => next.map(|n| n + 1),
            _ => next.map(|n| n + 2 + cx.s.usize(4)),
        };
        let l = p.limit;
        cx.ev(8, i as u64, l.unwrap_or(usize::MAX) as u64, || format!("pipe {i}: limit is now {l:?}"));
        cx.fault("fault:limit change");
    }

    /// The sender of pipe `i` produces its next packet.
    fn produce(&mut self, cx: &mut Cx, i: usize, orc: &mut dyn Oracle) -> Res {
        let mut p = if !self.recent.is_empty() && cx.s.chance(1, 8) {
            let mut p = cx.s.pick(&self.recent).clone();
            self.gen.vary(&mut cx.s, &mut p);
            cx.hit("op:like an earlier packet");
            p
        } else {
            self.gen.packet(&mut cx.s)
        };
        if self.recent.len() >= 3 {
            self.recent.remove(0);
        }
        self.recent.push(p.clone());
        let cfg = &self.cfg;
        if cfg.spoil > 0 && cx.s.below(8) >= 8 - cfg.spoil {
            let how = self.gen.spoil(&mut cx.s, &mut p);
            let held = builds::make(self.pipes[i].wb, &p);
            let o = self.pipes[i].write(cx, &held, &p, Some(how));
            cx.fault("fault:unencodable packet");
            return orc.wrote(cx, self, i, &o);
        }
        let foreign = cfg.foreign > 0 && cx.s.below(8) >= 8 - cfg.foreign;
        let before = self.pipes[i].items.len();
        if foreign {
            let st = Style { order: cx.s.below(1 << 16), short: cx.s.below(3) as u8 };
            let f = encode(&p, st);
            self.pipes[i].write_raw(cx, &f, Some(p), "the peer");
        } else {
            let wb = self.pipes[i].wb;
            let held = if self.cfg.short {
                match builds::short(wb, &p) {
                    Ok(h) => h,
                    Err(e) => return viol("panic", format!("a constructor panicked: {}: {}", e.0, p.brief())),
                }
            } else {
                builds::make(wb, &p)
            };
            let o = self.pipes[i].write(cx, &held, &p, None);
            drop(held);
            orc.wrote(cx, self, i, &o)?;
        }
        if self.pipes[i].items.len() > before {
            self.damage(cx, i);
        }
        Ok(())
    }

    /// Damages the frame just queued, if the run says so.
    fn damage(&mut self, cx: &mut Cx, i: usize) {
        let cfg = &self.cfg;
        if cfg.damage == Damage::None || cfg.damage_rate == 0 || cx.s.below(8) < 8 - cfg.damage_rate {
            return;
        }
        let p = &mut self.pipes[i];
        let it = p.items.last().unwrap().clone();
        let n = it.end - it.start;
        let off = p.queued.len() - n;
        let f: Vec<u8> = p.queued[off..].to_vec();
        let Some(hl) = (match head(&f) {
            Head::Whole { header, remaining } if header + remaining == f.len() => Some(header),
            _ => None,
        }) else {
            return;
        };
        let forge = cfg.damage != Damage::Body && cx.s.chance(1, 2);
        if forge {
            let g = forged(&mut cx.s, &f, p.rb.utf8());
            p.out.truncate(off);
            p.out.extend_from_slice(&g);
            p.queued.truncate(off);
            p.queued.extend_from_slice(&g);
            let l = p.items.last_mut().unwrap();
            l.end = l.start + g.len();
            l.damaged = true;
            cx.fault("fault:forged frame");
            cx.ev(9, i as u64, g.len() as u64, || format!("pipe {i}: the frame is replaced on the way by {}", hex(&g)));
            return;
        }
        if n == hl && cfg.damage == Damage::Body {
            return;
        }
        let (_, marks) = decode(&f, p.rb.utf8());
        for _ in 0..cx.s.range(1, 2) {
            let at = match cx.s.below(4) {
                0 if n > hl => hl + cx.s.usize(n - hl),
                1 if cfg.damage != Damage::Body => 0,
                _ => {
                    let m: Vec<_> = marks.iter().filter(|m| m.off >= hl && m.len > 0).collect();
                    if m.is_empty() {
                        if n == hl {
                            0
                        } else {
                            hl + cx.s.usize(n - hl)
                        }
                    } else {
                        let m = *cx.s.pick(&m);
                        m.off + cx.s.usize(m.len.min(5))
                    }
                }
            };
            if at < hl && cfg.damage == Damage::Body {
                continue;
            }
            let old = f[at];
            let new = mangle(&mut cx.s, old);
            if new == old {
                continue;
            }
            p.plan.push((it.start + at, new));
            p.items.last_mut().unwrap().damaged = true;
            cx.fault("fault:byte changed in a frame");
            cx.ev(10, at as u64, u64::from(new), || {
                format!("pipe {i}: byte {at} of the frame will change from {old:02x} to {new:02x} on the way")
            });
        }
    }

    pub fn run(&mut self, cx: &mut Cx, orc: &mut dyn Oracle) -> Res {
        let mut steps = 0u32;
        loop {
            self.events(cx, orc, &mut steps)?;
            // Everything sent has arrived: the readers get their last turns.
            self.draining = true;
            for i in 0..self.pipes.len() {
                if self.pipes[i].policy == Policy::Hinted && self.pipes[i].need > 0 {
                    orc.starved(cx, self, i)?;
                }
                self.reads(cx, i, orc, u32::MAX)?;
            }
            // What relays passed on in those turns travels on.
            if self.q.is_empty() || self.bounded {
                break;
            }
        }
        if !self.bounded {
            orc.end(cx, self)?;
        }
        cx.add("simulated microseconds", cx.now);
        Ok(())
    }

    fn events(&mut self, cx: &mut Cx, orc: &mut dyn Oracle, steps: &mut u32) -> Res {
        while let Some(std::cmp::Reverse((t, _, kind, i))) = self.q.pop() {
            *steps += 1;
            if *steps > 6000 {
                cx.hit("run:step bound");
                self.bounded = true;
                break;
            }
            cx.now = cx.now.max(t);
            match kind {
                WRITE => {
                    if self.pipes[i].to_send > 0 && !self.pipes[i].down {
                        self.pipes[i].to_send -= 1;
                        let burst = cx.s.range(1, 3);
                        self.produce(cx, i, orc)?;
                        for _ in 1..burst {
                            if self.pipes[i].to_send > 0 {
                                self.pipes[i].to_send -= 1;
                                self.produce(cx, i, orc)?;
                            }
                        }
                        if self.pipes[i].to_send > 0 {
                            let gap = *cx.s.pick(&[1, 100, 10_000]);
                            let t = cx.now + cx.s.below(gap);
                            self.at(t, WRITE, i);
                        }
                    }
                    self.flush_soon(cx, i);
                }
                FLUSH => {
                    self.pipes[i].flushing = false;
                    let dmg = self.cfg.damage;
                    let n = self.pipes[i].flight.len();
                    self.pipes[i].flush(cx, dmg);
                    if self.pipes[i].flight.len() > n {
                        let at = self.pipes[i].last_at;
                        self.at(at, ARRIVE, i);
                    }
                    self.flush_soon(cx, i);
                }
                ARRIVE => {
                    if let Some((_, seg)) = self.pipes[i].flight.pop_front() {
                        orc.landed(cx, self, i, &seg)?;
                        self.pipes[i].arrive(cx, &seg.copy);
                        orc.arrived(cx, self, i)?;
                        self.serve(cx, i, orc)?;
                    }
                }
                READ => {
                    self.reads(cx, i, orc, u32::MAX)?;
                }
                ODD => {
                    self.reads(cx, i, orc, 1)?;
                    if self.pipes[i].idle_reads < 40 {
                        self.pipes[i].idle_reads += 1;
                        let t = cx.now + cx.s.below(30_000);
                        self.at(t, ODD, i);
                    }
                }
                LIMIT => {
                    self.new_limit(cx, i);
                    if self.pipes[i].policy != Policy::Hinted {
                        self.reads(cx, i, orc, 1)?;
                    }
                    if self.pipes[i].idle_reads < 40 {
                        self.pipes[i].idle_reads += 1;
                        let t = cx.now + cx.s.below(40_000);
                        self.at(t, LIMIT, i);
                    }
                }
                CUT => self.cut(cx, i, orc)?,
                _ => unreachable!(),
            }
            orc.tick(cx, self)?;
        }
        Ok(())
    }

    fn serve(&mut self, cx: &mut Cx, i: usize, orc: &mut dyn Oracle) -> Res {
        match self.pipes[i].policy {
            Policy::Eager | Policy::Nervous => self.reads(cx, i, orc, u32::MAX),
            Policy::Single => self.reads(cx, i, orc, 1),
            Policy::Hinted => {
                if self.pipes[i].need == 0 {
                    self.reads(cx, i, orc, u32::MAX)
                } else {
                    Ok(())
                }
            }
            Policy::Lazy => {
                let t = cx.now + cx.s.below(50_000);
                self.at(t, READ, i);
                Ok(())
            }
        }
    }

    /// Up to `max` reads, ending when one makes no progress.
    fn reads(&mut self, cx: &mut Cx, i: usize, orc: &mut dyn Oracle, max: u32) -> Res {
        let mut k = 0;
        let mut raised = 0;
        while k < max {
            k += 1;
            if self.pipes[i].skip > 0 {
                return Ok(());
            }
            orc.peek(cx, self, i)?;
            let o = self.pipes[i].read(cx);
            orc.read(cx, self, i, &o)?;
            if let Err(p) = &o.res {
                return viol("panic", format!("reading panicked: {}", p.0));
            }
            let Some(removed) = o.removed else { return Ok(()) };
            match o.res.unwrap() {
                Ok(h) => {
                    let fw = self.pipes[i].forward.clone();
                    if !fw.is_empty() {
                        let root = o.item.map(|x| self.pipes[i].items[x].root);
                        let p = h.model();
                        for f in fw {
                            let w = self.pipes[f].write(cx, &h, &p, None);
                            cx.hit("op:relayed");
                            if let (Some(r), Some(l)) = (root, self.pipes[f].items.last_mut()) {
                                if matches!(w.res, Ok(Ok(_))) {
                                    l.root = r;
                                }
                            }
                            orc.wrote(cx, self, f, &w)?;
                            self.flush_soon(cx, f);
                        }
                    }
                    if removed == 0 {
                        // Delivered without removing anything: would go on for ever.
                        return Ok(());
                    }
                    orc.keep(cx, self, i, h);
                }
                Err(E::Insufficient(_)) => {
                    if removed == 0 {
                        return Ok(());
                    }
                }
                Err(E::TooBig { .. }) if removed == 0 => {
                    let p = &mut self.pipes[i];
                    let Some(rem) = head(p.buffered()).remaining() else { return Ok(()) };
                    let fl = head(p.buffered()).frame_len().unwrap();
                    // A reader that goes on refusing at any limit is not asked for ever.
                    raised += 1;
                    match if raised > 20 { 3 } else { cx.s.below(4) } {
                        0 => p.limit = Some(rem),
                        1 => p.limit = Some(rem.saturating_add(cx.s.usize(3))),
                        2 => p.limit = None,
                        _ => {
                            // The application gives the frame up and discards its bytes.
                            if let Some(x) = p.item_at(p.taken) {
                                p.items[x].read = true;
                            }
                            let k = fl.min(p.inb.len());
                            p.give_up(k);
                            p.skip = fl - k;
                            p.need = 0;
                        }
                    }
                    let (l, sk) = (p.limit, p.skip);
                    cx.ev(11, i as u64, sk as u64, || format!("pipe {i}: after the refusal limit {l:?}, skipping {sk}"));
                }
                Err(_) => {
                    if removed == 0 {
                        let p = &mut self.pipes[i];
                        if p.inb.is_empty() {
                            return Ok(());
                        }
                        // The reader cannot go on here: drop a few bytes and look again.
                        let k = cx.s.range(1, 3).min(p.inb.len() as u64) as usize;
                        p.give_up(k);
                        cx.ev(12, i as u64, k as u64, || format!("pipe {i}: reader drops {k} bytes to go on"));
                    }
                }
            }
        }
        Ok(())
    }

    /// At the cut a packet of any size had just begun: of its header, and perhaps of its body,
    /// a few bytes got through.
    fn begun(&mut self, cx: &mut Cx, i: usize, orc: &mut dyn Oracle) -> Res {
        let first = *cx.s.pick(&[0x10, 0x20, 0x30, 0x32, 0x3D, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xA2, 0xB0, 0xE0]);
        let len = *cx.s.pick(&[2usize, 127, 128, 16_383, 16_384, 2_097_151, 2_097_152, 3_000_000, 268_435_455]);
        let mut f = vec![first];
        crate::refcodec::put_var(&mut f, len as u64);
        let head = f.len();
        let more = cx.s.usize(4).min(len - 1);
        f.extend(noise(cx.s.below(1 << 16), more));
        f.truncate(if cx.s.chance(2, 3) { cx.s.range(1, head as u64) as usize } else { f.len() });
        let p = &mut self.pipes[i];
        p.items.retain(|x| x.end <= p.taken);
        p.stream.truncate(p.arrived);
        p.stream.extend_from_slice(&f);
        let (start, root) = (p.taken, p.roots);
        p.roots += 1;
        p.items.push(Item { start, end: start + head + len, p: None, damaged: false, root, read: false });
        cx.hit("cut:behind the first bytes of a packet");
        let mut sent = 0;
        while sent < f.len() {
            let k = if cx.s.chance(2, 3) { 1 } else { cx.s.range(1, (f.len() - sent) as u64) as usize };
            self.pipes[i].arrive(cx, &f[sent..sent + k]);
            sent += k;
            self.reads(cx, i, orc, 1)?;
            if self.pipes[i].broken {
                break;
            }
        }
        orc.cut(cx, self, i)
    }

    /// The connection ends here and is set up again.
    fn cut(&mut self, cx: &mut Cx, i: usize, orc: &mut dyn Oracle) -> Res {
        let p = &mut self.pipes[i];
        if p.items.is_empty() || p.epoch >= 4 || p.items.last().unwrap().end <= p.taken {
            return Ok(());
        }
        // Of the segment at the front of the network some bytes may still get through.
        let lost: usize = p.flight.iter().map(|(_, s)| s.copy.len()).sum();
        if let Some((_, seg)) = p.flight.front() {
            let k = cx.s.usize(seg.copy.len() + 1);
            if k > 0 {
                let b = seg.copy[..k].to_vec();
                p.arrive(cx, &b);
            }
        }
        p.flight.clear();
        p.down = true;
        let (arr, l) = (p.arrived, p.queued.len());
        cx.fault("fault:connection cut");
        cx.ev(13, i as u64, arr as u64, || {
            format!("pipe {i}: connection CUT after byte {arr} ({lost} in flight, {l} queued bytes affected)")
        });
        p.need = 0;
        self.reads(cx, i, orc, u32::MAX)?;
        orc.cut(cx, self, i)?;
        // Reconnect: what was not delivered is sent again, whole, on a new stream.
        let p = &mut self.pipes[i];
        let again: Vec<P> = p.items.iter().filter(|x| x.end > p.taken).filter_map(|x| x.p.clone()).collect();
        if p.taken == p.arrived && p.limit.is_none() && cx.s.chance(1, 6) {
            self.begun(cx, i, orc)?;
        }
        let p = &mut self.pipes[i];
        p.items.clear();
        p.stream.clear();
        p.queued.clear();
        p.arrived = 0;
        p.taken = 0;
        p.plan.clear();
        p.last_at = cx.now;
        p.epoch += 1;
        p.down = false;
        if cx.s.chance(1, 2) {
            p.inb.clear();
            p.out.clear();
        } else {
            p.inb = BytesMut::new();
            p.out = BytesMut::with_capacity(cx.s.usize(100));
        }
        let n = again.len();
        cx.ev(14, i as u64, n as u64, || format!("pipe {i}: connected again, {n} packets to send again"));
        for q in again {
            if cx.s.chance(1, 8) && self.cfg.foreign > 0 {
                let f = encode(&q, Style::default());
                self.pipes[i].write_raw(cx, &f, Some(q), "the peer");
            } else {
                let held = builds::make(self.pipes[i].wb, &q);
                let o = self.pipes[i].write(cx, &held, &q, None);
                orc.wrote(cx, self, i, &o)?;
            }
        }
        self.flush_soon(cx, i);
        let t = cx.now;
        if self.pipes[i].to_send > 0 {
            self.at(t, WRITE, i);
        }
        let t = cx.now + cx.s.below(200_000);
        self.at(t, CUT, i);
        Ok(())
    }
}

fn mangle(s: &mut Src, old: u8) -> u8 {
    match s.below(6) {
        0 => old ^ (1 << s.below(8)),
        1 => *s.pick(&[0, 1, 2, 3, 4, 5, 0x7F, 0x80, 0x81, 0x82, 0xFF, 0xFE, 0xC0]),
        2 => old.wrapping_add(1),
        3 => old.wrapping_sub(1),
        4 => *s.pick(&[1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43]),
        _ => s.below(256) as u8,
    }
}

/// A well-formed property of any packet type, or of none.
fn any_property(s: &mut Src) -> Vec<u8> {
    let id = if s.chance(1, 10) {
        s.below(256) as u8
    } else {
        *s.pick(&[1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42])
    };
    let mut out = vec![id];
    let short = |s: &mut Src, out: &mut Vec<u8>| {
        let w = crate::gen::words(s.below(1 << 16), s.usize(6));
        out.extend_from_slice(&(w.len() as u16).to_be_bytes());
        out.extend(w);
    };
    match prop_type(id) {
        Some(T::U8) => out.push(*s.pick(&[0, 1, 1, 2, 255])),
        Some(T::U16) => out.extend_from_slice(&s.pick(&[0u16, 1, 10, 256, 65_535]).to_be_bytes()),
        Some(T::U32) => out.extend_from_slice(&s.pick(&[0u32, 1, 10, 1 << 16, u32::MAX]).to_be_bytes()),
        Some(T::Str | T::Bin) => short(s, &mut out),
        Some(T::Pair) => {
            short(s, &mut out);
            short(s, &mut out);
        }
        Some(T::Var) => put_var(&mut out, *s.pick(&[0, 1, 127, 128, 268_435_455])),
        None => {}
    }
    out
}

/// A frame with a body changed by an adversary who keeps (or not) its lengths in order.
pub fn forged(s: &mut Src, f: &[u8], utf8: bool) -> Vec<u8> {
    let Head::Whole { header, .. } = head(f) else { return f.to_vec() };
    let mut b1 = f[0];
    let mut body = f[header..].to_vec();
    let (_, marks) = decode(f, utf8);
    let marks: Vec<_> = marks.into_iter().filter(|m| m.off >= header).collect();
    for _ in 0..s.range(1, 3) {
        let n = body.len();
        let m = if marks.is_empty() { None } else { Some(*s.pick(&marks)) };
        let m = m.map(|m| (m.off - header, m.len, m.part)).filter(|m| m.0 + m.1 <= n);
        match s.below(14) {
            0 => body.truncate(s.usize(n + 1)),
            1 => {
                if let Some((o, _, _)) = m {
                    body.truncate(o);
                }
            }
            2 => {
                if let Some((o, l, _)) = m {
                    body.drain(o..o + l);
                }
            }
            3 => {
                // A field twice.
                if let Some((o, l, _)) = m {
                    let c = body[o..o + l.min(300)].to_vec();
                    body.splice(o..o, c);
                }
            }
            4 => {
                let at = s.usize(n + 1);
                let j = noise(s.below(1 << 16), s.range(1, 6) as usize);
                body.splice(at..at, j);
            }
            5 | 6 => {
                // A length that says something else.
                let c: Vec<_> = marks
                    .iter()
                    .filter(|m| {
                        // A subscription identifier's value is spelled like a length.
                        matches!(m.part, Part::Len16 | Part::PropLen) || m.part == Part::PropVal && f[m.off - 1] == 11
                    })
                    .filter(|m| m.off - header + m.len <= n)
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let k = *s.pick(&c);
                let (o, l) = (k.off - header, k.len);
                if k.part == Part::Len16 {
                    let v = u16::from_be_bytes([body[o], body[o + 1]]);
                    let w = *s.pick(&[v.wrapping_add(1), v.wrapping_sub(1), 0, 0xFFFF, 0xFF00, v ^ 0x80, v.wrapping_add(2)]);
                    body[o..o + 2].copy_from_slice(&w.to_be_bytes());
                } else {
                    let mut v = 0u64;
                    for (i, x) in body[o..o + l].iter().enumerate() {
                        v |= u64::from(x & 0x7F) << (7 * i);
                    }
                    let w = *s.pick(&[
                        v + 1,
                        v.saturating_sub(1),
                        0,
                        v + 2,
                        v + 5,
                        127,
                        128,
                        16_384,
                        2_097_152,
                        268_435_455,
                        (n - o).saturating_sub(1) as u64,
                        (n - o) as u64,
                    ]);
                    let mut e = Vec::new();
                    match s.below(8) {
                        7 if s.chance(1, 2) => e = vec![0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
                        7 => {
                            // The right value, or nearly, in more bytes than there may be.
                            put_var(&mut e, if s.chance(3, 4) { v } else { w });
                            let more = s.range(5, 6) as usize;
                            while e.len() < more {
                                *e.last_mut().unwrap() |= 0x80;
                                e.push(0);
                            }
                            if s.chance(1, 4) {
                                *e.last_mut().unwrap() = 1;
                            }
                        }
                        _ => put_var(&mut e, w.min(268_435_455)),
                    }
                    body.splice(o..o + l, e);
                }
            }
            7 => {
                if let Some((o, l, _)) = m {
                    if l > 0 {
                        body[o] = mangle(s, body[o]);
                    }
                }
            }
            8 => {
                // Property ids only.
                let c: Vec<_> = marks.iter().filter(|m| m.part == Part::PropId && m.off - header < n).collect();
                if !c.is_empty() {
                    let o = s.pick(&c).off - header;
                    body[o] = mangle(s, body[o]);
                }
            }
            9 => {
                let c: Vec<_> = marks
                    .iter()
                    .filter(|m| matches!(m.part, Part::Text) && m.len > 0 && m.off - header + m.len <= n)
                    .collect();
                if !c.is_empty() {
                    let k = s.pick(&c);
                    let o = k.off - header + s.usize(k.len);
                    body[o] = *s.pick(&[0xFF, 0xC0, 0x80, 0xED, 0xF8, 0xC3, 0xE2, 0xF0]);
                }
            }
            10 => {
                let c: Vec<_> = marks
                    .iter()
                    .filter(|m| matches!(m.part, Part::Reason | Part::Flags | Part::Opts | Part::Level | Part::Pkid))
                    .filter(|m| m.off - header + m.len <= n)
                    .collect();
                if !c.is_empty() {
                    let k = s.pick(&c);
                    let o = k.off - header;
                    if k.part == Part::Pkid && s.chance(1, 2) {
                        body[o] = 0;
                        body[o + 1] = 0;
                    } else {
                        body[o] = match s.below(3) {
                            0 => s.below(256) as u8,
                            1 => body[o] ^ (1 << s.below(8)),
                            _ => *s.pick(reasons(9)),
                        };
                    }
                }
            }
            11 => {
                // A whole property more, with the length of its block put right.
                let c: Vec<_> = marks
                    .iter()
                    .filter(|m| m.part == Part::PropLen && m.off - header + m.len <= n)
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let k = *s.pick(&c);
                let (o, l) = (k.off - header, k.len);
                let mut v = 0usize;
                for (i, x) in body[o..o + l].iter().enumerate() {
                    v |= usize::from(x & 0x7F) << (7 * i);
                }
                // Before one of the block's properties, or behind them all.
                let mut at: Vec<usize> = marks
                    .iter()
                    .filter(|m| m.part == Part::PropId)
                    .map(|m| m.off - header)
                    .filter(|x| *x >= o + l && *x < o + l + v)
                    .collect();
                at.push(o + l + v);
                let at = *s.pick(&at);
                if at > n {
                    continue;
                }
                let new = any_property(s);
                body.splice(at..at, new.iter().copied());
                let mut e = Vec::new();
                put_var(&mut e, ((v + new.len()) as u64).min(268_435_455));
                body.splice(o..o + l, e);
            }
            12 => {
                // Things only one packet type has.
                match b1 >> 4 {
                    1 if n > 10 => {
                        let name = *s.pick(&[
                            &b"mqtt"[..], b"MQTt", b"Mqtt", b"MQTT\0", b"MQT", b"", b"MQIsdp", b"MQTT ", b"\xEF\xBB\xBFMQTT", b"MQTU",
                        ]);
                        let l = usize::from(u16::from_be_bytes([body[0], body[1]]));
                        if 2 + l <= n {
                            let mut e = (name.len() as u16).to_be_bytes().to_vec();
                            e.extend_from_slice(name);
                            body.splice(0..2 + l, e);
                        }
                    }
                    3 => {
                        // QoS 3, whether or not a packet id is there.
                        if b1 & 6 == 0 && n >= 2 && s.chance(1, 2) {
                            let l = usize::from(u16::from_be_bytes([body[0], body[1]]));
                            if 2 + l <= n {
                                body.splice(2 + l..2 + l, [0, 1]);
                            }
                        }
                        b1 |= 6;
                    }
                    // Nothing behind the properties: no filters, no codes.
                    8..=11 => {
                        if let Some(k) = marks.iter().find(|m| m.part == Part::PropLen) {
                            let (o, l) = (k.off - header, k.len);
                            if o + l <= n {
                                let mut v = 0usize;
                                for (i, x) in body[o..o + l].iter().enumerate() {
                                    v |= usize::from(x & 0x7F) << (7 * i);
                                }
                                body.truncate((o + l + v).min(n));
                            }
                        }
                    }
                    // Properties of an acknowledgement behind a reason the type does not have.
                    _ if n > 2 => body[n.min(3) - 1] = s.below(256) as u8,
                    _ => body.push(s.below(256) as u8),
                }
            }
            _ => b1 = (b1 & 0x0F) | (s.below(16) as u8) << 4,
        }
    }
    if s.chance(1, 6) {
        b1 ^= 1 << s.below(4);
    }
    frame(b1, &body)
}
