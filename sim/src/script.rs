//! Scripts: what several connections receive, read, write and drain, drawn without running the
//! crate, so that the same script can be executed alone, interleaved, on other threads, in a
//! fresh process, or twice under the allocator's eye.
use crate::alloc::{live, measure};
use crate::builds::{self, Build, Held, BUILDS, E};
use crate::engine::*;
use crate::gate::{Lane, Phase};
use crate::gen::{noise, Gen};
use crate::model::*;
use crate::refcodec::{decode, encode, head, Head, Part, Style};
use crate::src::{mix, Src};
use bytes::{Buf, BytesMut};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;

#[derive(Clone, Debug)]
pub enum Op {
    Arrive(Vec<u8>),
    Read(Option<usize>),
    Check(Option<usize>),
    /// The flag: by the packet's own writer.
    Write(Box<P>, bool),
    Drain(usize),
    DropOldest,
}
impl Op {
    fn brief(&self) -> String {
        match self {
            Op::Arrive(b) => format!("{} bytes arrive: {}", b.len(), hex(b)),
            Op::Write(p, own) => format!("write{} {}", if *own { " (own writer)" } else { "" }, p.brief()),
            o => format!("{o:?}"),
        }
    }
}

#[derive(Clone)]
pub struct Script {
    pub build: Build,
    pub ops: Vec<Op>,
}

/// Changes one letter, or one packet id, of a frame: a packet that is easily confused with
/// another connection's.
fn sibling(s: &mut Src, f: &[u8]) -> Vec<u8> {
    let mut f = f.to_vec();
    let (_, marks) = decode(&f, true);
    let c: Vec<_> = marks.iter().filter(|m| matches!(m.part, Part::Text | Part::Pkid) && m.len > 0).collect();
    if !c.is_empty() {
        let m = **s.pick(&c);
        let at = m.off + s.usize(m.len);
        if m.part == Part::Pkid {
            let id = if s.chance(1, 8) { 0 } else { s.range(1, 255) as u8 };
            f[m.off + 1] = id;
            if id == 0 && s.chance(1, 2) {
                f[m.off] = 0;
            }
        } else if f[at].is_ascii_lowercase() {
            f[at] = b'a' + s.below(26) as u8;
        }
    }
    f
}

fn unnumbered(p: &mut P) {
    match p {
        P::Publish(p) => p.pkid = 0,
        P::Ack { pkid, .. }
        | P::Subscribe { pkid, .. }
        | P::SubAck { pkid, .. }
        | P::Unsubscribe { pkid, .. }
        | P::UnsubAck { pkid, .. } => *pkid = 0,
        _ => {}
    }
}

pub fn draw(s: &mut Src, conns: (u64, u64), damage: u64, stretch: usize) -> Vec<Script> {
    let g = Gen { stretch, ..Gen::draw(s, &[44, 10, 1, 0]) };
    let n = s.range(conns.0, conns.1);
    // Connections that say much the same: what one leaves behind fits the other.
    let near = s.chance(1, 2);
    let mirrored = near && s.chance(1, 2);
    let same = s.chance(if near { 7 } else { 3 }, 8);
    let b0 = *s.pick(&BUILDS);
    let mut pool: Vec<P> = Vec::new();
    let mut said: Vec<P> = Vec::new();
    let mut all = Vec::new();
    for _ in 0..n {
        let build = if same { b0 } else { *s.pick(&BUILDS) };
        if mirrored && !all.is_empty() {
            // Step by step what the first connection does, or nearly.
            let first: &Script = &all[0];
            let mut ops = first.ops.clone();
            for o in &mut ops {
                match o {
                    Op::Write(p, _) if s.chance(1, 2) => g.vary(s, p),
                    Op::Arrive(b) if s.chance(1, 4) => *b = sibling(s, b),
                    _ => {}
                }
            }
            all.push(Script { build, ops });
            continue;
        }
        let mut stream = Vec::new();
        for _ in 0..s.range(1, 8) {
            let old = !pool.is_empty() && s.chance(if near { 3 } else { 1 }, 4);
            let mut p = if old { pool[s.usize(pool.len())].clone() } else { g.packet(s) };
            if old {
                g.vary(s, &mut p);
            }
            let mut f = encode(&p, Style { order: s.below(1 << 16), short: s.below(3) as u8 });
            pool.push(p);
            if old && s.chance(1, 2) {
                f = sibling(s, &f);
            }
            if s.below(8) >= 8 - damage {
                f = match s.below(3) {
                    0 => forged(s, &f, build.utf8()),
                    1 => {
                        let at = s.usize(f.len());
                        f[at] ^= 1 << s.below(8);
                        f
                    }
                    _ => {
                        f.truncate(s.usize(f.len()));
                        if s.chance(1, 2) {
                            f.extend(noise(s.below(1 << 16), 5));
                        }
                        f
                    }
                };
            }
            stream.extend(f);
        }
        let mut ops = Vec::new();
        let seg = *s.pick(&[3usize, 16, 64, 300, 5000]);
        let seg = seg.max(stream.len() / 40);
        let mut at = 0;
        let mut limit = None;
        while at < stream.len() {
            let l = (s.usize(seg) + 1).max(stream.len() / 400).min(stream.len() - at);
            ops.push(Op::Arrive(stream[at..at + l].to_vec()));
            at += l;
            for _ in 0..s.below(4) {
                if s.chance(1, 12) {
                    limit = *s.pick(&[None, Some(20), Some(100), Some(0)]);
                }
                ops.push(if s.chance(1, 6) { Op::Check(limit) } else { Op::Read(limit) });
            }
            if s.chance(if near { 2 } else { 1 }, 4) {
                let old = !said.is_empty() && s.chance(if near { 3 } else { 1 }, 4);
                let mut p = if old { said[s.usize(said.len())].clone() } else { g.packet(s) };
                if old && s.chance(1, 2) {
                    g.vary(s, &mut p);
                }
                // Programs that leave the packet id to others.
                if s.chance(1, 8) {
                    unnumbered(&mut p);
                }
                if s.chance(1, 8) {
                    g.spoil(s, &mut p);
                } else {
                    said.push(p.clone());
                }
                let own = s.chance(1, 3);
                ops.push(Op::Write(Box::new(p), own));
            }
            if s.chance(1, 6) {
                ops.push(Op::Drain(s.usize(100)));
            }
            if s.chance(1, 8) {
                ops.push(Op::DropOldest);
            }
        }
        for _ in 0..s.range(2, 12) {
            ops.push(Op::Read(None));
        }
        all.push(Script { build, ops });
    }
    all
}

/// A connection as a server holds it.
pub struct Exec {
    build: Build,
    inb: BytesMut,
    out: BytesMut,
    held: VecDeque<Held>,
    /// Whether anybody wants to know what the operations did.
    told: bool,
}

struct Hasher(u64);
impl std::fmt::Write for Hasher {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.as_bytes().chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = mix(self.0 ^ u64::from_le_bytes(w) ^ (c.len() as u64) << 60);
        }
        Ok(())
    }
}
fn digest(x: impl std::fmt::Debug) -> u64 {
    use std::fmt::Write;
    let mut h = Hasher(1);
    write!(h, "{x:?}").unwrap();
    h.0
}
pub fn digest_bytes(b: &[u8]) -> u64 {
    b.chunks(8).fold(b.len() as u64, |h, c| {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        mix(h ^ u64::from_le_bytes(w))
    })
}

impl Exec {
    pub fn new(build: Build) -> Self {
        Exec { build, inb: BytesMut::new(), out: BytesMut::new(), held: Default::default(), told: true }
    }
    /// Executes one operation; everything the connection can see of it goes into the result.
    pub fn step(&mut self, op: &Op) -> u64 {
        let r = match op {
            Op::Arrive(b) => {
                self.inb.extend_from_slice(b);
                0
            }
            Op::Read(limit) => {
                let n = self.inb.len();
                match builds::read(self.build, &mut self.inb, *limit) {
                    Err(p) => digest(&p),
                    Ok((Ok(h), _)) => {
                        let d = if self.told { digest(h.model()) } else { 0 };
                        self.held.push_back(h);
                        d
                    }
                    Ok((Err(e), _)) => {
                        let d = digest(&e);
                        if self.inb.len() == n && n > 0 && !matches!(e, E::Insufficient(_)) {
                            self.inb.advance(1);
                        }
                        d
                    }
                }
            }
            Op::Check(limit) => digest(builds::check(self.build, &self.inb, *limit)),
            Op::Write(p, own) => {
                let n = self.out.len();
                let h = builds::make(self.build, p);
                let size = h.size();
                let r = h.write(&mut self.out, *own);
                if !matches!(r, Ok(Ok(_))) {
                    self.out.truncate(n);
                }
                digest((size, r))
            }
            Op::Drain(k) => {
                let k = (*k).min(self.out.len());
                let b = self.out.split_to(k).freeze();
                digest_bytes(&b)
            }
            Op::DropOldest => self.held.pop_front().map_or(0, |h| digest(h.model())),
        };
        if !self.told {
            return 0;
        }
        mix(r ^ mix(digest_bytes(&self.inb) ^ mix(digest_bytes(&self.out))))
    }
}

fn alone(sc: &Script) -> Vec<u64> {
    let mut e = Exec::new(sc.build);
    sc.ops.iter().map(|o| e.step(o)).collect()
}

/// `sim solo`: executes one connection of a script in a process that has done nothing else.
pub fn solo_main() {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let v: Vec<u64> = t.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let k = v[0] as usize;
    let mut s = Src::replaying(v[1..].to_vec());
    let sc = draw(&mut s, (2, 4), 2, 0);
    let d: Vec<String> = alone(&sc[k]).iter().map(u64::to_string).collect();
    println!("{}", d.join(" "));
}

fn in_child(k: usize, log: &[u64]) -> Vec<u64> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("solo")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("spawn solo");
    let l: Vec<String> = std::iter::once(k as u64).chain(log.iter().copied()).map(|x| x.to_string()).collect();
    c.stdin.take().unwrap().write_all(l.join(" ").as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() {
        // A crash of the child is a difference like any other.
        return vec![u64::MAX];
    }
    String::from_utf8(o.stdout).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect()
}


type History = (Vec<Vec<u64>>, Vec<u64>);

fn in_turn(cx: &mut Cx, sc: &[Script], threads: usize, sticky: u64, past: &Past) -> History {
    // One baton: an operation runs on the thread the schedule names, and nothing else runs.
    let mut got: Vec<Vec<u64>> = vec![Vec::new(); sc.len()];
    let mut order = Vec::new();
    std::thread::scope(|scope| {
        let mut lanes = Vec::new();
        for t in 0..threads {
            let (tx, rx) = mpsc::channel::<(Exec, Op)>();
            let (btx, brx) = mpsc::channel::<(Exec, u64)>();
            let (rtx, ready) = mpsc::channel();
            scope.spawn(move || {
                if t == 0 {
                    past.live();
                }
                rtx.send(()).expect("ready");
                for (mut e, op) in rx {
                    let d = e.step(&op);
                    if btx.send((e, d)).is_err() {
                        return;
                    }
                }
            });
            ready.recv().expect("lane");
            lanes.push((tx, brx));
        }
        let mut st: Vec<Option<Exec>> = sc.iter().map(|c| Some(Exec::new(c.build))).collect();
        let mut k = 0;
        loop {
            let open: Vec<usize> = (0..sc.len()).filter(|i| got[*i].len() < sc[*i].ops.len()).collect();
            if open.is_empty() {
                break;
            }
            if !open.contains(&k) || cx.s.below(8) >= sticky {
                k = *cx.s.pick(&open);
            }
            let t = cx.s.usize(threads);
            let op = sc[k].ops[got[k].len()].clone();
            let (id, n) = (k as u64, got[k].len() as u64);
            let text = op.brief();
            cx.ev(20, id, n ^ (t as u64) << 32, || format!("connection {id} on thread {t}: {text}"));
            cx.seen(12, id ^ (t as u64) << 8, order.iter().rev().take(3).fold(0, |a, b| mix(a ^ *b)));
            order.push(id << 4 | t as u64);
            lanes[t].0.send((st[k].take().unwrap(), op)).expect("lane");
            let (e, d) = lanes[t].1.recv().expect("lane");
            st[k] = Some(e);
            got[k].push(d);
            cx.now += 100;
            cx.hit("op:interleaved");
        }
    });
    (got, order)
}

/// Enough branches for any call. One that takes more waits, spinning, for another lane.
const WHOLE: u64 = 1 << 20;

/// Operations of several connections under way at once: the scheduler takes the processor from
/// one in the middle of a codec call, at any branch of the crate, and gives it to another.
fn preempted(cx: &mut Cx, sc: &[Script], threads: usize, past: &Past) -> History {
    let mut got: Vec<Vec<u64>> = vec![Vec::new(); sc.len()];
    let mut order = Vec::new();
    let lanes: Vec<Lane> = (0..threads).map(|_| Lane::new()).collect();
    let reach = *cx.s.pick(&[4u64, 40, 400, 0, 1, 1]);
    // Without a reach: one connection is stopped somewhere in a call, others complete some
    // calls, it goes on.
    let mut held: Option<(usize, u64)> = None;
    let mut depth = 1;
    // A reach of one: two connections are brought to about the same place of the same operation,
    // move on side by side in steps of a few branches, and complete it.
    let mut pair: VecDeque<(usize, usize, u64)> = VecDeque::new();
    let mut steps = 0;
    let mut still = 0;
    std::thread::scope(|scope| {
        let mut wires = Vec::new();
        for (t, l) in lanes.iter().enumerate() {
            let (tx, rx) = mpsc::channel::<(Exec, Op, u64)>();
            let (btx, brx) = mpsc::channel::<(Exec, u64)>();
            let (rtx, ready) = mpsc::channel();
            scope.spawn(move || {
                l.enter();
                if t == 0 {
                    past.live();
                }
                rtx.send(()).expect("ready");
                for (mut e, op, grant) in rx {
                    let d = l.work(grant, || e.step(&op));
                    if btx.send((e, d)).is_err() {
                        return;
                    }
                    l.done();
                }
            });
            ready.recv().expect("lane");
            wires.push((tx, brx));
        }
        let mut st: Vec<Option<Exec>> = sc.iter().map(|c| Some(Exec::new(c.build))).collect();
        // The connection each lane is working for.
        let mut busy: Vec<Option<usize>> = vec![None; threads];
        loop {
            for t in 0..threads {
                if let Some(k) = busy[t] {
                    if lanes[t].phase() == Phase::Idle {
                        let (e, d) = wires[t].1.recv().expect("lane");
                        st[k] = Some(e);
                        got[k].push(d);
                        busy[t] = None;
                    }
                }
            }
            // What can be done now: go on in the middle of a call, or begin another one.
            let mut can: Vec<(usize, Option<usize>)> = Vec::new();
            for t in 0..threads {
                match lanes[t].phase() {
                    Phase::Paused => can.push((t, None)),
                    // One that became idle just now hands over its result first.
                    Phase::Idle if busy[t].is_none() => {
                        let idle = (0..sc.len()).filter(|k| st[*k].is_some() && got[*k].len() < sc[*k].ops.len());
                        can.extend(idle.map(|k| (t, Some(k))));
                    }
                    _ => {}
                }
            }
            if can.is_empty() {
                match (0..threads).find(|t| busy[*t].is_some()) {
                    // Waits for something: a lane that is done, or frees it, lets it go on.
                    Some(t) => {
                        still += 1;
                        if lanes[t].settle() != Phase::Stuck {
                            still = 0;
                        } else if still > 200 {
                            // Each lane sleeps, on what another one holds or a wake-up that was
                            // lost. Its threads cannot be ended: the process is.
                            eprintln!("no lane can go on: deadlock");
                            std::process::abort();
                        }
                        continue;
                    }
                    None => break,
                }
            }
            still = 0;
            if let Some((t, n)) = held {
                let others = can.iter().any(|c| c.0 != t);
                can.retain(|c| if n > 0 && others { c.0 != t } else { c.0 == t || !others });
                if can.is_empty() {
                    held = None;
                    continue;
                }
            }
            let part = |s: &mut Src| {
                let n = s.range(1, 11);
                1 + s.below(1 << n)
            };
            let mut side = None;
            if reach == 1 {
                if pair.is_empty() && busy.iter().all(|b| b.is_none()) {
                    let open: Vec<usize> = (0..sc.len()).filter(|k| got[*k].len() < sc[*k].ops.len()).collect();
                    let a = *cx.s.pick(&open);
                    let mut with: Vec<usize> = open.into_iter().filter(|k| *k != a).collect();
                    let level: Vec<usize> = with.iter().copied().filter(|k| got[*k].len() == got[a].len()).collect();
                    if !level.is_empty() {
                        with = level;
                    }
                    depth = part(&mut cx.s);
                    pair.push_back((0, a, depth));
                    if !with.is_empty() {
                        let b = *cx.s.pick(&with);
                        pair.push_back((1, b, (depth + cx.s.below(17)).saturating_sub(8).max(1)));
                    }
                    steps = 24;
                }
                side = pair.pop_front().map(|(t, k, g)| (t, Some(k), g));
                if side.is_none() {
                    if can.iter().any(|c| c.1.is_none()) {
                        can.retain(|c| c.1.is_none());
                    }
                    let (t, k) = *cx.s.pick(&can);
                    let small = k.is_none() && steps > 0;
                    steps -= small as u64;
                    side = Some((t, k, if small { 1 + cx.s.below(4) } else { WHOLE }));
                }
            }
            let (t, k) = match side {
                Some((t, k, _)) => (t, k),
                None => *cx.s.pick(&can),
            };
            let grant = match (reach, held) {
                (1, _) => side.unwrap().2,
                (0, Some((h, n))) if h != t => match cx.s.below(6) {
                    // Another stops as well, perhaps at about the same place, and the first
                    // goes on.
                    4 => {
                        held = Some((h, 0));
                        (depth + cx.s.below(9)).saturating_sub(4).max(1)
                    }
                    5 => {
                        held = Some((h, 0));
                        part(&mut cx.s)
                    }
                    _ => {
                        held = Some((h, n.saturating_sub(1)));
                        WHOLE
                    }
                },
                (0, _) => {
                    held = Some((t, cx.s.range(1, 6)));
                    if cx.s.chance(1, 4) {
                        WHOLE
                    } else {
                        depth = part(&mut cx.s);
                        depth
                    }
                }
                _ => match cx.s.below(4) {
                    0 => WHOLE,
                    1 => 1 + cx.s.below(4),
                    _ => 1 + cx.s.below(reach),
                },
            };
            match k {
                Some(k) => {
                    let op = sc[k].ops[got[k].len()].clone();
                    let text = op.brief();
                    cx.ev(24, k as u64 ^ (t as u64) << 32, grant, || {
                        format!("connection {k} on thread {t}, up to {grant} branches: {text}")
                    });
                    busy[t] = Some(k);
                    lanes[t].starting();
                    wires[t].0.send((st[k].take().unwrap(), op, grant)).expect("lane");
                    cx.hit("op:interleaved");
                }
                None => {
                    cx.ev(25, t as u64, grant, || format!("thread {t} goes on, up to {grant} branches"));
                    lanes[t].resume(grant);
                    cx.hit("op:resumed inside a call");
                }
            }
            let k = busy[t].unwrap() as u64;
            order.push(k << 4 | t as u64);
            match lanes[t].settle() {
                Phase::Paused => cx.fault("fault:preempted inside a call"),
                Phase::Stuck => cx.hit("lane waits for another"),
                _ => {
                    if held.is_some_and(|h| h.0 == t) {
                        held = None;
                    }
                }
            }
            for (u, l) in lanes.iter().enumerate() {
                if u != t && busy[u].is_some() {
                    l.rouse();
                }
            }
            cx.seen(12, k ^ (t as u64) << 8, order.iter().rev().take(3).fold(1, |a, b| mix(a ^ *b)));
            cx.now += 100;
        }
    });
    (got, order)
}

/// C12: connections interleaved over threads against each of them alone.
pub fn apart(cx: &mut Cx) -> Res {
    let aged = cx.s.log[0] == crate::props::AGED;
    let past = if aged { Past::draw(cx, 100_000) } else { Past::default() };
    let from = cx.s.log.len();
    let sc = draw(&mut cx.s, (2, 4), 2, 0);
    let log = cx.s.log[from..].to_vec();
    let fresh = cx.s.chance(1, 12) || aged;
    let first = cx.s.chance(1, 2);
    let inside = cx.s.chance(1, 2);
    let threads = cx.s.range(if inside { 2 } else { 1 }, 3) as usize;
    let sticky = *cx.s.pick(&[0u64, 4, 7]);
    let solo = |cx: &mut Cx| -> Vec<Vec<u64>> {
        sc.iter()
            .enumerate()
            .map(|(k, c)| {
                if fresh {
                    cx.hit("solo:fresh process");
                    in_child(k, &log)
                } else {
                    cx.hit("solo:fresh thread");
                    std::thread::scope(|s| s.spawn(|| alone(c)).join()).expect("solo thread")
                }
            })
            .collect()
    };
    let mut want = Vec::new();
    if first {
        want = solo(cx);
    }
    let (got, order) = if inside {
        preempted(cx, &sc, threads, &past)
    } else {
        in_turn(cx, &sc, threads, sticky, &past)
    };
    cx.add("simulated microseconds", cx.now);
    cx.nontrivial = order.windows(2).any(|w| w[0] >> 4 != w[1] >> 4);
    if !first {
        want = solo(cx);
    }
    for k in 0..sc.len() {
        if want[k] != got[k] {
            let at = want[k].iter().zip(&got[k]).take_while(|(a, b)| a == b).count();
            let op = sc[k].ops.get(at).map_or("end".into(), Op::brief);
            return viol(
                "connections influence one another",
                format!(
                    "connection {k} of {} ({:?} build): operation {at} ({op}) has another outcome than when the connection is \
                     served alone{}",
                    sc.len(),
                    sc[k].build,
                    if fresh { " in a fresh process" } else { " on a fresh thread" }
                ),
            );
        }
    }
    Ok(())
}

/// A long history of other connections, good and bad, on the thread that is to go on.
#[derive(Default)]
pub struct Past {
    frames: Vec<Vec<u8>>,
    packets: Vec<P>,
    rounds: u64,
}

impl Past {
    pub fn draw(cx: &mut Cx, work: u64) -> Past {
        let s = &mut cx.s;
        let g = Gen::draw(s, &[1, 0, 0, 0]);
        let damage = *s.pick(&[0, 3, 6, 8]);
        let mut p = Past::default();
        for _ in 0..s.range(1, 16) {
            let q = g.packet(s);
            let f = encode(&q, Style { order: s.below(1 << 16), short: s.below(3) as u8 });
            p.packets.push(q);
            p.frames.push(if s.below(8) >= 8 - damage { forged(s, &f, true) } else { f });
        }
        let cost: usize = p.frames.iter().map(|f| 1 + f.len() / 64).sum();
        p.rounds = work / cost as u64 + 1;
        let (n, r) = (p.frames.len(), p.rounds);
        cx.ev(26, r, digest(&p.frames), || format!("{n} frames have been read, {n} packets written {r} times in each build before"));
        cx.fault("fault:old process");
        p
    }
    pub fn live(&self) {
        for build in BUILDS {
            let made: Vec<Held> = self.packets.iter().map(|p| builds::make(build, p)).collect();
            let mut b = BytesMut::new();
            for _ in 0..self.rounds {
                for f in &self.frames {
                    b.clear();
                    b.extend_from_slice(f);
                    let _ = builds::read(build, &mut b, None);
                }
                for m in &made {
                    b.clear();
                    let _ = m.write(&mut b, false);
                }
            }
        }
    }
}

/// C16: the same script twice, and in turn with one that says the same in longer words; in the
/// end nothing may be left behind.
pub fn leaks(cx: &mut Cx) -> Res {
    let damage = *cx.s.pick(&[0, 3, 6]);
    let from = cx.s.log.len();
    let short = draw(&mut cx.s, (1, 3), damage, 0);
    let mut again = Src::replaying(cx.s.log[from..].to_vec());
    let long = draw(&mut again, (1, 3), damage, 100 + cx.s.usize(400));
    for (k, c) in short.iter().enumerate() {
        for (i, o) in c.ops.iter().enumerate() {
            cx.now += 100;
            cx.ev(21, k as u64, i as u64 ^ digest(o), || format!("connection {k}, again and again: {}", o.brief()));
        }
        cx.add("op:executed several times", c.ops.len() as u64);
    }
    cx.nontrivial = damage > 0;
    cx.add("simulated microseconds", cx.now);
    let go = |all: &[Script]| {
        for c in all {
            let mut e = Exec { told: false, ..Exec::new(c.build) };
            for o in &c.ops {
                e.step(o);
            }
        }
    };
    let kept = |all: &[Script]| measure(|| go(all)).1.kept;
    go(&short);
    if kept(&short) != 0 {
        // Once more, so that only a steady loss counts.
        let n = kept(&short);
        if n > 0 {
            return viol(
                "memory not released",
                format!("{n} bytes stay allocated after every packet and buffer of the run was dropped"),
            );
        }
    }
    go(&long);
    let turns: Vec<isize> = (0..4).map(|i| kept(if i % 2 == 0 { &short } else { &long })).collect();
    if (turns[0] != 0 || turns[1] != 0) && turns[..2] == turns[2..] {
        return viol(
            "memory not released",
            format!(
                "what stays allocated after every packet and buffer was dropped changes by {} and {} bytes with what was said \
                 last: something of it is kept",
                turns[0], turns[1]
            ),
        );
    }
    let _ = live();
    Ok(())
}

/// An incomplete or refused frame read over and over keeps nothing more.
pub fn steady(build: Build, buf: &[u8], limit: Option<usize>, room: usize) -> Option<isize> {
    let mut b = BytesMut::with_capacity(buf.len() + room);
    b.extend_from_slice(buf);
    let _ = builds::read(build, &mut b, limit);
    let (_, m) = measure(|| {
        for _ in 0..64 {
            let _ = builds::read(build, &mut b, limit);
        }
    });
    (m.kept > 1024).then_some(m.kept)
}

/// Announced lengths far beyond what arrives: a header, a few bytes, reads at every moment.
pub fn announce(cx: &mut Cx, orc: &mut dyn Oracle) -> Res {
    let mut cfg = BASE.clone();
    cfg.pipes = (1, 1);
    cfg.packets = (0, 0);
    let mut w = World::draw(cx, &cfg);
    let kind = cx.s.range(0, 15) as u8;
    let len = match cx.s.below(3) {
        0 => cx.s.below(268_435_456),
        1 => *cx.s.pick(&[127u64, 128, 16_383, 16_384, 65_535, 65_536, 2_097_151, 2_097_152, 268_435_454, 268_435_455]),
        _ => cx.s.below(70_000),
    };
    let mut f = vec![kind << 4 | *cx.s.pick(&[0u8, 2, 2, 3])];
    crate::refcodec::put_var(&mut f, len);
    let body = cx.s.below(len.min(40) + 1) as usize;
    // Often something that looks like the beginning of a proper body.
    let b = if cx.s.chance(1, 2) { vec![0; body] } else { noise(cx.s.below(1 << 16), body) };
    f.extend(b);
    w.pipes[0].write_raw(cx, &f, None, "a peer that announces more than it sends");
    cx.fault("fault:announced and not sent");
    while !w.pipes[0].queued.is_empty() {
        cx.now += 1000;
        w.pipes[0].flush(cx, Damage::None);
        while let Some((_, seg)) = w.pipes[0].flight.pop_front() {
            w.pipes[0].arrive(cx, &seg.copy);
            for _ in 0..cx.s.range(1, 2) {
                let l = len as usize;
                w.pipes[0].limit = match cx.s.below(6) {
                    0 | 1 => None,
                    2 => Some(l),
                    3 => Some(l.saturating_sub(1)),
                    4 => Some(l + 1),
                    _ => Some(cx.s.usize(70_000)),
                };
                orc.peek(cx, &w, 0)?;
                let o = w.pipes[0].read(cx);
                orc.read(cx, &w, 0, &o)?;
                if let Err(p) = &o.res {
                    return viol("panic", format!("reading panicked: {}", p.0));
                }
                if o.removed != Some(0) {
                    return Ok(());
                }
            }
        }
    }
    cx.add("simulated microseconds", cx.now);
    let _: Head = head(&[]);
    Ok(())
}
