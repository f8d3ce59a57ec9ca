//! What each property's check looks at. Every oracle judges its own property only: a tree
//! that breaks another one does not make it speak.
use crate::builds::{self, Build, Held, BUILDS, E};
use crate::engine::*;
use crate::model::*;
use crate::script;
use crate::refcodec::{decode, head, remaining_len, text_in_doubt, Head, V};
use crate::src::mix;
use bytes::BytesMut;

/// The first difference between two packets, for messages.
pub fn diff(want: &P, got: &P) -> String {
    if remaining_len(want).max(remaining_len(got)) > 4_000_000 {
        return format!("expected {}, got {}", want.brief(), got.brief());
    }
    let (a, b) = (format!("{want:?}"), format!("{got:?}"));
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let from = (0..=i.saturating_sub(60).min(s.len())).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
        let to = (from + 200).min(s.len());
        let to = (0..=to).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
        s[from..to].to_string()
    };
    format!("expected …{}… got …{}…", cut(&a), cut(&b))
}

fn outcome(o: &ReadObs) -> &'static str {
    match &o.res {
        Err(_) => "panic",
        Ok(Ok(_)) => "delivered",
        Ok(Err(E::Insufficient(_))) => "incomplete",
        Ok(Err(E::TooBig { .. })) => "too big",
        Ok(Err(E::BadLen)) => "bad length",
        Ok(Err(E::NotUtf8)) => "not UTF-8",
        Ok(Err(E::Other(_))) => "rejected",
    }
}

pub fn write_panic(o: &WriteObs) -> Res {
    if let Err(p) = &o.res {
        return viol("panic in write", format!("writing {} panicked: {}", o.p.brief(), p.0));
    }
    if let Err(p) = &o.size {
        return viol("panic in size", format!("size of {} panicked: {}", o.p.brief(), p.0));
    }
    Ok(())
}

/// A proper frame at the front of the buffer is delivered as it was meant.
fn delivers(w: &World, pipe: usize, o: &ReadObs, prop: &str) -> Res {
    let p = &w.pipes[pipe];
    if o.had == 0 {
        if matches!(o.res, Ok(Ok(_))) {
            return viol(format!("{prop}: delivery from nothing"), "a packet was delivered from an empty buffer");
        }
        return Ok(());
    }
    let Some(i) = o.item else {
        return viol(
            format!("{prop}: framing lost"),
            format!("pipe {pipe}: the reader stands at byte {} of the stream, where no packet begins", o.at),
        );
    };
    let it = &p.items[i];
    let whole = it.end - o.at <= o.had;
    let Some(want) = &it.p else { return Ok(()) };
    match &o.res {
        Ok(Ok(h)) => {
            if !whole {
                return viol(format!("{prop}: early delivery"), format!("pipe {pipe}: packet {i} delivered before its last byte"));
            }
            let got = h.model();
            if got != *want {
                return viol(
                    format!("{prop}: {} changed", kind_name(want.kind())),
                    format!("pipe {pipe}: packet {i} ({:?} build reads): {}", p.rb, diff(want, &got)),
                );
            }
            if o.removed != Some(it.end - it.start) {
                return viol(
                    format!("{prop}: left over"),
                    format!("pipe {pipe}: packet {i} has {} bytes, {:?} were removed", it.end - it.start, o.removed),
                );
            }
            Ok(())
        }
        Ok(Err(e)) if whole => viol(
            format!("{prop}: {} not delivered", kind_name(want.kind())),
            format!("pipe {pipe}: packet {i} arrived whole and was answered with {e:?}: {}", want.brief()),
        ),
        Ok(Err(_)) if o.removed != Some(0) => viol(
            format!("{prop}: bytes of an incomplete packet removed"),
            format!("pipe {pipe}: packet {i} is incomplete, {:?} bytes were removed", o.removed),
        ),
        _ => Ok(()),
    }
}

fn all_read(w: &World, prop: &str) -> Res {
    for p in &w.pipes {
        let n = p.items.iter().filter(|i| i.read).count();
        if n != p.items.len() || p.taken != p.stream.len() {
            return viol(
                format!("{prop}: not everything delivered"),
                format!(
                    "pipe {}: {} of {} packets delivered, {} of {} bytes left over",
                    p.id,
                    n,
                    p.items.len(),
                    p.stream.len() - p.taken,
                    p.stream.len()
                ),
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C01, C09

/// In order, once each, equal, nothing left.
pub struct Delivery(pub &'static str);
impl Oracle for Delivery {
    fn wrote(&mut self, _: &mut Cx, _: &World, _: usize, o: &WriteObs) -> Res {
        write_panic(o)
    }
    fn read(&mut self, _: &mut Cx, w: &World, i: usize, o: &ReadObs) -> Res {
        delivers(w, i, o, self.0)
    }
    fn end(&mut self, _: &mut Cx, w: &World) -> Res {
        all_read(w, self.0)
    }
}

// ---------------------------------------------------------------- C02

pub struct Waiting;
impl Oracle for Waiting {
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        let p = &w.pipes[pipe];
        // What the frame still lacks, from its head alone and (where known) from what was sent.
        let known = o.item.map(|i| p.items[i].end - o.at);
        let whole = matches!(o.head, Head::Whole { .. });
        match &o.res {
            Ok(Err(E::Insufficient(n))) => {
                if whole {
                    return viol(
                        "waits with the frame complete",
                        format!("pipe {pipe}: the frame at {} is complete, the read reports {n} bytes missing", o.at),
                    );
                }
                if o.removed != Some(0) {
                    return viol(
                        "waiting changes the buffer",
                        format!("pipe {pipe}: {n} bytes missing, but {:?} bytes were removed", o.removed),
                    );
                }
                if *n == 0 {
                    return viol("zero bytes missing", format!("pipe {pipe}: reports 0 bytes missing at {}", o.at));
                }
                if let Head::Partial { header, remaining } = o.head {
                    let lack = header + remaining - o.had;
                    if *n != lack {
                        return viol(
                            "wrong count with the length known",
                            format!("pipe {pipe}: frame of {} bytes, {} here, {n} reported missing", header + remaining, o.had),
                        );
                    }
                    cx.hit("hint:exact");
                } else if let Some(l) = known {
                    if *n > l - o.had.min(l) {
                        return viol(
                            "waits for too much",
                            format!("pipe {pipe}: {} of {l} bytes here, {n} reported missing", o.had),
                        );
                    }
                    cx.hit("hint:header incomplete");
                }
                Ok(())
            }
            Ok(r) => {
                let refused = o.limit.is_some_and(|l| o.head.remaining().is_some_and(|r| r > l));
                if matches!(o.head, Head::Short | Head::Partial { .. }) && !refused {
                    return viol(
                        "incomplete frame not waited for",
                        format!(
                            "pipe {pipe}: {} bytes of an incomplete frame answered with {}",
                            o.had,
                            match r {
                                Ok(h) => h.model().brief(),
                                Err(e) => format!("{e:?}"),
                            }
                        ),
                    );
                }
                Ok(())
            }
            Err(_) => Ok(()),
        }
    }
    fn starved(&mut self, _: &mut Cx, w: &World, pipe: usize) -> Res {
        let p = &w.pipes[pipe];
        if let Some(i) = p.item_at(p.taken) {
            if p.items[i].end <= p.arrived {
                return viol(
                    "starved",
                    format!(
                        "pipe {pipe}: everything has arrived, the reader that waits for the reported count lacks {} more bytes",
                        p.need
                    ),
                );
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C03

pub struct Removal;
impl Oracle for Removal {
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        let p = &w.pipes[pipe];
        let want = match o.head {
            Head::Whole { header, remaining } if o.limit.map_or(true, |l| remaining <= l) => header + remaining,
            _ => 0,
        };
        if matches!(o.res, Err(_)) {
            return Ok(());
        }
        if o.removed != Some(want) {
            return viol(
                format!("removes the wrong bytes: {}", outcome(o)),
                format!(
                    "pipe {pipe}: {} bytes in the buffer, frame {:?}, limit {:?}: {} and {:?} bytes removed, expected {want}",
                    o.had,
                    o.head,
                    o.limit,
                    o.what(),
                    o.removed
                ),
            );
        }
        if want == 0 && matches!(o.res, Ok(Ok(_))) {
            return viol("delivers without a frame", format!("pipe {pipe}: {} with frame {:?}", o.what(), o.head));
        }
        if w.cfg.damage == Damage::Hostile {
            return Ok(());
        }
        if let Some(i) = o.item {
            let it = &p.items[i];
            if want > 0 && !it.damaged {
                if let Some(pk) = &it.p {
                    cx.hit("undamaged neighbours read");
                    match &o.res {
                        Ok(Ok(h)) if h.model() == *pk => {}
                        _ => {
                            return viol(
                                "undamaged packet lost",
                                format!("pipe {pipe}: packet {i} was not damaged, but: {}", o.what()),
                            )
                        }
                    }
                }
            } else if want > 0 {
                cx.hit("damaged frames read");
            }
        }
        Ok(())
    }
    fn end(&mut self, _: &mut Cx, w: &World) -> Res {
        if w.cfg.damage != Damage::Hostile {
            all_read(w, "stream")?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C04

pub struct Survival;
impl Oracle for Survival {
    fn wrote(&mut self, _: &mut Cx, _: &World, _: usize, o: &WriteObs) -> Res {
        write_panic(o)
    }
    fn peek(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        let p = &w.pipes[pipe];
        cx.hit("op:check");
        if let Err(e) = builds::check(p.rb, p.buffered(), p.limit) {
            return viol("panic in check", format!("pipe {pipe}: the frame check panicked: {}", e.0));
        }
        if let Head::Whole { header, remaining } = head(p.buffered()) {
            cx.hit("op:direct");
            if let Err(e) = builds::direct(p.rb, &p.buffered()[..header + remaining], p.limit) {
                return viol("panic in a packet's reader", format!("pipe {pipe}: the packet's own reader panicked: {}", e.0));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

pub struct Limit;
impl Oracle for Limit {
    fn read(&mut self, cx: &mut Cx, _: &World, pipe: usize, o: &ReadObs) -> Res {
        let over = match (o.head.remaining(), o.limit) {
            (Some(r), Some(l)) if r > l => Some((r, l)),
            _ => None,
        };
        match (&o.res, over) {
            (Err(_), _) => Ok(()),
            (Ok(Err(E::TooBig { size, max })), Some((r, l))) => {
                cx.hit(if matches!(o.head, Head::Partial { .. }) { "limit:refused early" } else { "limit:refused whole" });
                if (*size, *max) != (r, l) {
                    return viol(
                        "refusal names the wrong sizes",
                        format!("pipe {pipe}: length {r}, limit {l}; the refusal says {size} and {max}"),
                    );
                }
                if o.removed != Some(0) {
                    return viol("refusal removes bytes", format!("pipe {pipe}: refused, {:?} bytes removed", o.removed));
                }
                Ok(())
            }
            (Ok(_), Some((r, l))) => viol(
                format!("over the limit: {}", outcome(o)),
                format!("pipe {pipe}: length {r}, limit {l}, {} bytes here: {}", o.had, o.what()),
            ),
            (Ok(Err(E::TooBig { size, max })), None) => viol(
                "refused for size below the limit",
                format!("pipe {pipe}: frame {:?}, limit {:?}, refused with {size} over {max}", o.head, o.limit),
            ),
            (Ok(_), None) => {
                if let (Some(r), Some(l)) = (o.head.remaining(), o.limit) {
                    if r == l {
                        cx.hit("limit:exactly met");
                    }
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C06

pub struct Appending;
impl Oracle for Appending {
    fn wrote(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &WriteObs) -> Res {
        write_panic(o)?;
        if !o.intact {
            return viol(
                format!("queued bytes changed by {}", kind_name(o.p.kind())),
                format!("pipe {pipe}: writing {} changed bytes already queued ({} of them)", o.p.brief(), o.queued),
            );
        }
        let Ok(Ok(n)) = &o.res else { return Ok(()) };
        if o.queued > 0 {
            cx.hit("write:onto queued bytes");
        }
        if *n != o.new.len() {
            return viol(
                format!("count wrong for {}", kind_name(o.p.kind())),
                format!("pipe {pipe}: {n} returned, {} bytes appended for {}", o.new.len(), o.p.brief()),
            );
        }
        if let Ok(Some(k)) = &o.size {
            if *k != o.new.len() {
                return viol(
                    format!("size wrong for {}", kind_name(o.p.kind())),
                    format!("pipe {pipe}: size says {k}, {} bytes appended for {}", o.new.len(), o.p.brief()),
                );
            }
        }
        let b = w.pipes[pipe].wb;
        let mut fresh = BytesMut::new();
        let r = builds::make(b, &o.p).write(&mut fresh, !o.own);
        if !matches!(r, Ok(Ok(_))) || fresh[..] != o.new[..] {
            return viol(
                format!("queue-dependent bytes for {}", kind_name(o.p.kind())),
                format!(
                    "pipe {pipe}: after {} queued bytes {} was written, to an empty buffer {} ({r:?})",
                    o.queued,
                    hex(&o.new),
                    hex(&fresh)
                ),
            );
        }
        Ok(())
    }
    fn tick(&mut self, _: &mut Cx, w: &World) -> Res {
        for p in &w.pipes {
            if p.out[..] != p.queued[..] {
                return viol("queued bytes changed", format!("pipe {}: queued bytes changed between operations", p.id));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C07

/// One writer's history: what was written, with the digest of what each write appended.
#[derive(Default)]
struct Told {
    done: Vec<(P, bool, usize, u64)>,
    /// The number of writes that preceded the first refused one.
    refused: Option<usize>,
    bytes: usize,
}

#[derive(Default)]
pub struct Refusal {
    told: Vec<Told>,
}
impl Oracle for Refusal {
    fn wrote(&mut self, cx: &mut Cx, _: &World, pipe: usize, o: &WriteObs) -> Res {
        write_panic(o)?;
        if self.told.len() <= pipe {
            self.told.resize_with(pipe + 1, Told::default);
        }
        let t = &mut self.told[pipe];
        t.bytes += o.new.len();
        match &o.res {
            // Giants are written once.
            _ if t.bytes > 1 << 20 => t.done.clear(),
            Ok(Ok(_)) => t.done.push((o.p.clone(), o.own, o.new.len(), script::digest_bytes(&o.new))),
            _ => {
                t.refused.get_or_insert(t.done.len());
            }
        }
        match (&o.res, o.spoiled) {
            (Ok(Ok(_)), Some(how)) => {
                viol(format!("written although {how}"), format!("pipe {pipe}: {} was written", o.p.brief()))
            }
            (Ok(Err(_)), Some(how)) => {
                cx.hit(how);
                if !o.intact || !o.new.is_empty() {
                    return viol(
                        "refused write leaves bytes",
                        format!(
                            "pipe {pipe}: {how}: refused, but {} bytes were left behind{}: {}",
                            o.new.len(),
                            if o.intact { "" } else { " and queued bytes changed" },
                            o.p.brief()
                        ),
                    );
                }
                Ok(())
            }
            (Ok(Err(e)), None) => viol(
                format!("encodable {} refused", kind_name(o.p.kind())),
                format!("pipe {pipe}: {e:?} for {}", o.p.brief()),
            ),
            _ => Ok(()),
        }
    }
    /// The same writes without the refused ones give the same bytes.
    fn end(&mut self, cx: &mut Cx, w: &World) -> Res {
        for (pipe, t) in self.told.iter().enumerate() {
            let Some(first) = t.refused.filter(|f| *f < t.done.len()) else { continue };
            cx.hit("op:history replayed without its refusals");
            let mut out = BytesMut::new();
            for (i, (p, own, n, d)) in t.done.iter().enumerate() {
                let at = out.len();
                let r = builds::make(w.pipes[pipe].wb, p).write(&mut out, *own);
                let new = out.get(at..).unwrap_or_default();
                if i >= first && (!matches!(r, Ok(Ok(_))) || new.len() != *n || script::digest_bytes(new) != *d) {
                    return viol(
                        "refused write felt later",
                        format!(
                            "pipe {pipe}: write {i}, after a refused one, appended {n} bytes; the same writes without \
                             the refused ones give {r:?} and {}: {}",
                            hex(new),
                            p.brief()
                        ),
                    );
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C08

/// The independent peer reads what arrives.
#[derive(Default)]
pub struct Peer {
    at: Vec<(usize, usize)>,
}
impl Oracle for Peer {
    fn wrote(&mut self, _: &mut Cx, _: &World, _: usize, o: &WriteObs) -> Res {
        write_panic(o)
    }
    fn arrived(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        self.at.resize(w.pipes.len(), (0, 0));
        let p = &w.pipes[pipe];
        loop {
            let (pos, k) = self.at[pipe];
            let b = &p.stream[pos..p.arrived];
            match head(b) {
                Head::BadLen => return viol("peer: bad length", format!("pipe {pipe}: no frame at byte {pos}: {}", hex(b))),
                Head::Whole { header, remaining } => {
                    let f = &b[..header + remaining];
                    let want = p.items.get(k).and_then(|i| i.p.clone());
                    let (v, _) = decode(f, true);
                    match (v, want) {
                        (V::Valid(got), Some(want)) if got == want => {}
                        (V::Valid(got), Some(want)) => {
                            return viol(
                                format!("peer: {} changed", kind_name(want.kind())),
                                format!("pipe {pipe}: packet {k}: {}; on the wire {}", diff(&want, &got), hex(f)),
                            )
                        }
                        (V::Valid(got), None) => {
                            return viol("peer: extra packet", format!("pipe {pipe}: the peer reads {} that nobody sent", got.brief()))
                        }
                        (V::Bad(why), w) | (V::Open(why, _), w) => {
                            return viol(
                                format!("peer: {why} ({})", w.as_ref().map_or("nothing", |w| kind_name(w.kind()))),
                                format!(
                                    "pipe {pipe}: packet {k} ({}) is on the wire as {}: {why}",
                                    w.map_or("none".into(), |w| w.brief()),
                                    hex(f)
                                ),
                            )
                        }
                    }
                    cx.hit("frames read by the peer");
                    self.at[pipe] = (pos + header + remaining, k + 1);
                }
                _ => return Ok(()),
            }
        }
    }
    fn end(&mut self, _: &mut Cx, w: &World) -> Res {
        self.at.resize(w.pipes.len(), (0, 0));
        for p in &w.pipes {
            let (pos, k) = self.at[p.id];
            if k != p.items.len() || pos != p.stream.len() {
                return viol(
                    "peer: not everything understood",
                    format!("pipe {}: {k} of {} packets, {} bytes left", p.id, p.items.len(), p.stream.len() - pos),
                );
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C10

pub struct Strictness;
impl Oracle for Strictness {
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        let p = &w.pipes[pipe];
        match o.head {
            Head::Whole { header, remaining } if o.limit.map_or(true, |l| remaining <= l) => {
                let f = &p.stream[o.at..o.at + header + remaining];
                let (v, _) = decode(f, p.rb.utf8());
                match (&v, &o.res) {
                    (V::Bad(why), Ok(Ok(h))) => viol(
                        format!("delivered: {why} ({})", kind_name(f[0] >> 4)),
                        format!("pipe {pipe} ({:?} build): {} delivered from {}: {why}", p.rb, h.model().brief(), hex(f)),
                    ),
                    (V::Bad(why), _) => {
                        cx.hit(why);
                        cx.seen(u64::from(f[0] >> 4), 777, why.bytes().fold(0, |a, b| mix(a ^ u64::from(b))));
                        Ok(())
                    }
                    (V::Valid(want) | V::Open(_, Some(want)), Ok(Ok(h))) => {
                        let got = h.model();
                        if got != *want {
                            return viol(
                                format!("misread {}", kind_name(f[0] >> 4)),
                                format!("pipe {pipe} ({:?} build): {} from {}", p.rb, diff(want, &got), hex(f)),
                            );
                        }
                        cx.hit("damaged or not, read as received");
                        Ok(())
                    }
                    _ => Ok(()),
                }
            }
            Head::BadLen => match &o.res {
                Ok(Ok(h)) => viol("delivered: bad length", format!("pipe {pipe}: {}", h.model().brief())),
                Ok(Err(E::Insufficient(n))) => {
                    viol("waits on a bad length", format!("pipe {pipe}: {n} bytes reported missing from a malformed length"))
                }
                _ => {
                    cx.hit("length of five bytes at the front");
                    Ok(())
                }
            },
            _ => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- C11

#[derive(Default)]
pub struct Holding {
    held: Vec<(Held, P)>,
    n: u64,
    /// Other connections of the thread have much to do now and then.
    busy: Option<bool>,
}
impl Holding {
    fn verify(&self, i: usize) -> Res {
        let (h, p) = &self.held[i];
        let now = h.model();
        if now != *p {
            return viol("held packet changed", format!("a held {}: {}", kind_name(p.kind()), diff(p, &now)));
        }
        Ok(())
    }
}
impl Oracle for Holding {
    fn keep(&mut self, cx: &mut Cx, _: &World, _: usize, h: Held) {
        if cx.s.chance(7, 8) {
            let p = h.model();
            self.held.push((h, p));
            cx.hit("packets held");
        }
    }
    fn landed(&mut self, _: &mut Cx, _: &World, pipe: usize, s: &Seg) -> Res {
        if s.bytes[..] != s.copy[..] {
            return viol("sent bytes changed", format!("pipe {pipe}: a segment changed between sending and arriving"));
        }
        Ok(())
    }
    fn tick(&mut self, cx: &mut Cx, w: &World) -> Res {
        self.n += 1;
        let busy = *self.busy.get_or_insert_with(|| cx.s.chance(1, 64));
        if busy && self.held.len() > 2 && cx.s.chance(1, 16) {
            let work = 100 << cx.s.below(7);
            script::Past::draw(cx, work).live();
        }
        for p in &w.pipes {
            if p.out[..] != p.queued[..] {
                return viol("queued bytes changed", format!("pipe {}: bytes queued for sending changed", p.id));
            }
        }
        if !self.held.is_empty() {
            let i = (mix(self.n) % self.held.len() as u64) as usize;
            self.verify(i)?;
            cx.hit("held packets compared");
            if cx.s.chance(1, 8) {
                let i = cx.s.usize(self.held.len());
                self.verify(i)?;
                self.held.swap_remove(i);
                cx.hit("held packets dropped");
            }
        }
        Ok(())
    }
    fn end(&mut self, _: &mut Cx, _: &World) -> Res {
        for i in 0..self.held.len() {
            self.verify(i)?;
        }
        while self.held.len() > 1 {
            self.held.pop();
            self.verify(self.held.len() - 1)?;
            if self.held.len() > 40 {
                self.held.truncate(40);
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C13

fn answer(b: Build, buf: &[u8], limit: Option<usize>) -> (Result<Result<P, E>, String>, usize, bool) {
    let mut x = BytesMut::from(buf);
    let r = builds::read(b, &mut x, limit);
    let removed = buf.len() - x.len().min(buf.len());
    let tail = x[..] == buf[removed..];
    (r.map(|(r, _)| r.map(|h| h.model())).map_err(|p| p.0), removed, tail)
}

pub struct LockStep;
impl Oracle for LockStep {
    fn wrote(&mut self, cx: &mut Cx, _: &World, pipe: usize, o: &WriteObs) -> Res {
        let mut first = None;
        for b in BUILDS {
            let h = builds::make(b, &o.p);
            let mut x = BytesMut::new();
            let r = h.write(&mut x, o.own).map_err(|p| p.0);
            let s = h.size().map_err(|p| p.0);
            let all = (r.clone().map_err(|_| ()), s.clone().map_err(|_| ()), x.to_vec());
            match &first {
                None => first = Some(all),
                Some(f) => {
                    // After a refusal only the refusal itself is compared.
                    let same = f.0 == all.0 && f.1 == all.1 && (f.2 == all.2 || !matches!(f.0, Ok(Ok(_))));
                    if !same {
                        return viol(
                            format!("builds write {} differently", kind_name(o.p.kind())),
                            format!(
                                "pipe {pipe}: {:?} build: {r:?}, size {s:?}, {}; default build: {:?}, {:?}, {}; packet {}",
                                b,
                                hex(&x),
                                f.0,
                                f.1,
                                hex(&f.2),
                                o.p.brief()
                            ),
                        );
                    }
                }
            }
        }
        cx.hit("writes compared");
        Ok(())
    }
    fn peek(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        let p = &w.pipes[pipe];
        let buf = p.buffered();
        // Only what a read can look at matters; long tails are cut to keep this cheap.
        let buf = match head(buf) {
            Head::Whole { header, remaining } => &buf[..buf.len().min(header + remaining + 16)],
            _ => buf,
        };
        let first = answer(Build::Default, buf, p.limit);
        for b in [Build::Boxed, Build::Cow, Build::Binary] {
            let got = answer(b, buf, p.limit);
            let mut same = got == first || (got.0.is_err() && first.0.is_err());
            if !same && b == Build::Binary && got.1 == first.1 && got.2 == first.2 {
                if let Some(l) = head(buf).frame_len().filter(|l| *l <= buf.len()) {
                    if text_in_doubt(&buf[..l]) {
                        cx.hit("text not UTF-8: binary build excepted");
                        same = true;
                    }
                }
            }
            if !same {
                return viol(
                    format!("builds read {} differently", kind_name(buf.first().copied().unwrap_or(0) >> 4)),
                    format!(
                        "pipe {pipe}: limit {:?}, bytes {}: default build {:?} ({} removed), {b:?} build {:?} ({} removed)",
                        p.limit,
                        hex(buf),
                        first.0,
                        first.1,
                        got.0,
                        got.1
                    ),
                );
            }
        }
        cx.hit("reads compared");
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

pub struct Peeking;
impl Oracle for Peeking {
    fn peek(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        let p = &w.pipes[pipe];
        let buf = p.buffered();
        let c = match builds::check(p.rb, buf, p.limit) {
            Ok(c) => c,
            Err(e) => return viol("panic", format!("pipe {pipe}: the frame check panicked: {}", e.0)),
        };
        let (r, removed, _) = answer(p.rb, buf, p.limit);
        let r = match r {
            Ok(r) => r,
            Err(e) => return viol("panic", format!("pipe {pipe}: the read panicked: {e}")),
        };
        let at = |what: &str| format!("pipe {pipe}: limit {:?}, bytes {}: {what}: check {c:?}, read {r:?} removes {removed}", p.limit, hex(buf));
        match &c {
            Ok((len, ty)) => {
                cx.hit("check:frame");
                if removed != *len {
                    return viol("check and read disagree on the length", at("length"));
                }
                match (&r, ty) {
                    (Ok(q), Ok(t)) if q.kind() == *t => {}
                    (Ok(_), _) => return viol("check and read disagree on the type", at("type")),
                    (Err(_), _) => {}
                }
                let (_, header) = match head(buf) {
                    Head::Whole { header, remaining } => (remaining, header),
                    _ => return viol("check finds a frame where there is none", at("frame")),
                };
                // A packet with a body, framed by hand.
                if *len > header && !matches!(ty, Ok(12 | 13)) {
                    cx.hit("op:direct");
                    match builds::direct(p.rb, &buf[..*len], p.limit) {
                        Err(e) => return viol("panic", format!("pipe {pipe}: the packet's own reader panicked: {}", e.0)),
                        Ok(d) => {
                            let d = d.map(|h| h.model());
                            if d != r {
                                return viol(
                                    format!("own reader of {} disagrees", kind_name(buf[0] >> 4)),
                                    format!("pipe {pipe}: bytes {}: own reader {d:?}, combined read {r:?}", hex(&buf[..*len])),
                                );
                            }
                        }
                    }
                }
            }
            Err(e) => {
                cx.hit("check:no frame");
                if removed != 0 || r.as_ref().err() != Some(e) {
                    return viol("check fails differently from read", at("failure"));
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C15

pub struct Relaying;
impl Relaying {
    fn root(w: &World, pipe: usize, i: usize) -> Option<&P> {
        let r = w.pipes[pipe].items[i].root;
        w.pipes[0].items.get(r).and_then(|x| x.p.as_ref())
    }
}
impl Oracle for Relaying {
    fn wrote(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &WriteObs) -> Res {
        write_panic(o)?;
        if pipe > 0 {
            cx.hit("packets relayed");
            if let Ok(Err(e)) = &o.res {
                return viol(
                    format!("relay cannot send {}", kind_name(o.p.kind())),
                    format!("hop {pipe}: {e:?} for {}", o.p.brief()),
                );
            }
            // Which earlier hop feeds this one.
            let from = w.pipes.iter().find(|p| p.forward.contains(&pipe)).map(|p| p.id).unwrap_or(0);
            if from > 0 {
                let last = w.pipes[pipe].items.len() - 1;
                let it = &w.pipes[from].items.iter().filter(|x| x.read).last();
                if let Some(x) = it {
                    let before = &w.pipes[from].stream[x.start..x.end];
                    if before != &o.new[..] {
                        return viol(
                            format!("relayed {} re-encoded differently", kind_name(o.p.kind())),
                            format!("hop {pipe}, packet {last}: received {}, sent on {}", hex(before), hex(&o.new)),
                        );
                    }
                    cx.hit("relayed bytes compared");
                }
            }
        }
        Ok(())
    }
    fn read(&mut self, _: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        if pipe == 0 {
            // The first hop is plain delivery; what it delivers is compared at the ends.
            if let (Some(i), Ok(Ok(h))) = (o.item, &o.res) {
                let want = w.pipes[0].items[i].p.as_ref();
                if want.is_some_and(|p| *p != h.model()) {
                    return viol("relay received something else", diff(want.unwrap(), &h.model()));
                }
            }
            return Ok(());
        }
        if let (Some(i), Ok(Ok(h))) = (o.item, &o.res) {
            if let Some(want) = Self::root(w, pipe, i) {
                let got = h.model();
                if got != *want {
                    return viol(
                        format!("relayed {} changed", kind_name(want.kind())),
                        format!("hop {pipe}, packet {i}: {}", diff(want, &got)),
                    );
                }
            }
        }
        Ok(())
    }
    fn end(&mut self, _: &mut Cx, w: &World) -> Res {
        let n = w.pipes[0].items.len();
        for p in &w.pipes {
            let got: Vec<usize> = p.items.iter().filter(|i| i.read).map(|i| i.root).collect();
            if got != (0..n).collect::<Vec<_>>() || p.taken != p.stream.len() {
                return viol(
                    "relay lost packets",
                    format!("hop {}: {} of {n} packets arrived, {} bytes left over", p.id, got.len(), p.stream.len() - p.taken),
                );
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

pub struct Memory;
impl Oracle for Memory {
    fn peek(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        let p = &w.pipes[pipe];
        let b = p.buffered();
        let idle = match head(b) {
            Head::Whole { remaining, .. } => p.limit.is_some_and(|l| remaining > l),
            _ => true,
        };
        if idle && b.len() < 100_000 && cx.s.chance(1, 8) {
            let room = *cx.s.pick(&[0, 1, 10, 4096]);
            cx.hit("memory:read over and over");
            if let Some(k) = crate::script::steady(p.rb, b, p.limit, room) {
                return viol(
                    "memory: repeated reads keep more and more",
                    format!("pipe {pipe}: 64 reads of {} bytes without a whole frame kept {k} bytes", b.len()),
                );
            }
        }
        Ok(())
    }
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        let p = &w.pipes[pipe];
        let frame = match o.head {
            Head::Whole { header, remaining } if o.limit.map_or(true, |l| remaining <= l) => Some(header + remaining),
            _ => None,
        };
        let delivered = matches!(o.res, Ok(Ok(_)));
        // A whole frame may be taken apart: the costliest element is a filter or pair of empty
        // strings, some ten times its bytes, doubled while its list grows.
        let (peak, kept) = match (frame, delivered) {
            (Some(n), true) => (128 * n as isize + 8192, 128 * n as isize + 8192),
            (Some(n), false) => (128 * n as isize + 8192, 1024),
            (None, _) => (4096, 1024),
        };
        cx.add("bytes of memory taken by reads", o.mem.peak.max(0) as u64);
        cx.hit(match (frame, delivered) {
            (Some(_), true) => "memory:delivering read",
            (Some(_), false) => "memory:rejecting read",
            (None, _) => "memory:read without a frame",
        });
        if o.mem.peak > peak {
            return viol(
                format!("memory: {} takes too much", outcome(o)),
                format!("pipe {pipe}: {} bytes here, frame {:?}: the read took {} bytes, bound {peak}", o.had, o.head, o.mem.peak),
            );
        }
        if o.mem.kept > kept {
            return viol(
                format!("memory: {} keeps too much", outcome(o)),
                format!("pipe {pipe}: {} bytes here, frame {:?}: the read kept {} bytes, bound {kept}", o.had, o.head, o.mem.kept),
            );
        }
        let _ = p;
        Ok(())
    }
}

// ---------------------------------------------------------------- C17

#[derive(Default)]
pub struct Cutting;
impl Oracle for Cutting {
    fn wrote(&mut self, _: &mut Cx, _: &World, _: usize, o: &WriteObs) -> Res {
        write_panic(o)
    }
    fn read(&mut self, _: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        delivers(w, pipe, o, "cut")
    }
    fn cut(&mut self, cx: &mut Cx, w: &World, pipe: usize) -> Res {
        let p = &w.pipes[pipe];
        let whole = p.items.iter().filter(|i| i.end <= p.arrived).count();
        let got = p.items.iter().filter(|i| i.read).count();
        if got != whole {
            return viol(
                "cut: wrong packets delivered",
                format!("pipe {pipe}: {whole} packets arrived whole before the cut, {got} were delivered"),
            );
        }
        let edge = p.items.iter().filter(|i| i.end <= p.arrived).map(|i| i.end).max().unwrap_or(0);
        if p.taken != edge || p.inb[..] != p.stream[edge..p.arrived] {
            return viol(
                "cut: wrong bytes left",
                format!("pipe {pipe}: the partial packet begins at {edge}, the buffer at {}", p.taken),
            );
        }
        cx.hit(if edge == p.arrived { "cut:between packets" } else { "cut:inside a packet" });
        cx.seen(1717, (p.arrived - edge).min(20) as u64, p.epoch as u64);
        Ok(())
    }
    fn end(&mut self, _: &mut Cx, w: &World) -> Res {
        all_read(w, "after cuts")
    }
}

// ---------------------------------------------------------------- C19

/// A program that takes packets apart and puts them together by the readers and writers of
/// their parts.
pub struct Parts;
impl Oracle for Parts {
    fn wrote(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &WriteObs) -> Res {
        write_panic(o)?;
        let Ok(Ok(_)) = &o.res else { return Ok(()) };
        let Head::Whole { header, .. } = head(&o.new) else { return Ok(()) };
        // What the parts are compared with is the packet.
        let said = |what: String| viol(format!("{} written as another packet", kind_name(o.p.kind())), format!("pipe {pipe}: {what}: {}", hex(&o.new)));
        match decode(&o.new, w.pipes[pipe].wb.utf8()).0 {
            V::Valid(q) if o.spoiled.is_none() && q != o.p.norm() => return said(diff(&o.p.norm(), &q)),
            V::Bad(why) if o.spoiled.is_none() => return said(format!("{why}: {}", o.p.brief())),
            _ => {}
        }
        let n = *cx.s.pick(&[0usize, 0, 1, 3, 64, 300]);
        let k = cx.s.below(1 << 32) as u64;
        let queued = crate::gen::noise(k, n);
        let held = builds::make(w.pipes[pipe].wb, &o.p);
        let v = match builds::pieces(&held, &queued) {
            Err(e) => return viol("panic", format!("pipe {pipe}: a part's writer panicked: {}: {}", e.0, o.p.brief())),
            Ok(Err(e)) => {
                return viol(
                    format!("part of {} refused", kind_name(o.p.kind())),
                    format!("pipe {pipe}: the packet is written, but one of its parts gives {e:?}: {}", o.p.brief()),
                )
            }
            Ok(Ok(v)) => v,
        };
        let body = &o.new[header..];
        for q in v {
            cx.hit("op:part written");
            let at = |what: &str| {
                format!("pipe {pipe}: {what}: {} at {} of {}: {}; packet {}", q.what, q.at, hex(body), hex(&q.bytes), o.p.brief())
            };
            if !q.intact {
                return viol(format!("{} writer changes queued bytes", q.what), at("queued bytes"));
            }
            if body.get(q.at..q.at + q.bytes.len()) != Some(&q.bytes[..]) {
                return viol(
                    format!("{} of {} written differently", q.what, kind_name(o.p.kind())),
                    at("the part's writer and the packet's differ"),
                );
            }
            if let Some((f, mask)) = q.flags {
                if f != body.get(7).copied().unwrap_or(0) & mask {
                    return viol(format!("flags of {}", q.what), at(&format!("flags {f:#04x}")));
                }
            }
        }
        Ok(())
    }
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        let p = &w.pipes[pipe];
        if w.cfg.damage == Damage::None {
            delivers(w, pipe, o, "whole")?;
        }
        let Some(n) = o.removed.filter(|n| *n > 0) else { return Ok(()) };
        let frame = &p.stream[o.at..o.at + n];
        let Head::Whole { header, remaining } = head(frame) else { return Ok(()) };
        let body = frame.get(header..header + remaining).unwrap_or_default();
        if remaining > 1 << 20 {
            return Ok(());
        }
        match &o.res {
            Ok(Ok(h)) => {
                let k = *cx.s.pick(&[0usize, 1, 2, 7, 40]);
                let seed = cx.s.below(1 << 32) as u64;
                let behind = crate::gen::noise(seed, k);
                let bytes = bytes::Bytes::from([body, &behind].concat());
                let it = o.item.map(|i| &p.items[i]);
                let sound = w.cfg.damage != Damage::Hostile && it.is_some_and(|i| !i.damaged && i.end - i.start == n && i.p.is_some());
                let whole = h.model();
                let at = |what: &str| format!("pipe {pipe} ({:?} build): {what}: frame {}, whole {}", p.rb, hex(frame), whole.brief());
                cx.hit("op:taken apart");
                match builds::apart(h, bytes, &behind) {
                    Err(e) => return viol("panic", at(&format!("a part's reader panicked: {}", e.0))),
                    Ok(Err(e)) => return viol(format!("part of {} rejected", kind_name(whole.kind())), at(&format!("{e:?}"))),
                    Ok(Ok((q, left, rest))) => {
                        let q = q.model();
                        if q != whole {
                            return viol(format!("parts of {} differ", kind_name(whole.kind())), at(&diff(&whole, &q)));
                        }
                        if let Some(sent) = it.and_then(|i| i.p.as_ref()).filter(|_| sound) {
                            if q != *sent {
                                return viol(format!("parts of {} changed", kind_name(whole.kind())), at(&diff(sent, &q)));
                            }
                            if left != rest {
                                return viol(
                                    format!("parts of {} take the wrong bytes", kind_name(whole.kind())),
                                    at(&format!("{left} bytes left, {rest} not theirs")),
                                );
                            }
                        }
                    }
                }
            }
            _ => {
                // The parts of a frame that is no packet, and bytes that are no part.
                for _ in 0..cx.s.range(1, 4) {
                    let k = cx.s.below(16);
                    let flags = cx.s.below(256) as u8;
                    let from = if cx.s.chance(1, 2) { cx.s.usize(body.len() + 1) } else { body.len().min(*cx.s.pick(&[2, 3, 10])) };
                    cx.hit("op:part of a bad frame");
                    let b = bytes::Bytes::copy_from_slice(&body[from..]);
                    if let Err(e) = builds::poke(p.rb, k, flags, b) {
                        return viol(
                            "panic",
                            format!("pipe {pipe} ({:?} build): reader {k} of parts panicked on {}: {}", p.rb, hex(&body[from..]), e.0),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C20

/// Programs that build their packets with the crate's constructors, compare and copy them, look
/// numbers up and print the errors they are given.
pub struct Names;
impl Oracle for Names {
    fn wrote(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &WriteObs) -> Res {
        write_panic(o)?;
        let b = w.pipes[pipe].wb;
        // Another packet: the same but for one byte, or one written lately.
        let mut other = None;
        if let (Ok(Ok(_)), Head::Whole { header, remaining }) = (&o.res, head(&o.new)) {
            if remaining > 0 && cx.s.chance(3, 4) {
                let mut f = o.new.clone();
                let at = if cx.s.chance(1, 8) { 0 } else { header + cx.s.usize(remaining) };
                if let Some(x) = f.get_mut(at) {
                    *x ^= 1 << cx.s.below(8);
                }
                if let V::Valid(q) = decode(&f, true).0 {
                    other = Some(q);
                }
            }
        }
        let other = match other {
            Some(q) => {
                cx.hit("op:compared with a near copy");
                q
            }
            None => cx.s.pick(&w.recent).clone(),
        };
        match builds::named(b, &o.p, &other) {
            Ok(None) => {}
            Ok(Some(what)) => {
                return viol(
                    format!("{}: {what}", kind_name(o.p.kind())),
                    format!("pipe {pipe} ({b:?} build): {}; the other {}", o.p.brief(), other.brief()),
                )
            }
            Err(e) => return viol("panic", format!("pipe {pipe}: comparing packets panicked: {}: {}", e.0, o.p.brief())),
        }
        cx.hit("op:built by name");
        match builds::lookups(b, cx.s.below(256) as u8 >> cx.s.below(8)) {
            Ok(None) => Ok(()),
            Ok(Some(what)) => viol("lookup", format!("{b:?} build: {what}")),
            Err(e) => viol("panic", format!("a lookup panicked: {}", e.0)),
        }
    }
    fn read(&mut self, cx: &mut Cx, w: &World, pipe: usize, o: &ReadObs) -> Res {
        let p = &w.pipes[pipe];
        if w.cfg.damage == Damage::None && o.limit.is_none() {
            delivers(w, pipe, o, "built by name")?;
        }
        let Ok(Err(e)) = &o.res else { return Ok(()) };
        if o.had > 1 << 14 {
            return Ok(());
        }
        let Some(buf) = p.stream.get(o.at..o.at + o.had) else { return Ok(()) };
        let mut said: Vec<(String, String)> = Vec::new();
        for b in builds::BUILDS {
            let at = |what: &str| format!("pipe {pipe} ({b:?} build), limit {:?}: {what}; bytes {}", o.limit, hex(buf));
            let (err, debug, text) = match builds::told(b, buf, o.limit) {
                Ok(Some(t)) => t,
                Ok(None) if b == p.rb => return viol("error gone", at(&format!("first {e:?}, then a packet"))),
                Ok(None) => continue,
                Err(e) => return viol("panic", at(&format!("an error's text panicked: {}", e.0))),
            };
            cx.hit("op:error told");
            if b == p.rb && err != *e {
                return viol("error changed", at(&format!("first {e:?}, then {err:?}")));
            }
            let number = |n: usize| text.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string());
            let told = match &err {
                E::Insufficient(n) => number(*n),
                E::TooBig { size, max } => number(*size) && number(*max),
                _ => !text.is_empty(),
            };
            if !told {
                return viol("error text without what it carries", at(&format!("{debug} is told as {text:?}")));
            }
            if let Some((_, other)) = said.iter().find(|(d, t)| *d == debug && *t != text) {
                return viol("one error told differently", at(&format!("{debug} is told as {text:?} and as {other:?}")));
            }
            said.push((debug, text));
        }
        Ok(())
    }
    fn end(&mut self, _: &mut Cx, w: &World) -> Res {
        if w.cfg.damage == Damage::None && !w.cfg.limits {
            return all_read(w, "built by name");
        }
        Ok(())
    }
}
