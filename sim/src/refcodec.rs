//! The independent MQTT 5 peer: an encoder that can use every legal form of a packet, and a
//! strict decoder that says valid / malformed / not covered, written from the specification.
use crate::model::*;
use crate::src::Rng;

pub const MAX_VAR: u64 = 268_435_455;

// ---------------------------------------------------------------- framing

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Head {
    /// Fixed header not complete.
    Short,
    /// Fixed header complete; the frame has `len` bytes and the buffer fewer.
    Partial { header: usize, remaining: usize },
    /// A fourth length byte with a continuation bit.
    BadLen,
    Whole { header: usize, remaining: usize },
}
impl Head {
    pub fn remaining(self) -> Option<usize> {
        match self {
            Head::Partial { remaining, .. } | Head::Whole { remaining, .. } => Some(remaining),
            _ => None,
        }
    }
    pub fn frame_len(self) -> Option<usize> {
        match self {
            Head::Partial { header, remaining } | Head::Whole { header, remaining } => Some(header + remaining),
            _ => None,
        }
    }
}

pub fn head(b: &[u8]) -> Head {
    let mut v = 0usize;
    for i in 0..4 {
        let Some(&x) = b.get(1 + i) else { return Head::Short };
        v |= usize::from(x & 0x7F) << (7 * i);
        if x & 0x80 == 0 {
            let header = 2 + i;
            return if b.len() >= header + v {
                Head::Whole { header, remaining: v }
            } else {
                Head::Partial { header, remaining: v }
            };
        }
    }
    Head::BadLen
}

pub fn var_len(v: u64) -> usize {
    match v {
        0..=127 => 1,
        128..=16_383 => 2,
        16_384..=2_097_151 => 3,
        _ => 4,
    }
}

pub fn put_var(out: &mut B, mut v: u64) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

// ---------------------------------------------------------------- encoder

/// Which of the legal forms to use.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// 0: properties in the order of their identifiers; else a permutation seed.
    pub order: u64,
    /// Leave out the reason code and property length where the protocol makes them optional:
    /// 0 nothing, 1 the property length only, 2 as much as possible.
    pub short: u8,
}

fn put_str(out: &mut B, s: &[u8]) {
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}

fn props_body(p: &Props, order: u64) -> B {
    enum It<'a> {
        S(u8, &'a Val),
        U(&'a (B, B)),
        I(u64),
    }
    // Slots: a permutation of kinds; repeated ones keep their own order.
    let mut tags: Vec<u16> = p.single.keys().map(|k| u16::from(*k)).collect();
    tags.extend(p.user.iter().map(|_| 300));
    tags.extend(p.subids.iter().map(|_| 301));
    if order != 0 {
        let mut r = Rng::new(order);
        for i in (1..tags.len()).rev() {
            let j = (r.next() % (i as u64 + 1)) as usize;
            tags.swap(i, j);
        }
    }
    let (mut u, mut s) = (p.user.iter(), p.subids.iter());
    let mut out = B::new();
    for t in tags {
        let it = match t {
            300 => It::U(u.next().unwrap()),
            301 => It::I(*s.next().unwrap()),
            k => It::S(k as u8, &p.single[&(k as u8)]),
        };
        match it {
            It::U((k, v)) => {
                out.push(38);
                put_str(&mut out, k);
                put_str(&mut out, v);
            }
            It::I(v) => {
                out.push(11);
                put_var(&mut out, v);
            }
            It::S(id, v) => {
                out.push(id);
                match v {
                    Val::U8(x) => out.push(*x),
                    Val::U16(x) => out.extend_from_slice(&x.to_be_bytes()),
                    Val::U32(x) => out.extend_from_slice(&x.to_be_bytes()),
                    Val::Str(x) | Val::Bin(x) => put_str(&mut out, x),
                }
            }
        }
    }
    out
}

/// Length of the property block without its length prefix.
pub fn props_len(p: &Props) -> u64 {
    let mut n = 0u64;
    for v in p.single.values() {
        n += 1 + match v {
            Val::U8(_) => 1,
            Val::U16(_) => 2,
            Val::U32(_) => 4,
            Val::Str(x) | Val::Bin(x) => 2 + x.len() as u64,
        };
    }
    for (k, v) in &p.user {
        n += 5 + (k.len() + v.len()) as u64;
    }
    for v in &p.subids {
        n += 1 + var_len(*v) as u64;
    }
    n
}

fn put_props(out: &mut B, p: &Props, order: u64) {
    let b = props_body(p, order);
    put_var(out, b.len() as u64);
    out.extend_from_slice(&b);
}

pub fn frame(byte1: u8, body: &[u8]) -> B {
    let mut out = Vec::with_capacity(body.len() + 5);
    out.push(byte1);
    put_var(&mut out, body.len() as u64);
    out.extend_from_slice(body);
    out
}

fn props_block_len(p: &Props) -> u64 {
    let n = props_len(p);
    n + var_len(n) as u64
}

/// Remaining length of the full (nothing left out) encoding, without building it.
pub fn remaining_len(p: &P) -> u64 {
    let s = |x: &B| 2 + x.len() as u64;
    match p {
        P::Connect(c) => {
            let mut n = 10 + props_block_len(&c.props) + s(&c.client_id);
            if let Some(w) = &c.will {
                n += props_block_len(&w.props) + s(&w.topic) + s(&w.msg);
            }
            for x in [&c.login.user, &c.login.pass] {
                if !x.is_empty() {
                    n += s(x);
                }
            }
            n
        }
        P::ConnAck { props, .. } => 2 + props_block_len(props),
        P::Publish(p) => {
            s(&p.topic) + if p.qos > 0 { 2 } else { 0 } + props_block_len(&p.props) + p.payload.len() as u64
        }
        P::Ack { props, .. } => 3 + props_block_len(props),
        P::Subscribe { props, filters, .. } => {
            2 + props_block_len(props) + filters.iter().map(|f| s(&f.path) + 1).sum::<u64>()
        }
        P::Unsubscribe { props, filters, .. } => 2 + props_block_len(props) + filters.iter().map(s).sum::<u64>(),
        P::SubAck { props, codes, .. } | P::UnsubAck { props, codes, .. } => {
            2 + props_block_len(props) + codes.len() as u64
        }
        P::PingReq | P::PingResp => 0,
        P::Disconnect { props, .. } => 1 + props_block_len(props),
    }
}

pub fn encode(p: &P, st: Style) -> B {
    let mut o = B::new();
    let b1 = match p {
        P::Connect(c) => {
            put_str(&mut o, b"MQTT");
            o.push(5);
            let mut f = 0u8;
            if c.clean {
                f |= 2;
            }
            if let Some(w) = &c.will {
                f |= 4 | w.qos << 3 | u8::from(w.retain) << 5;
            }
            if !c.login.user.is_empty() {
                f |= 0x80;
            }
            if !c.login.pass.is_empty() {
                f |= 0x40;
            }
            o.push(f);
            o.extend_from_slice(&c.keep_alive.to_be_bytes());
            put_props(&mut o, &c.props, st.order);
            put_str(&mut o, &c.client_id);
            if let Some(w) = &c.will {
                put_props(&mut o, &w.props, st.order.wrapping_mul(31));
                put_str(&mut o, &w.topic);
                put_str(&mut o, &w.msg);
            }
            if !c.login.user.is_empty() {
                put_str(&mut o, &c.login.user);
            }
            if !c.login.pass.is_empty() {
                put_str(&mut o, &c.login.pass);
            }
            0x10
        }
        P::ConnAck { sp, code, props } => {
            o.push(u8::from(*sp));
            o.push(*code);
            put_props(&mut o, props, st.order);
            0x20
        }
        P::Publish(p) => {
            put_str(&mut o, &p.topic);
            if p.qos > 0 {
                o.extend_from_slice(&p.pkid.to_be_bytes());
            }
            put_props(&mut o, &p.props, st.order);
            o.extend_from_slice(&p.payload);
            0x30 | u8::from(p.dup) << 3 | p.qos << 1 | u8::from(p.retain)
        }
        P::Ack { kind, pkid, reason, props } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            let bare = props.is_empty();
            if !(bare && *reason == 0 && st.short >= 2) {
                o.push(*reason);
                if !(bare && st.short >= 1) {
                    put_props(&mut o, props, st.order);
                }
            }
            kind << 4 | if *kind == 6 { 2 } else { 0 }
        }
        P::Subscribe { pkid, props, filters } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            put_props(&mut o, props, st.order);
            for f in filters {
                put_str(&mut o, &f.path);
                o.push(f.qos | u8::from(f.nolocal) << 2 | u8::from(f.rap) << 3 | f.retain_handling << 4);
            }
            0x82
        }
        P::Unsubscribe { pkid, props, filters } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            put_props(&mut o, props, st.order);
            for f in filters {
                put_str(&mut o, f);
            }
            0xA2
        }
        P::SubAck { pkid, props, codes } | P::UnsubAck { pkid, props, codes } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            put_props(&mut o, props, st.order);
            o.extend_from_slice(codes);
            p.kind() << 4
        }
        P::PingReq => 0xC0,
        P::PingResp => 0xD0,
        P::Disconnect { reason, props } => {
            let bare = props.is_empty();
            if !(bare && *reason == 0 && st.short >= 2) {
                o.push(*reason);
                if !(bare && st.short >= 1) {
                    put_props(&mut o, props, st.order);
                }
            }
            0xE0
        }
    };
    frame(b1, &o)
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    /// The bytes are this packet.
    Valid(P),
    /// The specification forbids the bytes, and the properties say so.
    Bad(&'static str),
    /// Neither: leniency or strictness the properties leave open. If a reader delivers the frame,
    /// this is what it says, where that is clear.
    Open(&'static str, Option<P>),
}

/// Where the parts of a frame lie, for faults aimed at them.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    Flags,
    Len16,
    PropLen,
    PropId,
    PropVal,
    Text,
    Pkid,
    Reason,
    Opts,
    Level,
}
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub off: usize,
    pub len: usize,
    pub part: Part,
}

type R<T> = Result<T, &'static str>;

struct Cur<'a> {
    b: &'a [u8],
    at: usize,
    end: usize,
    utf8: bool,
    open: Option<&'static str>,
    /// A property stands there twice.
    twice: bool,
    /// Some text met so far is not UTF-8.
    bad_text: bool,
    marks: Vec<Mark>,
}

impl Cur<'_> {
    fn left(&self) -> usize {
        self.end - self.at
    }
    fn mark(&mut self, part: Part, off: usize, len: usize) {
        self.marks.push(Mark { off, len, part });
    }
    fn take(&mut self, n: usize, why: &'static str) -> R<usize> {
        if self.left() < n {
            return Err(why);
        }
        self.at += n;
        Ok(self.at - n)
    }
    fn u8(&mut self, part: Part) -> R<u8> {
        let o = self.take(1, "field past the end")?;
        self.mark(part, o, 1);
        Ok(self.b[o])
    }
    fn u16(&mut self, part: Part) -> R<u16> {
        let o = self.take(2, "field past the end")?;
        self.mark(part, o, 2);
        Ok(u16::from_be_bytes([self.b[o], self.b[o + 1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let o = self.take(4, "field past the end")?;
        self.mark(Part::PropVal, o, 4);
        Ok(u32::from_be_bytes([self.b[o], self.b[o + 1], self.b[o + 2], self.b[o + 3]]))
    }
    fn bin(&mut self) -> R<B> {
        let n = self.u16(Part::Len16)? as usize;
        let o = self.take(n, "field past the end")?;
        self.mark(Part::Text, o, n);
        Ok(self.b[o..o + n].to_vec())
    }
    fn text(&mut self) -> R<B> {
        let s = self.bin()?;
        if std::str::from_utf8(&s).is_err() {
            self.bad_text = true;
            if self.utf8 {
                return Err("text not UTF-8");
            }
        } else if s.contains(&0) {
            self.open.get_or_insert("NUL in text");
        }
        Ok(s)
    }
    fn var(&mut self, part: Part) -> R<u64> {
        let o = self.at;
        let mut v = 0u64;
        for i in 0..4 {
            let p = self.take(1, "length past the end")?;
            let x = self.b[p];
            v |= u64::from(x & 0x7F) << (7 * i);
            if x & 0x80 == 0 {
                self.mark(part, o, i + 1);
                if var_len(v) != i + 1 {
                    self.open.get_or_insert("length not in its shortest form");
                }
                return Ok(v);
            }
        }
        Err("length of five bytes")
    }
    fn props(&mut self, kind: u8) -> R<Props> {
        let n = self.var(Part::PropLen)? as usize;
        if self.left() < n {
            return Err("property block past the end of the frame");
        }
        let outer = self.end;
        self.end = self.at + n;
        let mut p = Props::default();
        while self.left() > 0 {
            let id = self.u8(Part::PropId)?;
            let Some(t) = prop_type(id) else { return Err("unknown property") };
            if !allowed(kind).contains(&id) {
                return Err("property not defined for this packet");
            }
            let v = match t {
                T::U8 => Val::U8(self.u8(Part::PropVal)?),
                T::U16 => Val::U16(self.u16(Part::PropVal)?),
                T::U32 => Val::U32(self.u32()?),
                T::Str => Val::Str(self.text()?),
                T::Bin => Val::Bin(self.bin()?),
                T::Var => {
                    let v = self.var(Part::PropVal)?;
                    if kind == 8 && !p.subids.is_empty() {
                        self.twice = true;
                    }
                    p.subids.push(v);
                    continue;
                }
                T::Pair => {
                    let k = self.text()?;
                    let v = self.text()?;
                    p.user.push((k, v));
                    continue;
                }
            };
            if p.single.insert(id, v).is_some() {
                self.twice = true;
            }
        }
        self.end = outer;
        Ok(p)
    }
}

/// Whether a build that does not check text may answer this frame differently from one that
/// does.
pub fn text_in_doubt(f: &[u8]) -> bool {
    let Head::Whole { header, remaining } = head(f) else { return false };
    let mut c = Cur { b: f, at: header, end: header + remaining, utf8: false, open: None, twice: false, bad_text: false, marks: Vec::new() };
    let r = body(f[0], &mut c);
    c.bad_text || (r.is_err() && f[header..header + remaining].iter().any(|b| *b >= 0x80))
}

/// Decodes one whole frame. `utf8`: the reader checks text.
pub fn decode(f: &[u8], utf8: bool) -> (V, Vec<Mark>) {
    let Head::Whole { header, remaining } = head(f) else {
        return (V::Open("not a whole frame", None), Vec::new());
    };
    let mut c = Cur { b: f, at: header, end: header + remaining, utf8, open: None, twice: false, bad_text: false, marks: Vec::new() };
    c.mark(Part::Flags, 0, 1);
    if var_len(remaining as u64) != header - 1 {
        c.open = Some("length not in its shortest form");
    }
    let r = body(f[0], &mut c);
    let v = match r {
        Err(why) => V::Bad(why),
        Ok(p) => {
            if c.left() > 0 {
                c.open.get_or_insert("bytes after the last field");
            }
            match (c.twice, c.open) {
                // Which of the two counts is left open.
                (true, _) => V::Open("property given twice", None),
                (_, Some(why)) => V::Open(why, Some(p)),
                _ => V::Valid(p),
            }
        }
    };
    (v, c.marks)
}

fn body(b1: u8, c: &mut Cur) -> R<P> {
    let (kind, flags) = (b1 >> 4, b1 & 15);
    if kind == 0 || kind == 15 {
        return Err("unknown packet type");
    }
    let want = match kind {
        3 => flags,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if flags != want {
        if kind == 14 {
            return Err("reserved flags on disconnect");
        }
        c.open = Some("reserved flag bits");
    }
    Ok(match kind {
        1 => {
            let name = c.text()?;
            let level = c.u8(Part::Level)?;
            if name != b"MQTT" {
                return Err("other protocol name");
            }
            if level != 5 {
                return Err("other protocol level");
            }
            let f = c.u8(Part::Flags)?;
            if f & 1 != 0 {
                c.open.get_or_insert("reserved connect flag");
            }
            let keep_alive = c.u16(Part::PropVal)?;
            let props = c.props(1)?;
            let client_id = c.text()?;
            let will = if f & 4 != 0 {
                let props = c.props(0)?;
                let topic = c.bin()?;
                if std::str::from_utf8(&topic).is_err() {
                    c.open.get_or_insert("will topic not UTF-8");
                }
                let msg = c.bin()?;
                let qos = f >> 3 & 3;
                if qos == 3 {
                    return Err("will QoS 3");
                }
                Some(Will { topic, msg, qos, retain: f & 0x20 != 0, props })
            } else {
                if f & 0x38 != 0 {
                    return Err("will bits without a will");
                }
                None
            };
            let user = if f & 0x80 != 0 { c.text()? } else { B::new() };
            let pass = if f & 0x40 != 0 { c.bin()? } else { B::new() };
            if std::str::from_utf8(&pass).is_err() {
                // Legal for a binary password; the crate's text builds model it as text.
                c.bad_text = true;
                if c.utf8 {
                    c.open.get_or_insert("password not UTF-8");
                }
            }
            P::Connect(Box::new(Connect {
                keep_alive,
                client_id,
                clean: f & 2 != 0,
                props,
                will,
                login: Login { user, pass, some: false },
            }))
        }
        2 => {
            let f = c.u8(Part::Opts)?;
            if f > 1 {
                c.open.get_or_insert("reserved connack flags");
            }
            let code = c.u8(Part::Reason)?;
            let props = c.props(2)?;
            if !reasons(2).contains(&code) {
                return Err("unknown reason code");
            }
            P::ConnAck { sp: f & 1 != 0, code, props }
        }
        3 => {
            let qos = flags >> 1 & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let dup = flags & 8 != 0;
            if dup && qos == 0 {
                c.open.get_or_insert("DUP on QoS 0");
            }
            let topic = c.text()?;
            let pkid = if qos > 0 { c.u16(Part::Pkid)? } else { 0 };
            if qos > 0 && pkid == 0 {
                return Err("packet id zero");
            }
            let props = c.props(3)?;
            let payload = c.b[c.at..c.end].to_vec();
            c.at = c.end;
            P::Publish(Box::new(Publish { dup, qos, retain: flags & 1 != 0, topic, pkid, props, payload }))
        }
        4..=7 => {
            let pkid = c.u16(Part::Pkid)?;
            let (mut reason, mut props) = (0, Props::default());
            if c.left() > 0 {
                reason = c.u8(Part::Reason)?;
                if c.left() > 0 {
                    props = c.props(kind)?;
                }
            }
            if !reasons(kind).contains(&reason) {
                return Err("unknown reason code");
            }
            P::Ack { kind, pkid, reason, props }
        }
        8 => {
            let pkid = c.u16(Part::Pkid)?;
            let props = c.props(8)?;
            let mut filters = Vec::new();
            while c.left() > 0 {
                let path = c.text()?;
                let o = c.u8(Part::Opts)?;
                if o & 3 == 3 {
                    return Err("subscription QoS 3");
                }
                if o >> 4 & 3 == 3 {
                    return Err("retain handling 3");
                }
                if o & 0xC0 != 0 {
                    c.open.get_or_insert("reserved subscription options");
                }
                filters.push(Filter {
                    path,
                    qos: o & 3,
                    nolocal: o & 4 != 0,
                    rap: o & 8 != 0,
                    retain_handling: o >> 4 & 3,
                });
            }
            if filters.is_empty() {
                return Err("empty subscription");
            }
            P::Subscribe { pkid, props, filters }
        }
        9 | 11 => {
            let pkid = c.u16(Part::Pkid)?;
            let props = c.props(kind)?;
            let mut codes = Vec::new();
            while c.left() > 0 {
                codes.push(c.u8(Part::Reason)?);
            }
            if codes.is_empty() {
                return Err("empty acknowledgement list");
            }
            if codes.iter().any(|x| !reasons(kind).contains(x)) {
                return Err("unknown reason code");
            }
            if kind == 9 {
                P::SubAck { pkid, props, codes }
            } else {
                P::UnsubAck { pkid, props, codes }
            }
        }
        10 => {
            let pkid = c.u16(Part::Pkid)?;
            let props = c.props(10)?;
            let mut filters = Vec::new();
            while c.left() > 0 {
                filters.push(c.text()?);
            }
            if filters.is_empty() {
                c.open.get_or_insert("unsubscribe without filters");
            }
            P::Unsubscribe { pkid, props, filters }
        }
        12 => P::PingReq,
        13 => P::PingResp,
        14 => {
            let (mut reason, mut props) = (0, Props::default());
            if c.left() > 0 {
                reason = c.u8(Part::Reason)?;
                if c.left() > 0 {
                    props = c.props(14)?;
                }
            }
            if !reasons(14).contains(&reason) {
                if reason == 0x8C {
                    c.open.get_or_insert("reason 0x8C on disconnect");
                } else {
                    return Err("unknown reason code");
                }
            }
            P::Disconnect { reason, props }
        }
        _ => unreachable!(),
    })
}
