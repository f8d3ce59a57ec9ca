//! Packet generation: biased towards the boundaries of every length and number in MQTT 5.
use crate::builds::POOL;
use crate::model::*;
use crate::refcodec::{encode, props_len, remaining_len, var_len, Style, MAX_VAR};
use crate::src::{Rng, Src};

/// What a run's packets look like.
#[derive(Clone, Debug)]
pub struct Gen {
    /// Weights of the packet types 1..=14.
    pub kinds: [u32; 15],
    /// 0 small, 1 medium (boundaries up to 16,384), 2 large (65,535), 3 huge (2,097,152).
    pub size: u8,
    /// Out of 16: how often a length is put on a boundary.
    pub fit: u64,
    /// Weights of string classes are skewed by this per-run number.
    pub flavour: u64,
    /// By how much every text and binary value that is not empty is longer than drawn.
    pub stretch: usize,
}

impl Gen {
    pub fn draw(s: &mut Src, sizes: &[u32]) -> Gen {
        let size = s.weighted(sizes) as u8;
        let mut kinds = [1u32; 15];
        kinds[0] = 0;
        match s.below(4) {
            0 => kinds[3] = 6,
            1 => {}
            2 => {
                // A handful of types only.
                kinds = [0; 15];
                for _ in 0..s.range(1, 3) {
                    kinds[s.range(1, 14) as usize] += 1;
                }
            }
            _ => {
                kinds[12] = 0;
                kinds[13] = 0;
                kinds[1] = 3;
                kinds[2] = 3;
                kinds[3] = 3;
                kinds[14] = 2;
            }
        }
        Gen { kinds, size, fit: *s.pick(&[0, 1, 4]), flavour: s.below(4), stretch: 0 }
    }

    pub fn packet(&self, s: &mut Src) -> P {
        let kind = s.weighted(&self.kinds) as u8;
        self.packet_of(s, kind)
    }

    pub fn packet_of(&self, s: &mut Src, kind: u8) -> P {
        let mut p = match kind {
            1 => {
                let will = if s.chance(1, 2) {
                    Some(Will {
                        topic: self.text(s),
                        msg: self.bin(s),
                        qos: s.below(3) as u8,
                        retain: s.chance(1, 2),
                        props: self.props(s, 0),
                    })
                } else {
                    None
                };
                let login = match s.below(6) {
                    0 | 1 => Login::default(),
                    2 => Login { some: true, ..Login::default() },
                    3 => Login { user: self.text(s), pass: B::new(), some: true },
                    4 => Login { user: B::new(), pass: self.text(s), some: true },
                    _ => Login { user: self.text(s), pass: self.text(s), some: true },
                };
                P::Connect(Box::new(Connect {
                    keep_alive: self.n16(s),
                    client_id: self.text(s),
                    clean: s.chance(1, 2),
                    props: self.props(s, 1),
                    will,
                    login,
                }))
            }
            2 => P::ConnAck { sp: s.chance(1, 2), code: *s.pick(reasons(2)), props: self.props(s, 2) },
            3 => {
                let qos = s.below(3) as u8;
                P::Publish(Box::new(Publish {
                    dup: qos > 0 && s.chance(1, 2),
                    qos,
                    retain: s.chance(1, 2),
                    topic: self.text(s),
                    pkid: if qos > 0 || s.chance(1, 4) { self.id(s) } else { 0 },
                    props: self.props(s, 3),
                    payload: self.payload(s),
                }))
            }
            4..=7 => P::Ack { kind, pkid: self.id(s), reason: *s.pick(reasons(kind)), props: self.props(s, kind) },
            8 => {
                let n = self.count(s, 1);
                P::Subscribe {
                    pkid: self.id(s),
                    props: self.props(s, 8),
                    filters: (0..n)
                        .map(|_| Filter {
                            path: self.text_n(s, n),
                            qos: s.below(3) as u8,
                            nolocal: s.chance(1, 2),
                            rap: s.chance(1, 2),
                            retain_handling: s.below(3) as u8,
                        })
                        .collect(),
                }
            }
            9 | 11 => {
                let n = self.count(s, 1);
                let codes = (0..n).map(|_| *s.pick(reasons(kind))).collect();
                let (pkid, props) = (self.id(s), self.props(s, kind));
                if kind == 9 {
                    P::SubAck { pkid, props, codes }
                } else {
                    P::UnsubAck { pkid, props, codes }
                }
            }
            10 => {
                let n = self.count(s, 1);
                P::Unsubscribe {
                    pkid: self.id(s),
                    props: self.props(s, 10),
                    filters: (0..n).map(|_| self.text_n(s, n)).collect(),
                }
            }
            12 => P::PingReq,
            13 => P::PingResp,
            _ => P::Disconnect { reason: *s.pick(reasons(14)), props: self.props(s, 14) },
        };
        if s.chance(1, 24) {
            twin(s, &mut p);
        }
        if s.below(16) >= 16 - self.fit {
            self.fit_len(s, &mut p);
        }
        p
    }

    /// Turns a packet sent before into the next one: the same again, or the same but for one
    /// thing. What a codec keeps from one packet to the next shows here.
    pub fn vary(&self, s: &mut Src, p: &mut P) {
        match s.below(8) {
            0 | 1 => {}
            2 => match p {
                P::Publish(q) => {
                    q.pkid = self.id(s);
                    q.dup &= q.qos > 0;
                }
                P::Ack { pkid, .. }
                | P::Subscribe { pkid, .. }
                | P::SubAck { pkid, .. }
                | P::Unsubscribe { pkid, .. }
                | P::UnsubAck { pkid, .. } => *pkid = if s.chance(1, 2) { pkid.swap_bytes() } else { self.id(s) },
                _ => {}
            },
            3 => {
                // One letter, or one letter more or less.
                let mut t = p.texts();
                if t.is_empty() {
                    return;
                }
                let k = s.usize(t.len());
                if s.chance(1, 4) {
                    t[k].clear();
                } else {
                    letter(s, t[k]);
                }
            }
            4 => match p {
                P::Publish(q) => match s.below(3) {
                    0 => {
                        q.payload.pop();
                    }
                    1 => q.payload.push(s.below(256) as u8),
                    _ => {
                        let n = q.payload.len();
                        if n > 0 {
                            q.payload[s.usize(n)] ^= 1 << s.below(8);
                        }
                    }
                },
                P::Connect(c) => c.keep_alive = self.n16(s),
                P::SubAck { codes, .. } => {
                    let n = codes.len();
                    codes[s.usize(n)] = *s.pick(reasons(9));
                }
                P::UnsubAck { codes, .. } => {
                    let n = codes.len();
                    codes[s.usize(n)] = *s.pick(reasons(11));
                }
                P::Subscribe { filters, .. } => {
                    let n = filters.len();
                    let f = &mut filters[s.usize(n)];
                    f.qos = s.below(3) as u8;
                    f.retain_handling = s.below(3) as u8;
                }
                P::Unsubscribe { filters, .. } => filters.reverse(),
                P::ConnAck { code, .. } => *code = *s.pick(reasons(2)),
                P::Ack { kind, reason, .. } => *reason = *s.pick(reasons(*kind)),
                P::Disconnect { reason, .. } => *reason = *s.pick(reasons(14)),
                P::PingReq => *p = P::PingResp,
                P::PingResp => *p = P::PingReq,
            },
            5 => match p {
                P::Publish(q) => {
                    q.retain ^= s.chance(1, 2);
                    q.qos = s.below(3) as u8;
                    q.dup = q.qos > 0 && !q.dup;
                    if q.qos > 0 && q.pkid == 0 {
                        q.pkid = self.id(s);
                    }
                }
                P::Connect(c) => c.clean ^= true,
                P::ConnAck { sp, .. } => *sp ^= true,
                P::Subscribe { filters, .. } => filters.reverse(),
                _ => {}
            },
            6 => {
                let kind = p.kind();
                let fresh = self.props(s, kind);
                if let Some(q) = p.props_mut() {
                    *q = fresh;
                }
            }
            _ => {
                // One property more or one less.
                let kind = p.kind();
                let fresh = self.props(s, kind);
                let Some(q) = p.props_mut() else { return };
                match s.below(4) {
                    0 => {
                        q.user.pop();
                    }
                    1 => {
                        let ids: Vec<u8> = q.single.keys().copied().collect();
                        if !ids.is_empty() {
                            q.single.remove(s.pick(&ids));
                        }
                    }
                    2 => {
                        q.subids.pop();
                    }
                    _ => {
                        for (k, v) in fresh.single.into_iter().take(1) {
                            q.single.insert(k, v);
                            q.some = true;
                        }
                    }
                }
            }
        }
    }

    fn targets(&self) -> &'static [u64] {
        match self.size {
            0 => &[127, 128, 129],
            1 => &[127, 128, 16_383, 16_384],
            2 => &[128, 16_383, 16_384, 65_535, 65_536],
            _ => &[127, 16_384, 2_097_151, 2_097_152],
        }
    }

    /// Pads the packet so that its property length or its remaining length is on a boundary.
    fn fit_len(&self, s: &mut Src, p: &mut P) {
        let t = match self.lucky_len(s) {
            Some(n) => n as u64,
            None => *s.pick(self.targets()),
        };
        let pad_payload = matches!(p, P::Publish(_)) && s.chance(1, 2);
        let whole = s.chance(1, 2);
        let seed = s.below(1 << 16);
        if pad_payload {
            let n = remaining_len(p);
            if n < t {
                if let P::Publish(p) = p {
                    p.payload.extend(noise(seed, (t - n) as usize));
                }
            }
            return;
        }
        // The properties whose length is fitted: usually the packet's, sometimes the will's.
        let will = !whole && matches!(p, P::Connect(c) if c.will.is_some()) && s.chance(1, 2);
        for _ in 0..4 {
            let now = if whole {
                remaining_len(p)
            } else if will {
                match p {
                    P::Connect(c) => props_len(&c.will.as_ref().unwrap().props),
                    _ => unreachable!(),
                }
            } else {
                match p.props_mut() {
                    Some(q) => props_len(q),
                    None => return,
                }
            };
            if now >= t {
                return;
            }
            let q = if will {
                match p {
                    P::Connect(c) => &mut c.will.as_mut().unwrap().props,
                    _ => unreachable!(),
                }
            } else {
                match p.props_mut() {
                    Some(q) => q,
                    None => return,
                }
            };
            let mut gap = t - now;
            if whole {
                // The property length prefix may itself grow.
                let l = props_len(q);
                gap -= gap.min((var_len(l + gap) - var_len(l)) as u64);
            }
            while gap >= 5 {
                let mut n = gap.min(5 + 2 * 65_535);
                if gap - n > 0 && gap - n < 5 {
                    n -= 5;
                }
                let body = n - 5;
                let k = body.min(if body <= 65_535 { s.below(body + 1) } else { 65_535 });
                q.user.push((words(seed, k as usize), words(seed + 1, (body - k) as usize)));
                gap -= n;
            }
        }
    }

    fn count(&self, s: &mut Src, min: u64) -> u64 {
        if let Some(v @ 1..=300) = s.lucky() {
            return v;
        }
        match s.below(16) {
            0..=11 => min + s.below(3),
            12..=14 => min + s.below(12),
            _ if self.size == 0 => min + s.below(30),
            _ => *s.pick(&[127, 128, 129, 200, 255, 256, 400]),
        }
    }

    pub fn n8(&self, s: &mut Src) -> u8 {
        if let Some(v @ 0..=0xFF) = s.lucky() {
            return v as u8;
        }
        match s.below(4) {
            0 | 1 => s.below(2) as u8,
            2 => *s.pick(&[2, 127, 128, 255]),
            _ => s.below(256) as u8,
        }
    }
    pub fn n16(&self, s: &mut Src) -> u16 {
        if let Some(v @ 0..=0xFFFF) = s.lucky() {
            return v as u16;
        }
        match s.below(4) {
            0 => s.below(4) as u16,
            1 | 2 => *s.pick(&[10, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF]),
            _ => s.below(65_536) as u16,
        }
    }
    /// A packet identifier: never zero.
    pub fn id(&self, s: &mut Src) -> u16 {
        self.n16(s).max(1)
    }
    pub fn n32(&self, s: &mut Src) -> u32 {
        if let Some(v @ 0..=0xFFFF_FFFF) = s.lucky() {
            return v as u32;
        }
        match s.below(4) {
            0 => s.below(4) as u32,
            1 | 2 => *s.pick(&[
                127,
                128,
                255,
                256,
                65_535,
                65_536,
                0x00FF_FFFF,
                0x0100_0000,
                268_435_455,
                268_435_456,
                0x7FFF_FFFF,
                0x8000_0000,
                0xFFFF_FFFE,
                0xFFFF_FFFF,
            ]),
            _ => s.below(1 << 32) as u32,
        }
    }
    pub fn subid(&self, s: &mut Src) -> u64 {
        if let Some(v @ 0..=MAX_VAR) = s.lucky() {
            return v;
        }
        match s.below(4) {
            0 | 1 => s.range(1, 20),
            2 => *s.pick(&[0, 127, 128, 255, 256, 16_383, 16_384, 65_535, 65_536, 2_097_151, 2_097_152, MAX_VAR]),
            _ => s.below(MAX_VAR + 1),
        }
    }

    fn props(&self, s: &mut Src, kind: u8) -> Props {
        let mut p = Props::default();
        match s.below(4) {
            0 => return p,
            1 => {
                p.some = s.chance(1, 2);
                if p.some {
                    return p;
                }
            }
            _ => {}
        }
        p.some = true;
        let ids = allowed(kind);
        // Presence density per packet: one, a few, or all.
        let dens = *s.pick(&[1u64, 4, 8, 15]);
        for id in ids {
            if s.below(16) >= 16 - dens {
                match id {
                    38 => {
                        let n = match s.below(8) {
                            0..=4 => 1,
                            5 | 6 => s.range(2, 5),
                            _ if self.size == 0 => s.range(2, 12),
                            _ => *s.pick(&[16, 64, 200]),
                        };
                        for _ in 0..n {
                            if s.chance(1, 4) && !p.user.is_empty() {
                                // A repeated key, or the whole pair again.
                                let (k, v) = p.user[s.usize(p.user.len())].clone();
                                let v = if s.chance(1, 2) { v } else { self.text_n(s, n) };
                                p.user.push((k, v));
                            } else {
                                p.user.push((self.text_n(s, n), self.text_n(s, n)));
                            }
                        }
                    }
                    11 => {
                        let n = if kind == 8 {
                            1
                        } else {
                            match s.below(8) {
                                0..=2 => 1,
                                3..=6 => s.range(2, 6),
                                _ => s.range(2, 50),
                            }
                        };
                        for _ in 0..n {
                            p.subids.push(self.subid(s));
                        }
                    }
                    id => {
                        let v = match prop_type(*id).unwrap() {
                            T::U8 => Val::U8(self.n8(s)),
                            T::U16 => Val::U16(self.n16(s)),
                            T::U32 => Val::U32(self.n32(s)),
                            T::Str => Val::Str(self.text(s)),
                            _ => Val::Bin(self.bin(s)),
                        };
                        p.single.insert(*id, v);
                    }
                }
            }
        }
        p
    }

    /// What a constant of the code can be worth as a length here.
    fn lucky_len(&self, s: &mut Src) -> Option<usize> {
        let most = if self.size == 0 { 3_000 } else { 65_535 };
        s.lucky().filter(|v| *v <= most).map(|v| v as usize)
    }

    fn len(&self, s: &mut Src) -> usize {
        if let Some(n) = self.lucky_len(s) {
            return n;
        }
        match (s.below(8), self.size) {
            (0..=4, _) => s.usize(12),
            (5, _) => match s.below(4) {
                0 | 1 => s.usize(70),
                2 => s.usize(300),
                _ => s.usize(*[300, 2_500, 20_000, 65_536].get(usize::from(self.size)).unwrap_or(&300)),
            },
            (_, 0) => *s.pick(&[1, 2, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129]),
            (6, 1) => *s.pick(&[126, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513]),
            (_, 1) => *s.pick(&[
                255, 256, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16_382, 16_383, 16_384, 16_385,
            ]),
            (6, _) => *s.pick(&[127, 128, 255, 256, 1024, 4096, 16_383, 16_384]),
            (_, _) => *s.pick(&[16_383, 16_384, 32_766, 32_767, 32_768, 32_769, 65_533, 65_534, 65_535]),
        }
    }

    /// Text for one of `n` repeated places: kept short when there are many.
    fn text_n(&self, s: &mut Src, n: u64) -> B {
        if n > 12 {
            let l = s.usize(9);
            return words(s.below(1 << 16), l);
        }
        self.text(s)
    }

    pub fn text(&self, s: &mut Src) -> B {
        let mut t = self.plain_text(s);
        if s.chance(1, 24) {
            // Cut somewhere, and gone on with in another manner.
            let end = s.usize(t.len() + 1);
            if let Ok(whole) = std::str::from_utf8(&t).map(|x| x.floor_char_boundary(end)) {
                t.truncate(whole);
                let l = s.usize(24);
                let seed = s.below(1 << 16);
                t.extend(if s.chance(1, 2) { unicode(seed, l) } else { words(seed, l) });
                t = if t.len() > 65_535 { B::new() } else { t };
            }
        }
        self.stretched(t, words)
    }
    fn stretched(&self, mut b: B, more: fn(u64, usize) -> B) -> B {
        if self.stretch > 0 && !b.is_empty() && b.len() + self.stretch <= 65_535 {
            b.extend(more(1, self.stretch));
        }
        b
    }
    fn plain_text(&self, s: &mut Src) -> B {
        let known = s.lucky_text().filter(|t| std::str::from_utf8(t).is_ok_and(|t| !t.contains('\0')));
        if let Some(w) = s.lucky().and_then(spelled).or(known) {
            let l = s.usize(4);
            return match s.below(4) {
                0 | 1 => w,
                2 => [w, words(7, l)].concat(),
                _ => [words(7, l), w].concat(),
            };
        }
        match (s.below(8) + self.flavour) % 8 {
            0..=2 => s.pick(&POOL).as_bytes().to_vec(),
            3 | 4 => {
                let l = self.len(s);
                words(s.below(1 << 16), l)
            }
            5 => {
                let l = self.len(s);
                unicode(s.below(1 << 16), l)
            }
            6 => {
                let t = s
                .pick(&[
                    "\u{FEFF}bom",
                    "\u{FEFF}",
                    "\u{10FFFF}",
                    "\u{0800}\u{FFFF}\u{10000}",
                    "e\u{301}\u{200D}👩\u{200D}👩",
                    "\u{7F}\u{80}\u{7FF}",
                    "\r\n\t\u{1}",
                    "\u{D7FF}\u{E000}",
                    "ß",
                    "MQTT\u{5}",
                    " ",
                    "\"\\'",
                    "$share/grp/+/x",
                ])
                .as_bytes()
                .to_vec();
                // Alone, or at either end of a text of any length.
                let place = s.below(6);
                let l = if place > 2 { self.len(s).min(65_000) } else { 0 };
                match place {
                    0..=2 => t,
                    3 => [t, words(11, l)].concat(),
                    _ => [words(11, l), t].concat(),
                }
            }
            _ => B::new(),
        }
    }

    pub fn bin(&self, s: &mut Src) -> B {
        let b = self.plain_bin(s);
        self.stretched(b, noise)
    }
    fn plain_bin(&self, s: &mut Src) -> B {
        if let Some(t) = s.lucky_text() {
            let n = s.usize(4);
            return [t, noise(3, n)].concat();
        }
        match s.below(6) {
            0 => B::new(),
            1 | 2 => {
                let l = self.len(s);
                noise(s.below(1 << 16), l)
            }
            3 => vec![*s.pick(&[0, 0xFF, 0x80, 0x7F]); s.usize(20)],
            4 => s.pick(&POOL).as_bytes().to_vec(),
            _ => self.lookalike(s),
        }
    }

    fn payload(&self, s: &mut Src) -> B {
        match s.below(8) {
            0 if self.size >= 3 => {
                let l = *s.pick(&[65_536usize, 100_000, 1 << 20, 2_097_000, 2_097_152, 2_100_000]);
                noise(s.below(1 << 16), l)
            }
            0 | 1 if self.size >= 2 => {
                let l = *s.pick(&[16_384usize, 65_535, 65_536, 65_537, 70_000]);
                noise(s.below(1 << 16), l)
            }
            _ => self.bin(s),
        }
    }

    /// Bytes that look like frames, so that any loss of framing is likely to go on unnoticed
    /// by anything but the history.
    fn lookalike(&self, s: &mut Src) -> B {
        let mut b = B::new();
        for _ in 0..s.range(1, 3) {
            let p = match s.below(6) {
                0 => P::PingReq,
                1 => P::Disconnect { reason: 0, props: Props::default() },
                2 => P::Ack { kind: s.range(4, 7) as u8, pkid: 7, reason: 0, props: Props::default() },
                3 => P::SubAck { pkid: 1, props: Props::default(), codes: vec![0] },
                _ => P::Publish(Box::new(Publish {
                    dup: false,
                    qos: 0,
                    retain: false,
                    topic: b"x".to_vec(),
                    pkid: 0,
                    props: Props::default(),
                    payload: b"y".to_vec(),
                })),
            };
            b.extend(encode(&p, Style { order: 0, short: s.below(3) as u8 }));
        }
        b
    }

    /// Makes a packet unencodable; says how.
    pub fn spoil(&self, s: &mut Src, p: &mut P) -> &'static str {
        let over = *s.pick(&[65_536usize, 65_537, 65_540, 66_000, 131_072, 131_073]);
        let seed = s.below(1 << 16);
        for _ in 0..20 {
            match s.below(6) {
                0 => {
                    if let P::Publish(p) = p {
                        p.qos = s.range(1, 2) as u8;
                        p.pkid = 0;
                        return "publish with packet id zero";
                    }
                }
                1 => {
                    if let P::ConnAck { code, .. } = p {
                        *code = s.range(1, 3) as u8;
                        return "version 3 return code";
                    }
                }
                2 => {
                    let v = *s.pick(&[MAX_VAR + 1, MAX_VAR + 2, 1 << 29, 1 << 31, 1 << 32, (1 << 32) + 5, u64::MAX >> 1]);
                    match p {
                        P::Publish(p) => {
                            let at = s.usize(p.props.subids.len() + 1);
                            p.props.subids.insert(at, v);
                            p.props.some = true;
                            return "subscription identifier over the bound";
                        }
                        P::Subscribe { props, .. } => {
                            props.subids = vec![v];
                            props.some = true;
                            return "subscription identifier over the bound";
                        }
                        _ => {}
                    }
                }
                3 => {
                    // A text or binary property.
                    let kind = p.kind();
                    let will = matches!(p, P::Connect(c) if c.will.is_some()) && s.chance(1, 2);
                    let q = match p {
                        P::Connect(c) if will => Some(&mut c.will.as_mut().unwrap().props),
                        _ => p.props_mut(),
                    };
                    let k = if will { 0 } else { kind };
                    let ids: Vec<u8> = allowed(k)
                        .iter()
                        .copied()
                        .filter(|i| matches!(prop_type(*i), Some(T::Str | T::Bin | T::Pair)))
                        .collect();
                    if ids.is_empty() {
                        continue;
                    }
                    let id = *s.pick(&ids);
                    if let Some(q) = q {
                        q.some = true;
                        match prop_type(id).unwrap() {
                            T::Str => {
                                q.single.insert(id, Val::Str(words(seed, over)));
                            }
                            T::Bin => {
                                q.single.insert(id, Val::Bin(noise(seed, over)));
                            }
                            _ => {
                                let at = s.usize(q.user.len() + 1);
                                let pair = if s.chance(1, 2) {
                                    (words(seed, over), b"v".to_vec())
                                } else {
                                    (b"k".to_vec(), words(seed, over))
                                };
                                q.user.insert(at, pair);
                            }
                        }
                        return "property over 65,535 bytes";
                    }
                }
                _ => {
                    let f: Option<&mut B> = match p {
                        P::Connect(c) => match s.below(5) {
                            0 => Some(&mut c.client_id),
                            1 => {
                                c.login.some = true;
                                Some(&mut c.login.user)
                            }
                            2 => {
                                c.login.some = true;
                                Some(&mut c.login.pass)
                            }
                            3 => c.will.as_mut().map(|w| &mut w.topic),
                            _ => c.will.as_mut().map(|w| &mut w.msg),
                        },
                        P::Publish(p) => Some(&mut p.topic),
                        P::Subscribe { filters, .. } => {
                            let n = filters.len();
                            filters.get_mut(s.usize(n)).map(|f| &mut f.path)
                        }
                        P::Unsubscribe { filters, .. } => {
                            let n = filters.len();
                            filters.get_mut(s.usize(n))
                        }
                        _ => None,
                    };
                    if let Some(f) = f {
                        *f = words(seed, over);
                        return "field over 65,535 bytes";
                    }
                }
            }
        }
        *p = P::Publish(Box::new(Publish {
            dup: false,
            qos: 1,
            retain: false,
            topic: b"t".to_vec(),
            pkid: 0,
            props: Props::default(),
            payload: b"p".to_vec(),
        }));
        "publish with packet id zero"
    }
}

/// A constant of the code as the text it may stand for.
fn spelled(v: u64) -> Option<B> {
    let b = v.to_le_bytes();
    let n = b.iter().position(|c| *c == 0).unwrap_or(8);
    (n > 0 && b[..n].iter().all(|c| (0x20..0x7F).contains(c)) && b[n..].iter().all(|c| *c == 0)).then(|| b[..n].to_vec())
}

/// Two text fields of a packet become the same.
fn twin(s: &mut Src, p: &mut P) {
    let mut t = p.texts();
    if t.len() > 1 {
        let (a, b) = (s.usize(t.len()), s.usize(t.len()));
        let v = t[a].clone();
        *t[b] = v;
    }
}

/// One letter changed, added or taken away.
fn letter(s: &mut Src, t: &mut B) {
    let new = b'a' + s.below(26) as u8;
    let ascii: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphanumeric()).collect();
    match s.below(4) {
        0 if t.len() < 65_535 => t.push(new),
        1 if t.last().is_some_and(u8::is_ascii) => {
            t.pop();
        }
        _ => {
            if !ascii.is_empty() {
                t[*s.pick(&ascii)] = new;
            }
        }
    }
}

/// `n` bytes of lower-case text.
pub fn words(seed: u64, n: usize) -> B {
    let mut r = Rng::new(seed);
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        for b in r.next().to_le_bytes() {
            out.push(b"abcdefghijklmnopqrstuvwxyz/+#$-_"[usize::from(b & 31)]);
        }
    }
    out.truncate(n);
    out
}

/// `n` bytes of text, most of it in characters of two to four bytes.
pub fn unicode(seed: u64, n: usize) -> B {
    let mut r = Rng::new(seed ^ 0x5555);
    let mut out = String::with_capacity(n + 4);
    while out.len() < n {
        let left = n - out.len();
        let v = r.next();
        let c = match v & 3 {
            0 => char::from_u32(0x80 + (v >> 8) as u32 % 0x700),
            1 => char::from_u32(0x800 + (v >> 8) as u32 % 0x8000),
            2 => char::from_u32(0x1_0000 + (v >> 8) as u32 % 0x10_0000),
            _ => Some('z'),
        }
        .unwrap_or('q');
        out.push(if c.len_utf8() <= left { c } else { 'e' });
    }
    out.into_bytes()
}

/// `n` arbitrary bytes.
pub fn noise(seed: u64, n: usize) -> B {
    let mut r = Rng::new(seed ^ 0xAAAA);
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        out.extend_from_slice(&r.next().to_le_bytes());
    }
    out.truncate(n);
    out
}
