//! A neutral model of MQTT 5 packets, written from the MQTT 5 specification and sharing no
//! code and no tables with the crate under test.
use std::collections::BTreeMap;

pub type B = Vec<u8>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    U8(u8),
    U16(u16),
    U32(u32),
    Str(B),
    Bin(B),
}

/// A property block. `some` says how a program spells an empty block (`Some(empty)` or
/// `None`); it has no meaning on the wire and does not take part in equality.
#[derive(Clone, Debug, Default)]
pub struct Props {
    pub single: BTreeMap<u8, Val>,
    pub user: Vec<(B, B)>,
    pub subids: Vec<u64>,
    pub some: bool,
}
impl PartialEq for Props {
    fn eq(&self, o: &Self) -> bool {
        self.single == o.single && self.user == o.user && self.subids == o.subids
    }
}
impl Eq for Props {}
impl Props {
    pub fn is_empty(&self) -> bool {
        self.single.is_empty() && self.user.is_empty() && self.subids.is_empty()
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Will {
    pub topic: B,
    pub msg: B,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

/// User name and password; blank means absent. `some` as in [`Props`].
#[derive(Clone, Debug, Default)]
pub struct Login {
    pub user: B,
    pub pass: B,
    pub some: bool,
}
impl PartialEq for Login {
    fn eq(&self, o: &Self) -> bool {
        self.user == o.user && self.pass == o.pass
    }
}
impl Eq for Login {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Connect {
    pub keep_alive: u16,
    pub client_id: B,
    pub clean: bool,
    pub props: Props,
    pub will: Option<Will>,
    pub login: Login,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Publish {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: B,
    pub pkid: u16,
    pub props: Props,
    pub payload: B,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Filter {
    pub path: B,
    pub qos: u8,
    pub nolocal: bool,
    pub rap: bool,
    pub retain_handling: u8,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum P {
    Connect(Box<Connect>),
    ConnAck { sp: bool, code: u8, props: Props },
    Publish(Box<Publish>),
    /// kind 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack { kind: u8, pkid: u16, reason: u8, props: Props },
    Subscribe { pkid: u16, props: Props, filters: Vec<Filter> },
    SubAck { pkid: u16, props: Props, codes: Vec<u8> },
    Unsubscribe { pkid: u16, props: Props, filters: Vec<B> },
    UnsubAck { pkid: u16, props: Props, codes: Vec<u8> },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
}

impl P {
    pub fn kind(&self) -> u8 {
        match self {
            P::Connect(_) => 1,
            P::ConnAck { .. } => 2,
            P::Publish(_) => 3,
            P::Ack { kind, .. } => *kind,
            P::Subscribe { .. } => 8,
            P::SubAck { .. } => 9,
            P::Unsubscribe { .. } => 10,
            P::UnsubAck { .. } => 11,
            P::PingReq => 12,
            P::PingResp => 13,
            P::Disconnect { .. } => 14,
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            P::Connect(c) => Some(&mut c.props),
            P::ConnAck { props, .. }
            | P::Ack { props, .. }
            | P::Subscribe { props, .. }
            | P::SubAck { props, .. }
            | P::Unsubscribe { props, .. }
            | P::UnsubAck { props, .. }
            | P::Disconnect { props, .. } => Some(props),
            P::Publish(p) => Some(&mut p.props),
            P::PingReq | P::PingResp => None,
        }
    }
    /// Every text the packet carries.
    pub fn texts(&mut self) -> Vec<&mut B> {
        fn of(p: &mut Props) -> impl Iterator<Item = &mut B> {
            let one = p.single.values_mut().filter_map(|v| match v {
                Val::Str(b) => Some(b),
                _ => None,
            });
            one.chain(p.user.iter_mut().flat_map(|(k, v)| [k, v]))
        }
        match self {
            P::Connect(c) => {
                let c = &mut **c;
                let mut t = vec![&mut c.client_id, &mut c.login.user, &mut c.login.pass];
                t.extend(of(&mut c.props));
                if let Some(w) = &mut c.will {
                    t.push(&mut w.topic);
                    t.extend(of(&mut w.props));
                }
                t
            }
            P::Publish(p) => {
                let p = &mut **p;
                let mut t = vec![&mut p.topic];
                t.extend(of(&mut p.props));
                t
            }
            P::Subscribe { props, filters, .. } => {
                of(props).chain(filters.iter_mut().map(|f| &mut f.path)).collect()
            }
            P::Unsubscribe { props, filters, .. } => of(props).chain(filters.iter_mut()).collect(),
            p => p.props_mut().into_iter().flat_map(of).collect(),
        }
    }
    /// What a receiver is owed: MQTT does not transmit the packet id of a QoS 0 publish.
    pub fn norm(&self) -> P {
        let mut p = self.clone();
        if let P::Publish(p) = &mut p {
            if p.qos == 0 {
                p.pkid = 0;
            }
        }
        p
    }
    /// Short text for traces.
    pub fn brief(&self) -> String {
        let n = crate::refcodec::remaining_len(self);
        if n > 200_000 {
            return format!("{} of {n} bytes", kind_name(self.kind()));
        }
        let s = format!("{self:?}");
        if s.len() > 400 {
            let h = s.bytes().fold(0u64, |a, b| crate::src::mix(a ^ u64::from(b)));
            let cut = (0..=300).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
            format!("{}… ({} chars, hash {h:016x})", &s[..cut], s.len())
        } else {
            s
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    U8,
    U16,
    U32,
    Str,
    Bin,
    Pair,
    Var,
}

/// MQTT 5, table 2-4: the type of each property.
pub fn prop_type(id: u8) -> Option<T> {
    Some(match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => T::U8,
        19 | 33 | 34 | 35 => T::U16,
        2 | 17 | 24 | 39 => T::U32,
        3 | 8 | 18 | 21 | 26 | 28 | 31 => T::Str,
        9 | 22 => T::Bin,
        38 => T::Pair,
        11 => T::Var,
        _ => return None,
    })
}

/// Properties defined for a packet type (0 = the will properties of CONNECT).
pub fn allowed(kind: u8) -> &'static [u8] {
    match kind {
        0 => &[24, 1, 2, 3, 8, 9, 38],
        1 => &[17, 33, 39, 34, 25, 23, 38, 21, 22],
        2 => &[17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22],
        3 => &[1, 2, 35, 8, 9, 38, 11, 3],
        4..=7 | 9 | 11 => &[31, 38],
        8 => &[11, 38],
        10 => &[38],
        14 => &[17, 31, 38, 28],
        _ => &[],
    }
}

/// Reason codes defined for a packet type.
pub fn reasons(kind: u8) -> &'static [u8] {
    match kind {
        2 => &[
            0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157,
            159,
        ],
        4 | 5 => &[0, 16, 128, 131, 135, 144, 145, 151, 153],
        6 | 7 => &[0, 146],
        9 => &[0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162],
        11 => &[0, 17, 128, 131, 135, 143, 145],
        14 => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96,
            0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
        ],
        _ => &[],
    }
}

pub fn kind_name(k: u8) -> &'static str {
    [
        "type0", "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
        "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "type15",
    ][usize::from(k & 15)]
}
