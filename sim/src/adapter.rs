// Included once per build: `k` is the crate, `S` its string type, `txt` makes one from bytes,
// `raw` gives its bytes. The code tables below are the specification's, not the crate's.
use crate::alloc::{measure, Mem};
use crate::builds::{Piece, E};
use crate::model::{self as m, Props, Val, B, P};
use bytes::{Bytes, BytesMut};

pub fn err(e: k::Error) -> E {
    match e {
        k::Error::InsufficientBytes(n) => E::Insufficient(n),
        k::Error::PayloadSizeLimitExceeded { pkt_size, max } => E::TooBig { size: pkt_size, max },
        k::Error::MalformedRemainingLength => E::BadLen,
        k::Error::TopicNotUtf8 => E::NotUtf8,
        o => E::Other(format!("{o:?}")),
    }
}

fn g8(p: &Props, id: u8) -> Option<u8> {
    p.single.get(&id).map(|v| match v {
        Val::U8(x) => *x,
        _ => panic!("model: property {id} is not a byte"),
    })
}
fn g16(p: &Props, id: u8) -> Option<u16> {
    p.single.get(&id).map(|v| match v {
        Val::U16(x) => *x,
        _ => panic!("model: property {id} is not a u16"),
    })
}
fn g32(p: &Props, id: u8) -> Option<u32> {
    p.single.get(&id).map(|v| match v {
        Val::U32(x) => *x,
        _ => panic!("model: property {id} is not a u32"),
    })
}
fn gs(p: &Props, id: u8) -> Option<S> {
    p.single.get(&id).map(|v| match v {
        Val::Str(x) => txt(x),
        _ => panic!("model: property {id} is not text"),
    })
}
fn gb(p: &Props, id: u8) -> Option<Bytes> {
    p.single.get(&id).map(|v| match v {
        Val::Bin(x) => Bytes::from(x.clone()),
        _ => panic!("model: property {id} is not binary"),
    })
}
fn gu(p: &Props) -> Vec<(S, S)> {
    p.user.iter().map(|(a, b)| (txt(a), txt(b))).collect()
}
fn absent(p: &Props) -> bool {
    p.is_empty() && !p.some
}

struct Out(Props);
impl Out {
    fn new(some: bool) -> Self {
        Out(Props { some, ..Props::default() })
    }
    fn v8(&mut self, id: u8, v: &Option<u8>) -> &mut Self {
        if let Some(x) = v {
            self.0.single.insert(id, Val::U8(*x));
        }
        self
    }
    fn v16(&mut self, id: u8, v: &Option<u16>) -> &mut Self {
        if let Some(x) = v {
            self.0.single.insert(id, Val::U16(*x));
        }
        self
    }
    fn v32(&mut self, id: u8, v: &Option<u32>) -> &mut Self {
        if let Some(x) = v {
            self.0.single.insert(id, Val::U32(*x));
        }
        self
    }
    fn vs(&mut self, id: u8, v: &Option<S>) -> &mut Self {
        if let Some(x) = v {
            self.0.single.insert(id, Val::Str(raw(x)));
        }
        self
    }
    fn vb(&mut self, id: u8, v: &Option<Bytes>) -> &mut Self {
        if let Some(x) = v {
            self.0.single.insert(id, Val::Bin(x.to_vec()));
        }
        self
    }
    fn us(&mut self, v: &[(S, S)]) -> &mut Self {
        self.0.user = v.iter().map(|(a, b)| (raw(a), raw(b))).collect();
        self
    }
    fn ids(&mut self, v: &[usize]) -> &mut Self {
        self.0.subids = v.iter().map(|x| *x as u64).collect();
        self
    }
    fn done(&mut self) -> Props {
        std::mem::take(&mut self.0)
    }
}

fn qos(q: u8) -> k::QoS {
    match q {
        0 => k::QoS::AtMostOnce,
        1 => k::QoS::AtLeastOnce,
        2 => k::QoS::ExactlyOnce,
        _ => panic!("model: QoS {q}"),
    }
}
fn unqos(q: k::QoS) -> u8 {
    match q {
        k::QoS::AtMostOnce => 0,
        k::QoS::AtLeastOnce => 1,
        k::QoS::ExactlyOnce => 2,
    }
}

macro_rules! codes {
    ($to:ident, $from:ident, $t:ident: $($n:expr => $v:ident),* $(,)?) => {
        fn $to(c: u8) -> k::$t {
            $(if c == $n { return k::$t::$v; })*
            panic!("model: no code {c} in {}", stringify!($t))
        }
        fn $from(c: k::$t) -> u8 {
            match c { $(k::$t::$v => $n,)* }
        }
    };
}
// 1, 2 and 3 are the version 3 codes, which have no encoding in version 5.
codes!(crc, uncrc, ConnectReturnCode:
    0 => Success, 1 => RefusedProtocolVersion, 2 => BadClientId, 3 => ServiceUnavailable,
    128 => UnspecifiedError, 129 => MalformedPacket, 130 => ProtocolError, 131 => ImplementationSpecificError,
    132 => UnsupportedProtocolVersion, 133 => ClientIdentifierNotValid, 134 => BadUserNamePassword,
    135 => NotAuthorized, 136 => ServerUnavailable, 137 => ServerBusy, 138 => Banned,
    140 => BadAuthenticationMethod, 144 => TopicNameInvalid, 149 => PacketTooLarge, 151 => QuotaExceeded,
    153 => PayloadFormatInvalid, 154 => RetainNotSupported, 155 => QoSNotSupported, 156 => UseAnotherServer,
    157 => ServerMoved, 159 => ConnectionRateExceeded);
codes!(par, unpar, PubAckReason:
    0 => Success, 16 => NoMatchingSubscribers, 128 => UnspecifiedError, 131 => ImplementationSpecificError,
    135 => NotAuthorized, 144 => TopicNameInvalid, 145 => PacketIdentifierInUse, 151 => QuotaExceeded,
    153 => PayloadFormatInvalid);
codes!(prr, unprr, PubRecReason:
    0 => Success, 16 => NoMatchingSubscribers, 128 => UnspecifiedError, 131 => ImplementationSpecificError,
    135 => NotAuthorized, 144 => TopicNameInvalid, 145 => PacketIdentifierInUse, 151 => QuotaExceeded,
    153 => PayloadFormatInvalid);
codes!(prl, unprl, PubRelReason: 0 => Success, 146 => PacketIdentifierNotFound);
codes!(pcr, unpcr, PubCompReason: 0 => Success, 146 => PacketIdentifierNotFound);
codes!(uar, unuar, UnsubAckReason:
    0 => Success, 17 => NoSubscriptionExisted, 128 => UnspecifiedError, 131 => ImplementationSpecificError,
    135 => NotAuthorized, 143 => TopicFilterInvalid, 145 => PacketIdentifierInUse);
codes!(drc, undrc, DisconnectReasonCode:
    0x00 => NormalDisconnection, 0x04 => DisconnectWithWillMessage, 0x80 => UnspecifiedError,
    0x81 => MalformedPacket, 0x82 => ProtocolError, 0x83 => ImplementationSpecificError, 0x87 => NotAuthorized,
    0x89 => ServerBusy, 0x8B => ServerShuttingDown, 0x8D => KeepAliveTimeout, 0x8E => SessionTakenOver,
    0x8F => TopicFilterInvalid, 0x90 => TopicNameInvalid, 0x93 => ReceiveMaximumExceeded,
    0x94 => TopicAliasInvalid, 0x95 => PacketTooLarge, 0x96 => MessageRateTooHigh, 0x97 => QuotaExceeded,
    0x98 => AdministrativeAction, 0x99 => PayloadFormatInvalid, 0x9A => RetainNotSupported,
    0x9B => QoSNotSupported, 0x9C => UseAnotherServer, 0x9D => ServerMoved,
    0x9E => SharedSubscriptionNotSupported, 0x9F => ConnectionRateExceeded, 0xA0 => MaximumConnectTime,
    0xA1 => SubscriptionIdentifiersNotSupported, 0xA2 => WildcardSubscriptionsNotSupported);
fn sac(c: u8) -> k::SubscribeReasonCode {
    use k::SubscribeReasonCode as R;
    match c {
        0..=2 => R::Success(qos(c)),
        128 => R::Unspecified,
        131 => R::ImplementationSpecific,
        135 => R::NotAuthorized,
        143 => R::TopicFilterInvalid,
        145 => R::PkidInUse,
        151 => R::QuotaExceeded,
        158 => R::SharedSubscriptionsNotSupported,
        161 => R::SubscriptionIdNotSupported,
        162 => R::WildcardSubscriptionsNotSupported,
        _ => panic!("model: no SUBACK code {c}"),
    }
}
fn unsac(c: k::SubscribeReasonCode) -> u8 {
    use k::SubscribeReasonCode as R;
    match c {
        R::Success(q) => unqos(q),
        R::Unspecified => 128,
        R::ImplementationSpecific => 131,
        R::NotAuthorized => 135,
        R::TopicFilterInvalid => 143,
        R::PkidInUse => 145,
        R::QuotaExceeded => 151,
        R::SharedSubscriptionsNotSupported => 158,
        R::SubscriptionIdNotSupported => 161,
        R::WildcardSubscriptionsNotSupported => 162,
    }
}

macro_rules! reason_props {
    ($t:ident, $p:expr) => {
        if absent($p) {
            None
        } else {
            Some(k::$t { reason_string: gs($p, 31), user_properties: gu($p) })
        }
    };
}

pub fn make(p: &P) -> k::Packet {
    match p {
        P::Connect(c) => {
            let q = &c.props;
            let properties = if absent(q) {
                None
            } else {
                Some(k::ConnectProperties {
                    session_expiry_interval: g32(q, 17),
                    receive_maximum: g16(q, 33),
                    max_packet_size: g32(q, 39),
                    topic_alias_max: g16(q, 34),
                    request_response_info: g8(q, 25),
                    request_problem_info: g8(q, 23),
                    user_properties: gu(q),
                    authentication_method: gs(q, 21),
                    authentication_data: gb(q, 22),
                })
            };
            let will = c.will.as_ref().map(|w| {
                let q = &w.props;
                let properties = if absent(q) {
                    None
                } else {
                    Some(k::LastWillProperties {
                        delay_interval: g32(q, 24),
                        payload_format_indicator: g8(q, 1),
                        message_expiry_interval: g32(q, 2),
                        content_type: gs(q, 3),
                        response_topic: gs(q, 8),
                        correlation_data: gb(q, 9),
                        user_properties: gu(q),
                    })
                };
                k::LastWill {
                    topic: Bytes::from(w.topic.clone()),
                    message: Bytes::from(w.msg.clone()),
                    qos: qos(w.qos),
                    retain: w.retain,
                    properties,
                }
            });
            let l = &c.login;
            let login = if l.user.is_empty() && l.pass.is_empty() && !l.some {
                None
            } else {
                Some(k::Login { username: txt(&l.user), password: txt(&l.pass) })
            };
            k::Packet::Connect(
                k::Connect { keep_alive: c.keep_alive, client_id: txt(&c.client_id), clean_start: c.clean, properties },
                will,
                login,
            )
        }
        P::ConnAck { sp, code, props: q } => k::Packet::ConnAck(k::ConnAck {
            session_present: *sp,
            code: crc(*code),
            properties: if absent(q) {
                None
            } else {
                Some(k::ConnAckProperties {
                    session_expiry_interval: g32(q, 17),
                    receive_max: g16(q, 33),
                    max_qos: g8(q, 36),
                    retain_available: g8(q, 37),
                    max_packet_size: g32(q, 39),
                    assigned_client_identifier: gs(q, 18),
                    topic_alias_max: g16(q, 34),
                    reason_string: gs(q, 31),
                    user_properties: gu(q),
                    wildcard_subscription_available: g8(q, 40),
                    subscription_identifiers_available: g8(q, 41),
                    shared_subscription_available: g8(q, 42),
                    server_keep_alive: g16(q, 19),
                    response_information: gs(q, 26),
                    server_reference: gs(q, 28),
                    authentication_method: gs(q, 21),
                    authentication_data: gb(q, 22),
                })
            },
        }),
        P::Publish(p) => {
            let q = &p.props;
            k::Packet::Publish(k::Publish {
                dup: p.dup,
                qos: qos(p.qos),
                retain: p.retain,
                topic: txt(&p.topic),
                pkid: p.pkid,
                payload: Bytes::from(p.payload.clone()),
                properties: if absent(q) {
                    None
                } else {
                    Some(k::PublishProperties {
                        payload_format_indicator: g8(q, 1),
                        message_expiry_interval: g32(q, 2),
                        topic_alias: g16(q, 35),
                        response_topic: gs(q, 8),
                        correlation_data: gb(q, 9),
                        user_properties: gu(q),
                        subscription_identifiers: q.subids.iter().map(|x| *x as usize).collect(),
                        content_type: gs(q, 3),
                    })
                },
            })
        }
        P::Ack { kind, pkid, reason, props } => match kind {
            4 => k::Packet::PubAck(k::PubAck {
                pkid: *pkid,
                reason: par(*reason),
                properties: reason_props!(PubAckProperties, props),
            }),
            5 => k::Packet::PubRec(k::PubRec {
                pkid: *pkid,
                reason: prr(*reason),
                properties: reason_props!(PubRecProperties, props),
            }),
            6 => k::Packet::PubRel(k::PubRel {
                pkid: *pkid,
                reason: prl(*reason),
                properties: reason_props!(PubRelProperties, props),
            }),
            _ => k::Packet::PubComp(k::PubComp {
                pkid: *pkid,
                reason: pcr(*reason),
                properties: reason_props!(PubCompProperties, props),
            }),
        },
        P::Subscribe { pkid, props, filters } => k::Packet::Subscribe(k::Subscribe {
            pkid: *pkid,
            filters: filters
                .iter()
                .map(|f| k::Filter {
                    path: txt(&f.path),
                    qos: qos(f.qos),
                    nolocal: f.nolocal,
                    preserve_retain: f.rap,
                    retain_forward_rule: match f.retain_handling {
                        0 => k::RetainForwardRule::OnEverySubscribe,
                        1 => k::RetainForwardRule::OnNewSubscribe,
                        _ => k::RetainForwardRule::Never,
                    },
                })
                .collect(),
            properties: if absent(props) {
                None
            } else {
                Some(k::SubscribeProperties {
                    id: props.subids.first().map(|x| *x as usize),
                    user_properties: gu(props),
                })
            },
        }),
        P::SubAck { pkid, props, codes } => k::Packet::SubAck(k::SubAck {
            pkid: *pkid,
            return_codes: codes.iter().map(|c| sac(*c)).collect(),
            properties: reason_props!(SubAckProperties, props),
        }),
        P::Unsubscribe { pkid, props, filters } => k::Packet::Unsubscribe(k::Unsubscribe {
            pkid: *pkid,
            filters: filters.iter().map(|f| txt(f)).collect(),
            properties: if absent(props) {
                None
            } else {
                Some(k::UnsubscribeProperties { user_properties: gu(props) })
            },
        }),
        P::UnsubAck { pkid, props, codes } => k::Packet::UnsubAck(k::UnsubAck {
            pkid: *pkid,
            reasons: codes.iter().map(|c| uar(*c)).collect(),
            properties: reason_props!(UnsubAckProperties, props),
        }),
        P::PingReq => k::Packet::PingReq(k::PingReq),
        P::PingResp => k::Packet::PingResp(k::PingResp),
        P::Disconnect { reason, props } => k::Packet::Disconnect(k::Disconnect {
            reason_code: drc(*reason),
            properties: if absent(props) {
                None
            } else {
                Some(k::DisconnectProperties {
                    session_expiry_interval: g32(props, 17),
                    reason_string: gs(props, 31),
                    user_properties: gu(props),
                    server_reference: gs(props, 28),
                })
            },
        }),
    }
}

macro_rules! un_reason {
    ($p:expr) => {
        match $p {
            None => Props::default(),
            Some(q) => Out::new(true).vs(31, &q.reason_string).us(&q.user_properties).done(),
        }
    };
}

pub fn model(p: &k::Packet) -> P {
    match p {
        k::Packet::Connect(c, w, l) => P::Connect(Box::new(m::Connect {
            keep_alive: c.keep_alive,
            client_id: raw(&c.client_id),
            clean: c.clean_start,
            props: match &c.properties {
                None => Props::default(),
                Some(q) => Out::new(true)
                    .v32(17, &q.session_expiry_interval)
                    .v16(33, &q.receive_maximum)
                    .v32(39, &q.max_packet_size)
                    .v16(34, &q.topic_alias_max)
                    .v8(25, &q.request_response_info)
                    .v8(23, &q.request_problem_info)
                    .us(&q.user_properties)
                    .vs(21, &q.authentication_method)
                    .vb(22, &q.authentication_data)
                    .done(),
            },
            will: w.as_ref().map(|w| m::Will {
                topic: w.topic.to_vec(),
                msg: w.message.to_vec(),
                qos: unqos(w.qos),
                retain: w.retain,
                props: match &w.properties {
                    None => Props::default(),
                    Some(q) => Out::new(true)
                        .v32(24, &q.delay_interval)
                        .v8(1, &q.payload_format_indicator)
                        .v32(2, &q.message_expiry_interval)
                        .vs(3, &q.content_type)
                        .vs(8, &q.response_topic)
                        .vb(9, &q.correlation_data)
                        .us(&q.user_properties)
                        .done(),
                },
            }),
            login: match l {
                None => m::Login::default(),
                Some(l) => m::Login { user: raw(&l.username), pass: raw(&l.password), some: true },
            },
        })),
        k::Packet::ConnAck(a) => P::ConnAck {
            sp: a.session_present,
            code: uncrc(a.code),
            props: match &a.properties {
                None => Props::default(),
                Some(q) => Out::new(true)
                    .v32(17, &q.session_expiry_interval)
                    .v16(33, &q.receive_max)
                    .v8(36, &q.max_qos)
                    .v8(37, &q.retain_available)
                    .v32(39, &q.max_packet_size)
                    .vs(18, &q.assigned_client_identifier)
                    .v16(34, &q.topic_alias_max)
                    .vs(31, &q.reason_string)
                    .us(&q.user_properties)
                    .v8(40, &q.wildcard_subscription_available)
                    .v8(41, &q.subscription_identifiers_available)
                    .v8(42, &q.shared_subscription_available)
                    .v16(19, &q.server_keep_alive)
                    .vs(26, &q.response_information)
                    .vs(28, &q.server_reference)
                    .vs(21, &q.authentication_method)
                    .vb(22, &q.authentication_data)
                    .done(),
            },
        },
        k::Packet::Publish(p) => P::Publish(Box::new(m::Publish {
            dup: p.dup,
            qos: unqos(p.qos),
            retain: p.retain,
            topic: raw(&p.topic),
            pkid: p.pkid,
            props: match &p.properties {
                None => Props::default(),
                Some(q) => Out::new(true)
                    .v8(1, &q.payload_format_indicator)
                    .v32(2, &q.message_expiry_interval)
                    .v16(35, &q.topic_alias)
                    .vs(8, &q.response_topic)
                    .vb(9, &q.correlation_data)
                    .us(&q.user_properties)
                    .ids(&q.subscription_identifiers)
                    .vs(3, &q.content_type)
                    .done(),
            },
            payload: p.payload.to_vec(),
        })),
        k::Packet::PubAck(a) => {
            P::Ack { kind: 4, pkid: a.pkid, reason: unpar(a.reason), props: un_reason!(&a.properties) }
        }
        k::Packet::PubRec(a) => {
            P::Ack { kind: 5, pkid: a.pkid, reason: unprr(a.reason), props: un_reason!(&a.properties) }
        }
        k::Packet::PubRel(a) => {
            P::Ack { kind: 6, pkid: a.pkid, reason: unprl(a.reason), props: un_reason!(&a.properties) }
        }
        k::Packet::PubComp(a) => {
            P::Ack { kind: 7, pkid: a.pkid, reason: unpcr(a.reason), props: un_reason!(&a.properties) }
        }
        k::Packet::Subscribe(s) => P::Subscribe {
            pkid: s.pkid,
            props: match &s.properties {
                None => Props::default(),
                Some(q) => Out::new(true)
                    .ids(&q.id.iter().copied().collect::<Vec<usize>>())
                    .us(&q.user_properties)
                    .done(),
            },
            filters: s
                .filters
                .iter()
                .map(|f| m::Filter {
                    path: raw(&f.path),
                    qos: unqos(f.qos),
                    nolocal: f.nolocal,
                    rap: f.preserve_retain,
                    retain_handling: match f.retain_forward_rule {
                        k::RetainForwardRule::OnEverySubscribe => 0,
                        k::RetainForwardRule::OnNewSubscribe => 1,
                        k::RetainForwardRule::Never => 2,
                    },
                })
                .collect(),
        },
        k::Packet::SubAck(a) => P::SubAck {
            pkid: a.pkid,
            props: un_reason!(&a.properties),
            codes: a.return_codes.iter().map(|c| unsac(*c)).collect(),
        },
        k::Packet::Unsubscribe(u) => P::Unsubscribe {
            pkid: u.pkid,
            props: match &u.properties {
                None => Props::default(),
                Some(q) => Out::new(true).us(&q.user_properties).done(),
            },
            filters: u.filters.iter().map(|f| raw(f)).collect(),
        },
        k::Packet::UnsubAck(a) => P::UnsubAck {
            pkid: a.pkid,
            props: un_reason!(&a.properties),
            codes: a.reasons.iter().map(|c| unuar(*c)).collect(),
        },
        k::Packet::PingReq(_) => P::PingReq,
        k::Packet::PingResp(_) => P::PingResp,
        k::Packet::Disconnect(d) => P::Disconnect {
            reason: undrc(d.reason_code),
            props: match &d.properties {
                None => Props::default(),
                Some(q) => Out::new(true)
                    .v32(17, &q.session_expiry_interval)
                    .vs(31, &q.reason_string)
                    .us(&q.user_properties)
                    .vs(28, &q.server_reference)
                    .done(),
            },
        },
    }
}

pub fn read(b: &mut BytesMut, max: Option<usize>) -> (Result<k::Packet, k::Error>, Mem) {
    measure(|| k::Packet::read(b, max))
}
/// `own`: through the packet's own writer.
pub fn write(p: &k::Packet, b: &mut BytesMut, own: bool) -> Result<usize, E> {
    if !own {
        return p.write(b).map_err(err);
    }
    match p {
        k::Packet::Connect(x, w, l) => x.write(w, l, b),
        k::Packet::PingReq(_) => k::PingReq::write(b),
        k::Packet::PingResp(_) => k::PingResp::write(b),
        k::Packet::ConnAck(x) => x.write(b),
        k::Packet::Publish(x) => x.write(b),
        k::Packet::PubAck(x) => x.write(b),
        k::Packet::PubRec(x) => x.write(b),
        k::Packet::PubRel(x) => x.write(b),
        k::Packet::PubComp(x) => x.write(b),
        k::Packet::Subscribe(x) => x.write(b),
        k::Packet::SubAck(x) => x.write(b),
        k::Packet::Unsubscribe(x) => x.write(b),
        k::Packet::UnsubAck(x) => x.write(b),
        k::Packet::Disconnect(x) => x.write(b),
    }
    .map_err(err)
}
pub fn size(p: &k::Packet) -> Option<usize> {
    Some(match p {
        k::Packet::Connect(..) | k::Packet::PingReq(_) | k::Packet::PingResp(_) => return None,
        k::Packet::ConnAck(x) => x.size(),
        k::Packet::Publish(x) => x.size(),
        k::Packet::PubAck(x) => x.size(),
        k::Packet::PubRec(x) => x.size(),
        k::Packet::PubRel(x) => x.size(),
        k::Packet::PubComp(x) => x.size(),
        k::Packet::Subscribe(x) => x.size(),
        k::Packet::SubAck(x) => x.size(),
        k::Packet::Unsubscribe(x) => x.size(),
        k::Packet::UnsubAck(x) => x.size(),
        k::Packet::Disconnect(x) => x.size(),
    })
}
/// The frame check: length of the frame and the number of its packet type.
pub fn check(b: &[u8], max: Option<usize>) -> Result<(usize, Result<u8, E>), E> {
    let h = k::check(b.iter(), max).map_err(err)?;
    Ok((h.frame_length(), h.packet_type().map(|t| t as u8).map_err(err)))
}
/// Framing by hand with the checked header, then the packet's own reader.
pub fn direct(b: &[u8], max: Option<usize>) -> Result<k::Packet, E> {
    let h = k::check(b.iter(), max).map_err(err)?;
    let f = Bytes::copy_from_slice(&b[..h.frame_length()]);
    use k::PacketType as T;
    Ok(match h.packet_type().map_err(err)? {
        T::Connect => {
            let (c, w, l) = k::Connect::read(h, f).map_err(err)?;
            k::Packet::Connect(c, w, l)
        }
        T::ConnAck => k::Packet::ConnAck(k::ConnAck::read(h, f).map_err(err)?),
        T::Publish => k::Packet::Publish(k::Publish::read(h, f).map_err(err)?),
        T::PubAck => k::Packet::PubAck(k::PubAck::read(h, f).map_err(err)?),
        T::PubRec => k::Packet::PubRec(k::PubRec::read(h, f).map_err(err)?),
        T::PubRel => k::Packet::PubRel(k::PubRel::read(h, f).map_err(err)?),
        T::PubComp => k::Packet::PubComp(k::PubComp::read(h, f).map_err(err)?),
        T::Subscribe => k::Packet::Subscribe(k::Subscribe::read(h, f).map_err(err)?),
        T::SubAck => k::Packet::SubAck(k::SubAck::read(h, f).map_err(err)?),
        T::Unsubscribe => k::Packet::Unsubscribe(k::Unsubscribe::read(h, f).map_err(err)?),
        T::UnsubAck => k::Packet::UnsubAck(k::UnsubAck::read(h, f).map_err(err)?),
        T::PingReq => k::Packet::PingReq(k::PingReq),
        T::PingResp => k::Packet::PingResp(k::PingResp),
        T::Disconnect => k::Packet::Disconnect(k::Disconnect::read(h, f).map_err(err)?),
    })
}
#[allow(dead_code)]
fn unused(_: &B) {}

fn piece(v: &mut Vec<Piece>, at: usize, what: &'static str, queued: &[u8], f: impl FnOnce(&mut BytesMut) -> Result<u8, k::Error>) -> Result<usize, E> {
    let mut b = BytesMut::from(queued);
    let flags = f(&mut b).map_err(err)?;
    let intact = b.starts_with(queued);
    let bytes = b.get(queued.len()..).unwrap_or_default().to_vec();
    let n = bytes.len();
    let mask = match what {
        "will" => 0x3C,
        "login" => 0xC0,
        _ => 0,
    };
    v.push(Piece { at, what, intact, bytes, flags: (mask != 0).then_some((flags, mask)) });
    Ok(n)
}

/// The parts of a packet by their own writers, and where each belongs in the packet's body.
pub fn pieces(p: &k::Packet, queued: &[u8]) -> Result<Vec<Piece>, E> {
    let mut v = Vec::new();
    macro_rules! props {
        ($at:expr, $q:expr) => {
            match &$q {
                Some(q) => piece(&mut v, $at, "properties", queued, |b| q.write(b).map(|()| 0))?,
                None => 1,
            }
        };
    }
    match p {
        k::Packet::Connect(c, w, l) => {
            let mut at = 10 + props!(10, c.properties);
            at += 2 + c.client_id.len();
            if let Some(w) = w {
                if let Some(q) = &w.properties {
                    piece(&mut v, at, "will properties", queued, |b| q.write(b).map(|()| 0))?;
                }
                at += piece(&mut v, at, "will", queued, |b| w.write(b))?;
            }
            if let Some(l) = l {
                piece(&mut v, at, "login", queued, |b| l.write(b))?;
            }
        }
        k::Packet::ConnAck(x) => drop(props!(2, x.properties)),
        k::Packet::Publish(x) => {
            let at = 2 + x.topic.len() + if x.qos == k::QoS::AtMostOnce { 0 } else { 2 };
            props!(at, x.properties);
        }
        k::Packet::PubAck(x) => drop(props!(3, x.properties)),
        k::Packet::PubRec(x) => drop(props!(3, x.properties)),
        k::Packet::PubRel(x) => drop(props!(3, x.properties)),
        k::Packet::PubComp(x) => drop(props!(3, x.properties)),
        k::Packet::Subscribe(x) => {
            let mut at = 2 + props!(2, x.properties);
            for f in &x.filters {
                at += piece(&mut v, at, "filter", queued, |b| f.write(b).map(|()| 0))?;
            }
        }
        k::Packet::SubAck(x) => drop(props!(2, x.properties)),
        k::Packet::Unsubscribe(x) => drop(props!(2, x.properties)),
        k::Packet::UnsubAck(x) => drop(props!(2, x.properties)),
        // Its properties have no writer of their own.
        k::Packet::Disconnect(_) | k::Packet::PingReq(_) | k::Packet::PingResp(_) => {}
    }
    Ok(v)
}

fn gap(b: &mut Bytes, n: usize) {
    let _ = b.split_to(n.min(b.len()));
}
fn gap16(b: &mut Bytes) {
    let n = b.get(..2).map_or(0, |n| usize::from(n[0]) << 8 | usize::from(n[1]));
    gap(b, 2 + n);
}

/// The delivered packet `p` once more, its parts taken from `body` by their own readers; with
/// the number of bytes that are left over.
pub fn apart(p: &k::Packet, mut b: Bytes, behind: &[u8]) -> Result<(k::Packet, usize, usize), E> {
    let whole = b.len() - behind.len();
    let mut p = p.clone();
    // The bytes left that are not a part's business.
    let mut rest = behind.len();
    let b = &mut b;
    match &mut p {
        k::Packet::Connect(c, w, l) => {
            let flags = b.get(7).copied().unwrap_or(0);
            gap(b, 10);
            c.properties = k::ConnectProperties::read(b).map_err(err)?;
            gap16(b);
            if let Some(w) = w {
                w.properties = k::LastWillProperties::read(&mut b.clone()).map_err(err)?;
            }
            let q = w.take().map(|w| w.properties);
            *w = k::LastWill::read(flags, b).map_err(err)?;
            if let (Some(w), Some(q)) = (w.as_mut(), q) {
                if w.properties != q {
                    return Err(E::Other("the will's properties, read on their own, differ from the will's".into()));
                }
            }
            *l = k::Login::read(flags, b).map_err(err)?;
        }
        k::Packet::ConnAck(x) => {
            gap(b, 2);
            x.properties = k::ConnAckProperties::read(b).map_err(err)?;
        }
        k::Packet::Publish(x) => {
            gap16(b);
            gap(b, if x.qos == k::QoS::AtMostOnce { 0 } else { 2 });
            x.properties = k::PublishProperties::read(b).map_err(err)?;
            rest += x.payload.len();
        }
        k::Packet::PubAck(x) if whole > 3 => {
            gap(b, 3);
            x.properties = k::PubAckProperties::read(b).map_err(err)?;
        }
        k::Packet::PubRec(x) if whole > 3 => {
            gap(b, 3);
            x.properties = k::PubRecProperties::read(b).map_err(err)?;
        }
        k::Packet::PubRel(x) if whole > 3 => {
            gap(b, 3);
            x.properties = k::PubRelProperties::read(b).map_err(err)?;
        }
        k::Packet::PubComp(x) if whole > 3 => {
            gap(b, 3);
            x.properties = k::PubCompProperties::read(b).map_err(err)?;
        }
        k::Packet::Subscribe(x) => {
            gap(b, 2);
            x.properties = k::SubscribeProperties::read(b).map_err(err)?;
            // Filters go on to the end.
            b.truncate(b.len() - behind.len());
            rest = 0;
            x.filters = k::Filter::read(b).map_err(err)?;
        }
        k::Packet::SubAck(x) => {
            gap(b, 2);
            x.properties = k::SubAckProperties::read(b).map_err(err)?;
            rest += x.return_codes.len();
        }
        k::Packet::Unsubscribe(x) => {
            gap(b, 2);
            x.properties = k::UnsubscribeProperties::read(b).map_err(err)?;
            rest += x.filters.iter().map(|f| 2 + f.len()).sum::<usize>();
        }
        k::Packet::UnsubAck(x) => {
            gap(b, 2);
            x.properties = k::UnsubAckProperties::read(b).map_err(err)?;
            rest += x.reasons.len();
        }
        k::Packet::Disconnect(x) if whole > 1 => {
            gap(b, 1);
            x.properties = k::DisconnectProperties::extract(b).map_err(err)?;
        }
        // Nothing that has a reader of its own.
        _ => rest = b.len(),
    }
    let left = b.len();
    Ok((p, left, rest))
}

/// Any bytes to the reader of any part: it answers.
pub fn poke(n: u64, flags: u8, mut b: Bytes) -> bool {
    let b = &mut b;
    match n {
        0 => k::ConnectProperties::read(b).is_ok(),
        1 => k::LastWill::read(flags, b).is_ok(),
        2 => k::LastWillProperties::read(b).is_ok(),
        3 => k::Login::read(flags, b).is_ok(),
        4 => k::ConnAckProperties::read(b).is_ok(),
        5 => k::PublishProperties::read(b).is_ok(),
        6 => k::PubAckProperties::read(b).is_ok(),
        7 => k::PubRecProperties::read(b).is_ok(),
        8 => k::PubRelProperties::read(b).is_ok(),
        9 => k::PubCompProperties::read(b).is_ok(),
        10 => k::SubscribeProperties::read(b).is_ok(),
        11 => k::Filter::read(b).is_ok(),
        12 => k::SubAckProperties::read(b).is_ok(),
        13 => k::UnsubscribeProperties::read(b).is_ok(),
        14 => k::UnsubAckProperties::read(b).is_ok(),
        _ => k::DisconnectProperties::extract(b).is_ok(),
    }
}

/// Fixed text of a program, given by the crate's own maker of texts.
fn fixed(s: S) -> S {
    let b = raw(&s);
    match crate::builds::POOL.iter().find(|p| p.as_bytes() == b) {
        Some(p) => k::mqtt_string_new(p),
        None => s,
    }
}

/// The packet built as a program builds it: by the constructor, from defaults, and only the
/// fields set by hand that the constructor does not take.
pub fn short(p: &P) -> k::Packet {
    /// Properties from nothing, field by field, only those that say something.
    macro_rules! fill {
        ($none:expr, $lit:expr; $($f:ident)*) => {
            $lit.map(|lit| {
                let mut q = $none;
                $(if lit.$f.is_some() {
                    q.$f = lit.$f;
                })*
                for (a, b) in lit.user_properties {
                    q.user_properties.push((fixed(a), fixed(b)));
                }
                q
            })
        };
    }
    macro_rules! ack {
        ($t:ident, $r:ident, $a:expr) => {{
            let mut x = k::$t::new($a.pkid, $a.properties);
            if $a.reason != k::$r::Success {
                x.reason = $a.reason;
            }
            k::Packet::$t(x)
        }};
    }
    match make(p) {
        k::Packet::Connect(mut c, w, l) => {
            let none = if c.clean_start { k::ConnectProperties::new() } else { k::ConnectProperties::default() };
            c.properties = fill!(none, c.properties; session_expiry_interval receive_maximum max_packet_size topic_alias_max
                request_response_info request_problem_info authentication_method authentication_data);
            c.client_id = fixed(c.client_id);
            k::Packet::Connect(c, w, l.map(|l| k::Login::new(fixed(l.username), fixed(l.password))))
        }
        k::Packet::ConnAck(mut a) => {
            let none = if a.session_present { k::ConnAckProperties::new() } else { k::ConnAckProperties::default() };
            a.properties = fill!(none, a.properties; session_expiry_interval receive_max max_qos retain_available max_packet_size
                assigned_client_identifier topic_alias_max reason_string wildcard_subscription_available
                subscription_identifiers_available shared_subscription_available server_keep_alive response_information
                server_reference authentication_method authentication_data);
            k::Packet::ConnAck(a)
        }
        k::Packet::Publish(p) => {
            let ids = p.properties.as_ref().map(|q| q.subscription_identifiers.clone()).unwrap_or_default();
            let q = fill!(k::PublishProperties::default(), p.properties; payload_format_indicator message_expiry_interval
                topic_alias response_topic correlation_data content_type);
            let q = q.map(|mut q| {
                if !ids.is_empty() {
                    q.subscription_identifiers = ids;
                }
                q
            });
            let t = raw(&p.topic);
            let mut x = match crate::builds::POOL.iter().find(|s| s.as_bytes() == t) {
                Some(s) => k::Publish::new(*s, p.qos, p.payload, q),
                None => k::Publish::new(p.topic, p.qos, p.payload.to_vec(), q),
            };
            if p.dup {
                x.dup = true;
            }
            if p.retain {
                x.retain = true;
            }
            if p.pkid != 0 {
                x.pkid = p.pkid;
            }
            k::Packet::Publish(x)
        }
        k::Packet::PubAck(a) => ack!(PubAck, PubAckReason, a),
        k::Packet::PubRec(a) => ack!(PubRec, PubRecReason, a),
        k::Packet::PubRel(a) => ack!(PubRel, PubRelReason, a),
        k::Packet::PubComp(a) => ack!(PubComp, PubCompReason, a),
        k::Packet::Subscribe(s) => {
            let mut v = Vec::new();
            for f in s.filters {
                let mut g = k::Filter::new(f.path, f.qos);
                if f.nolocal {
                    g.nolocal = true;
                }
                if f.preserve_retain {
                    g.preserve_retain = true;
                }
                if f.retain_forward_rule != k::RetainForwardRule::OnEverySubscribe {
                    g.retain_forward_rule = f.retain_forward_rule;
                }
                v.push(g);
            }
            let mut x = match v.len() {
                1 => k::Subscribe::new(v.remove(0), s.properties),
                _ => k::Subscribe::new_many(v, s.properties),
            };
            if s.pkid != 0 {
                x.pkid = s.pkid;
            }
            k::Packet::Subscribe(x)
        }
        k::Packet::Unsubscribe(u) => {
            let mut v = u.filters.into_iter();
            let mut x = match v.next() {
                Some(f) => k::Unsubscribe::new(fixed(f), u.properties),
                None => k::Unsubscribe { properties: u.properties, ..Default::default() },
            };
            x.filters.extend(v);
            if u.pkid != 0 {
                x.pkid = u.pkid;
            }
            k::Packet::Unsubscribe(x)
        }
        k::Packet::Disconnect(d) => {
            let mut x = k::Disconnect::new(d.reason_code);
            if d.properties.is_some() {
                x.properties = d.properties;
            }
            k::Packet::Disconnect(x)
        }
        o => o,
    }
}

/// What does not hold of the packet's names: how it was made, copied and compared with `other`.
pub fn named(p: &P, other: &P) -> Option<&'static str> {
    let (a, b) = (short(p), make(p));
    // To the letter: an empty block of properties is another value than none.
    let text = |p: &k::Packet| format!("{:?}", model(p));
    let told = text(&b);
    if text(&a) != told {
        return Some("the constructor gives another packet");
    }
    if a != b || b != a {
        return Some("made by the constructor and field by field, it is not equal to itself");
    }
    let c = a.clone();
    if c != b || text(&c) != told {
        return Some("its copy is another packet");
    }
    let o = make(other);
    let same = text(&o) == told;
    if (a == o) != same || (o == a) != same || (a != o) == same {
        return Some("it is equal to a packet that says something else");
    }
    None
}

/// What does not hold of the numbers' names.
pub fn lookups(n: u8) -> Option<String> {
    let q = k::qos(n);
    if q.map(|q| unqos(q)) != (n < 3).then_some(n) {
        return Some(format!("qos({n}) is {q:?}"));
    }
    if q.is_some_and(|q| q as u8 != n) {
        return Some(format!("qos({n}) as a number is {q:?}"));
    }
    let levels = [k::QoS::AtMostOnce, k::QoS::AtLeastOnce, k::QoS::ExactlyOnce];
    for (i, a) in levels.iter().enumerate() {
        for (j, b) in levels.iter().enumerate() {
            if a.partial_cmp(b) != Some(i.cmp(&j)) || (a == b) != (i == j) {
                return Some(format!("{a:?} against {b:?}: {:?}", a.partial_cmp(b)));
            }
        }
    }
    for s in crate::builds::POOL {
        if raw(&k::mqtt_string_new(s)) != s.as_bytes() {
            return Some(format!("mqtt_string_new({s:?}) is another text"));
        }
    }
    None
}

/// The answer to a buffer, when it is an error: its text for programs and its text for people.
pub fn told(b: &[u8], max: Option<usize>) -> Option<(E, String, String)> {
    let e = k::Packet::read(&mut BytesMut::from(b), max).err()?;
    if e != e.clone() {
        return Some((err(e), "an error unequal to its own copy".into(), String::new()));
    }
    Some((err(e), format!("{e:?}"), e.to_string()))
}
