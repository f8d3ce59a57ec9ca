//! Packets at the largest lengths MQTT 5 can express, and one byte beyond.
use crate::builds::{self, BUILDS};
use crate::engine::*;
use crate::gen::{noise, words};
use crate::model::*;
use crate::oracles::*;
use crate::refcodec::{encode, props_len, remaining_len, Style, MAX_VAR};

/// Spread over the batch, so that few are in memory at once.
pub fn variant(prop: &str, idx: u64) -> u64 {
    let n = match prop {
        "C06" => 2,
        "C07" => 7,
        _ => 1,
    };
    let n = match prop {
        "C04" => MANY,
        "C01" | "C06" | "C09" => n + MANY,
        _ => n,
    };
    match idx % 700 {
        350 if idx / 700 < n => idx / 700 + 1,
        _ => 0,
    }
}

/// Packets of very many small parts.
const MANY: u64 = 8;
fn many(g: u64) -> P {
    const N: usize = 300_000;
    let props = Props { some: true, ..Props::default() };
    let (pkid, all) = (9, 0..N);
    match g {
        1 => {
            let f = |i| Filter { path: words(i, 1), qos: 1, nolocal: false, rap: i % 2 == 0, retain_handling: 2 };
            P::Subscribe { pkid, props, filters: all.map(|i| f(i as u64)).collect() }
        }
        2 => P::Unsubscribe { pkid, props, filters: all.map(|i| words(i as u64, 1)).collect() },
        3 => P::SubAck { pkid, props, codes: all.map(|i| reasons(9)[i % reasons(9).len()]).collect() },
        4 => P::UnsubAck { pkid, props, codes: all.map(|i| reasons(11)[i % reasons(11).len()]).collect() },
        5 => {
            let P::Publish(mut p) = publish(3) else { unreachable!() };
            p.props.subids = all.map(|i| i as u64 % 300).collect();
            P::Publish(p)
        }
        n => {
            let user = all.map(|i| (words(i as u64, 1), B::new())).collect();
            let props = Props { user, ..props };
            match n {
                6 => P::Disconnect { reason: 4, props },
                7 => P::ConnAck { sp: true, code: 0, props },
                _ => P::Connect(Box::new(Connect {
                    keep_alive: 1,
                    client_id: words(1, 2),
                    clean: true,
                    props: props.clone(),
                    will: Some(Will { topic: words(2, 2), msg: words(3, 3), qos: 1, retain: false, props }),
                    login: Login::default(),
                })),
            }
        }
    }
}

fn publish(pad: usize) -> P {
    let mut props = Props { some: true, ..Props::default() };
    props.single.insert(1, Val::U8(1));
    P::Publish(Box::new(Publish {
        dup: true,
        qos: 1,
        retain: false,
        topic: b"giant".to_vec(),
        pkid: 77,
        props,
        payload: noise(pad as u64, pad),
    }))
}
/// A publish whose remaining length is exactly `n`.
fn publish_of(n: u64) -> P {
    let base = remaining_len(&publish(0));
    publish((n - base) as usize)
}
fn fat_props(total: u64) -> Props {
    let mut props = Props { some: true, ..Props::default() };
    let w = words(3, 65_535);
    let mut left = total;
    while left > 0 {
        let mut n = left.min(5 + 2 * 65_535);
        if left - n > 0 && left - n < 5 {
            n -= 5;
        }
        let k = ((n - 5) / 2) as usize;
        props.user.push((w[..k].to_vec(), w[..n as usize - 5 - k].to_vec()));
        left -= n;
    }
    assert_eq!(props_len(&props), total);
    props
}
fn unsubscribe_of(n: u64) -> P {
    let w = words(4, 65_535);
    let mut filters = Vec::new();
    let mut left = n - 3;
    while left > 0 {
        let mut k = left.min(65_537);
        if left - k == 1 {
            k -= 1;
        }
        filters.push(w[..k as usize - 2].to_vec());
        left -= k;
    }
    let p = P::Unsubscribe { pkid: 5, props: Props::default(), filters };
    assert_eq!(remaining_len(&p), n);
    p
}

pub fn run(prop: &str, cx: &mut Cx, g: u64) -> Res {
    let over = "packet or property block over 268,435,455 bytes";
    let (p, spoiled) = match (prop, g) {
        ("C07", 2) => (publish_of(MAX_VAR + 1), Some(over)),
        ("C07", 3) => (P::Disconnect { reason: 4, props: fat_props(MAX_VAR + 1) }, Some(over)),
        ("C07", 4) => (unsubscribe_of(MAX_VAR + 1), Some(over)),
        ("C07", 5) => (P::Ack { kind: 4, pkid: 9, reason: 0, props: fat_props(MAX_VAR - 4) }, Some(over)),
        ("C07", 6) => (unsubscribe_of(MAX_VAR), None),
        ("C07", 7) => (publish_of(MAX_VAR + 70_000), Some(over)),
        ("C06", 2) => (P::Disconnect { reason: 4, props: fat_props(MAX_VAR - 5) }, None),
        ("C04", g) => (many(g), None),
        ("C01" | "C09", g) if g > 1 => (many(g - 1), None),
        ("C06", g) if g > 2 => (many(g - 2), None),
        _ => (publish_of(MAX_VAR), None),
    };
    let foreign = prop == "C09" || prop == "C04" && cx.s.chance(1, 2);
    let mut orc: Box<dyn Oracle> = match prop {
        "C01" => Box::new(Delivery("stream")),
        "C04" => Box::new(Survival),
        "C05" => Box::new(Limit),
        "C06" => Box::new(Appending),
        "C07" => Box::<Refusal>::default(),
        "C08" => Box::new(Peer::default()),
        _ => Box::new(Delivery("foreign")),
    };
    let mut cfg = BASE.clone();
    cfg.pipes = (1, 1);
    cfg.packets = (0, 0);
    let mut w = World::draw(cx, &cfg);
    cx.nontrivial = true;
    cx.hit("giant packets");
    {
        let b = *cx.s.pick(&BUILDS);
        let q = &mut w.pipes[0];
        q.wb = b;
        q.seg = 8;
        q.out_mode = 0;
        q.in_mode = 0;
        // Something before it in the queue.
        let first = P::Ack { kind: 5, pkid: 3, reason: 16, props: Props::default() };
        let h = builds::make(b, &first);
        let o = q.write(cx, &h, &first, None);
        orc.wrote(cx, &w, 0, &o)?;
    }
    if foreign {
        let f = encode(&p, Style::default());
        w.pipes[0].write_raw(cx, &f, Some(p), "the peer");
    } else {
        let h = builds::make(w.pipes[0].wb, &p);
        let o = w.pipes[0].write(cx, &h, &p, spoiled);
        drop(h);
        orc.wrote(cx, &w, 0, &o)?;
    }
    if matches!(prop, "C06" | "C07") {
        return Ok(());
    }
    while !w.pipes[0].queued.is_empty() {
        cx.now += 1000;
        w.pipes[0].flush(cx, Damage::None);
        while let Some((_, seg)) = w.pipes[0].flight.pop_front() {
            w.pipes[0].arrive(cx, &seg.copy);
            drop(seg);
            orc.arrived(cx, &w, 0)?;
            for k in 0..3 {
                if prop == "C05" {
                    w.pipes[0].limit = *cx.s.pick(&[None, Some(MAX_VAR as usize), Some(MAX_VAR as usize + 1), Some(usize::MAX)]);
                    if k == 0 {
                        w.pipes[0].limit = Some(MAX_VAR as usize - 1);
                    }
                }
                let o = w.pipes[0].read(cx);
                orc.read(cx, &w, 0, &o)?;
                if prop != "C05" && !matches!(o.res, Ok(Ok(_))) {
                    break;
                }
            }
        }
    }
    cx.add("simulated microseconds", cx.now);
    orc.end(cx, &w)
}
