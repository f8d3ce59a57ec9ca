//! One run of one property: its world (or script, or session), its faults, its oracle.
use crate::engine::*;
use crate::oracles::*;
use crate::{giant, qos, script};

/// Runs of the quick and thorough tiers.
pub fn runs(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C12" => 16_000,
        "C18" => 150_000,
        "C15" | "C16" | "C20" => 60_000,
        "C01" | "C06" | "C08" | "C17" | "C19" => 100_000,
        "C05" | "C07" | "C09" => 150_000,
        _ => 300_000,
    };
    if thorough {
        quick * 20
    } else {
        quick
    }
}

/// The run begins in a process that has long been at work.
pub const AGED: u64 = 100;

/// The special scenario that run `idx` of a batch starts with (0: none).
pub fn special(prop: &str, idx: u64) -> u64 {
    match prop {
        _ if idx % 900 == 450 && idx < 900 * 8 => AGED,
        "C01" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => giant::variant(prop, idx),
        _ => 0,
    }
}

/// Executes one run; `special` is the first logged choice.
pub fn simulate(prop: &str, cx: &mut Cx, special: u64) -> Res {
    let g = cx.s.given(special);
    if g == AGED {
        if prop != "C12" {
            script::Past::draw(cx, 100_000).live();
        }
    } else if g > 0 {
        return giant::run(prop, cx, g);
    }
    let mut c = BASE.clone();
    c.sizes = [44, 26, 6, 1];
    match prop {
        "C01" => go(cx, &c, &mut Delivery("stream")),
        "C02" => {
            if cx.s.chance(1, 6) {
                return script::announce(cx, &mut Waiting);
            }
            c.foreign = *cx.s.pick(&[0, 2, 4]);
            c.damage = *cx.s.pick(&[Damage::None, Damage::Body, Damage::Body, Damage::Frame]);
            c.damage_rate = *cx.s.pick(&[1, 2, 5]);
            c.sizes = [44, 20, 4, 0];
            go(cx, &c, &mut Waiting)
        }
        "C03" => {
            if cx.s.chance(1, 12) {
                return script::announce(cx, &mut Removal);
            }
            c.foreign = *cx.s.pick(&[0, 2]);
            c.damage = *cx.s.pick(&[Damage::Body, Damage::Body, Damage::Body, Damage::None, Damage::Hostile]);
            c.damage_rate = *cx.s.pick(&[1, 2, 5]);
            c.limits = cx.s.chance(1, 5);
            c.sizes = [44, 20, 4, 0];
            go(cx, &c, &mut Removal)
        }
        "C04" => {
            if cx.s.chance(1, 12) {
                return script::announce(cx, &mut Survival);
            }
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::Hostile, Damage::Frame, Damage::Body]);
            c.damage_rate = *cx.s.pick(&[2, 5, 7]);
            c.spoil = *cx.s.pick(&[0, 2]);
            c.limits = cx.s.chance(1, 5);
            c.sizes = [44, 16, 2, 0];
            go(cx, &c, &mut Survival)
        }
        "C05" => {
            if cx.s.chance(1, 6) {
                return script::announce(cx, &mut Limit);
            }
            c.limits = true;
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::None, Damage::None, Damage::Body, Damage::Frame, Damage::Hostile]);
            c.damage_rate = *cx.s.pick(&[1, 4]);
            go(cx, &c, &mut Limit)
        }
        "C06" => {
            c.spoil = *cx.s.pick(&[0, 0, 1]);
            go(cx, &c, &mut Appending)
        }
        "C07" => {
            c.spoil = *cx.s.pick(&[2, 4, 6]);
            c.sizes = [44, 20, 6, 0];
            go(cx, &c, &mut Refusal::default())
        }
        "C08" => go(cx, &c, &mut Peer::default()),
        "C09" => {
            c.foreign = *cx.s.pick(&[8, 8, 6]);
            go(cx, &c, &mut Delivery("foreign"))
        }
        "C10" => {
            c.foreign = *cx.s.pick(&[0, 4, 8]);
            c.damage = *cx.s.pick(&[Damage::Frame, Damage::Frame, Damage::Frame, Damage::Hostile]);
            c.damage_rate = *cx.s.pick(&[8, 6, 4]);
            c.sizes = [44, 16, 2, 0];
            go(cx, &c, &mut Strictness)
        }
        "C11" => {
            c.hold = true;
            c.cuts = cx.s.chance(1, 3);
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::None, Damage::None, Damage::Body]);
            c.damage_rate = 2;
            c.sizes = [44, 20, 4, 0];
            go(cx, &c, &mut Holding::default())
        }
        "C12" => script::apart(cx),
        "C13" => {
            if cx.s.chance(1, 12) {
                return script::announce(cx, &mut LockStep);
            }
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::Frame, Damage::Body, Damage::Hostile, Damage::None]);
            c.damage_rate = *cx.s.pick(&[3, 6]);
            c.spoil = *cx.s.pick(&[0, 1]);
            c.limits = cx.s.chance(1, 4);
            c.sizes = [44, 16, 2, 0];
            go(cx, &c, &mut LockStep)
        }
        "C14" => {
            if cx.s.chance(1, 6) {
                return script::announce(cx, &mut Peeking);
            }
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::Frame, Damage::Body, Damage::Hostile, Damage::None]);
            c.damage_rate = *cx.s.pick(&[3, 6]);
            c.limits = cx.s.chance(1, 2);
            c.sizes = [44, 16, 2, 0];
            go(cx, &c, &mut Peeking)
        }
        "C15" => {
            c.relays = true;
            c.foreign = *cx.s.pick(&[0, 0, 4]);
            c.packets = (1, 10);
            go(cx, &c, &mut Relaying)
        }
        "C16" => {
            if cx.s.chance(1, 6) {
                return script::announce(cx, &mut Memory);
            }
            if cx.s.chance(1, 3) {
                return script::leaks(cx);
            }
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::Frame, Damage::Hostile, Damage::None]);
            c.damage_rate = *cx.s.pick(&[3, 6]);
            c.limits = cx.s.chance(1, 3);
            c.sizes = [44, 16, 4, 1];
            go(cx, &c, &mut Memory)
        }
        "C17" => {
            c.cuts = true;
            c.foreign = *cx.s.pick(&[0, 4]);
            c.packets = (2, 14);
            go(cx, &c, &mut Cutting)
        }
        "C18" => qos::session(cx),
        "C19" => {
            c.foreign = *cx.s.pick(&[0, 4]);
            c.damage = *cx.s.pick(&[Damage::Frame, Damage::Body, Damage::Hostile, Damage::None, Damage::None]);
            c.damage_rate = *cx.s.pick(&[3, 6]);
            c.spoil = *cx.s.pick(&[0, 1]);
            c.sizes = [44, 16, 2, 0];
            go(cx, &c, &mut Parts)
        }
        "C20" => {
            c.short = true;
            c.foreign = *cx.s.pick(&[0, 2]);
            c.damage = *cx.s.pick(&[Damage::None, Damage::Frame, Damage::Body]);
            c.damage_rate = *cx.s.pick(&[2, 5]);
            c.limits = cx.s.chance(1, 4);
            c.sizes = [44, 12, 1, 0];
            go(cx, &c, &mut Names)
        }
        _ => panic!("unknown property {prop}"),
    }
}

fn go(cx: &mut Cx, c: &Cfg, o: &mut dyn Oracle) -> Res {
    let mut w = World::draw(cx, c);
    w.run(cx, o)
}
