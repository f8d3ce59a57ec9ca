//! The four builds of the crate under test behind one face.
use crate::alloc::Mem;
use crate::cov;
use crate::model::P;
use bytes::{Bytes, BytesMut};
use std::borrow::Cow;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Build {
    Default,
    Boxed,
    Cow,
    Binary,
}
pub const BUILDS: [Build; 4] = [Build::Default, Build::Boxed, Build::Cow, Build::Binary];
impl Build {
    pub fn utf8(self) -> bool {
        self != Build::Binary
    }
}

/// An error of the crate, by what a caller can act on.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum E {
    Insufficient(usize),
    TooBig { size: usize, max: usize },
    BadLen,
    NotUtf8,
    Other(String),
}

/// The text of a panic that escaped the crate.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Panicked(pub String);
pub type Call<T> = Result<T, Panicked>;

fn utf8(b: &[u8]) -> &str {
    std::str::from_utf8(b).expect("model: text is not UTF-8 in a text build")
}

/// Text that the cow build borrows instead of owning.
pub static POOL: [&str; 16] = [
    "", "a", "MQTT", "#", "+/+", "$SYS/broker/load", "$share/g/t/#", "sensors/1/temp", "hello/world", "client-7", "key",
    "value", "/", "a//b", "reply/to/me", "é/ü/😀",
];

mod d {
    use mqtt_bytes_v5 as k;
    type S = String;
    fn txt(b: &[u8]) -> S {
        super::utf8(b).into()
    }
    fn raw(s: &S) -> Vec<u8> {
        s.as_bytes().to_vec()
    }
    include!("adapter.rs");
}
mod x {
    use mqtt_boxed as k;
    type S = Box<str>;
    fn txt(b: &[u8]) -> S {
        super::utf8(b).into()
    }
    fn raw(s: &S) -> Vec<u8> {
        s.as_bytes().to_vec()
    }
    include!("adapter.rs");
}
mod c {
    use mqtt_cow as k;
    type S = super::Cow<'static, str>;
    fn txt(b: &[u8]) -> S {
        let s = super::utf8(b);
        match super::POOL.iter().find(|p| **p == s) {
            Some(p) => super::Cow::Borrowed(p),
            None => super::Cow::Owned(s.to_string()),
        }
    }
    fn raw(s: &S) -> Vec<u8> {
        s.as_bytes().to_vec()
    }
    include!("adapter.rs");
}
mod y {
    use mqtt_binary as k;
    type S = super::Bytes;
    fn txt(b: &[u8]) -> S {
        super::Bytes::copy_from_slice(b)
    }
    fn raw(s: &S) -> Vec<u8> {
        s.to_vec()
    }
    include!("adapter.rs");
}

/// A packet of one of the builds, as a program holds it.
pub enum Held {
    D(mqtt_bytes_v5::Packet),
    X(mqtt_boxed::Packet),
    C(mqtt_cow::Packet),
    Y(mqtt_binary::Packet),
}

thread_local! {
    static IN_CALL: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

/// Panics inside the crate are recorded quietly; panics of the simulator itself stay loud.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDED.with(|g| *g.borrow()) {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let at = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()));
            IN_CALL.with(|c| *c.borrow_mut() = Some(format!("{m} at {}", at.unwrap_or_default())));
        } else {
            old(i);
        }
    }));
}

fn guard<T>(f: impl FnOnce() -> T) -> Call<T> {
    GUARDED.with(|g| *g.borrow_mut() = true);
    cov::inside(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    cov::inside(false);
    GUARDED.with(|g| *g.borrow_mut() = false);
    r.map_err(|_| Panicked(IN_CALL.with(|c| c.borrow_mut().take()).unwrap_or_else(|| "panic".into())))
}

pub fn make(b: Build, p: &P) -> Held {
    match b {
        Build::Default => Held::D(d::make(p)),
        Build::Boxed => Held::X(x::make(p)),
        Build::Cow => Held::C(c::make(p)),
        Build::Binary => Held::Y(y::make(p)),
    }
}

impl Held {
    /// A deep copy of the content.
    pub fn model(&self) -> P {
        match self {
            Held::D(p) => d::model(p),
            Held::X(p) => x::model(p),
            Held::C(p) => c::model(p),
            Held::Y(p) => y::model(p),
        }
    }
    /// `own`: through the packet's own writer.
    pub fn write(&self, out: &mut BytesMut, own: bool) -> Call<Result<usize, E>> {
        guard(|| match self {
            Held::D(p) => d::write(p, out, own),
            Held::X(p) => x::write(p, out, own),
            Held::C(p) => c::write(p, out, own),
            Held::Y(p) => y::write(p, out, own),
        })
    }
    pub fn size(&self) -> Call<Option<usize>> {
        guard(|| match self {
            Held::D(p) => d::size(p),
            Held::X(p) => x::size(p),
            Held::C(p) => c::size(p),
            Held::Y(p) => y::size(p),
        })
    }
}

pub fn read(b: Build, buf: &mut BytesMut, max: Option<usize>) -> Call<(Result<Held, E>, Mem)> {
    guard(|| match b {
        Build::Default => {
            let (r, m) = d::read(buf, max);
            (r.map(Held::D).map_err(d::err), m)
        }
        Build::Boxed => {
            let (r, m) = x::read(buf, max);
            (r.map(Held::X).map_err(x::err), m)
        }
        Build::Cow => {
            let (r, m) = c::read(buf, max);
            (r.map(Held::C).map_err(c::err), m)
        }
        Build::Binary => {
            let (r, m) = y::read(buf, max);
            (r.map(Held::Y).map_err(y::err), m)
        }
    })
}

#[allow(clippy::type_complexity)]
pub fn check(b: Build, buf: &[u8], max: Option<usize>) -> Call<Result<(usize, Result<u8, E>), E>> {
    guard(|| match b {
        Build::Default => d::check(buf, max),
        Build::Boxed => x::check(buf, max),
        Build::Cow => c::check(buf, max),
        Build::Binary => y::check(buf, max),
    })
}

pub fn direct(b: Build, buf: &[u8], max: Option<usize>) -> Call<Result<Held, E>> {
    guard(|| match b {
        Build::Default => d::direct(buf, max).map(Held::D),
        Build::Boxed => x::direct(buf, max).map(Held::X),
        Build::Cow => c::direct(buf, max).map(Held::C),
        Build::Binary => y::direct(buf, max).map(Held::Y),
    })
}

/// One part of a packet, written by its own writer behind bytes that were queued before.
pub struct Piece {
    /// Where the part begins in the packet's body.
    pub at: usize,
    pub what: &'static str,
    pub intact: bool,
    pub bytes: Vec<u8>,
    /// The connect flags it answered with, and which of them are its business.
    pub flags: Option<(u8, u8)>,
}

pub fn pieces(h: &Held, queued: &[u8]) -> Call<Result<Vec<Piece>, E>> {
    guard(|| match h {
        Held::D(p) => d::pieces(p, queued),
        Held::X(p) => x::pieces(p, queued),
        Held::C(p) => c::pieces(p, queued),
        Held::Y(p) => y::pieces(p, queued),
    })
}

/// `body` of a frame that gave `h`, with other bytes behind it.
pub fn apart(h: &Held, body: Bytes, behind: &[u8]) -> Call<Result<(Held, usize, usize), E>> {
    guard(|| match h {
        Held::D(p) => d::apart(p, body, behind).map(|(p, a, b)| (Held::D(p), a, b)),
        Held::X(p) => x::apart(p, body, behind).map(|(p, a, b)| (Held::X(p), a, b)),
        Held::C(p) => c::apart(p, body, behind).map(|(p, a, b)| (Held::C(p), a, b)),
        Held::Y(p) => y::apart(p, body, behind).map(|(p, a, b)| (Held::Y(p), a, b)),
    })
}

pub fn poke(b: Build, n: u64, flags: u8, bytes: Bytes) -> Call<bool> {
    guard(|| match b {
        Build::Default => d::poke(n, flags, bytes),
        Build::Boxed => x::poke(n, flags, bytes),
        Build::Cow => c::poke(n, flags, bytes),
        Build::Binary => y::poke(n, flags, bytes),
    })
}

/// The packet, built as a program builds it: see `short`.
pub fn short(b: Build, p: &P) -> Call<Held> {
    guard(|| match b {
        Build::Default => Held::D(d::short(p)),
        Build::Boxed => Held::X(x::short(p)),
        Build::Cow => Held::C(c::short(p)),
        Build::Binary => Held::Y(y::short(p)),
    })
}
pub fn named(b: Build, p: &P, other: &P) -> Call<Option<&'static str>> {
    guard(|| match b {
        Build::Default => d::named(p, other),
        Build::Boxed => x::named(p, other),
        Build::Cow => c::named(p, other),
        Build::Binary => y::named(p, other),
    })
}
pub fn lookups(b: Build, n: u8) -> Call<Option<String>> {
    guard(|| match b {
        Build::Default => d::lookups(n),
        Build::Boxed => x::lookups(n),
        Build::Cow => c::lookups(n),
        Build::Binary => y::lookups(n),
    })
}
#[allow(clippy::type_complexity)]
pub fn told(b: Build, buf: &[u8], max: Option<usize>) -> Call<Option<(E, String, String)>> {
    guard(|| match b {
        Build::Default => d::told(buf, max),
        Build::Boxed => x::told(buf, max),
        Build::Cow => c::told(buf, max),
        Build::Binary => y::told(buf, max),
    })
}
