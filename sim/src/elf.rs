//! The program's own symbol table.
use std::fs::File;
use std::os::unix::fs::FileExt;

fn num(b: &[u8], at: usize, n: usize) -> usize {
    b[at..at + n].iter().rev().fold(0, |a, x| a << 8 | usize::from(*x))
}

/// Address and name of every function, by address. `anchor` is a function and where it is.
pub fn names(anchor: &str, is_at: usize) -> Option<Vec<(usize, String)>> {
    let f = File::open("/proc/self/exe").ok()?;
    let read = |at: usize, n: usize| {
        let mut b = vec![0; n];
        f.read_exact_at(&mut b, at as u64).expect("own program");
        b
    };
    let head = read(0, 64);
    let (sections, size, count) = (num(&head, 0x28, 8), num(&head, 0x3a, 2), num(&head, 0x3c, 2));
    let table = read(sections, size * count);
    let section = |i: usize| {
        let s = &table[i * size..];
        (num(s, 4, 4), num(s, 0x18, 8), num(s, 0x20, 8), num(s, 0x28, 4))
    };
    // 2: a symbol table; its link is the section of the names.
    let (_, at, len, link) = (0..count).map(section).find(|s| s.0 == 2)?;
    let symbols = read(at, len);
    let (_, at, len, _) = section(link);
    let texts = read(at, len);
    let mut v: Vec<(usize, String)> = symbols
        .chunks_exact(24)
        // 2: a function.
        .filter(|s| s[4] & 15 == 2)
        .map(|s| {
            let name = &texts[num(s, 0, 4)..];
            let end = name.iter().position(|b| *b == 0).unwrap_or(0);
            (num(s, 8, 8), String::from_utf8_lossy(&name[..end]).into_owned())
        })
        .collect();
    let moved = is_at.wrapping_sub(v.iter().find(|s| s.1 == anchor)?.0);
    for s in &mut v {
        s.0 = s.0.wrapping_add(moved);
    }
    v.sort();
    Some(v)
}

/// The crate a function is defined in: the first crate root ("C", a disambiguator, a length and
/// a name) of its mangled name.
pub fn krate(name: &str) -> Option<&str> {
    let path = &name[name.find("Cs").filter(|_| name.starts_with("_R"))? + 2..];
    let rest = &path[path.find('_')? + 1..];
    let digits = rest.find(|c: char| !c.is_ascii_digit())?;
    let n: usize = rest[..digits].parse().ok()?;
    let rest = rest[digits..].strip_prefix('_').unwrap_or(&rest[digits..]);
    rest.get(..n)
}

/// A mangled name with the disambiguators taken out, to be read by people.
pub fn plain(name: &str) -> String {
    let b = name.as_bytes();
    let mut out: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && !(i > 0 && b[i - 1] == b'_') || (b[i].is_ascii_digit() && b[i] != b'0' && i > 0) {
            let d = b[i..].iter().take_while(|c| c.is_ascii_digit()).count();
            let n: usize = name[i..i + d].parse().unwrap_or(0);
            let from = i + d + usize::from(b.get(i + d) == Some(&b'_'));
            if let Some(t) = name.get(from..from + n).filter(|t| n > 1 && t.bytes().all(|c| c == b'_' || c.is_ascii_alphanumeric())) {
                out.push(t);
                i = from + n;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
