//! Values of interest: the numbers and strings that the sources of the program under test mention.
//! Workloads, environments and faults use them now and then, because what a program compares with
//! is what it may treat differently.  They only widen what is tried; nothing is ever judged by them.

use crate::rng::Rng;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u128>,
    /// the same in the order in which they are mentioned
    pub sequence: Vec<u128>,
    pub names: Vec<String>,
    pub strings: Vec<String>,
    /// Strings that are addresses, or begin like one.
    pub addrs: [Vec<u128>; 2],
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let root = std::env::var("RIPSIM_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = Vec::new();
        sources(&Path::new(&root).join("src"), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            let text = std::fs::read(&f).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
            harvest(text.split("#[cfg(test)]").next().unwrap_or(""), &mut d);
        }
        d.sequence = d.ints.clone();
        d.ints.sort_unstable();
        d.ints.dedup();
        d.strings.sort_unstable();
        d.strings.dedup();
        for s in &d.strings {
            let t = s.split('/').next().unwrap_or("").trim_end_matches(['.', ':']);
            let four = (0..4).map(|k| format!("{}{}", t, ".0".repeat(k))).find_map(|x| x.parse::<std::net::Ipv4Addr>().ok());
            let six = [t.to_string(), format!("{}::", t)].iter().find_map(|x| x.parse::<std::net::Ipv6Addr>().ok());
            d.addrs[0].extend(four.filter(|_| t.contains('.')).map(|a| u128::from(u32::from(a))));
            d.addrs[1].extend(six.filter(|_| s.contains(':')).map(u128::from));
        }
        d.names = d.strings.iter().filter(|s| is_name(s)).cloned().collect();
        d
    })
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

/// The name of an environment variable, but none that decides about colours, of which the
/// properties speak, or that belongs to the loader, the runtime or the simulator.
fn is_name(s: &str) -> bool {
    s.len() > 1
        && s.len() < 40
        && s.starts_with(|c: char| c.is_ascii_uppercase() || c == '_')
        && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
        && !["TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "COLORTERM"].contains(&s)
        && !["LD_", "RUST_", "RIPSIM", "MALLOC_", "GLIBC_"].iter().any(|p| s.starts_with(p))
}

fn harvest(text: &str, d: &mut Dict) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(i) == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            // a character, not a lifetime
            i += if at(i + 1) == '\\' { 3 } else { 2 };
            while i < c.len() && c[i] != '\'' && c[i] != '\n' {
                i += 1;
            }
            i += 1;
        } else if at(i) == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                }
                s.push(at(i));
                i += 1;
            }
            i += 1;
            let plain = s.len() <= 40 && !s.contains(['\0', '\n', '{', '}']);
            if plain && !s.is_empty() {
                d.strings.push(s);
            }
        } else if c[i].is_ascii_digit() {
            let from = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let t: String = c[from..i].iter().filter(|x| **x != '_').collect();
            if let Some(n) = number(&t) {
                d.ints.push(n);
            }
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            // digits within a name are none
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn number(t: &str) -> Option<u128> {
    let (radix, body) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0o") => (8, &t[2..]),
        Some("0b") => (2, &t[2..]),
        _ => (10, t),
    };
    let body = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|s| body.strip_suffix(s)).unwrap_or(body);
    u128::from_str_radix(body, radix).ok()
}

/// A number from lo to hi that the sources mention, or one next to such a number.
pub fn int(r: &mut Rng, lo: u128, hi: u128) -> Option<u128> {
    let fit: Vec<u128> = get().ints.iter().copied().filter(|n| *n <= hi && n.saturating_add(1) >= lo).collect();
    if fit.is_empty() {
        return None;
    }
    let n = *r.pick(&fit);
    let n = match r.below(6) {
        0 => n.saturating_add(1),
        1 => n.saturating_sub(1),
        _ => n,
    };
    (lo..=hi).contains(&n).then_some(n)
}

pub fn string(r: &mut Rng) -> Option<String> {
    let s = &get().strings;
    (!s.is_empty()).then(|| r.pick(s).clone())
}

/// A setting of an environment variable that the sources mention.
pub fn setting(r: &mut Rng) -> Option<String> {
    let d = get();
    if d.names.is_empty() {
        return None;
    }
    let name = r.pick(&d.names).clone();
    let value = match r.below(6) {
        0 => String::new(),
        1 => "0".into(),
        2 => d.ints.get(r.idx(d.ints.len())).map_or("2".into(), |n| n.to_string()),
        3 => string(r).filter(|s| s.len() <= 16).unwrap_or_else(|| "yes".into()),
        _ => "1".into(),
    };
    Some(format!("{}={}", name, value))
}

/// Numbers up to `max` that are mentioned close to each other.
pub fn neighbours(r: &mut Rng, max: u128) -> Vec<u128> {
    let s = &get().sequence;
    let from = r.idx(s.len());
    s[from.min(s.len())..].iter().take(8).copied().filter(|n| *n <= max).collect()
}

/// An address that the sources mention as text.
pub fn address(r: &mut Rng, v6: bool) -> Option<u128> {
    let a = &get().addrs[usize::from(v6)];
    (!a.is_empty()).then(|| *r.pick(a))
}
