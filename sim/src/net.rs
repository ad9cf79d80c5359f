//! The reference model's arithmetic: addresses are numbers, networks are (base, mask) pairs.  IPv4
//! lives in the low 32 bits of the same 128-bit numbers as IPv6.  Nothing here is taken from the
//! program under test.

#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct Net {
    pub v6: bool,
    pub base: u128,
    pub mask: u128,
}

pub fn bits(v6: bool) -> u32 {
    if v6 { 128 } else { 32 }
}
pub fn full(v6: bool) -> u128 {
    if v6 { u128::MAX } else { 0xffff_ffff }
}
pub fn prefix_mask(v6: bool, p: u32) -> u128 {
    if p == 0 {
        0
    } else {
        (u128::MAX << (128 - p)) >> (128 - bits(v6))  & full(v6)
    }
}
/// The prefix length of a mask, when it has one.
pub fn mask_prefix(v6: bool, mask: u128) -> Option<u32> {
    let p = mask.count_ones();
    (prefix_mask(v6, p) == mask).then_some(p)
}
/// Gathers the bits of `v` selected by `mask` into the low end, keeping their order.
pub fn extract(v: u128, mask: u128) -> u128 {
    let (mut m, mut r, mut k) = (mask, 0u128, 0u32);
    while m != 0 {
        let b = m.trailing_zeros();
        r |= (v >> b & 1) << k;
        k += 1;
        m &= m - 1;
    }
    r
}
/// Spreads the low bits of `v` over the positions selected by `mask`, keeping their order.
pub fn deposit(v: u128, mask: u128) -> u128 {
    let (mut m, mut r, mut k) = (mask, 0u128, 0u32);
    while m != 0 {
        let b = m.trailing_zeros();
        r |= (v >> k & 1) << b;
        k += 1;
        m &= m - 1;
    }
    r
}

impl Net {
    pub fn new(v6: bool, addr: u128, mask: u128) -> Net {
        Net { v6, base: addr & mask, mask }
    }
    pub fn cidr(v6: bool, addr: u128, p: u32) -> Net {
        Net::new(v6, addr, prefix_mask(v6, p))
    }
    pub fn wild(&self) -> u128 {
        !self.mask & full(self.v6)
    }
    pub fn prefix(&self) -> Option<u32> {
        mask_prefix(self.v6, self.mask)
    }
    pub fn host_bits(&self) -> u32 {
        self.wild().count_ones()
    }
    pub fn last(&self) -> u128 {
        self.base | self.wild()
    }
    pub fn contains_net(&self, o: &Net) -> bool {
        self.v6 == o.v6 && o.base & self.mask == self.base && o.mask & self.mask == self.mask
    }
    pub fn disjoint(&self, o: &Net) -> bool {
        self.v6 != o.v6 || (self.base ^ o.base) & self.mask & o.mask != 0
    }
    /// The n-th address of the network, counting upwards.
    pub fn nth(&self, n: u128) -> u128 {
        self.base | deposit(n, self.wild())
    }
    pub fn text(&self) -> String {
        match self.prefix() {
            Some(p) => format!("{}/{}", addr_text(self.v6, self.base), p),
            None => format!("{}/{}", addr_text(self.v6, self.base), addr_text(self.v6, self.mask)),
        }
    }
    /// Two networks whose union is a network with one network bit fewer, that bit being the lowest
    /// network bit: neighbours that a minimizer has to merge.
    pub fn mergeable(&self, o: &Net) -> bool {
        let d = self.base ^ o.base;
        self.v6 == o.v6 && self.mask == o.mask && d != 0 && d == self.mask & self.mask.wrapping_neg()
    }
}

pub fn addr_text(v6: bool, a: u128) -> String {
    if v6 {
        std::net::Ipv6Addr::from(a).segments().iter().map(|s| format!("{:x}", s)).collect::<Vec<_>>().join(":")
    } else {
        std::net::Ipv4Addr::from(a as u32).to_string()
    }
}

/// The shortest ordered list of CIDR networks covering exactly first..=last.
pub fn cover(v6: bool, first: u128, last: u128) -> Vec<Net> {
    let mut r = Vec::new();
    let mut at = first;
    loop {
        let mut h = if at == 0 { bits(v6) } else { at.trailing_zeros().min(bits(v6)) };
        loop {
            let top = if h >= 128 { u128::MAX } else { at | ((1u128 << h) - 1) };
            if top <= last {
                r.push(Net::cidr(v6, at, bits(v6) - h));
                if top == last {
                    return r;
                }
                at = top + 1;
                break;
            }
            h -= 1;
        }
    }
}

/// The disjoint, non-adjacent, ascending intervals that a set of CIDR networks covers.
pub fn intervals(nets: &[Net]) -> Vec<(u128, u128)> {
    let mut v: Vec<(u128, u128)> = nets.iter().map(|n| (n.base, n.last())).collect();
    v.sort();
    let mut r: Vec<(u128, u128)> = Vec::new();
    for (a, b) in v {
        match r.last_mut() {
            Some(l) if l.1 == u128::MAX || a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => r.push((a, b)),
        }
    }
    r
}

/// The one minimal list of CIDR networks with the same addresses.
pub fn canonical(v6: bool, nets: &[Net]) -> Vec<Net> {
    intervals(nets).into_iter().flat_map(|(a, b)| cover(v6, a, b)).collect()
}

/// Whether every address of `a` is in some network of `set`.  None when the node budget runs out.
pub fn covered(a: Net, set: &[Net], budget: &mut u64) -> Option<bool> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let near: Vec<Net> = set.iter().copied().filter(|n| !n.disjoint(&a)).collect();
    if near.is_empty() {
        return Some(false);
    }
    if near.iter().any(|n| n.contains_net(&a)) {
        return Some(true);
    }
    // split along the bit that most of the overlapping networks fix
    let mut best = (0, 0);
    for b in 0..bits(a.v6) {
        if a.mask >> b & 1 == 0 {
            let k = near.iter().filter(|n| n.mask >> b & 1 == 1).count();
            if k > best.0 {
                best = (k, b);
            }
        }
    }
    let bit = 1u128 << best.1;
    for v in [0, bit] {
        let half = Net { v6: a.v6, base: a.base | v, mask: a.mask | bit };
        if !covered(half, &near, budget)? {
            return Some(false);
        }
    }
    Some(true)
}

/// Whether two sets of networks hold the same addresses.
pub fn same_union(a: &[Net], b: &[Net]) -> Option<Result<(), String>> {
    let mut budget = 60_000;
    for (x, y, what) in [(a, b, "missing from the answer"), (b, a, "in the answer but not asked for")] {
        for n in x {
            if !covered(*n, y, &mut budget)? {
                return Some(Err(format!("addresses of {} are {}", n.text(), what)));
            }
        }
    }
    Some(Ok(()))
}

/// Strict reading of an address as the program prints it.
pub fn read_addr(s: &str) -> Option<(bool, u128)> {
    match read_arg_addr(s) {
        Arg::Ok(v) => Some(v),
        _ => None,
    }
}

/// What an argument means: something definite, nothing at all, or something the documentation does
/// not settle (then nothing but orderly behaviour is demanded).
#[derive(Clone, Debug, PartialEq)]
pub enum Arg<T> {
    Ok(T),
    Bad,
    Unspecified,
}

pub fn read_v4(s: &str) -> Arg<u128> {
    let parts: Vec<&str> = s.split('.').collect();
    if parts.len() != 4 {
        return Arg::Bad;
    }
    let (mut v, mut odd) = (0u128, false);
    for p in parts {
        let digits = p.strip_prefix('+').unwrap_or(p);
        odd |= digits.len() != p.len();
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
            return Arg::Bad;
        }
        odd |= digits.len() > 3;
        let d = digits.trim_start_matches('0');
        let n: u128 = if d.len() > 3 { 999 } else { d.parse().unwrap_or(0) };
        if n > 255 {
            return Arg::Bad;
        }
        v = v << 8 | n;
    }
    if odd { Arg::Unspecified } else { Arg::Ok(v) }
}

pub fn read_v6(s: &str) -> Arg<u128> {
    if !s.bytes().all(|b| b.is_ascii_hexdigit() || b == b':' || b == b'+' || b == b'.') || !s.contains(':') {
        return Arg::Bad;
    }
    if s.contains('.') || s.contains('+') {
        return Arg::Unspecified;
    }
    let mut odd = s.bytes().any(|b| b.is_ascii_uppercase());
    if s.matches("::").count() > 1 || s.contains(":::") {
        return Arg::Bad;
    }
    let group = |g: &str, odd: &mut bool| -> Option<u128> {
        *odd |= g.len() > 4;
        let t = g.trim_start_matches('0');
        if t.len() > 4 || g.is_empty() { None } else { Some(u128::from_str_radix(t, 16).unwrap_or(0)) }
    };
    let mut s = s;
    if s.starts_with(':') && !s.starts_with("::") {
        odd = true;
        s = &s[1..];
    }
    if s.ends_with(':') && !s.ends_with("::") {
        odd = true;
        s = &s[..s.len() - 1];
    }
    let list = |t: &str, odd: &mut bool| -> Option<Vec<u128>> {
        if t.is_empty() { Some(Vec::new()) } else { t.split(':').map(|g| group(g, odd)).collect() }
    };
    let groups = if let Some((a, b)) = s.split_once("::") {
        let (Some(a), Some(b)) = (list(a, &mut odd), list(b, &mut odd)) else { return Arg::Bad };
        if a.len() + b.len() > 8 {
            return Arg::Bad;
        }
        odd |= a.len() + b.len() == 8;
        let mut g = a;
        g.resize(8 - b.len(), 0);
        g.extend(b);
        g
    } else {
        let Some(g) = list(s, &mut odd) else { return Arg::Bad };
        g
    };
    if groups.len() != 8 {
        // a stray single colon at an end may or may not stand for a zero group
        return if odd && groups.len() >= 6 && groups.len() < 8 { Arg::Unspecified } else { Arg::Bad };
    }
    if odd {
        return Arg::Unspecified;
    }
    Arg::Ok(groups.iter().fold(0, |v, g| v << 16 | g))
}

pub fn read_arg_addr(s: &str) -> Arg<(bool, u128)> {
    if s.contains(':') {
        match read_v6(s) {
            Arg::Ok(v) => Arg::Ok((true, v)),
            Arg::Bad => Arg::Bad,
            Arg::Unspecified => Arg::Unspecified,
        }
    } else {
        match read_v4(s) {
            Arg::Ok(v) => Arg::Ok((false, v)),
            Arg::Bad => Arg::Bad,
            Arg::Unspecified => Arg::Unspecified,
        }
    }
}

pub fn read_number(s: &str) -> Arg<String> {
    let digits = s.trim_start_matches(['+', '-']);
    if digits.len() != s.len() && digits.len() + 1 != s.len() {
        return Arg::Bad;
    }
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit() || b == b'_') {
        return Arg::Bad;
    }
    let zero = digits.bytes().all(|b| b == b'0' || b == b'_');
    if s.contains('_') {
        return Arg::Unspecified;
    }
    if s.starts_with('-') && !zero {
        return Arg::Bad;
    }
    if digits.len() != s.len() {
        return Arg::Unspecified;
    }
    let d = digits.trim_start_matches('0');
    Arg::Ok(if d.is_empty() { "0" } else { d }.into())
}

fn read_prefix(s: &str, max: u32) -> Arg<u32> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Arg::Bad;
    }
    let d = s.trim_start_matches('0');
    let v: u32 = if d.len() > 3 { 999 } else { d.parse().unwrap_or(0) };
    if v > max {
        Arg::Bad
    } else if s.len() > 3 {
        Arg::Unspecified
    } else {
        Arg::Ok(v)
    }
}

/// A network argument: address, slash, and a prefix length, a mask or a wildcard.
pub fn read_spec(s: &str) -> Arg<(u128, Net)> {
    let Some((a, m)) = s.split_once('/') else { return Arg::Bad };
    let addr = read_arg_addr(a);
    let v6 = a.contains(':');
    let (neg, m) = match m.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, m),
    };
    let mask = if m.contains(':') || m.contains('.') {
        if m.contains(':') != v6 {
            return Arg::Bad;
        }
        match read_arg_addr(m) {
            Arg::Ok((_, v)) => Arg::Ok(if neg { !v & full(v6) } else { v }),
            Arg::Bad => Arg::Bad,
            Arg::Unspecified => Arg::Unspecified,
        }
    } else {
        match read_prefix(m, bits(v6)) {
            Arg::Ok(p) => Arg::Ok(prefix_mask(v6, if neg { bits(v6) - p } else { p })),
            Arg::Bad => Arg::Bad,
            Arg::Unspecified => Arg::Unspecified,
        }
    };
    match (addr, mask) {
        (Arg::Bad, _) | (_, Arg::Bad) => Arg::Bad,
        (Arg::Ok((_, a)), Arg::Ok(m)) => Arg::Ok((a, Net::new(v6, a, m))),
        _ => Arg::Unspecified,
    }
}

/// The target of a resize: a prefix length, a mask of the same family, or the wildcard of either.
pub fn read_subnet(s: &str, v6: bool) -> Arg<u128> {
    let (neg, m) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    if m.contains(':') || m.contains('.') {
        match read_arg_addr(m) {
            Arg::Ok((f, v)) if f == v6 => Arg::Ok(if neg { !v & full(v6) } else { v }),
            Arg::Unspecified => Arg::Unspecified,
            _ => Arg::Bad,
        }
    } else if let Some(p) = m.strip_prefix('+') {
        if p.bytes().all(|b| b.is_ascii_digit()) && !p.is_empty() { Arg::Unspecified } else { Arg::Bad }
    } else {
        match read_prefix(m, bits(v6)) {
            Arg::Ok(p) => Arg::Ok(prefix_mask(v6, if neg { bits(v6) - p } else { p })),
            Arg::Bad => Arg::Bad,
            Arg::Unspecified => Arg::Unspecified,
        }
    }
}

/// A network as the program prints it: strict, and with no bits set outside the mask.
pub fn read_net(s: &str) -> Option<Net> {
    match read_spec(s) {
        Arg::Ok((a, n)) if n.base == a && !s.contains("/-") => Some(n),
        _ => None,
    }
}
