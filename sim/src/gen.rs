//! Workload generation: argument lists for every mode, from ordinary ones to the edges of the
//! address space, and the worlds they run in.

use crate::dict;
use crate::net::*;
use crate::oracle;
use crate::rng::Rng;
use crate::world::*;

pub type Args = Vec<String>;

pub fn v6(r: &mut Rng) -> bool {
    r.pct(50)
}

/// An address from one of the blocks that are set aside for something.
fn special(r: &mut Rng, v6: bool) -> u128 {
    let n = bits(v6);
    let (block, p) = if v6 {
        *r.pick(&[
            (0, 128), (1, 128), (0xffff_0000_0000, 96), (0xffff_0000_0000_0000, 96), (0x64_ff9b << 96, 96), (0x64_ff9b_0001 << 80, 48), (0x100 << 112, 64),
            (0x2001 << 112, 32), (0x2001_0002 << 96, 48), (0x2001_0010 << 96, 28), (0x2001_0020 << 96, 28), (0x2001_0db8 << 96, 32), (0x2002 << 112, 16),
            (0x3fff << 112, 20), (0x5f00 << 112, 16), (0x2000 << 112, 3), (0xfc00 << 112, 7), (0xfd00 << 112, 8), (0xfe80 << 112, 10), (0xfe80 << 112, 64),
            (0xfec0 << 112, 10), (0xff00 << 112, 8), (0xff02 << 112 | 0x1_ff00_0000, 104), (0xff02 << 112 | 1, 128), (0x200_5efe << 32, 0),
        ])
    } else {
        *r.pick(&[
            (0, 8), (0x0a00_0000, 8), (0x6440_0000, 10), (0x7f00_0000, 8), (0xa9fe_0000, 16), (0xac10_0000, 12), (0xc000_0000, 24), (0xc000_0000, 29),
            (0xc000_0200, 24), (0xc01f_c400, 24), (0xc034_c100, 24), (0xc058_6300, 24), (0xc0a8_0000, 16), (0xc0af_3000, 24), (0xc612_0000, 15),
            (0xc633_6400, 24), (0xcb00_7100, 24), (0xe000_0000, 4), (0xe000_0000, 24), (0xe900_0000, 8), (0xefff_0000, 8), (0xf000_0000, 4), (0xffff_ffff, 32),
        ])
    };
    let wild: u128 = if p >= n { 0 } else { full(v6) >> p };
    let host = match r.below(4) {
        0 => u128::from(r.below(4)),
        1 => !u128::from(r.below(4)),
        _ => r.u128(),
    };
    block & full(v6) | host & wild
}

/// An address with a taste for the places where arithmetic goes wrong.
pub fn addr(r: &mut Rng, v6: bool) -> u128 {
    let f = full(v6);
    let n = bits(v6) as u64;
    let near = |r: &mut Rng, c: u128| -> u128 {
        let d = u128::from(r.below(5));
        if r.pct(50) { c.wrapping_add(d) & f } else { c.wrapping_sub(d) & f }
    };
    if r.pct(3) {
        // a number of interest as a byte, a group, the host's end or all of it
        let (place, room) = match r.below(4) {
            0 => (r.below(n / 8) * 8, 255),
            1 if v6 => (r.below(8) * 16, 65535),
            2 => (0, f),
            _ => (0, 65535),
        };
        if let Some(x) = dict::int(r, 0, room) {
            let rest = if r.pct(70) { r.u128() & f } else { 0 };
            let hole = (if room == f { 0 } else { f & !(room << place) }) & rest;
            return hole | x << place & f;
        }
    }
    match r.below(100) {
        0..=2 => return special(r, v6),
        3 | 4 => {
            // several of them, as bytes or groups
            let size = if v6 && r.pct(80) { 16 } else { 8 };
            let some = dict::neighbours(r, (1 << size) - 1);
            if !some.is_empty() {
                let lead = r.range(1, 4);
                let rest = r.below(3);
                return (0..n / size).fold(0, |a, i| {
                    let x = if i < lead || r.pct(10) { *r.pick(&some) } else if rest == 0 { 0 } else { r.u128() & ((1 << size) - 1) };
                    a << size | x
                });
            }
        }
        5 => {
            if let Some(x) = dict::address(r, v6) {
                // it, or one near it
                let k = if r.pct(50) { 0 } else { r.below(n) };
                return x ^ (r.u128() & ((1 << k) - 1));
            }
        }
        _ => {}
    }
    match r.below(12) {
        0 => near(r, 0),
        1 => near(r, f),
        2 | 3 => {
            let b = r.below(n);
            let hi = if r.pct(50) { r.u128() & f } else { 0 };
            let c = (hi >> b << b) | (1u128 << b);
            near(r, c)
        }
        4 => {
            // around the middle of the number: the halves in which IPv6 addresses are kept
            let h = n / 2;
            let hi = if r.pct(50) { r.u128() } else { r.next().into() };
            near(r, hi << h & f)
        }
        5 => {
            let k = r.range(1, 4);
            (0..k).fold(0, |a, _| a | 1u128 << r.below(n))
        }
        6 => {
            let k = r.range(1, 4);
            (0..k).fold(f, |a, _| a & !(1u128 << r.below(n)))
        }
        7 | 8 if v6 => {
            // runs of zero groups in all places
            let keep = r.below(256);
            (0..8).fold(0, |a, i| {
                let g = if keep >> i & 1 == 0 { 0 } else if r.pct(30) { 1 + u128::from(r.below(15)) } else { u128::from(r.below(65536)) };
                a << 16 | g
            })
        }
        7 | 8 => (0..4).fold(0, |a, _| a << 8 | u128::from(*r.pick(&[0u64, 1, 2, 10, 127, 128, 191, 192, 223, 224, 239, 240, 254, 255]))),
        9 => {
            if v6 { 0x2001_0db8u128 << 96 | r.u128() >> 64 } else { 0xc0a8_0000 | u128::from(r.below(65536)) }
        }
        _ => r.u128() & f,
    }
}

pub fn prefix(r: &mut Rng, v6: bool) -> u32 {
    let n = bits(v6) as u64;
    if r.pct(3) {
        if let Some(p) = dict::int(r, 0, n.into()) {
            return p as u32;
        }
    }
    (match r.below(8) {
        0 => r.below(3),
        1 => n - r.below(4),
        2 => 8 * r.range(0, n / 8),
        3 => (n / 2).wrapping_add(r.below(5)).wrapping_sub(2),
        _ => r.range(0, n),
    }) as u32
}

/// A mask whose network bits need not come first.
pub fn mask(r: &mut Rng, v6: bool) -> u128 {
    let n = bits(v6) as u64;
    let f = full(v6);
    match r.below(10) {
        0 | 1 => prefix_mask(v6, prefix(r, v6)),
        2 | 3 => {
            // few host bits, anywhere
            let k = r.range(0, 9);
            (0..k).fold(f, |m, _| m & !(1u128 << r.below(n)))
        }
        4 => {
            // one window of host bits
            let w = r.range(1, 10.min(n - 1));
            let at = r.range(0, n - w);
            f & !(((1u128 << w) - 1) << at)
        }
        5 => {
            let k = r.range(0, 7);
            (0..k).fold(0, |m, _| m | 1u128 << r.below(n))
        }
        8 => {
            // a contiguous mask but for one byte
            let at = r.below(n / 8) * 8;
            let low = if r.pct(70) { 0 } else { (1u128 << at) - 1 };
            (f << at & f & !(255u128 << at)) | u128::from(r.below(256)) << at | low & r.u128()
        }
        6 => (0..n / 8).fold(0, |a, _| a << 8 | u128::from(*r.pick(&[0u64, 255, 255, 255, 240, 15, 128, 1]))),
        7 => {
            // across the middle
            let w = r.range(2, 12);
            let at = n / 2 - r.range(1, w - 1).min(n / 2);
            f & !(((1u128 << w) - 1) << at)
        }
        _ => r.u128() & f,
    }
}

/// A mask with exactly `h` host bits.
pub fn mask_with(r: &mut Rng, v6: bool, h: u32) -> u128 {
    let n = bits(v6);
    if r.pct(45) {
        return prefix_mask(v6, n - h);
    }
    let f = full(v6);
    let mut m = f;
    if r.pct(50) && h > 0 && h < n {
        // a few windows
        let w = if h >= 2 { r.range(1, h as u64 - 1) as u32 } else { 1 };
        let (mut at, mut left) = (r.below((n - h + 1) as u64) as u32, h);
        for _ in 0..w.min(left) {
            m &= !(1u128 << at);
            at += 1;
            left -= 1;
        }
        let mut b = r.below(n as u64) as u32;
        while left > 0 {
            if m >> b & 1 == 1 {
                m &= !(1u128 << b);
                left -= 1;
            }
            b = (b + 1) % n;
        }
        return m;
    }
    let mut left = h;
    while left > 0 {
        let b = r.below(n as u64);
        if m >> b & 1 == 1 {
            m &= !(1u128 << b);
            left -= 1;
        }
    }
    m
}

/// One way of writing an address down.
pub fn addr_arg(r: &mut Rng, v6: bool, a: u128) -> String {
    if !v6 {
        if r.pct(92) {
            return addr_text(false, a);
        }
        let all = r.pct(50);
        let part = |r: &mut Rng, x: u128| if all || r.pct(50) { format!("{:03}", x) } else if r.pct(30) { format!("{:02}", x) } else { x.to_string() };
        return (0..4).map(|i| part(r, a >> (24 - 8 * i) & 255)).collect::<Vec<_>>().join(".");
    }
    let g: Vec<u16> = (0..8).map(|i| (a >> (112 - 16 * i)) as u16).collect();
    let pad = r.pct(15);
    let w = |x: u16| if pad { format!("{:04x}", x) } else { format!("{:x}", x) };
    let mut runs = Vec::new();
    for i in 0..8 {
        for j in i + 1..=8 {
            if g[i..j].iter().all(|x| *x == 0) {
                runs.push((i, j));
            }
        }
    }
    if runs.is_empty() || r.pct(15) {
        return g.iter().map(|x| w(*x)).collect::<Vec<_>>().join(":");
    }
    let usual = std::net::Ipv6Addr::from(a).to_string();
    if r.pct(50) && !usual.contains('.') {
        return usual;
    }
    let (i, j) = *r.pick(&runs);
    format!(
        "{}::{}",
        g[..i].iter().map(|x| w(*x)).collect::<Vec<_>>().join(":"),
        g[j..].iter().map(|x| w(*x)).collect::<Vec<_>>().join(":")
    )
}

/// One way of writing a network down; `addr` may carry host bits.
pub fn spec_arg(r: &mut Rng, v6: bool, addr: u128, mask: u128) -> String {
    let a = addr_arg(r, v6, addr);
    let p = mask_prefix(v6, mask);
    match (p, r.below(10)) {
        (Some(p), 0..=5) => format!("{}/{}", a, prefix_arg(r, p)),
        (Some(p), 6) => format!("{}/-{}", a, prefix_arg(r, bits(v6) - p)),
        (_, 7) => {
            let w = !mask & full(v6);
            format!("{}/-{}", a, addr_arg(r, v6, w))
        }
        _ => format!("{}/{}", a, addr_arg(r, v6, mask)),
    }
}

fn prefix_arg(r: &mut Rng, p: u32) -> String {
    match r.below(40) {
        0 => format!("{:02}", p),
        1 => format!("{:03}", p),
        _ => p.to_string(),
    }
}

/// One way of writing the target of a resize down.
pub fn subnet_arg(r: &mut Rng, v6: bool, mask: u128) -> String {
    match (mask_prefix(v6, mask), r.below(10)) {
        (Some(p), 0..=4) => prefix_arg(r, p),
        (Some(p), 5) => format!("-{}", prefix_arg(r, bits(v6) - p)),
        (_, 6) => format!("-{}", addr_arg(r, v6, !mask & full(v6))),
        _ => addr_arg(r, v6, mask),
    }
}

/// An address inside the network: often its base, sometimes with host bits set.
fn inside(r: &mut Rng, n: &Net) -> u128 {
    match r.below(4) {
        0 | 1 => n.base,
        2 => n.last(),
        _ => n.base | (r.u128() & n.wild()),
    }
}
pub fn net_arg(r: &mut Rng, n: &Net) -> String {
    let a = inside(r, n);
    spec_arg(r, n.v6, a, n.mask)
}

/// How many arguments: sometimes very many, or a number of interest.
fn how_many(r: &mut Rng, usual: u64) -> u64 {
    match r.below(3000) {
        0 | 1 => r.range(100, 1200),
        2..=6 => dict::int(r, 2, 1200).map_or(usual, |n| n as u64),
        _ => usual,
    }
}

pub fn show(r: &mut Rng) -> Args {
    let f = v6(r);
    let k = if r.pct(75) { 1 } else if r.pct(4) { r.range(6, 40) } else { r.range(2, 5) };
    let k = how_many(r, k);
    (0..k)
        .map(|_| {
            let (a, m) = (addr(r, f), mask(r, f));
            spec_arg(r, f, a, m)
        })
        .collect()
}

/// IPv4 networks around the borders of the old address classes.
pub fn classful(r: &mut Rng) -> Args {
    let k = r.range(1, 3);
    (0..k)
        .map(|_| {
            let top = r.below(16) as u128;
            let a = top << 28 | (r.u128() & 0x0fff_ffff);
            let m = match r.below(4) {
                0 | 1 => prefix_mask(false, r.range(0, 8) as u32),
                2 => prefix_mask(false, r.range(0, 32) as u32),
                _ => (r.below(16) as u128) << 28 | if r.pct(50) { 0x0fff_ff00 } else { r.u128() & 0x0fff_ffff },
            };
            spec_arg(r, false, a, m)
        })
        .collect()
}

pub fn derange(r: &mut Rng) -> Args {
    let f = v6(r);
    let a = addr(r, f);
    let b = match r.below(5) {
        0 => {
            // a range that is nearly, or exactly, one network
            let n = Net::cidr(f, a, prefix(r, f));
            let d = u128::from(r.below(3));
            let (x, y) = (n.base.wrapping_add(u128::from(r.below(3))).wrapping_sub(1) & full(f), n.last().wrapping_add(d).wrapping_sub(1) & full(f));
            let (x, y) = if r.pct(40) { (n.base, n.last()) } else { (x, y) };
            return vec!["--derange".into(), addr_arg(r, f, x), addr_arg(r, f, y)];
        }
        1 => a.wrapping_add(u128::from(r.below(1000))).min(full(f)).max(a),
        2 => {
            let d = r.u128() >> (128 - bits(f)) >> r.below(bits(f).into());
            a.checked_add(d).unwrap_or(full(f)).min(full(f))
        }
        _ => addr(r, f),
    };
    let (x, y) = if r.pct(50) { (a, b) } else { (b, a) };
    vec![(if r.pct(50) { "-d" } else { "--derange" }).into(), addr_arg(r, f, x), addr_arg(r, f, y)]
}

/// Splits a network along bits of its own, into pieces that together are the network.
fn shatter(r: &mut Rng, n: Net, k: usize, cidr: bool) -> Vec<Net> {
    let mut v = vec![n];
    while v.len() < k {
        let i = r.idx(v.len());
        let x = v[i];
        if x.wild() == 0 {
            if v.iter().all(|x| x.wild() == 0) {
                break;
            }
            continue;
        }
        let top = 1u128 << (127 - x.wild().leading_zeros());
        let bit = if cidr || r.pct(60) {
            top
        } else {
            let free: Vec<u32> = (0..bits(x.v6)).filter(|b| x.wild() >> b & 1 == 1).collect();
            1u128 << *r.pick(&free)
        };
        let m = x.mask | bit;
        v[i] = Net { v6: x.v6, base: x.base, mask: m };
        v.push(Net { v6: x.v6, base: x.base | bit, mask: m });
    }
    v
}

pub fn minimize_nets(r: &mut Rng) -> Vec<Net> {
    let f = v6(r);
    let cidr = r.pct(60);
    let mut nets: Vec<Net> = Vec::new();
    let blocks = r.skewed(4);
    if r.pct(6) {
        nets.extend(lattice(r, f));
    }
    for _ in 0..blocks {
        let a = if r.pct(20) { full(f) - u128::from(r.below(1024)) } else { addr(r, f) };
        let m = if cidr || r.pct(30) { prefix_mask(f, prefix(r, f)) } else { mask(r, f) };
        let most = if r.pct(10) { 60 } else { 14 };
        let k = if r.pct(1) { r.range(60, 300) } else { r.skewed(most) } as usize;
        let mut v = shatter(r, Net::new(f, a, m), k, cidr);
        // lose a piece, repeat one, put something inside one
        if v.len() > 1 && r.pct(40) {
            let i = r.idx(v.len());
            v.remove(i);
        }
        for _ in 0..r.below(3) {
            let x = *r.pick(&v);
            v.push(match r.below(4) {
                0 => x,
                1 => {
                    let w = x.base | (r.u128() & x.wild());
                    let extra = if cidr {
                        let p = x.mask.count_ones();
                        prefix_mask(f, r.range(p.into(), bits(f).into()) as u32)
                    } else {
                        x.mask | (r.u128() & x.wild())
                    };
                    Net::new(f, w, extra)
                }
                2 => {
                    // the neighbour
                    let d = x.mask & x.mask.wrapping_neg();
                    Net { v6: f, base: x.base ^ d, mask: x.mask }
                }
                _ => {
                    // same size, one other bit away
                    let ones: Vec<u32> = (0..bits(f)).filter(|b| x.mask >> b & 1 == 1).collect();
                    let d = if ones.is_empty() { 0 } else { 1u128 << *r.pick(&ones) };
                    Net { v6: f, base: x.base ^ d, mask: x.mask }
                }
            });
        }
        nets.extend(v);
    }
    match r.below(3) {
        0 => nets.sort(),
        1 => {
            nets.sort();
            nets.reverse();
        }
        _ => r.shuffle(&mut nets),
    }
    nets
}

/// Networks around one address whose masks differ in a handful of places, so that many share a
/// first address and some, not all, lie inside others.
fn lattice(r: &mut Rng, f: bool) -> Vec<Net> {
    let k = r.range(2, 6) as usize;
    let places: Vec<u128> = (0..k).map(|_| 1u128 << r.below(bits(f).into())).collect();
    let all = places.iter().fold(0, |a, b| a | b);
    let rest = if r.pct(50) { full(f) & !all } else { mask(r, f) & !all };
    let a = addr(r, f) & if r.pct(70) { !all } else { full(f) };
    let some = |r: &mut Rng| places.iter().filter(|_| r.pct(50)).fold(0, |a, b| a | b);
    (0..r.range(3, 12))
        .map(|_| {
            let stray = if r.pct(20) { some(r) } else { 0 };
            Net::new(f, a ^ stray, rest | some(r))
        })
        .collect()
}

/// A thousand or two networks of which a few can be merged or left out.
fn many_nets(r: &mut Rng) -> Vec<Net> {
    let f = v6(r);
    let n = r.range(300, 1800) as usize;
    let m = prefix_mask(f, bits(f) - r.range(0, 6) as u32);
    let mut nets: Vec<Net> = (0..n).map(|_| Net::new(f, r.u128() & full(f), m)).collect();
    // (scattered ones hardly ever touch; now and then they are the rungs of a ladder instead)
    if r.pct(40) {
        let (start, step) = (addr(r, f), (!m & full(f)) * 2 + 2);
        nets = (0..n as u128).map(|i| Net::new(f, start.wrapping_add(step * i) & full(f), m)).collect();
    }
    for _ in 0..r.range(1, 6) {
        let x = *r.pick(&nets);
        nets.push(match r.below(3) {
            0 => x,
            1 => Net::new(f, x.base | (r.u128() & x.wild()), full(f)),
            _ => Net { v6: f, base: x.base ^ (x.mask & x.mask.wrapping_neg()), mask: x.mask },
        });
    }
    if r.pct(50) { nets.sort() } else { r.shuffle(&mut nets) }
    nets
}

pub fn minimize(r: &mut Rng) -> Args {
    let nets = if r.below(2500) == 0 { many_nets(r) } else { minimize_nets(r) };
    let mut a: Args = vec![(if r.pct(50) { "-m" } else { "--minimize" }).into()];
    for n in &nets {
        a.push(net_arg(r, n));
    }
    a
}

pub fn split(r: &mut Rng) -> Args {
    let f = v6(r);
    let a = if r.pct(20) { full(f) - u128::from(r.below(300)) } else { addr(r, f) };
    let p = prefix(r, f);
    let n = Net::cidr(f, a, p);
    let room = n.host_bits();
    let mut out: Args = vec![(if r.pct(50) { "-s" } else { "--split" }).into(), net_arg(r, &n)];
    let cap = |h: u32| -> u128 { if h >= 128 { u128::MAX - 1 } else { (1u128 << h) - 2 } };
    let of_size = |r: &mut Rng, h: u32| -> String {
        // a count that needs exactly h host bits
        let hi = cap(h);
        let lo = if h <= 1 { 0 } else { cap(h - 1) + 1 };
        let n = match r.below(4) {
            0 => hi,
            1 => lo,
            _ => lo + r.u128() % (hi - lo + 1).max(1),
        };
        if r.pct(3) { format!("0{}", n) } else { n.to_string() }
    };
    match r.below(5) {
        0 if room >= 1 => {
            // an exact fit, or one slice more than that
            let mut sizes = vec![room];
            for _ in 0..r.below(9) {
                let i = r.idx(sizes.len());
                if sizes[i] > 1 {
                    sizes[i] -= 1;
                    let s = sizes[i];
                    sizes.push(s);
                }
            }
            match r.below(4) {
                0 => sizes.push(r.range(1, room.into()) as u32),
                1 => {
                    let i = r.idx(sizes.len());
                    sizes.remove(i);
                    if sizes.is_empty() {
                        sizes.push(1);
                    }
                }
                _ => {}
            }
            r.shuffle(&mut sizes);
            for s in sizes {
                out.push(of_size(r, s));
            }
        }
        1 => {
            // too large
            let h = (room + r.range(0, 2) as u32).clamp(1, 128);
            for _ in 0..r.range(1, 3) {
                out.push(of_size(r, h));
            }
            if r.pct(20) {
                if r.pct(50) {
                    // nothing else that could be in its way
                    out.truncate(2);
                }
                let most = 10u64.pow(r.range(1, 4) as u32);
                out.push("1".to_string() + &"0".repeat(r.range(1, most) as usize));
            }
        }
        _ => {
            let most = if r.pct(10) { 40 } else { 9 };
            let k = match r.below(300) {
                0 => r.range(250, 700),
                1..=3 => r.range(40, 200),
                4 => dict::int(r, 2, 700).map_or(5, |n| n as u64),
                _ => r.skewed(most),
            };
            // many only fit if they are small
            let room = if k >= 40 && r.pct(85) { room.saturating_sub(k.ilog2() + 1) } else { room };
            for _ in 0..k {
                let h = r.range(1, u64::from(room.max(1)).min(128)) as u32;
                let h = if r.pct(60) { h / 2 + 1 } else { h };
                let c = match r.below(100) {
                    0..=29 => r.below(300).to_string(),
                    30..=33 => dict::int(r, 0, cap(room.max(1))).map_or("7".into(), |n| n.to_string()),
                    _ => of_size(r, h),
                };
                out.push(c);
            }
        }
    }
    out
}

pub fn resize(r: &mut Rng) -> Args {
    let f = v6(r);
    let n = bits(f);
    let a = addr(r, f);
    let m = mask(r, f);
    let k0 = m.count_ones();
    let room = n - k0;
    // at most 2^6 (rarely 2^9) subnets
    let k1 = match r.below(4) {
        0 => r.range(0, k0.into()) as u32,
        1 => k0,
        _ => {
            let more = if r.pct(2) { 12 } else if r.pct(6) { 9 } else { 5 };
            (k0 + r.range(0, room.min(more).into()) as u32).min(n)
        }
    };
    let target = if r.pct(50) { prefix_mask(f, k1) } else { mask_with(r, f, n - k1) };
    let t = subnet_arg(r, f, target);
    vec![(if r.pct(50) { "-r" } else { "--resize" }).into(), spec_arg(r, f, a, m), t]
}

/// More subnets than sixteen bits can number, each with a short description.
pub fn resize_far(r: &mut Rng) -> Args {
    let h = r.range(17, 18) as u32;
    let m = if r.pct(70) { prefix_mask(false, 32 - h) } else { mask_with(r, false, h) };
    let a = addr(r, false);
    let t = subnet_arg(r, false, full(false));
    vec!["-r".into(), spec_arg(r, false, a, m), t]
}

pub fn enumerate(r: &mut Rng, max_bits: u32) -> Args {
    let f = v6(r);
    let mut out: Args = vec![(if r.pct(50) { "-e" } else { "--enumerate" }).into()];
    let k = if r.pct(75) { 1 } else if r.pct(4) { r.range(5, 60) } else { r.range(2, 4) };
    let k = how_many(r, k);
    let max_bits = if k > 4 { max_bits.min(5) } else { max_bits };
    for _ in 0..k {
        let h = r.range(0, max_bits.min(bits(f)).into()) as u32;
        let m = mask_with(r, f, h);
        let a = if r.pct(15) { full(f) } else { addr(r, f) };
        out.push(net_arg(r, &Net::new(f, a, m)));
    }
    out
}

/// A valid command of any mode.
pub fn command(r: &mut Rng) -> Args {
    match r.below(12) {
        0 | 1 => show(r),
        2 | 3 => derange(r),
        4 | 5 => minimize(r),
        6 | 7 => split(r),
        8 | 9 => resize(r),
        _ => enumerate(r, 6),
    }
}

/// Something with the looks of an address, well-formed or not.
fn address_like(r: &mut Rng, v6: bool) -> String {
    if !v6 {
        let k = if r.pct(60) { 4 } else { r.range(1, 6) };
        let octet = |r: &mut Rng| match r.below(9) {
            0 => r.range(250, 260).to_string(),
            1 => (*r.pick(&["", "256", "300", "999", "1000", "65535", "65536", "4294967295", "4294967296", "4294967551", "18446744073709551616", "0x1", "a"])).to_string(),
            _ => r.below(256).to_string(),
        };
        let bad = r.pct(60);
        return (0..k).map(|_| if bad { octet(r) } else { r.below(256).to_string() }).collect::<Vec<_>>().join(".");
    }
    let k = match r.below(3) {
        0 => 8,
        1 => r.range(6, 10),
        _ => r.range(0, 12),
    };
    let mut g: Vec<String> = (0..k)
        .map(|_| match r.below(30) {
            0 => (*r.pick(&["", "10000", "fffff", "12345", "g", "-1", "0x1", "1.2.3.4", "ffff ", "F", "00000"])).to_string(),
            1..=3 => "0".into(),
            4 => format!("{:04x}", r.below(65536)),
            _ => format!("{:x}", r.below(65536)),
        })
        .collect();
    // "::" is an empty group in the middle, and one more at an end
    for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 1, 2, 3]) {
        let i = r.idx(g.len() + 1);
        g.insert(i, String::new());
        if i == 0 {
            g.insert(0, String::new());
        } else if i == g.len() - 1 {
            g.push(String::new());
        }
    }
    g.join(":")
}

/// Text that is not a network, an address or a number of any documented form.
fn broken(r: &mut Rng, good: &str) -> String {
    let b: Vec<char> = good.chars().collect();
    let i = r.idx(b.len() + 1);
    let junk = ['x', 'g', '/', '-', '.', ':', ' ', '\n', '\t', '%', '_', '+', 'é', '٣', '0', '9', '\u{feff}', '🦀', ',', '\\', '"', '\u{1b}', '\u{f7ff}', '\u{f780}', '\u{f7c3}'];
    let mut s: Vec<char> = b.clone();
    if r.pct(25) && (good.contains('.') || good.contains(':')) {
        // one of its addresses is replaced
        let parts: Vec<&str> = good.split('/').collect();
        let i = r.idx(parts.len());
        let six = parts[i].contains(':') || (!parts[i].contains('.') && r.pct(50));
        let a = address_like(r, six);
        return parts.iter().enumerate().map(|(k, p)| if k == i { a.as_str() } else { p }).collect::<Vec<_>>().join("/");
    }
    match r.below(9) {
        8 if !s.is_empty() => {
            // a part of it many times
            let k = r.range(1, (b.len() as u64).min(6)) as usize;
            let from = r.idx(b.len() - k + 1);
            let part = b[from..from + k].to_vec();
            let times = 1usize << r.below(9);
            let mut times = times + r.idx(times);
            if r.below(60) == 0 {
                // about as long as one argument can be
                let most = 120_000 / part.iter().map(|c| c.len_utf8()).sum::<usize>();
                times = r.range(1_000.min(most as u64), most as u64) as usize;
            }
            s.splice(from..from, part.iter().cycle().take(k * times).copied());
        }
        7 => {
            // a number that does not fit
            let near = match r.below(4) {
                0 => r.range(30, 140).to_string(),
                1 => ((1u128 << *r.pick(&[8, 16, 32, 64])) + u128::from(r.below(140))).to_string(),
                _ => String::new(),
            };
            let fixed = *r.pick(&["33", "129", "256", "264", "288", "65536", "65560", "4294967296", "4294967320", "18446744073709551615", "18446744073709551616", "18446744073709551640", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999"]);
            let big = if near.is_empty() { fixed } else { &near };
            let t: String = b.iter().collect();
            let keep = match t.rfind(['/', '-', '.']) {
                Some(k) => &t[..=k],
                None if r.pct(50) => "-",
                None => "",
            };
            return format!("{}{}", keep, big);
        }
        0 => s.insert(i, *r.pick(&junk)),
        1 if !s.is_empty() => {
            s.remove(i % b.len());
        }
        2 if !s.is_empty() => s[i % b.len()] = *r.pick(&junk),
        3 => s.truncate(i),
        4 => s = s.split_off(i),
        5 => {
            let t = s.clone();
            s.extend(t);
        }
        _ => return (*r.pick(&["", "/", "-", "::", "1.2.3.4", "::1", "1.2.3.4/33", "::/129", "1.2.3.4/-33", "::/-129", "-33", "-129", "256.1.1.1/8", "1.2.3/8", "1.2.3.4.5/8", "1.2.3.4/24/24", "::1::/64", "1:2:3:4:5:6:7/64", "1:2:3:4:5:6:7:8:9/64", "12345::/16", "g::/16", "10.0.0.0/::", "::/255.0.0.0", "10.0.0.0 /8", " 10.0.0.0/8", "10.0.0.0/8 ", "10.0.0.0/8\n", "10.0.0.0/", "/8", "10.0.0.0/-", "10.0.0.0/--8", "10.0.0.0/4294967304", "10.0.0.0/18446744073709551624", "4294967297.0.0.0/8", "10.0.0.0/255.255.255", "10.0.0.0/256.0.0.0", "::/fffff::", "1.2.3.4/0x8", "-", "--", "-x", "--split", "localhost/8", "١٠.0.0.0/8", "\u{f780}", "10.0.0.0/\u{f7b8}", "\u{f7ff}\u{f7fe}::/16"])).to_string(),
    }
    s.into_iter().collect()
}

/// An argument list that the model refuses.
pub fn invalid(r: &mut Rng) -> Args {
    for _ in 0..200 {
        let mut a = command(r);
        let lead = usize::from(a[0].starts_with('-'));
        match r.below(8) {
            0 => {
                // wrong number of arguments
                if r.pct(50) { a.truncate(lead + r.idx(2)) } else { a.push(r.pick(&["8", "10.0.0.1", "x"]).to_string()) }
            }
            1 => {
                // the other family
                let other = if a.iter().any(|s| s.contains(':')) { ["10.0.0.0/8", "10.0.0.1"] } else { ["fe80::/10", "fe80::1"] };
                let i = lead + r.idx(a.len() - lead + 1).min(a.len() - lead);
                let o = other[usize::from(a[0].contains('d') && lead == 1)].to_string();
                if i < a.len() && r.pct(70) { a[i] = o } else { a.push(o) }
            }
            2 if lead == 1 && r.pct(12) => a[0] = dict::string(r).unwrap_or_default(),
            2 if lead == 1 => a[0] = r.pick(&["-x", "--minimise", "-", "--", "-mm", "--enumerat", "-h", "-M", "–m", "m"]).to_string(),
            _ => {
                for _ in 0..r.range(1, 2) {
                    let i = lead + r.idx(a.len() - lead);
                    a[i] = broken(r, &a[i].clone());
                }
            }
        }
        if matches!(oracle::job(&a), oracle::Job::Refuse | oracle::Job::Enumerate(_, true)) {
            return a;
        }
    }
    Vec::new()
}

/// More arguments than anybody types, as a shell or another program may pass them on. `invalid`
/// asks for one that means nothing among them.
pub fn crowd(r: &mut Rng, invalid: bool) -> Args {
    let f = v6(r);
    let net = if f { "::1/128" } else { "1.1.1.1/32" };
    let mode = *r.pick(&["", "-e", "-s", "-m", "-d"]);
    let invalid = invalid || mode == "-m";
    let n = 1u64 << r.range(12, 17);
    let n = if r.pct(70) { r.range(n / 2, n) } else { n };
    let mut a: Args = Vec::with_capacity(n as usize + 2);
    if !mode.is_empty() {
        a.push(mode.into());
    }
    let lead = a.len();
    for i in 0..n {
        a.push((if mode == "-s" && i > 0 { "0" } else { net }).to_string());
    }
    if invalid {
        let i = if r.pct(60) { a.len() - 1 } else { lead + r.idx(a.len() - lead) };
        a[i] = broken(r, &a[i].clone());
    }
    a
}

/// Any argument list at all.
pub fn anything(r: &mut Rng) -> Args {
    let mut a = match r.below(10) {
        0 => invalid(r),
        1 => {
            let modes = ["-m", "-d", "-s", "-r", "-e", "--minimize", "--help", "--color-test", "", "10.0.0.0/8", "x"];
            let mut a = vec![r.pick(&modes).to_string()];
            for _ in 0..r.below(5) {
                let c = command(r);
                let x = r.pick(&c).clone();
                a.push(if r.pct(40) { broken(r, &x) } else { x });
            }
            a
        }
        _ => command(r),
    };
    if r.pct(25) && !a.is_empty() {
        let i = r.idx(a.len());
        a[i] = broken(r, &a[i].clone());
    }
    if r.pct(2) && !a.is_empty() {
        // bytes that are no text at all
        let i = r.idx(a.len());
        a[i] = (0..r.range(1, 12)).map(|_| char::from_u32(0xf700 + if r.pct(50) { r.range(0x80, 0xff) } else { 0xc0 } as u32).unwrap()).collect();
    }
    if r.pct(3) {
        a.push("9".repeat(r.range(1, 600) as usize));
    }
    if r.pct(4) {
        if let Some(s) = dict::string(r) {
            let i = r.idx(a.len() + 1);
            a.insert(i, s);
        }
    }
    a
}

// ---- worlds ----

pub fn profile(r: &mut Rng) -> Profile {
    if r.pct(50) { Profile::Checked } else { Profile::Release }
}

/// Environment variables that must not matter to the answer.
pub fn noise_env(r: &mut Rng, w: &mut World) {
    let pool = [
        "LANG=de_AT.UTF-8", "LC_ALL=C", "LC_ALL=tr_TR.UTF-8", "TZ=Pacific/Apia", "COLUMNS=20", "COLUMNS=0", "LINES=1",
        "HOME=/nonexistent", "USER=", "RUST_LOG=trace", "POSIXLY_CORRECT=1", "PWD=/", "TERM=dumb", "TERM=vt100",
        "RUST_MIN_STACK=65536", "PAGER=less", "RIPCALC=--minimize", "IFS=:", "TMPDIR=/nowhere", "=x", "A", "LANG=\u{f7e4}", "TERM=\u{f7ff}", "\u{f7b2}=1",
    ];
    for _ in 0..r.below(6) {
        let e = r.pick(&pool).to_string();
        if e.starts_with("TERM=") {
            w.env.retain(|x| !x.starts_with("TERM="));
        }
        w.env.push(e);
    }
    if r.pct(5) {
        w.env.extend(dict::setting(r));
    }
    if r.pct(1) {
        // costs as much as fifty other runs when the run panics
        w.env.push("RUST_BACKTRACE=1".into());
    }
    if r.pct(15) {
        w.env.clear();
    }
}

/// How fast and evenly the machine runs: what the clock says between two readings, and which thread
/// gets how far before another one.
pub fn pace(r: &mut Rng, w: &mut World) {
    w.sched = if r.pct(70) { r.next() | 4 } else { 0 };
    w.clock_step = match r.below(4) {
        0 | 1 => 0,
        2 => r.range(1, 100_000),
        _ => r.range(1, 10_000_000_000),
    };
}

/// Colours are wanted: on a terminal, or in spite of there being none.
pub fn colourful(r: &mut Rng, w: &mut World) {
    w.env.retain(|e| !e.starts_with("TERM=") && !e.starts_with("CLICOLOR") && !e.starts_with("NO_COLOR"));
    w.env.push("TERM=xterm-256color".into());
    if r.pct(50) {
        w.tty[1] = true;
    } else {
        w.env.push("CLICOLOR_FORCE=1".into());
    }
}

/// Differences between machines that no answer may depend on.
pub fn incidental(r: &mut Rng, w: &mut World) {
    w.hash_seed = r.next();
    w.profile = profile(r);
    w.tty[0] = r.pct(50);
    w.rnd_eintr = r.pct(25);
    w.rnd_einval = r.pct(25);
    w.start_time = match r.below(4) {
        0 => 0,
        1 => 4_102_444_800_000_000 + r.below(1 << 40),
        _ => r.below(4_000_000_000_000_000),
    };
    w.env_ask = if r.pct(50) { r.next() | 1 } else { 0 };
    pace(r, w);
    if r.pct(20) {
        w.argv0 = if r.pct(10) { dict::string(r).unwrap_or_default() } else { r.pick(&["/usr/bin/ripcalc", "./target/debug/ripcalc", "rc", "", "-m", "ripcalc6", "\u{f7ff}/ripcalc", "-ripcalc", "/opt/busybox", "ipcalc", "ripcalc4", "RIPCALC", "ripcalc.exe", "minimize", "derange", "split", "resize", "enumerate", "/usr/bin/ripcalc-minimize", "ripcalc-enumerate", "ripcalc-split", "ripcalc-derange", "ripcalc-resize", "--help", "10.0.0.0/8"]).to_string() };
    }
    noise_env(r, w);
}

/// Writes that are interrupted, cut short or slow, but in the end all succeed.
pub fn benign(r: &mut Rng, w: &mut World, total: u64) {
    if r.pct(50) {
        pace(r, w);
    }
    for i in 0..2 {
        if i == 1 && r.pct(50) {
            continue;
        }
        match r.below(7) {
            0 => w.max_chunk[i] = 1,
            1 => w.max_chunk[i] = r.range(1, 9),
            2 => w.max_chunk[i] = if r.pct(20) { dict::int(r, 1, 4096).map_or(16, |n| n as u64) } else { r.range(1, 4096) },
            3 => w.eintr_every[i] = r.range(2, 5),
            4 => {
                w.max_chunk[i] = r.range(1, 64);
                w.eintr_every[i] = r.range(2, 4);
            }
            _ => {}
        }
        // a long answer a byte at a time is only slow
        if w.max_chunk[i] != 0 {
            w.max_chunk[i] = w.max_chunk[i].max(total / 20_000);
        }
        if r.pct(20) {
            w.stall_us[i] = r.range(1, 5_000_000);
        }
        let calls = (total / 20).clamp(4, 200);
        for _ in 0..r.below(5) {
            let call = r.skewed(calls) as u32 - 1;
            let fd = i as u32 + 1;
            let act = match r.below(4) {
                0 => Action::Stall(r.range(1, 60_000) as u32),
                1 | 2 => Action::Short(r.skewed(80) as u32),
                _ => Action::Errno(EINTR),
            };
            if matches!(act, Action::Errno(_)) {
                // bursts: the retry is interrupted again
                let burst = match r.below(50) {
                    0 => dict::int(r, 1, 300).map_or(100, |n| n as u64),
                    1..=4 => r.range(5, 60),
                    _ => r.range(1, 4),
                };
                for k in 0..burst as u32 {
                    w.script.push(Step { fd, call: call + k, action: act });
                }
            } else {
                w.script.push(Step { fd, call, action: act });
            }
        }
    }
}

/// A signal arrives: at a write, or while the answer is being worked out.  Some ask the program to
/// stop; others, and those the program was started with ignoring, are none of its business.
pub fn signal(r: &mut Rng, w: &mut World, calls: [u64; 2], allocs: u64) {
    let stop = r.pct(65);
    let sig = if stop { *r.pick(&[2u32, 15, 1, 3]) } else { *r.pick(&[28u32, 17, 23, 18, 1, 2, 3, 28, 10, 12, 10, 12, 24, 29, 30]) };
    if !stop && (sig < 4 || (sig < 16 && r.pct(30))) {
        w.sig_ign = sig.into();
    } else if r.pct(10) {
        // another one is ignored
        w.sig_ign = *r.pick(&[1u64, 2, 3].iter().filter(|s| **s != u64::from(sig)).copied().collect::<Vec<_>>());
    }
    if allocs > 0 && (calls == [0; 2] || r.pct(40)) {
        w.sig_no = sig.into();
        w.sig_alloc = if r.pct(60) { r.range(allocs / 2, allocs) } else { r.range(1, allocs) }.max(1);
        return;
    }
    let fd = if calls[0] > 0 { 1 } else { 2 };
    let n = calls[fd as usize - 1].max(1);
    let call = match r.below(4) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    } as u32;
    // not on top of something else that happens to the same call
    w.script.retain(|s| s.fd != fd || s.call != call);
    let again = if r.pct(25) { r.range(1, 3) as u32 } else { 0 };
    for k in 0..=again {
        w.script.push(Step { fd, call: call + k, action: Action::Signal(sig) });
    }
}

/// A byte position in an answer, with a taste for line ends and buffer sizes.
pub fn position(r: &mut Rng, out: &[u8]) -> u64 {
    let n = out.len() as u64;
    let ends: Vec<u64> = out.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i as u64 + 1).collect();
    if r.pct(3) {
        if let Some(p) = dict::int(r, 0, n.saturating_sub(1).into()) {
            return p as u64;
        }
    }
    match r.below(8) {
        0 => 0,
        1 => n.saturating_sub(1 + r.below(3)),
        2 | 3 if !ends.is_empty() => (r.pick(&ends) + r.below(3)).saturating_sub(1).min(n.saturating_sub(1)),
        4 if n > 1024 => (1024 * r.range(1, n / 1024) + r.below(3) - 1).min(n - 1),
        5 if !ends.is_empty() => {
            // just before the last line
            let k = ends.len();
            if k >= 2 { ends[k - 2] } else { 0 }
        }
        _ => r.below(n.max(1)),
    }
}

/// Standard output fails: for good or for a few calls, at a byte, at a call, with or without part of
/// the data taken.
pub fn out_failure(r: &mut Rng, w: &mut World, out: &[u8]) {
    let e = if r.pct(50) { *r.pick(&[ENOSPC, EPIPE, EIO]) } else { *r.pick(&HARD_ERRNOS) };
    let calls = out.iter().filter(|b| **b == b'\n').count() as u64 + 1;
    match r.below(6) {
        0..=2 => {
            w.cap[0] = position(r, out);
            w.cap_errno[0] = e.into();
            w.cap_fails[0] = if r.pct(60) { 0 } else { r.range(1, 3) };
        }
        3 => w.script.push(Step { fd: 1, call: r.below(calls) as u32, action: Action::Errno(e) }),
        4 => {
            w.cap_fails[0] = if r.pct(50) { 0 } else { r.range(1, 3) };
            w.script.push(Step { fd: 1, call: r.below(calls) as u32, action: Action::PartialErrno(r.skewed(60) as u32, e) });
        }
        _ => w.script.push(Step { fd: 1, call: r.below(calls) as u32, action: Action::Zero }),
    }
    if r.pct(30) {
        w.max_chunk[0] = r.range(1, 64);
    }
    if r.pct(20) {
        w.eintr_every[0] = r.range(2, 5);
    }
}

/// An allocation fails, or from some amount on all of them do.
pub fn memory(r: &mut Rng, w: &mut World, allocs: u64, peak: u64) {
    match r.below(6) {
        0..=3 => {
            // mostly within the part of the run that computes and prints, not in the start-up
            w.alloc_fail_at = match r.below(10) {
                0..=3 => (allocs + 1).saturating_sub(1 << r.below(12)).saturating_sub(r.below(8)).max(1),
                4..=7 => r.range(allocs * 3 / 4, allocs.max(1)).max(1),
                _ => r.range(1, allocs.max(1)),
            };
            w.alloc_sticky = r.pct(40);
        }
        4 => w.mem_limit = r.range(peak * 3 / 4, peak.max(1)).max(1),
        _ => w.mem_limit = r.range(2_000, 80_000),
    }
}

/// The process dies, or runs out of memory.
pub fn crash(r: &mut Rng, w: &mut World, out: &[u8], allocs: u64, peak: u64) {
    let calls = out.iter().filter(|b| **b == b'\n').count() as u64 + 1;
    match r.below(6) {
        0 | 1 => w.kill_at = position(r, out),
        2 => {
            let action = if r.pct(50) { Action::Kill } else { Action::PartialKill(r.skewed(60) as u32) };
            w.script.push(Step { fd: 1, call: r.below(calls) as u32, action });
        }
        _ => memory(r, w, allocs, peak),
    }
    if r.pct(40) {
        w.max_chunk[0] = r.range(1, 64);
    }
    if r.pct(20) {
        w.eintr_every[0] = r.range(2, 5);
    }
}

pub fn err_failure(r: &mut Rng, w: &mut World) {
    w.cap[1] = if r.pct(50) { 0 } else { r.below(60) };
    w.cap_errno[1] = (*r.pick(&HARD_ERRNOS)).into();
    w.cap_fails[1] = if r.pct(60) { 0 } else { 1 };
}
