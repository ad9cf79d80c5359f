//! What the program has to answer: a small executable reference model of every mode, and the
//! comparison of a delivered answer against it.

use crate::net::*;
use crate::world::{End, Outcome};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Verdict = Result<(), Violation>;

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// What an argument list asks for.
#[derive(Clone, Debug)]
pub enum Job {
    /// Wrong use or unreadable arguments: refused, with a diagnostic and without any answer.
    Refuse,
    Help,
    /// Nothing definite is documented.
    Unspecified,
    Show(Vec<(u128, Net)>),
    Minimize(Vec<Net>),
    Derange(bool, u128, u128),
    Split(Net, Vec<String>),
    Resize(Net, u128),
    /// The readable networks in order, and whether there were unreadable ones as well.
    Enumerate(Vec<Net>, bool),
}

/// The families cannot be mixed within an invocation; what happens if they are is only documented
/// where one answer is made from all arguments.
fn mixed(nets: &[Net]) -> bool {
    nets.iter().any(|n| n.v6) && nets.iter().any(|n| !n.v6)
}

pub fn job(args: &[String]) -> Job {
    let Some(mode) = args.first() else { return Job::Refuse };
    let rest = &args[1..];
    match mode.as_str() {
        "-m" | "--minimize" => {
            if rest.is_empty() {
                return Job::Refuse;
            }
            let mut nets = Vec::new();
            let (mut bad, mut odd) = (false, false);
            for s in rest {
                match read_spec(s) {
                    Arg::Ok((_, n)) => nets.push(n),
                    Arg::Bad => bad = true,
                    Arg::Unspecified => odd = true,
                }
            }
            if bad || mixed(&nets) {
                Job::Refuse
            } else if odd {
                Job::Unspecified
            } else {
                Job::Minimize(nets)
            }
        }
        "-d" | "--derange" => {
            if rest.len() != 2 {
                return Job::Refuse;
            }
            match (read_arg_addr(&rest[0]), read_arg_addr(&rest[1])) {
                (Arg::Bad, _) | (_, Arg::Bad) => Job::Refuse,
                (Arg::Ok((f, a)), Arg::Ok((g, b))) => {
                    if f != g { Job::Refuse } else { Job::Derange(f, a.min(b), a.max(b)) }
                }
                _ => Job::Unspecified,
            }
        }
        "-s" | "--split" => {
            if rest.len() < 2 {
                return Job::Refuse;
            }
            let mut counts = Vec::new();
            let (mut bad, mut odd) = (false, false);
            for s in &rest[1..] {
                match read_number(s) {
                    Arg::Ok(n) => counts.push(n),
                    Arg::Bad => bad = true,
                    Arg::Unspecified => odd = true,
                }
            }
            match read_spec(&rest[0]) {
                Arg::Bad => Job::Refuse,
                _ if bad => Job::Refuse,
                Arg::Ok((_, n)) if !odd && n.prefix().is_some() => Job::Split(n, counts),
                _ => Job::Unspecified,
            }
        }
        "-r" | "--resize" => {
            if rest.len() != 2 {
                return Job::Refuse;
            }
            match read_spec(&rest[0]) {
                Arg::Bad => Job::Refuse,
                Arg::Ok((_, n)) => match read_subnet(&rest[1], n.v6) {
                    Arg::Bad => Job::Refuse,
                    Arg::Ok(m) => Job::Resize(n, m),
                    Arg::Unspecified => Job::Unspecified,
                },
                Arg::Unspecified => Job::Unspecified,
            }
        }
        "-e" | "--enumerate" => {
            if rest.is_empty() {
                return Job::Refuse;
            }
            let mut nets = Vec::new();
            let mut bad = false;
            for s in rest {
                match read_spec(s) {
                    Arg::Ok((_, n)) => nets.push(n),
                    Arg::Bad => bad = true,
                    Arg::Unspecified => return Job::Unspecified,
                }
            }
            if nets.is_empty() {
                Job::Refuse
            } else if mixed(&nets) {
                Job::Unspecified
            } else {
                Job::Enumerate(nets, bad)
            }
        }
        "--color-test" => Job::Unspecified,
        "--help" => Job::Help,
        _ => {
            let mut nets = Vec::new();
            let mut odd = false;
            for s in args {
                match read_spec(s) {
                    Arg::Ok(p) => nets.push(p),
                    Arg::Bad => return Job::Refuse,
                    Arg::Unspecified => odd = true,
                }
            }
            let families: Vec<Net> = nets.iter().map(|(_, n)| *n).collect();
            if odd || mixed(&families) { Job::Unspecified } else { Job::Show(nets) }
        }
    }
}

/// How much a job prints, roughly, in lines: to keep generated work within bounds.
pub fn weight(args: &[String]) -> u128 {
    match job(args) {
        Job::Enumerate(nets, _) => nets.iter().map(|n| 1u128 << n.host_bits().min(100)).sum(),
        Job::Resize(n, m) => {
            let (a, b) = (n.mask.count_ones(), m.count_ones());
            if b > a { 1u128 << (b - a).min(100) } else { 1 }
        }
        Job::Unspecified if ["-r", "--resize", "-e", "--enumerate"].contains(&args[0].as_str()) => u128::MAX,
        _ => args.len() as u128,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Lit(String),
    Addr(bool, u128),
    Net(bool, u128, u32),
}
pub type Line = Vec<Tok>;

fn lit(s: impl Into<String>) -> Tok {
    Tok::Lit(s.into())
}
fn binary(v6: bool, a: u128) -> Tok {
    let step = if v6 { 16 } else { 8 };
    let mut s = String::new();
    for i in 0..bits(v6) {
        if i > 0 && i % step == 0 {
            s.push(if v6 { ':' } else { '.' });
        }
        s.push(if a >> (bits(v6) - 1 - i) & 1 == 1 { '1' } else { '0' });
    }
    Tok::Lit(s)
}
/// 2^h - 2, exactly.
fn host_count(h: u32) -> String {
    if h < 128 { ((1u128 << h) - 2).to_string() } else { (u128::MAX - 1).to_string() }
}

/// The description of one network, with or without the lines about the address it was given by.
pub fn block(n: &Net, addr: Option<u128>) -> Vec<Line> {
    let f = n.v6;
    let row = |label: &str, a: u128| vec![lit(label), Tok::Addr(f, a), binary(f, a)];
    let mut r = Vec::new();
    if let Some(a) = addr {
        r.push(row("Address:", a));
        let mut l = vec![lit("Netmask:"), Tok::Addr(f, n.mask)];
        if let Some(p) = n.prefix() {
            l.push(lit("="));
            l.push(lit(p.to_string()));
        }
        l.push(binary(f, n.mask));
        r.push(l);
        r.push(row("Wildcard:", n.wild()));
        r.push(vec![lit("=>")]);
    }
    r.push(vec![
        lit("Network:"),
        match n.prefix() {
            Some(p) => Tok::Net(f, n.base, p),
            None => Tok::Addr(f, n.base),
        },
        binary(f, n.base),
    ]);
    let h = n.host_bits();
    if h >= 2 {
        r.push(row("HostMin:", n.nth(1)));
        r.push(row("HostMax:", n.base | deposit(u128::MAX - 1, n.wild())));
    } else {
        r.push(vec![lit("no"), lit("hosts")]);
    }
    if h >= 1 {
        r.push(row("Broadcast:", n.last()));
    } else {
        r.push(vec![lit("no"), lit("broadcast")]);
    }
    if h >= 2 {
        let mut l = vec![lit("Hosts/Net:"), lit(host_count(h))];
        if !f {
            let (t, m) = ((n.base >> 28) as u8, (n.mask >> 28) as u8);
            let class = [
                (0b1000, 0b0000, "Class A"), (0b1100, 0b1000, "Class B"), (0b1110, 0b1100, "Class C"),
                (0b1111, 0b1110, "Class D (multicast)"), (0b1111, 0b1111, "Class E (reserved)"),
            ];
            for (cm, ct, text) in class {
                if t & cm == ct && m & cm == cm {
                    l.extend(text.split(' ').map(lit));
                }
            }
        }
        r.push(l);
    } else {
        r.push(vec![lit("no"), lit("hosts/net")]);
    }
    r
}

/// The smallest number of host bits that house so many hosts.
pub fn needed_host_bits(count: &str, v6: bool) -> Option<u32> {
    let n: u128 = count.parse().ok()?;
    (1..=bits(v6)).find(|h| if *h == 128 { n <= u128::MAX - 1 } else { (1u128 << h) - 2 >= n })
}

fn matches(t: &Tok, s: &str) -> bool {
    match t {
        Tok::Lit(l) => l == s,
        Tok::Addr(f, a) => read_addr(s) == Some((*f, *a)),
        Tok::Net(f, a, p) => s.split_once('/').is_some_and(|(x, y)| read_addr(x) == Some((*f, *a)) && y == p.to_string()),
    }
}
pub fn show_line(l: &Line) -> String {
    l.iter()
        .map(|t| match t {
            Tok::Lit(s) => s.clone(),
            Tok::Addr(f, a) => addr_text(*f, *a),
            Tok::Net(f, a, p) => format!("{}/{}", addr_text(*f, *a), p),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn text_of(out: &[u8]) -> Result<&str, Violation> {
    match std::str::from_utf8(out) {
        Ok(t) => Ok(t),
        Err(_) => fail("output.encoding", "standard output is not text"),
    }
}

/// Lines with something on them.
fn rows(t: &str) -> Vec<&str> {
    t.lines().filter(|l| !l.trim().is_empty()).collect()
}

/// Whether the columns of a row begin where they are documented to: the address or number after 11
/// characters, the binary digits or the class after 21 (IPv6: 46) more.
fn aligned(w: &Line, got: &str) -> bool {
    let v6 = match w.get(1) {
        Some(Tok::Addr(f, _)) | Some(Tok::Net(f, ..)) => *f,
        Some(Tok::Lit(_)) if matches!(&w[0], Tok::Lit(l) if l == "Hosts/Net:") => false,
        _ => return true,
    };
    let third = match &w[w.len() - 1] {
        _ if w.len() == 2 => None,
        Tok::Lit(l) if l.len() >= 32 => got.rfind(char::is_whitespace).map(|i| i + 1),
        _ => got.find("Class"),
    };
    let second = got.find(char::is_whitespace).and_then(|i| got[i..].find(|c: char| !c.is_whitespace()).map(|j| i + j));
    second == Some(11) && third.is_none_or(|c| c == if v6 { 57 } else { 32 })
}

/// Compares a laid-out answer, line by line and field by field; blanks do not count.  A beginning of
/// an answer may end anywhere.
fn compare(class: &str, want: impl IntoIterator<Item = Line>, out: &[u8], complete: bool) -> Verdict {
    let t = text_of(out)?;
    let t = if complete { t } else { &t[..t.rfind('\n').map_or(0, |i| i + 1)] };
    let mut want = want.into_iter();
    let mut got = rows(t).into_iter().enumerate();
    loop {
        match (got.next(), want.next()) {
            (Some((i, g)), Some(w)) => {
                let f: Vec<&str> = g.split_whitespace().collect();
                if f.len() != w.len() || !w.iter().zip(&f).all(|(t, s)| matches(t, s)) {
                    return fail(class, format!("line {} is {:?}, expected {:?}", i + 1, g, show_line(&w)));
                }
                if !aligned(&w, g) {
                    return fail("layout", format!("the columns of line {} are not where they belong: {:?}", i + 1, g));
                }
            }
            (None, Some(w)) if complete => return fail(class, format!("the answer ends before {:?}", show_line(&w))),
            (Some((_, g)), None) => return fail(class, format!("unexpected line {:?}", g)),
            (None, _) => break,
        }
    }
    if !t.is_empty() && !t.ends_with('\n') {
        return fail(class, "the last line is not terminated");
    }
    Ok(())
}

/// Reads an answer that is a list of networks, one to a line.
pub fn net_list(class: &str, out: &[u8]) -> Result<Vec<Net>, Violation> {
    let t = text_of(out)?;
    if !t.is_empty() && !t.ends_with('\n') {
        return fail(class, "the last line is not terminated");
    }
    let mut r = Vec::new();
    for l in t.lines() {
        match read_net(l) {
            Some(n) => r.push(n),
            None => return fail(class, format!("{:?} is not a network", l)),
        }
    }
    Ok(r)
}

fn list_text(v: &[Net]) -> String {
    let mut s: Vec<String> = v.iter().take(8).map(|n| n.text()).collect();
    if v.len() > 8 {
        s.push(format!("... ({} in all)", v.len()));
    }
    s.join(" ")
}

pub fn check_minimized(input: &[Net], got: &[Net]) -> Verdict {
    let v6 = input[0].v6;
    if let Some(n) = got.iter().find(|n| n.v6 != v6) {
        return fail("minimize.family", format!("{} is of the wrong family", n.text()));
    }
    if let Some(w) = got.windows(2).find(|w| (w[0].base, w[0].mask) >= (w[1].base, w[1].mask)) {
        return fail("minimize.order", format!("{} comes before {}", w[0].text(), w[1].text()));
    }
    if input.iter().all(|n| n.prefix().is_some()) {
        let want = canonical(v6, input);
        if got != want {
            return fail("minimize.result", format!("got {}; the minimal equivalent list is {}", list_text(got), list_text(&want)));
        }
        return Ok(());
    }
    for a in 0..got.len() {
        for b in 0..got.len() {
            if a != b && got[a].contains_net(&got[b]) {
                return fail("minimize.redundant", format!("{} is inside {}, which is in the list too", got[b].text(), got[a].text()));
            }
            if a < b && got[a].mergeable(&got[b]) {
                return fail("minimize.unmerged", format!("{} and {} were not merged", got[a].text(), got[b].text()));
            }
        }
    }
    match same_union(input, got) {
        Some(Err(e)) => fail("minimize.union", e),
        _ => Ok(()),
    }
}

fn check_split(parent: &Net, counts: &[String], o: &Outcome) -> Verdict {
    let v6 = parent.v6;
    let p = parent.prefix().unwrap();
    let need: Vec<Option<u32>> = counts.iter().map(|c| needed_host_bits(c, v6)).collect();
    // slices are powers of two, so they fit exactly when their sizes add up
    let room = bits(v6) - p;
    // (counted in pairs of addresses, so that the whole IPv6 space can be expressed)
    let mut used: Option<u128> = Some(0);
    for n in &need {
        used = match (*n, used) {
            (Some(h), Some(u)) if h <= room => u.checked_add(1 << (h - 1)),
            _ => None,
        };
    }
    let fits = room > 0 && used.is_some_and(|u| u <= 1u128 << (room - 1));
    let t = text_of(&o.out)?;
    if !fits {
        if o.end.ok() {
            return fail("split.overfull", "the slices do not fit into the network, yet success was reported");
        }
        return Ok(());
    }
    if !o.end.ok() {
        return fail("split.refused", format!("the slices fit into the network, yet the run ended with {:?}", o.end));
    }
    let mut lines = rows(t).into_iter();
    let section = |title: &str, n: Option<Net>, lines: &mut dyn Iterator<Item = &str>| -> Result<Net, Violation> {
        match lines.next() {
            Some(l) if l.split_whitespace().eq(title.split_whitespace()) => {}
            other => return fail("split.layout", format!("expected {:?}, found {:?}", title, other)),
        }
        let first = lines.next().unwrap_or("");
        let f: Vec<&str> = first.split_whitespace().collect();
        let net = match (f.first(), f.get(1).and_then(|s| read_net(s))) {
            (Some(&"Network:"), Some(n)) => n,
            _ => return fail("split.layout", format!("no network in {:?}", first)),
        };
        if let Some(want) = n {
            if want != net {
                return fail("split.parent", format!("shows {} instead of {}", net.text(), want.text()));
            }
        }
        let want = block(&net, None);
        for (i, w) in want.iter().enumerate() {
            let got = if i == 0 { first } else { lines.next().unwrap_or("") };
            let f: Vec<&str> = got.split_whitespace().collect();
            if f.len() != w.len() || !w.iter().zip(&f).all(|(t, s)| matches(t, s)) {
                return fail("split.description", format!("line is {:?}, expected {:?}", got, show_line(w)));
            }
            if !aligned(w, got) {
                return fail("layout", format!("the columns are not where they belong: {:?}", got));
            }
        }
        Ok(net)
    };
    section("Subnet to split:", Some(*parent), &mut lines)?;
    let mut slices: Vec<Net> = Vec::new();
    for (c, h) in counts.iter().zip(&need) {
        let n = section(&format!("Subnet for {} hosts:", c), None, &mut lines)?;
        if n.v6 != v6 || !parent.contains_net(&n) {
            return fail("split.outside", format!("slice {} lies outside {}", n.text(), parent.text()));
        }
        if n.prefix().is_none() || n.host_bits() != h.unwrap() {
            return fail("split.size", format!("{} for {} hosts is not the smallest network that houses them", n.text(), c));
        }
        if let Some(o) = slices.iter().find(|o| !o.disjoint(&n)) {
            return fail("split.overlap", format!("slices {} and {} overlap", o.text(), n.text()));
        }
        slices.push(n);
    }
    let mut unused: Vec<Net> = Vec::new();
    let mut rest = lines.peekable();
    if rest.peek().is_some_and(|l| l.trim() == "Unused networks:") {
        rest.next();
        for l in rest {
            match read_net(l.trim()) {
                Some(n) if n.prefix().is_some() => unused.push(n),
                _ => return fail("split.layout", format!("{:?} is not an unused network", l)),
            }
        }
    } else if let Some(l) = rest.next() {
        return fail("split.layout", format!("unexpected line {:?}", l));
    }
    // the unused networks are exactly what the slices leave of the network, as few as possible
    let mut want = Vec::new();
    let mut at = Some(parent.base);
    for (a, b) in intervals(&slices) {
        if let Some(x) = at {
            if x < a {
                want.extend(cover(v6, x, a - 1));
            }
        }
        at = b.checked_add(1);
    }
    if let Some(x) = at {
        if x <= parent.last() {
            want.extend(cover(v6, x, parent.last()));
        }
    }
    if unused != want {
        return fail("split.unused", format!("unused networks given as [{}], really [{}]", list_text(&unused), list_text(&want)));
    }
    if !t.ends_with('\n') {
        return fail("split.layout", "the last line is not terminated");
    }
    Ok(())
}

pub fn resized(n: &Net, mask: u128) -> (std::cmp::Ordering, Vec<Net>) {
    let (k0, k1) = (n.mask.count_ones(), mask.count_ones());
    let num = extract(n.base, n.mask);
    let mk = |v: u128| Net { v6: n.v6, base: deposit(v, mask), mask };
    if k1 < k0 {
        let s = k0 - k1;
        (std::cmp::Ordering::Less, vec![mk(if s == 128 { 0 } else { num >> s })])
    } else if k1 == k0 {
        (std::cmp::Ordering::Equal, vec![mk(num)])
    } else {
        let d = k1 - k0;
        let first = if d == 128 { 0 } else { num << d };
        (std::cmp::Ordering::Greater, (0..1u128 << d.min(20)).map(|i| mk(first | i)).collect())
    }
}

/// Where the text of an enumeration first differs from the model; complete or just a beginning.
pub fn check_enumerated(nets: &[Net], out: &[u8], complete: bool) -> Verdict {
    let t = text_of(out)?;
    let mut lines = t.split_inclusive('\n');
    for n in nets {
        let count = if n.host_bits() >= 100 { u128::MAX } else { 1u128 << n.host_bits() };
        let mut i = 0;
        while i < count {
            let want = n.nth(i);
            match lines.next() {
                None if complete => {
                    return fail("enumerate.short", format!("the list ends before {} (address {} of {})", addr_text(n.v6, want), i, n.text()))
                }
                None => return Ok(()),
                Some(l) => match l.strip_suffix('\n') {
                    None if complete => return fail("enumerate.short", format!("the last line {:?} is not terminated", l)),
                    None => return Ok(()),
                    Some(s) if read_addr(s) == Some((n.v6, want)) => {}
                    Some(s) => {
                        return fail("enumerate.wrong", format!("address {} of {} is given as {:?}, expected {}", i, n.text(), s, addr_text(n.v6, want)))
                    }
                },
            }
            i += 1;
        }
    }
    match lines.next() {
        None => Ok(()),
        Some(l) => fail("enumerate.extra", format!("unexpected line {:?} after the last address", l)),
    }
}

/// Refused: in an orderly way, with a diagnostic and without an answer.
pub fn judge_refusal(o: &Outcome) -> Verdict {
    if !o.end.orderly() {
        return fail("crash", format!("ended with {:?}: {}", o.end, String::from_utf8_lossy(&o.err).lines().next().unwrap_or("")));
    }
    if o.end.ok() {
        return fail("accepted", "arguments that mean nothing were accepted with success");
    }
    if !o.out.is_empty() {
        return fail("refused.answered", format!("refused arguments got an answer on standard output: {:?}", String::from_utf8_lossy(&o.out).lines().next()));
    }
    if o.err.iter().all(|b| b.is_ascii_whitespace()) {
        return fail("refused.silent", "arguments were refused without a diagnostic");
    }
    Ok(())
}

fn resize_lines(n: &Net, mask: u128) -> impl Iterator<Item = Line> {
    let (dir, nets) = resized(n, mask);
    let words = |s: &str| s.split(' ').map(lit).collect::<Line>();
    let mut first = vec![words("Original network:")];
    first.extend(block(n, None));
    first.into_iter().chain(nets.into_iter().enumerate().flat_map(move |(i, r)| {
        let mut l = vec![match dir {
            std::cmp::Ordering::Less => words("Supernet:"),
            std::cmp::Ordering::Equal => words("Same-sized net:"),
            std::cmp::Ordering::Greater => words(&format!("Subnet {}:", i + 1)),
        }];
        l.extend(block(&r, None));
        l
    }))
}

/// Judges the beginning of an answer of which the rest was not read.
pub fn judge_beginning(args: &[String], o: &Outcome) -> Verdict {
    match (job(args), o.end) {
        (Job::Resize(n, m), End::Stopped) => compare("resize.result", resize_lines(&n, m), &o.out, false),
        _ => Ok(()),
    }
}

/// Judges an undisturbed, completed execution against the model.
pub fn judge(args: &[String], o: &Outcome) -> Verdict {
    let j = job(args);
    if !o.end.orderly() {
        return fail("crash", format!("ended with {:?}: {}", o.end, String::from_utf8_lossy(&o.err).lines().next().unwrap_or("")));
    }
    if matches!(j, Job::Unspecified) {
        return Ok(());
    }
    if matches!(j, Job::Refuse) {
        return judge_refusal(o);
    }
    if let Job::Split(p, counts) = &j {
        return check_split(p, counts, o);
    }
    let want_ok = !matches!(j, Job::Enumerate(_, true));
    if o.end.ok() != want_ok {
        let why = if want_ok { "valid arguments, yet the run ended with" } else { "some arguments were unreadable, yet the run ended with" };
        return fail(if want_ok { "refused" } else { "accepted" }, format!("{} {:?}: {}", why, o.end, String::from_utf8_lossy(&o.err).lines().next().unwrap_or("")));
    }
    match &j {
        Job::Help => Ok(()),
        Job::Show(nets) => {
            compare("show.fields", nets.iter().flat_map(|(a, n)| block(n, Some(*a))), &o.out, true)
        }
        Job::Minimize(nets) => check_minimized(nets, &net_list("minimize.layout", &o.out)?),
        Job::Derange(f, a, b) => {
            let got = net_list("derange.layout", &o.out)?;
            let want = cover(*f, *a, *b);
            if got != want {
                return fail("derange.result", format!("got {}; the shortest cover is {}", list_text(&got), list_text(&want)));
            }
            Ok(())
        }
        Job::Resize(n, m) => compare("resize.result", resize_lines(n, *m), &o.out, true),
        Job::Enumerate(nets, bad) => {
            let skipped = args[1..].iter().filter(|s| matches!(read_spec(s), Arg::Bad)).count();
            if *bad && rows(&String::from_utf8_lossy(&o.err)).len() < skipped {
                return fail("refused.silent", "an unreadable network was skipped without a diagnostic");
            }
            check_enumerated(nets, &o.out, true)
        }
        _ => unreachable!(),
    }
}

/// Removes the sequences that only select colours and weights.  Err: some other control sequence.
pub fn strip_colour(out: &[u8]) -> Result<Vec<u8>, usize> {
    let mut r = Vec::with_capacity(out.len());
    let mut i = 0;
    while i < out.len() {
        if out[i] != 0x1b {
            r.push(out[i]);
            i += 1;
            continue;
        }
        let mut j = i + 1;
        if out.get(j) != Some(&b'[') {
            return Err(i);
        }
        j += 1;
        while out.get(j).is_some_and(|b| b.is_ascii_digit() || *b == b';') {
            j += 1;
        }
        if out.get(j) != Some(&b'm') {
            return Err(i);
        }
        i = j + 1;
    }
    Ok(r)
}

/// Whether text after some line would still be coloured by it.
pub fn colour_left_on(out: &[u8]) -> bool {
    let t = String::from_utf8_lossy(out);
    t.split('\n').any(|line| {
        let Some(p) = line.rfind("\x1b[") else { return false };
        let code: String = line[p + 2..].chars().take_while(|c| *c != 'm').collect();
        !(code.is_empty() || code == "0")
    })
}

/// A character of a coloured text, and the colours and weights it is shown in.
type Styled = (char, String);

/// The lines of a coloured text, each character with its style.
pub fn styled_lines(out: &[u8]) -> Vec<Vec<Styled>> {
    let t = String::from_utf8_lossy(out);
    let mut on: std::collections::BTreeSet<String> = Default::default();
    let mut lines = vec![Vec::new()];
    let mut c = t.chars();
    while let Some(x) = c.next() {
        match x {
            '\x1b' => {
                let code: String = c.by_ref().take_while(|x| *x != 'm').collect();
                for k in code.trim_start_matches('[').split(';') {
                    if k.trim_start_matches('0').is_empty() {
                        on.clear();
                    } else {
                        on.insert(k.to_string());
                    }
                }
            }
            '\n' => lines.push(Vec::new()),
            x => {
                let s = on.iter().cloned().collect::<Vec<_>>().join(";");
                lines.last_mut().unwrap().push((x, s));
            }
        }
    }
    lines
}

/// In a coloured answer, the binary digits of an address tell network and host bits apart, and in
/// an IPv4 network the bits that make up its class.
pub fn check_styles(args: &[String], out: &[u8]) -> Verdict {
    // the networks described, in order, and the line with which each description begins
    let (nets, start): (Vec<Net>, &str) = match job(args) {
        Job::Show(v) => (v.iter().map(|(_, n)| *n).collect(), "Address:"),
        Job::Resize(n, m) => (std::iter::once(n).chain(resized(&n, m).1).collect(), "Network:"),
        Job::Split(..) => {
            let plain = strip_colour(out).unwrap_or_default();
            let text = String::from_utf8_lossy(&plain).into_owned();
            (text.lines().filter_map(|l| l.strip_prefix("Network:")).filter_map(|l| read_net(l.split_whitespace().next()?)).collect(), "Network:")
        }
        _ => return Ok(()),
    };
    let (mut net_style, mut host_style, mut class_style): (Option<String>, Option<String>, Option<String>) = (None, None, None);
    let mut lines = styled_lines(out);
    // what is not a whole line is not judged
    lines.pop();
    let mut blocks = nets.iter();
    let mut current: Option<&Net> = None;
    for l in &lines {
        let text: String = l.iter().map(|(c, _)| *c).collect();
        let label = text.split_whitespace().next().unwrap_or("");
        // a block begins with the address, if it has one, and else with the network
        if label == start {
            current = blocks.next();
        }
        let Some(n) = current else { continue };
        if !["Address:", "Network:", "Netmask:"].contains(&label) {
            continue;
        }
        let w = bits(n.v6) as usize;
        let separators = if n.v6 { 7 } else { 3 };
        if l.len() < w + separators {
            continue;
        }
        // the binary digits come last
        let trimmed = text.trim_end().chars().count();
        let bin: Vec<&Styled> = l[trimmed.saturating_sub(w + separators)..trimmed].iter().filter(|(c, _)| *c == '0' || *c == '1').collect();
        if bin.len() != w {
            continue;
        }
        if label == "Netmask:" {
            if let Some(i) = (1..w).find(|i| bin[*i].1 != bin[0].1) {
                return fail("style.netmask", format!("in {:?}, digit {} is coloured differently from the others", text, i + 1));
            }
            continue;
        }
        // leading bits that determine the class, if the mask covers them
        let mut class = 0;
        if label == "Network:" && !n.v6 {
            let ones = bin.iter().take(3).take_while(|(c, _)| *c == '1').count();
            class = ones + 1;
            if (0..class).any(|i| n.mask >> (w - 1 - i) & 1 == 0) {
                class = 0;
            }
        }
        for (i, (c, s)) in bin.iter().enumerate() {
            let (want, what) = if i < class {
                (&mut class_style, "class")
            } else if n.mask >> (w - 1 - i) & 1 == 1 {
                (&mut net_style, "network")
            } else {
                (&mut host_style, "host")
            };
            match want {
                None => *want = Some(s.clone()),
                Some(k) if k == s => {}
                Some(k) => {
                    return fail("style.bit", format!("in {:?}, digit {} ({}) is a {} bit shown in style {:?}, others are shown in {:?}", text, i + 1, c, what, s, k))
                }
            }
        }
        for (a, b, what) in [(&net_style, &host_style, "network and host bits"), (&net_style, &class_style, "network and class bits"), (&host_style, &class_style, "host and class bits")] {
            if a.is_some() && a == b {
                return fail("style.same", format!("{} look the same in {:?}", what, text));
            }
        }
    }
    Ok(())
}
