//! The properties: for each one, how cases (commands, worlds, schedules) are drawn, and what has to
//! be true of the executions.

use crate::gen::{self, Args};
use crate::net::*;
use crate::oracle::{self, fail, judge, Job, Verdict, Violation};
use crate::rng::Rng;
use crate::world::*;

/// One simulated experiment.  Everything that happens in it follows from these values and the code.
#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub scen: String,
    pub cmds: Vec<Args>,
    pub worlds: Vec<World>,
    pub sched: Vec<u64>,
}

pub const PROPS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C20", "C21", "C22", "C23",
];

fn case(prop: &str, scen: &str, cmds: Vec<Args>, worlds: Vec<World>) -> Case {
    Case { prop: prop.into(), scen: scen.into(), cmds, worlds, sched: Vec::new() }
}

fn same_output(class: &str, what: &str, a: &Outcome, b: &Outcome) -> Verdict {
    if a.out != b.out {
        let i = a.out.iter().zip(&b.out).position(|(x, y)| x != y).unwrap_or(a.out.len().min(b.out.len()));
        let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20)..(i + 30).min(v.len())]).into_owned();
        return fail(class, format!("{}: answers of {} and {} bytes differ from byte {}: ...{:?} against ...{:?}", what, a.out.len(), b.out.len(), i, cut(&a.out), cut(&b.out)));
    }
    Ok(())
}

fn first_line(b: &[u8]) -> String {
    String::from_utf8_lossy(b).lines().next().unwrap_or("").to_string()
}

fn prefix_of(class: &str, what: &str, part: &[u8], whole: &[u8]) -> Verdict {
    if whole.starts_with(part) {
        return Ok(());
    }
    let i = part.iter().zip(whole).position(|(x, y)| x != y).unwrap_or(whole.len().min(part.len()));
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 30).min(v.len())]).into_owned();
    fail(class, format!("{}: the {} bytes that came out are not a beginning of the {}-byte answer; from byte {}: ...{:?} instead of ...{:?}", what, part.len(), whole.len(), i, cut(part), cut(whole)))
}

// ---- drawing cases ----

fn base_world(r: &mut Rng) -> World {
    let mut w = World::plain(gen::profile(r));
    gen::incidental(r, &mut w);
    w
}

/// A world in which colours may be asked for: longer lines, in more pieces.
fn any_world(r: &mut Rng) -> World {
    let mut w = base_world(r);
    if r.pct(25) {
        gen::colourful(r, &mut w);
    }
    w
}

/// A command with an answer worth disturbing: valid mostly, of any mode.
fn some_command(r: &mut Rng) -> Args {
    loop {
        let a = if r.pct(2) { vec!["--color-test".to_string()] } else if r.pct(10) { gen::invalid(r) } else if r.pct(12) { gen::enumerate(r, 9) } else if r.pct(2) { gen::enumerate(r, 12) } else { gen::command(r) };
        if oracle::weight(&a) < 20_000 {
            return a;
        }
    }
}

/// A disturbed version of a world, of the kind that may prevent delivery or not.
fn disturb(r: &mut Rng, w: &World, calm: &Outcome) -> World {
    let mut d = w.clone();
    match r.below(10) {
        0..=3 => gen::benign(r, &mut d, calm.out.len() as u64),
        4..=6 => gen::out_failure(r, &mut d, &calm.out),
        7 | 8 => gen::crash(r, &mut d, &calm.out, calm.allocs, calm.peak),
        _ => {
            gen::benign(r, &mut d, calm.out.len() as u64);
            gen::out_failure(r, &mut d, &calm.out);
        }
    }
    d
}

/// Disturbing an answer of megabytes takes long and shows nothing a shorter one does not.
fn too_long(o: &Outcome) -> bool {
    o.out.len() > 2_000_000
}

fn note_args(sim: &mut Sim, a: &Args) {
    let j = oracle::job(a);
    let edge = |n: &Net| n.last() == full(n.v6);
    match &j {
        Job::Refuse => sim.probe("refused arguments"),
        Job::Unspecified => sim.probe("undocumented arguments"),
        Job::Show(v) => {
            sim.probe("show");
            if v.iter().any(|(_, n)| n.prefix().is_none()) { sim.probe("show: lopsided") }
            if v.iter().any(|(_, n)| n.host_bits() < 2) { sim.probe("show: no hosts") }
        }
        Job::Minimize(v) => {
            sim.probe("minimize");
            if v.iter().any(|n| n.prefix().is_none()) { sim.probe("minimize: lopsided") }
            if v.iter().any(edge) { sim.probe("minimize: at the end of the address space") }
            if v.len() > 30 { sim.probe("minimize: more than 30 networks") }
        }
        Job::Derange(f, a, b) => {
            sim.probe("derange");
            if *b == full(*f) { sim.probe("derange: to the last address") }
            if *a == 0 && *b == full(*f) { sim.probe("derange: everything") }
            if *f && (*a as u64) > (*b as u64) { sim.probe("derange: carry between the halves") }
        }
        Job::Split(n, _) => {
            sim.probe("split");
            if edge(n) { sim.probe("split: at the end of the address space") }
        }
        Job::Resize(n, m) => {
            let p = match m.count_ones().cmp(&n.mask.count_ones()) {
                std::cmp::Ordering::Less => "resize: supernet",
                std::cmp::Ordering::Equal => "resize: same size",
                std::cmp::Ordering::Greater => "resize: subnets",
            };
            sim.probe(p);
            if n.prefix().is_none() || mask_prefix(n.v6, *m).is_none() { sim.probe("resize: lopsided") }
        }
        Job::Enumerate(v, bad) => {
            sim.probe("enumerate");
            if *bad { sim.probe("enumerate: some arguments unreadable") }
            if v.iter().any(edge) { sim.probe("enumerate: to the last address") }
            if v.iter().any(|n| n.prefix().is_none()) { sim.probe("enumerate: lopsided") }
        }
        Job::Help => {}
    }
}

/// The same question in other notations: hex and zero compression, prefix, mask and wildcard, host
/// bits left as they are.
fn rephrase(r: &mut Rng, a: &Args) -> Args {
    a.iter()
        .enumerate()
        .map(|(i, s)| {
            if let Arg::Ok((addr, n)) = read_spec(s) {
                return gen::spec_arg(r, n.v6, addr, n.mask);
            }
            if i == 2 && (a[0] == "-r" || a[0] == "--resize") {
                if let Arg::Ok((_, n)) = read_spec(&a[1]) {
                    if let Arg::Ok(m) = read_subnet(s, n.v6) {
                        return gen::subnet_arg(r, n.v6, m);
                    }
                }
            }
            if let Arg::Ok((f, v)) = read_arg_addr(s) {
                return gen::addr_arg(r, f, v);
            }
            if i == 0 {
                for (x, y) in [("-m", "--minimize"), ("-d", "--derange"), ("-s", "--split"), ("-r", "--resize"), ("-e", "--enumerate")] {
                    if s == x || s == y {
                        return (if r.pct(50) { x } else { y }).to_string();
                    }
                }
            }
            s.clone()
        })
        .collect()
}

pub fn generate(prop: &str, sim: &mut Sim, r: &mut Rng) -> Option<Case> {
    let c = match prop {
        "C01" => {
            let a = some_command(r);
            let w = any_world(r);
            let o = sim.run(&w, &a);
            if o.out.is_empty() || too_long(&o) {
                return None;
            }
            let worlds = (0..5)
                .map(|_| {
                    let mut d = w.clone();
                    if r.pct(15) {
                        gen::memory(r, &mut d, o.allocs, o.peak);
                    } else {
                        gen::out_failure(r, &mut d, &o.out);
                    }
                    if r.pct(10) {
                        gen::err_failure(r, &mut d);
                    }
                    d
                })
                .collect();
            case(prop, "out-failure", vec![a], worlds)
        }
        "C02" => {
            let a = some_command(r);
            let mut w = any_world(r);
            w.merged = r.pct(10);
            let o = sim.run(&w, &a);
            if o.out.is_empty() || too_long(&o) {
                return None;
            }
            let worlds = (0..5)
                .map(|_| {
                    let mut d = w.clone();
                    match r.below(4) {
                        0 => gen::out_failure(r, &mut d, &o.out),
                        1 => {
                            gen::crash(r, &mut d, &o.out, o.allocs, o.peak);
                            gen::out_failure(r, &mut d, &o.out);
                        }
                        _ => gen::crash(r, &mut d, &o.out, o.allocs, o.peak),
                    }
                    // only standard output belongs to this property
                    d.script.retain(|s| s.fd == 1);
                    d
                })
                .collect();
            if w.merged {
                // diagnostics about the failure may then follow in the same place
                return Some(case(prop, "merged", vec![a], worlds));
            }
            case(prop, "crash", vec![a], worlds)
        }
        "C03" => {
            let a = some_command(r);
            let mut w = any_world(r);
            w.merged = r.pct(25);
            let o = sim.run(&w, &a);
            if too_long(&o) {
                return None;
            }
            let worlds = (0..3)
                .map(|_| {
                    let mut d = w.clone();
                    for _ in 0..4 {
                        gen::benign(r, &mut d, o.out.len() as u64);
                        if d != w {
                            break;
                        }
                    }
                    d
                })
                .collect();
            case(prop, "benign", vec![a], worlds)
        }
        "C04" => {
            let a = match r.below(5) {
                0 | 1 => gen::minimize(r),
                2 => gen::split(r),
                _ => some_command(r),
            };
            let mut cmds = vec![a.clone()];
            for _ in 0..2 {
                cmds.push(rephrase(r, &a));
            }
            let worlds = (0..4).map(|_| base_world(r)).collect();
            case(prop, "incidental", cmds, worlds)
        }
        "C05" => {
            let a = match r.below(6) {
                0..=2 => gen::show(r),
                3 => gen::split(r),
                4 => gen::resize(r),
                _ => some_command(r),
            };
            let h = r.next();
            let prof = gen::profile(r);
            let mut most = World::plain(prof);
            most.env.push("CLICOLOR_FORCE=1".into());
            let o = sim.run(&most, &a);
            if too_long(&o) {
                return None;
            }
            let worlds = (0..4)
                .map(|_| {
                    let mut w = World::plain(prof);
                    w.hash_seed = h;
                    w.env.clear();
                    w.tty[1] = r.pct(55);
                    w.tty[0] = r.pct(50);
                    w.tty[2] = r.pct(50);
                    if r.pct(85) {
                        w.env.push(format!("TERM={}", r.pick(&["xterm-256color", "xterm", "dumb", "linux", "vt100", "", "screen", "xterm-color"])));
                    }
                    if r.pct(25) {
                        w.env.push(format!("NO_COLOR={}", r.pick(&["1", "", "0", "yes"])));
                    }
                    if r.pct(25) {
                        w.env.push(format!("CLICOLOR={}", r.pick(&["1", "0", ""])));
                    }
                    if r.pct(25) {
                        w.env.push(format!("CLICOLOR_FORCE={}", r.pick(&["1", "0", "yes"])));
                    }
                    if r.pct(20) {
                        w.env.push("COLORTERM=truecolor".into());
                    }
                    if r.pct(40) {
                        w.env_ask = r.next() & !1;
                    }
                    let mut b = w.clone();
                    if r.pct(40) {
                        gen::benign(r, &mut b, o.out.len() as u64);
                        w = b;
                    }
                    w
                })
                .collect();
            case(prop, "terminals", vec![a], worlds)
        }
        "C06" if r.below(2500) == 0 => {
            // all the way through tens of millions of addresses
            let f = gen::v6(r);
            let h = r.range(24, 26) as u32;
            let m = if r.pct(60) { prefix_mask(f, bits(f) - h) } else { gen::mask_with(r, f, h) };
            let a = match r.below(5) {
                0 => full(f),
                1 | 2 if f => r.u128() << 112,
                _ => gen::addr(r, f),
            };
            let mut w = base_world(r);
            (w.profile, w.deep) = (Profile::Release, true);
            w.stop_at = r.range(250_000_000, 330_000_000);
            case(prop, "deep", vec![vec!["-e".into(), gen::net_arg(r, &Net::new(f, a, m))]], vec![w])
        }
        "C06" => {
            let f = gen::v6(r);
            let h = r.range(13, (bits(f) - 1).into()) as u32;
            let m = gen::mask_with(r, f, h);
            let n = Net::new(f, gen::addr(r, f), m);
            let mut a = vec!["-e".to_string()];
            if r.pct(25) {
                let hs = r.below(4) as u32;
                let m = gen::mask_with(r, f, hs);
                let x = gen::addr(r, f);
                a.push(gen::net_arg(r, &Net::new(f, x, m)));
            }
            a.push(gen::net_arg(r, &n));
            if r.pct(25) {
                let m = gen::mask_with(r, f, 20);
                let x = gen::addr(r, f);
                a.push(gen::net_arg(r, &Net::new(f, x, m)));
            }
            let mut w = base_world(r);
            w.profile = if r.pct(25) { Profile::Checked } else { Profile::Release };
            w.stop_at = 4_000 + r.below(4_000);
            let mut long = w.clone();
            long.stop_at = if r.pct(15) { 2_000_000 + r.below(1_000_000) } else { 150_000 + r.below(150_000) };
            let mut gone = w.clone();
            gone.stop_at = NEVER;
            gone.cap[0] = if r.pct(30) { r.below(200) } else { r.below(60_000) };
            gone.cap_errno[0] = (*r.pick(&[EPIPE, EPIPE, ENOSPC, EIO, EDQUOT])).into();
            if r.pct(30) {
                gone.max_chunk[0] = r.range(5, 200);
            }
            case(prop, "stream", vec![a], vec![w, long, gone])
        }
        "C11" if r.below(1500) == 0 => {
            let a = gen::resize_far(r);
            let mut w = base_world(r);
            w.stop_at = r.range(7_000_000, 9_000_000);
            case(prop, "refine", vec![a], vec![w])
        }
        "C07" | "C08" | "C09" | "C10" | "C11" | "C12" => {
            let a = match prop {
                "C07" => {
                    let big = if r.pct(1) { 17 } else if r.pct(6) { 13 } else { 9 };
                    gen::enumerate(r, big)
                }
                "C08" => gen::minimize(r),
                "C09" => gen::derange(r),
                "C10" => gen::split(r),
                "C11" => gen::resize(r),
                _ => gen::show(r),
            };
            let w = base_world(r);
            let mut cmds = vec![a.clone()];
            let o = sim.run(&w, &a);
            let mut worlds = vec![w.clone()];
            let k = if r.pct(50) { 1 } else { 2 };
            for _ in 0..k {
                worlds.push(disturb(r, &w, &o));
            }
            match prop {
                "C08" => {
                    // the order and the repetition of arguments are irrelevant
                    let mut b: Args = a[1..].to_vec();
                    if r.pct(50) {
                        b.push(r.pick(&b).clone());
                    }
                    r.shuffle(&mut b);
                    b.insert(0, a[0].clone());
                    cmds.push(b);
                }
                "C09" => cmds.push(vec![a[0].clone(), a[2].clone(), a[1].clone()]),
                _ => {}
            }
            case(prop, "refine", cmds, worlds)
        }
        "C13" => {
            let a = if r.below(4_000) == 0 { gen::crowd(r, true) } else { gen::invalid(r) };
            let mut w = base_world(r);
            w.stop_at = 2_000_000;
            let mut d = w.clone();
            match r.below(4) {
                0 => gen::err_failure(r, &mut d),
                1 => {
                    gen::err_failure(r, &mut d);
                    gen::benign(r, &mut d, 200);
                }
                _ => gen::benign(r, &mut d, 200),
            }
            case(prop, "invalid", vec![a], vec![w, d])
        }
        "C14" => {
            let a = if r.below(4_000) == 0 {
                let b = r.pct(50);
                gen::crowd(r, b)
            } else {
                gen::anything(r)
            };
            if a.len() < 2_000 && oracle::weight(&a) > 5_000 && a.first().is_some_and(|s| s == "-r" || s == "--resize" || s == "-s" || s == "--split") {
                return None;
            }
            let mut w = base_world(r);
            w.profile = Profile::Checked;
            w.stop_at = 300_000;
            let mut d = base_world(r);
            d.profile = Profile::Release;
            d.stop_at = w.stop_at;
            gen::benign(r, &mut d, 2000);
            case(prop, "anything", vec![a], vec![w, d])
        }
        "C15" => chain_case(sim, r),
        "C16" => {
            let n = r.range(2, 4) as usize;
            let mut cmds = Vec::new();
            let mut worlds = Vec::new();
            while cmds.len() < n {
                // now and then an answer that is longer than any buffer
                let long = r.pct(4);
                let a = if long {
                    let h = r.range(9, 11) as u32;
                    let f = gen::v6(r);
                    let m = gen::mask_with(r, f, h);
                    let n = Net::new(f, gen::addr(r, f), m);
                    vec!["-e".to_string(), gen::net_arg(r, &n)]
                } else if r.pct(10) {
                    gen::invalid(r)
                } else {
                    gen::command(r)
                };
                let mut w = base_world(r);
                w.tty = [false; 3];
                w.env.retain(|e| !e.starts_with("CLICOLOR"));
                if r.pct(25) {
                    // longer lines, in more pieces
                    w.env.push("CLICOLOR_FORCE=1".into());
                }
                let o = sim.run(&w, &a);
                if !o.out.is_empty() && o.out.len() <= if long { crate::concurrent::MAX_ANSWER } else { 12_288 } {
                    cmds.push(a);
                    worlds.push(w);
                }
            }
            let mut c = case(prop, *r.pick(&["pipe", "file", "pipe-kill", "file-full"]), cmds, worlds);
            let k = r.range(50, 400);
            c.sched = (0..k).map(|_| r.next() >> 16).collect();
            c
        }
        "C20" => {
            let a = match r.below(8) {
                0 => gen::split(r),
                1 | 2 => gen::resize(r),
                3 | 4 => gen::classful(r),
                _ => gen::show(r),
            };
            if oracle::weight(&a) > 300 {
                return None;
            }
            let mut w = base_world(r);
            gen::colourful(r, &mut w);
            let o = sim.run(&w, &a);
            let mut worlds = vec![w.clone()];
            if r.pct(60) {
                worlds.push(disturb(r, &w, &o));
            }
            case(prop, "colours", vec![a], worlds)
        }
        "C21" => {
            let a = if r.pct(25) { gen::anything(r) } else { some_command(r) };
            if oracle::weight(&a) > 20_000 {
                return None;
            }
            let mut w = any_world(r);
            w.merged = r.pct(10);
            w.env_ask = if r.pct(70) { r.next() | 1 } else { 0 };
            let o = sim.run(&w, &a);
            if too_long(&o) {
                return None;
            }
            let mut d = disturb(r, &w, &o);
            if r.pct(20) {
                gen::err_failure(r, &mut d);
            }
            case(prop, "effects", vec![a], vec![w, d])
        }
        "C22" => {
            let endless = r.pct(12);
            let a = if endless {
                let f = gen::v6(r);
                let h = r.range(20, (bits(f) - 1).into()) as u32;
                let m = gen::mask_with(r, f, h);
                let n = Net::new(f, gen::addr(r, f), m);
                vec!["-e".to_string(), gen::net_arg(r, &n)]
            } else {
                some_command(r)
            };
            let w = any_world(r);
            let mut b = w.clone();
            if endless {
                b.stop_at = 20_000;
            }
            let o = sim.run(&b, &a);
            if too_long(&o) {
                return None;
            }
            let worlds = (0..3)
                .map(|_| {
                    let mut d = w.clone();
                    if r.pct(30) {
                        gen::benign(r, &mut d, o.out.len() as u64);
                    }
                    gen::signal(r, &mut d, o.calls, if endless { 0 } else { o.allocs });
                    d
                })
                .collect();
            case(prop, "signal", vec![a], worlds)
        }
        "C23" => {
            let a = match r.below(8) {
                0 | 1 => gen::show(r),
                2 => gen::split(r),
                3 => gen::resize(r),
                4 => gen::invalid(r),
                _ => some_command(r),
            };
            if oracle::weight(&a) > 20_000 {
                return None;
            }
            let mut worlds = Vec::new();
            for p in [Profile::Bare, Profile::ConsoleOnly, Profile::BigintOnly] {
                let mut w = any_world(r);
                w.profile = p;
                let o = sim.run(&w, &a);
                if too_long(&o) {
                    return None;
                }
                worlds.push(if r.pct(60) { disturb(r, &w, &o) } else { w });
            }
            case(prop, "features", vec![a], worlds)
        }
        _ => harness_error("unknown property"),
    };
    Some(c)
}

fn chain_case(sim: &mut Sim, r: &mut Rng) -> Case {
    let scen = *r.pick(&[
        "minimize-again", "derange-minimize", "split-minimize", "enumerate-minimize", "resize-minimize", "show-again",
        "resume-enumerate", "retry-minimize", "split-further", "resize-further", "show-derange", "enumerate-derange",
        "pieces-enumerate", "split-enumerate", "minimize-resize",
    ]);
    let cidr = |r: &mut Rng, max: u32| -> Net {
        let f = gen::v6(r);
        let h = r.range(0, max.min(bits(f)).into()) as u32;
        let a = if r.pct(20) { full(f) } else { gen::addr(r, f) };
        Net::cidr(f, a, bits(f) - h)
    };
    let a: Args = match scen {
        "derange-minimize" => gen::derange(r),
        "split-minimize" | "split-further" => gen::split(r),
        "enumerate-minimize" => {
            let f = gen::v6(r);
            let h = r.range(0, 6) as u32;
            let n = Net::new(f, gen::addr(r, f), gen::mask_with(r, f, h));
            vec!["-e".into(), gen::net_arg(r, &n)]
        }
        "resize-minimize" | "resize-further" => {
            let n = cidr(r, 128);
            let p = n.prefix().unwrap();
            let t = (p + r.range(0, 6) as u32).min(bits(n.v6));
            vec!["-r".into(), gen::net_arg(r, &n), t.to_string()]
        }
        "show-again" => gen::show(r),
        "show-derange" => {
            let n = cidr(r, 128);
            vec![gen::net_arg(r, &n)]
        }
        "pieces-enumerate" => {
            // a short range
            let f = gen::v6(r);
            let a = gen::addr(r, f);
            let b = a.saturating_add(u128::from(r.below(300))).min(full(f));
            let (x, y) = if r.pct(50) { (a, b) } else { (b, a) };
            vec!["-d".into(), gen::addr_arg(r, f, x), gen::addr_arg(r, f, y)]
        }
        "split-enumerate" => {
            let n = cidr(r, 9);
            let mut v = vec!["--split".into(), gen::net_arg(r, &n)];
            for _ in 0..r.range(1, 5) {
                v.push(r.below((1u64 << n.host_bits()) / 2 + 1).to_string());
            }
            v
        }
        "enumerate-derange" | "resume-enumerate" => {
            let n = cidr(r, 8);
            vec!["-e".into(), gen::net_arg(r, &n)]
        }
        _ => gen::minimize(r),
    };
    let w = base_world(r);
    let mut worlds = vec![w.clone()];
    for i in 0..3 {
        let mut d = base_world(r);
        if i > 0 || r.pct(60) {
            gen::benign(r, &mut d, 300);
        }
        worlds.push(d);
    }
    if scen.starts_with("re") && (scen == "resume-enumerate" || scen == "retry-minimize") {
        let o = sim.run(&w, &a);
        let mut d = w;
        if r.pct(50) {
            gen::crash(r, &mut d, &o.out, o.allocs, o.peak);
        } else {
            gen::out_failure(r, &mut d, &o.out);
        }
        worlds[0] = d;
    }
    case("C15", scen, vec![a], worlds)
}

// ---- checking cases ----

/// Decides a case.  Answers unlike anything ripcalc gives can stop the judge; that is a verdict too.
pub fn check(sim: &mut Sim, c: &Case) -> Verdict {
    let verdict = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide(sim, c)));
    verdict.unwrap_or_else(|e| {
        let why = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        fail("judge.confused", format!("the answers could not be made sense of ({})", why))
    })
}

fn decide(sim: &mut Sim, c: &Case) -> Verdict {
    if c.cmds.is_empty() || c.worlds.is_empty() {
        return Ok(());
    }
    // what would be watched for ever is left to the properties that watch only a part
    if !["C06", "C13", "C14", "C22"].contains(&c.prop.as_str()) && c.cmds.iter().any(|a| oracle::weight(a) > 300_000) {
        return Ok(());
    }
    for a in &c.cmds {
        note_args(sim, a);
    }
    match c.prop.as_str() {
        "C01" => check_success(sim, c),
        "C02" => check_prefix(sim, c),
        "C03" => check_benign(sim, c),
        "C04" => check_same_answer(sim, c),
        "C05" => check_colour(sim, c),
        "C06" => check_stream(sim, c),
        "C07" | "C08" | "C09" | "C10" | "C11" | "C12" => check_refine(sim, c),
        "C13" => check_refuse(sim, c),
        "C14" => check_orderly(sim, c),
        "C15" => check_chain(sim, c),
        "C16" => crate::concurrent::check(sim, c),
        "C20" => check_styles(sim, c),
        "C21" => check_effects(sim, c),
        "C22" => check_signal(sim, c),
        "C23" => check_features(sim, c),
        _ => harness_error("unknown property"),
    }
}

fn check_success(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let base = sim.run(&w.calm(), &c.cmds[0]);
        let o = sim.run(w, &c.cmds[0]);
        if let End::Hang(what) = o.end {
            // (std itself may lock up when it has to report that there is no memory left)
            let starved = w.alloc_fail_at != 0 || w.mem_limit != 0;
            if !matches!(base.end, End::Hang(_)) && !starved {
                return fail("success.hang", format!("standard output failed and the run never ended ({})", what));
            }
        }
        if o.out_failed > 0 {
            sim.probe("standard output failed");
        }
        if !o.end.ok() {
            continue;
        }
        if !base.end.ok() {
            return fail("success.only_disturbed", format!("undisturbed the run ends with {:?}; with a failing standard output it reports success", base.end));
        }
        if o.out != base.out {
            return fail(
                "success.incomplete",
                format!("success was reported, but standard output took only {} of the answer's {} bytes", o.out.len(), base.out.len()),
            );
        }
        if o.out_failed > 0 {
            sim.probe("recovered from a failed write");
        }
    }
    Ok(())
}

fn check_prefix(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let base = sim.run(&w.calm(), &c.cmds[0]);
        let o = sim.run(w, &c.cmds[0]);
        if matches!(o.end, End::Signal(6)) {
            sim.probe("aborted for lack of memory");
        }
        if !o.out.is_empty() && o.out.len() < base.out.len() {
            sim.probe("part of an answer came out");
        }
        if w.merged {
            // the diagnostics of the failure share the sink: what came before them is a beginning
            let same = o.out.iter().zip(&base.out).take_while(|(a, b)| a == b).count();
            let rest = &o.out[same..];
            if !rest.is_empty() && o.end.ok() {
                return fail("prefix.merged", "success, but what came out differs from the undisturbed answer");
            }
            continue;
        }
        prefix_of("prefix", &format!("{:?}", o.end), &o.out, &base.out)?;
        if o.end.ok() && o.out.len() != base.out.len() {
            return fail("prefix.success", format!("success was reported after {} of {} bytes", o.out.len(), base.out.len()));
        }
    }
    Ok(())
}

fn check_benign(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let base = sim.run(&w.calm(), &c.cmds[0]);
        let o = sim.run(w, &c.cmds[0]);
        if base.end != o.end {
            return fail("benign.status", format!("undisturbed the run ends with {:?}, with interrupted and short writes with {:?}: {}", base.end, o.end, first_line(&o.err)));
        }
        same_output("benign.output", "interrupted, short or slow writes changed the output", &o, &base)?;
        if base.err != o.err {
            return fail("benign.diagnostics", format!("diagnostics are {:?} instead of {:?}", first_line(&o.err), first_line(&base.err)));
        }
    }
    Ok(())
}

/// What a command asks for, as a text that is the same for every way of asking.
fn question(a: &Args) -> String {
    match oracle::job(a) {
        Job::Minimize(mut v) => {
            v.sort();
            v.dedup();
            format!("minimize {:?}", v)
        }
        Job::Unspecified => format!("{:?}", a),
        j => format!("{:?}", j),
    }
}

fn check_same_answer(sim: &mut Sim, c: &Case) -> Verdict {
    let mut first: Option<Outcome> = None;
    for (i, a) in c.cmds.iter().enumerate() {
        if question(a) != question(&c.cmds[0]) {
            continue;
        }
        for w in &c.worlds {
            // which kind of build runs is one of the differences; a crash in either is another matter
            let o = sim.run(w, a);
            let Some(f) = &first else {
                first = Some(o);
                continue;
            };
            let what = if i == 0 { "the same command on another machine" } else { "the same question in another notation" };
            if f.end != o.end {
                return fail("same.status", format!("{} ({:?}) ends with {:?} instead of {:?}: {}", what, a, o.end, f.end, first_line(&o.err)));
            }
            same_output("same.output", what, &o, f)?;
            if i == 0 && f.err != o.err {
                return fail("same.diagnostics", format!("{}: diagnostics are {:?} instead of {:?}", what, first_line(&o.err), first_line(&f.err)));
            }
        }
    }
    Ok(())
}

fn check_colour(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let mut plain = World::plain(w.profile);
        plain.hash_seed = w.hash_seed;
        plain.env = vec!["TERM=dumb".into()];
        let base = sim.run(&plain, &c.cmds[0]);
        let o = sim.run(w, &c.cmds[0]);
        if base.out.contains(&0x1b) {
            return fail("colour.pipe", "a control sequence was written to a pipe");
        }
        if o.end != base.end {
            return fail("colour.status", format!("ends with {:?} on this terminal and with {:?} on a pipe", o.end, base.end));
        }
        let stripped = match oracle::strip_colour(&o.out) {
            Ok(s) => s,
            Err(i) => return fail("colour.control", format!("a control sequence that is not a colour, at byte {}", i)),
        };
        let env = |k: &str| w.env.iter().rev().find_map(|e| e.strip_prefix(k).and_then(|e| e.strip_prefix('=')));
        let forced = env("CLICOLOR_FORCE").is_some_and(|v| v != "0");
        let wanted = forced || (w.tty[1] && env("NO_COLOR").is_none() && env("CLICOLOR") != Some("0") && env("TERM") != Some("dumb"));
        if stripped.len() != o.out.len() {
            sim.probe("coloured output");
            if !wanted {
                return fail("colour.unwanted", format!("colours were written although nothing asks for them (terminal: {}, environment: {:?})", w.tty[1], w.env));
            }
            if oracle::colour_left_on(&o.out) {
                return fail("colour.left_on", "a line ends with a colour still switched on");
            }
        } else {
            sim.probe("plain output");
        }
        let s = Outcome { out: stripped, ..o };
        same_output("colour.text", "apart from colours, the text differs from what a pipe gets", &s, &base)?;
    }
    Ok(())
}

/// Bounds that leave room for any sensible buffering: what matters is that they do not depend on the
/// size of the network.
const STREAM_FIRST_ALLOCS: u64 = 300_000;
const STREAM_GROWTH: u64 = 256 * 1024;
const STREAM_MEMORY: u64 = 4_000_000;
const STREAM_AFTER_WRITES: u64 = 64;
const STREAM_AFTER_ALLOCS: u64 = 300_000;

fn check_stream(sim: &mut Sim, c: &Case) -> Verdict {
    if c.scen == "deep" {
        let Job::Enumerate(nets, false) = oracle::job(&c.cmds[0]) else { return Ok(()) };
        let (o, w) = (sim.run(&c.worlds[0], &c.cmds[0]), &c.worlds[0]);
        sim.probe("tens of millions of addresses");
        match o.end {
            End::Stopped if (o.out.len() as u64) < w.stop_at => return fail("stream.short", "less came out than was read"),
            End::Stopped | End::Exit(0) => {}
            e => return fail("stream.ended", format!("the enumeration ended with {:?} after {} bytes: {}", e, o.out.len(), first_line(&o.err))),
        }
        if o.peak > STREAM_MEMORY {
            return fail("stream.memory", format!("{} bytes of memory for the first {} bytes of output", o.peak, o.out.len()));
        }
        return oracle::check_enumerated(&nets, &o.out, o.end.ok());
    }
    if c.worlds.len() < 3 {
        return Ok(());
    }
    let Job::Enumerate(nets, false) = oracle::job(&c.cmds[0]) else { return Ok(()) };
    let a = &c.cmds[0];
    let short = sim.run(&c.worlds[0], a);
    let long = sim.run(&c.worlds[1], a);
    for (o, w) in [(&short, &c.worlds[0]), (&long, &c.worlds[1])] {
        match o.end {
            End::Stopped | End::Exit(0) => {}
            End::Hang(what) => return fail("stream.stalled", format!("only {} bytes came out before the step budget was used up ({})", o.out.len(), what)),
            e => return fail("stream.ended", format!("the enumeration ended with {:?} after {} bytes: {}", e, o.out.len(), first_line(&o.err))),
        }
        if o.first_out_allocs > STREAM_FIRST_ALLOCS {
            return fail("stream.late", format!("the first output came after {} allocations", o.first_out_allocs));
        }
        oracle::check_enumerated(&nets, &o.out, o.end.ok())?;
        if o.end == End::Stopped && (o.out.len() as u64) < w.stop_at {
            return fail("stream.short", "less came out than was read");
        }
    }
    if short.peak > STREAM_MEMORY {
        return fail("stream.memory", format!("{} bytes of memory for the first {} bytes of output", short.peak, short.out.len()));
    }
    if long.peak > short.peak + STREAM_GROWTH {
        return fail("stream.memory", format!("{} bytes of memory for the first {} bytes of output, {} for the first {}", short.peak, short.out.len(), long.peak, long.out.len()));
    }
    sim.probe("long enumeration watched");
    let o = sim.run(&c.worlds[2], a);
    if o.out_failed == 0 {
        return Ok(());
    }
    sim.probe("reader left a long enumeration");
    match o.end {
        End::Hang(what) => return fail("stream.no_stop", format!("the reader is gone and the enumeration goes on ({})", what)),
        End::Exit(0) => return fail("stream.success", "the reader left, and success was reported"),
        _ => {}
    }
    if o.after_fail_writes > STREAM_AFTER_WRITES || o.after_fail_allocs > STREAM_AFTER_ALLOCS {
        return fail("stream.slow_stop", format!("{} more writes and {} more allocations after the reader left", o.after_fail_writes, o.after_fail_allocs));
    }
    prefix_of("stream.prefix", "after the reader left", &o.out, &long.out).or_else(|_| oracle::check_enumerated(&nets, &o.out, false))
}

fn check_refine(sim: &mut Sim, c: &Case) -> Verdict {
    let a = &c.cmds[0];
    let base = sim.run(&c.worlds[0], a);
    if base.end == End::Stopped {
        return oracle::judge_beginning(a, &base);
    }
    judge(a, &base)?;
    for b in c.cmds[1..].iter().filter(|b| question(b) == question(a)) {
        let o = sim.run(&c.worlds[0], b);
        if base.end != o.end {
            return fail("order.status", format!("{:?} ends with {:?}, {:?} with {:?}", a, base.end, b, o.end));
        }
        same_output("order.output", &format!("rearranged arguments {:?}", b), &o, &base)?;
    }
    for w in &c.worlds[1..] {
        let o = sim.run(w, a);
        if let End::Hang(what) = o.end {
            return fail("refine.hang", format!("disturbed, the run never ended ({})", what));
        }
        prefix_of("refine.prefix", &format!("{:?}", o.end), &o.out, &base.out)?;
        if o.end.ok() || !w.can_fail() {
            if o.end != base.end {
                return fail("refine.status", format!("ends with {:?} instead of {:?}", o.end, base.end));
            }
            same_output("refine.output", "disturbed but successful", &o, &base)?;
        }
    }
    Ok(())
}

fn check_refuse(sim: &mut Sim, c: &Case) -> Verdict {
    let a = &c.cmds[0];
    if !matches!(oracle::job(a), Job::Refuse | Job::Enumerate(_, true)) {
        return Ok(());
    }
    let base = sim.run(&c.worlds[0], a);
    if base.end == End::Stopped {
        return Ok(());
    }
    judge(a, &base)?;
    for w in &c.worlds[1..] {
        let o = sim.run(w, a);
        match o.end {
            End::Exit(0) => return fail("accepted", "unreadable arguments, diagnostics could not be written, and success was reported"),
            End::Hang(what) => return fail("refused.hang", format!("the run never ended ({})", what)),
            _ => {}
        }
        prefix_of("refused.prefix", "disturbed", &o.out, &base.out)?;
        if !w.can_fail() && (o.end != base.end || o.out != base.out || o.err != base.err) {
            return fail("refused.disturbed", "interrupted or short writes changed the refusal");
        }
    }
    Ok(())
}

fn check_orderly(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let o = sim.run(w, &c.cmds[0]);
        if o.end != End::Stopped && !o.end.orderly() {
            return fail("crash", format!("{:?} build: ended with {:?}: {}", w.profile, o.end, String::from_utf8_lossy(&o.err).lines().take(2).collect::<Vec<_>>().join(" ")));
        }
        let size = c.cmds[0].iter().map(|a| a.len() as u64).sum::<u64>() + o.out.len() as u64;
        if o.peak > 4_000_000 + 256 * size {
            return fail("memory", format!("{} bytes of memory for {} bytes of arguments and answer", o.peak, size));
        }
        if o.threads > 0 {
            sim.probe("threads started");
        }
    }
    Ok(())
}

fn check_styles(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let o = sim.run(w, &c.cmds[0]);
        if !o.out.contains(&0x1b) || oracle::strip_colour(&o.out).is_err() {
            continue;
        }
        sim.probe("coloured output");
        oracle::check_styles(&c.cmds[0], &o.out)?;
    }
    Ok(())
}

fn check_effects(sim: &mut Sim, c: &Case) -> Verdict {
    for w in &c.worlds {
        let o = sim.run(w, &c.cmds[0]);
        for (i, what) in EFFECTS.iter().enumerate() {
            // one that is ended in the middle of its work cannot give its locks back
            let excused = *what == "left a shared file locked" && !matches!(o.end, End::Exit(_));
            if o.effects >> i & 1 == 1 && !excused {
                return fail("effect", format!("besides its output, it {}", what));
            }
        }
    }
    Ok(())
}

/// Without the lines only a build that can count hosts has.
fn without_hosts(out: &[u8]) -> Vec<u8> {
    let label = |l: &[u8]| {
        let l = oracle::strip_colour(l).unwrap_or_default();
        l.starts_with(b"Hosts/Net:") || l.starts_with(b"no hosts/net")
    };
    out.split_inclusive(|b| *b == b'\n').filter(|l| !label(l)).flatten().copied().collect()
}

fn check_features(sim: &mut Sim, c: &Case) -> Verdict {
    let a = &c.cmds[0];
    for w in &c.worlds {
        let p = w.profile;
        let mut full = w.calm();
        full.profile = Profile::Checked;
        if !p.has_colours() {
            full.tty = [false; 3];
            full.env = vec!["TERM=dumb".into()];
            full.env_ask = 0;
        }
        let base = sim.run(&full, a);
        let calm = sim.run(&w.calm(), a);
        let what = format!("the {} build", p.name());
        if !p.has_bigint() && a.first().is_some_and(|m| m == "-s" || m == "--split") {
            sim.probe("a split without the feature for it");
            oracle::judge_refusal(&calm)?;
        } else {
            if calm.end != base.end {
                return fail("features.status", format!("{} ends with {:?} instead of {:?}: {}", what, calm.end, base.end, first_line(&calm.err)));
            }
            let shows = matches!(oracle::job(a), Job::Show(_) | Job::Resize(..) | Job::Unspecified);
            let want = if !p.has_bigint() && shows { without_hosts(&base.out) } else { base.out.clone() };
            if want.len() < base.out.len() {
                sim.probe("lines only other builds have");
            }
            if want.contains(&0x1b) {
                sim.probe("colours compared");
            }
            same_output("features.output", &what, &calm, &Outcome { out: want, ..base.clone() })?;
            if calm.err.is_empty() != base.err.is_empty() {
                return fail("features.diagnostics", format!("{}: diagnostics are {:?} instead of {:?}", what, first_line(&calm.err), first_line(&base.err)));
            }
        }
        let o = sim.run(w, a);
        if let End::Hang(what) = o.end {
            if w.alloc_fail_at != 0 || w.mem_limit != 0 {
                continue;
            }
            return fail("features.hang", format!("disturbed, the run never ended ({})", what));
        }
        prefix_of("features.prefix", &format!("{:?}", o.end), &o.out, &calm.out)?;
        if o.end.ok() || !w.can_fail() {
            if o.end != calm.end {
                return fail("features.disturbed", format!("ends with {:?} instead of {:?}", o.end, calm.end));
            }
            same_output("features.disturbed", "disturbed but successful", &o, &calm)?;
        }
    }
    Ok(())
}

const HUP: u64 = 1;
const INT: u64 = 2;
const QUIT: u64 = 3;
const TERM: u64 = 15;
/// SIGCHLD, SIGCONT, SIGURG and SIGWINCH ask nothing of a program that has not asked for them.
const NOTHING: [u64; 4] = [17, 18, 23, 28];
const STOP_AFTER_WRITES: u64 = 64;
const STOP_AFTER_ALLOCS: u64 = 300_000;

fn check_signal(sim: &mut Sim, c: &Case) -> Verdict {
    let a = &c.cmds[0];
    let huge = oracle::weight(a) > 300_000;
    for w in &c.worlds {
        let Some(sig) = w.signal() else { continue };
        let stops = [HUP, INT, QUIT, TERM].contains(&sig) && w.sig_ign != sig;
        if huge && !stops {
            continue;
        }
        let o = sim.run(w, a);
        if o.signals == 0 {
            continue;
        }
        let name = format!("signal {}", sig);
        let mut calm = w.calm();
        if huge {
            calm.stop_at = o.out.len() as u64 + 1;
        }
        let base = sim.run(&calm, a);
        if !stops && w.sig_ign != sig && !NOTHING.contains(&sig) {
            // it may end the run or be handled, but it cannot alter the answer
            sim.probe("a signal of another kind");
            if o.end == End::Exit(0) && o.out != base.out {
                return fail("signal.incomplete", format!("{} came, and success was reported for {} bytes, where the answer has {}", name, o.out.len(), base.out.len()));
            }
            prefix_of("signal.prefix", &name, &o.out, &base.out)?;
            continue;
        }
        if !stops {
            sim.probe(if w.sig_ign == sig { "a signal that is ignored" } else { "a signal that means nothing" });
            if o.end != base.end {
                return fail("signal.status", format!("{} should change nothing, yet the run ends with {:?} instead of {:?}", name, o.end, base.end));
            }
            same_output("signal.output", &format!("{} should change nothing", name), &o, &base)?;
            if o.err != base.err {
                return fail("signal.diagnostics", format!("{} should change nothing, yet diagnostics are {:?} instead of {:?}", name, first_line(&o.err), first_line(&base.err)));
            }
            continue;
        }
        sim.probe("asked to stop");
        if let End::Hang(what) = o.end {
            return fail("signal.no_stop", format!("{} came, and the run went on ({})", name, what));
        }
        if o.end.ok() && o.after_sig_writes > 0 {
            return fail("signal.success", format!("{} came, {} more writes followed, and success was reported", name, o.after_sig_writes));
        }
        if o.end == End::Exit(0) && o.out != base.out {
            return fail("signal.incomplete", format!("{} came, and success was reported after {} of {} bytes", name, o.out.len(), base.out.len()));
        }
        if o.after_sig_writes > STOP_AFTER_WRITES || o.after_sig_allocs > STOP_AFTER_ALLOCS {
            return fail("signal.slow_stop", format!("{} more writes and {} more allocations after {}", o.after_sig_writes, o.after_sig_allocs, name));
        }
        prefix_of("signal.prefix", &name, &o.out, &base.out)?;
        if !o.out.is_empty() && o.out.len() < base.out.len() {
            sim.probe("stopped in the middle of an answer");
        }
    }
    Ok(())
}

// ---- chains of runs ----

struct Chain<'a> {
    sim: &'a mut Sim,
    worlds: &'a [World],
    next: usize,
    steps: Vec<String>,
}

impl Chain<'_> {
    /// Runs the next command of a script in the next world and insists that it succeeds.
    fn step(&mut self, a: &[String]) -> Result<Outcome, Violation> {
        let w = &self.worlds[self.next.min(self.worlds.len() - 1)];
        self.next += 1;
        let o = self.sim.run(w, a);
        self.steps.push(format!("{:?}", a));
        if !o.end.ok() {
            return fail("chain.refused", format!("step {} of the chain, {:.200?}, ended with {:?}: {}", self.steps.len(), a, o.end, first_line(&o.err)));
        }
        Ok(o)
    }
    fn lines(o: &Outcome) -> Result<Vec<String>, Violation> {
        Ok(oracle::text_of(&o.out)?.lines().map(String::from).collect())
    }
}

fn with(mode: &str, rest: Vec<String>) -> Args {
    let mut a = vec![mode.to_string()];
    a.extend(rest);
    a
}

/// Lines that came out in full.
fn complete_lines(out: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(out).into_owned();
    match t.rfind('\n') {
        Some(i) => t[..i].lines().map(String::from).collect(),
        None => Vec::new(),
    }
}

/// What follows `Network:` on each line that has it.
fn network_rows(lines: &[String]) -> Vec<String> {
    lines.iter().filter_map(|l| l.strip_prefix("Network:")).filter_map(|l| l.split_whitespace().next()).map(String::from).collect()
}

fn check_chain(sim: &mut Sim, c: &Case) -> Verdict {
    let a = &c.cmds[0];
    let j = oracle::job(a);
    if matches!(j, Job::Refuse | Job::Unspecified | Job::Help) {
        return Ok(());
    }
    let mut ch = Chain { sim, worlds: &c.worlds, next: 0, steps: Vec::new() };
    match c.scen.as_str() {
        "minimize-again" => {
            let x = ch.step(a)?;
            let y = ch.step(&with("-m", Chain::lines(&x)?))?;
            same_output("chain.minimize_again", "minimizing a minimized list changed it", &y, &x)
        }
        "derange-minimize" => {
            let x = ch.step(a)?;
            let y = ch.step(&with("--minimize", Chain::lines(&x)?))?;
            same_output("chain.derange_minimize", "the networks of a range were not minimal", &y, &x)?;
            let Job::Derange(f, lo, hi) = j else { return Ok(()) };
            let got = oracle::net_list("chain.layout", &y.out)?;
            if got.first().map(|n| n.base) != Some(lo) || got.last().map(|n| n.last()) != Some(hi) {
                return fail("chain.derange_minimize", format!("the range from {} to {} became {:.300?}", addr_text(f, lo), addr_text(f, hi), Chain::lines(&y)?));
            }
            Ok(())
        }
        "show-derange" => {
            // from the first address shown to the last one, whichever is named first
            let Job::Show(_) = &j else { return Ok(()) };
            let x = ch.step(a)?;
            let lines = Chain::lines(&x)?;
            let field = |k: &str| lines.iter().find_map(|l| l.strip_prefix(k)).and_then(|l| l.split_whitespace().next()).unwrap_or("").to_string();
            let (net, last) = (field("Network:"), field("Broadcast:"));
            if last.is_empty() {
                return Ok(());
            }
            let mut ends = vec![net.split('/').next().unwrap_or("").to_string(), last];
            let rev = c.worlds[0].hash_seed & 1 == 1;
            if rev {
                ends.reverse();
            }
            let y = ch.step(&with("-d", ends.clone()))?;
            if Chain::lines(&y)? != vec![net.clone()] {
                return fail("chain.show_derange", format!("the addresses from {} to {} are given as {:.300?} instead of {}", ends[0], ends[1], Chain::lines(&y)?, net));
            }
            Ok(())
        }
        "enumerate-derange" => {
            let Job::Enumerate(nets, false) = &j else { return Ok(()) };
            let (Some(p), [n]) = (nets[0].prefix(), &nets[..]) else { return Ok(()) };
            let lines = Chain::lines(&ch.step(a)?)?;
            let (Some(first), Some(last)) = (lines.first(), lines.last()) else { return fail("chain.enumerate_derange", "no addresses") };
            let y = ch.step(&with("--derange", vec![last.clone(), first.clone()]))?;
            let want = format!("{}/{}", first, p);
            if Chain::lines(&y)? != vec![want.clone()] || lines.len() as u128 != 1u128 << n.host_bits() {
                return fail("chain.enumerate_derange", format!("the {} addresses of {} are the range {:.300?}", lines.len(), want, Chain::lines(&y)?));
            }
            Ok(())
        }
        "pieces-enumerate" => {
            // the networks of a range, enumerated together, are its addresses in order
            let Job::Derange(f, lo, hi) = j else { return Ok(()) };
            let x = ch.step(a)?;
            let y = Chain::lines(&ch.step(&with("-e", Chain::lines(&x)?))?)?;
            let got: Option<Vec<u128>> = y.iter().map(|l| read_addr(l).filter(|g| g.0 == f).map(|g| g.1)).collect();
            if got != Some((lo..=hi).collect()) {
                return fail("chain.pieces_enumerate", format!("the {} addresses from {} to {} became {} lines", hi - lo + 1, addr_text(f, lo), addr_text(f, hi), y.len()));
            }
            Ok(())
        }
        "split-enumerate" => {
            // the addresses of all pieces, used and unused, are those of the network
            let x = ch.sim.run(&c.worlds[0], a);
            ch.next = 1;
            if !x.end.ok() {
                return Ok(());
            }
            let lines = Chain::lines(&x)?;
            let nets = network_rows(&lines);
            let Some((whole, slices)) = nets.split_first() else { return fail("chain.split_layout", "no networks in the answer of a split") };
            let unused = lines.iter().skip_while(|l| !l.starts_with("Unused networks")).skip(1).cloned();
            let pieces: Vec<String> = slices.iter().cloned().chain(unused).collect();
            let read = |o: &Outcome| -> Result<Vec<Option<(bool, u128)>>, Violation> { Ok(Chain::lines(o)?.iter().map(|l| read_addr(l)).collect()) };
            let mut got = read(&ch.step(&with("-e", pieces))?)?;
            let want = read(&ch.step(&with("-e", vec![whole.clone()]))?)?;
            got.sort();
            if got != want {
                return fail("chain.split_enumerate", format!("the pieces of {} have {} addresses, and it has {}, or others", whole, got.len(), want.len()));
            }
            Ok(())
        }
        "minimize-resize" => {
            // each network of the answer, cut in half and minimized again together, is what it was
            let x = ch.step(a)?;
            let nets = Chain::lines(&x)?;
            if oracle::net_list("chain.layout", &x.out)?.iter().any(|n| n.prefix().is_none()) {
                return Ok(()); // then what they minimize to need not be the only possibility
            }
            let Some(pick) = nets.get((c.worlds[0].hash_seed % nets.len().max(1) as u64) as usize) else { return Ok(()) };
            let Some(n) = read_net(pick) else { return fail("chain.layout", format!("{:?} is not a network", pick)) };
            let Some(p) = n.prefix().filter(|_| n.host_bits() > 0) else { return Ok(()) };
            let rows = network_rows(&Chain::lines(&ch.step(&with("--resize", vec![pick.clone(), (p + 1).to_string()]))?)?);
            let mut again: Vec<String> = nets.iter().filter(|l| *l != pick).cloned().collect();
            again.extend(rows.into_iter().skip(1));
            let y = ch.step(&with("--minimize", again))?;
            same_output("chain.minimize_resize", "halving one of the networks changed what they minimize to", &y, &x)
        }
        "split-minimize" | "split-further" => {
            let w = &c.worlds[0];
            let x = ch.sim.run(w, a);
            ch.next = 1;
            if !x.end.ok() {
                return Ok(());
            }
            let lines = Chain::lines(&x)?;
            let nets = network_rows(&lines);
            if nets.len() < 2 {
                return fail("chain.split_layout", "no networks in the answer of a split");
            }
            let unused: Vec<String> = lines.iter().skip_while(|l| !l.starts_with("Unused networks")).skip(1).cloned().collect();
            if c.scen == "split-further" {
                // an unused network, or a slice, can in turn be split
                let all: Vec<&String> = nets[1..].iter().chain(&unused).collect();
                let pick = all[(w.hash_seed % all.len() as u64) as usize];
                let Some(n) = read_net(pick) else { return fail("chain.split_layout", format!("{:?} is not a network", pick)) };
                if n.host_bits() < 2 {
                    return Ok(());
                }
                let h = n.host_bits() - 1;
                let half = if h >= 128 { u128::MAX - 1 } else { (1u128 << h) - 2 };
                let y = ch.step(&with("-s", vec![pick.clone(), half.to_string(), half.to_string()]))?;
                let ys = network_rows(&Chain::lines(&y)?);
                if ys.len() < 2 {
                    return fail("chain.split_layout", "no networks in the answer of a split");
                }
                let z = ch.step(&with("-m", ys[1..].to_vec()))?;
                return if Chain::lines(&z)? == vec![pick.clone()] {
                    Ok(())
                } else {
                    fail("chain.split_further", format!("the two halves of {} are {:?}", pick, &ys[1..]))
                };
            }
            let all: Vec<String> = nets[1..].iter().cloned().chain(unused).collect();
            let y = ch.step(&with("-m", all))?;
            let got = Chain::lines(&y)?;
            if got != vec![nets[0].clone()] {
                return fail("chain.split_minimize", format!("slices and unused networks of {} minimize to {:.300?}", nets[0], got));
            }
            Ok(())
        }
        "enumerate-minimize" => {
            let Job::Enumerate(nets, false) = &j else { return Ok(()) };
            let x = ch.step(a)?;
            let n = nets[0];
            let full_len = if n.v6 { "/128" } else { "/32" };
            let addrs: Vec<String> = Chain::lines(&x)?.iter().map(|l| format!("{}{}", l, full_len)).collect();
            let y = ch.step(&with("-m", addrs))?;
            let z = ch.step(&with("-m", vec![n.text()]))?;
            if n.prefix().is_some() {
                return same_output("chain.enumerate_minimize", "the addresses of a network minimize to something else", &y, &z);
            }
            match same_union(&oracle::net_list("chain.layout", &y.out)?, &[n]) {
                Some(Err(e)) => fail("chain.enumerate_minimize", e),
                _ => Ok(()),
            }
        }
        "resize-minimize" | "resize-further" => {
            let Job::Resize(n, m) = &j else { return Ok(()) };
            if n.prefix().is_none() || mask_prefix(n.v6, *m).is_none() {
                return Ok(());
            }
            let x = ch.step(a)?;
            let rows = network_rows(&Chain::lines(&x)?);
            if rows.len() < 2 {
                return fail("chain.resize_layout", "no networks in the answer of a resize");
            }
            if c.scen == "resize-minimize" {
                let y = ch.step(&with("-m", rows[1..].to_vec()))?;
                if m.count_ones() >= n.mask.count_ones() && Chain::lines(&y)? != vec![rows[0].clone()] {
                    return fail("chain.resize_minimize", format!("the subnets of {} minimize to {:.300?}", rows[0], Chain::lines(&y)?));
                }
                return Ok(());
            }
            // back again, from any piece
            let pick = &rows[1 + (c.worlds[0].hash_seed % (rows.len() as u64 - 1)) as usize];
            let y = ch.step(&with("-r", vec![pick.clone(), n.prefix().unwrap().to_string()]))?;
            let back = network_rows(&Chain::lines(&y)?);
            if m.count_ones() >= n.mask.count_ones() && back.get(1) != Some(&rows[0]) {
                return fail("chain.resize_back", format!("{} resized back gives {:.200?} instead of {}", pick, back, rows[0]));
            }
            Ok(())
        }
        "show-again" => {
            let x = ch.step(&a[..1])?;
            let lines = Chain::lines(&x)?;
            let field = |k: &str| lines.iter().find_map(|l| l.strip_prefix(k)).and_then(|l| l.split_whitespace().next()).unwrap_or("").to_string();
            let net = field("Network:");
            let spec = if net.contains('/') { net } else { format!("{}/{}", net, field("Netmask:")) };
            let y = ch.step(&[spec])?;
            let tail = |o: &Outcome| -> Result<Vec<String>, Violation> { Ok(Chain::lines(o)?.into_iter().skip_while(|l| !l.starts_with("Network:")).collect()) };
            if tail(&x)? != tail(&y)? {
                return fail("chain.show_again", format!("{:?} against {:?}", tail(&x)?, tail(&y)?));
            }
            Ok(())
        }
        "resume-enumerate" => {
            let Job::Enumerate(nets, false) = &j else { return Ok(()) };
            let n = nets[0];
            if n.prefix().is_none() || nets.len() != 1 || n.host_bits() > 10 {
                return Ok(());
            }
            // the first attempt is disturbed; a second one picks up after its last complete line
            let x = ch.sim.run(&c.worlds[0], a);
            ch.next = 1;
            let got = complete_lines(&x.out);
            let whole = ch.step(a)?;
            let all = Chain::lines(&whole)?;
            let from = match got.last() {
                None => Some(n.base),
                Some(l) => match read_addr(l) {
                    Some((f, v)) if f == n.v6 => v.checked_add(1),
                    _ => return fail("chain.resume", format!("{:?} was delivered, which is not an address", l)),
                },
            };
            let mut joined = got.clone();
            if let Some(from) = from.filter(|f| *f <= n.last()) {
                ch.sim.probe("resumed an enumeration");
                let d = ch.step(&with("-d", vec![addr_text(n.v6, from), addr_text(n.v6, n.last())]))?;
                let rest = ch.step(&with("-e", Chain::lines(&d)?))?;
                joined.extend(Chain::lines(&rest)?);
            }
            if joined != all {
                return fail("chain.resume", format!("{} lines before and {} after the interruption do not make up the {} lines of the whole", got.len(), joined.len() - got.len(), all.len()));
            }
            Ok(())
        }
        "retry-minimize" => {
            let x = ch.sim.run(&c.worlds[0], a);
            ch.next = 1;
            let mut lines = complete_lines(&x.out);
            if !lines.is_empty() && !x.end.ok() {
                ch.sim.probe("retried after partial delivery");
            }
            let y = ch.step(a)?;
            lines.extend(Chain::lines(&y)?);
            let z = ch.step(&with("-m", lines))?;
            same_output("chain.retry", "what an interrupted run delivered does not go with the answer", &z, &y)
        }
        _ => Ok(()),
    }
}
