//! Makes a failing case smaller while it goes on failing in the same way.

use crate::net::*;
use crate::props::{check, Case};
use crate::world::*;
use std::time::{Duration, Instant};

fn fails(sim: &mut Sim, c: &Case, class: &str) -> bool {
    matches!(check(sim, c), Err(v) if v.class == class)
}

/// Simpler ways of saying about the same thing.
fn simpler_args(s: &str) -> Vec<String> {
    let mut r: Vec<String> = Vec::new();
    let mut add = |t: String| {
        if t != s && !r.contains(&t) {
            r.push(t)
        }
    };
    if let Arg::Ok((a, n)) = read_spec(s) {
        let short = |v6: bool, a: u128| if v6 { std::net::Ipv6Addr::from(a).to_string() } else { addr_text(false, a) };
        let spec = |v6: bool, a: u128, m: u128| match mask_prefix(v6, m) {
            Some(p) => format!("{}/{}", short(v6, a), p),
            None => format!("{}/{}", short(v6, a), short(v6, m)),
        };
        add(spec(n.v6, n.base, n.mask));
        let p = n.mask.count_ones();
        if n.prefix().is_none() {
            add(spec(n.v6, n.base, prefix_mask(n.v6, p)));
        } else if p < bits(n.v6) {
            add(spec(n.v6, n.base, prefix_mask(n.v6, p + 1)));
            add(spec(n.v6, n.base, full(n.v6)));
        }
        add(spec(n.v6, a, n.mask));
        for keep in [0u128, 0xffff, 0xffff << 16, 0xffff_ffff_ffff_ffff, !0xffff_ffff_ffff_ffff] {
            add(spec(n.v6, n.base & keep, n.mask));
        }
        let mut b = n.base;
        while b != 0 {
            let low = b & b.wrapping_neg();
            add(spec(n.v6, n.base ^ low, n.mask));
            b ^= low;
        }
    } else if let Arg::Ok((f, a)) = read_arg_addr(s) {
        let short = |a: u128| if f { std::net::Ipv6Addr::from(a).to_string() } else { addr_text(false, a) };
        add(short(a));
        for keep in [0u128, 0xffff, 0xffff << 16, 0xffff_ffff_ffff_ffff, !0xffff_ffff_ffff_ffff] {
            add(short(a & keep));
        }
        let mut b = a;
        while b != 0 {
            let low = b & b.wrapping_neg();
            add(short(a ^ low));
            b ^= low;
        }
    } else if let Ok(n) = s.parse::<u128>() {
        for t in [0, 1, n / 2, n.saturating_sub(1)] {
            add(t.to_string());
        }
    } else if s.chars().count() > 1 {
        let c: Vec<char> = s.chars().collect();
        add(c[..c.len() / 2].iter().collect());
        add(c[c.len() / 2..].iter().collect());
        if c.len() < 40 {
            for i in 0..c.len() {
                let mut d = c.clone();
                d.remove(i);
                add(d.into_iter().collect());
            }
        }
    }
    r
}

fn simpler_worlds(w: &World) -> Vec<World> {
    let d = World::plain(w.profile);
    let mut r = Vec::new();
    let mut add = |f: &dyn Fn(&mut World)| {
        let mut x = w.clone();
        f(&mut x);
        if x != *w {
            r.push(x);
        }
    };
    add(&|x| x.script.clear());
    for i in 0..w.script.len() {
        add(&move |x| {
            x.script.remove(i);
        });
    }
    for i in 0..2 {
        add(&|x| x.max_chunk[i] = 0);
        add(&|x| x.eintr_every[i] = 0);
        add(&|x| x.stall_us[i] = 0);
        add(&|x| x.cap[i] = NEVER);
        add(&|x| x.cap_fails[i] = 0);
        add(&|x| x.cap_errno[i] = ENOSPC.into());
        if w.cap[i] != NEVER {
            add(&|x| x.cap[i] = 0);
            add(&|x| x.cap[i] /= 2);
            add(&|x| x.cap[i] = x.cap[i].saturating_sub(1));
        }
    }
    add(&|x| x.kill_at = NEVER);
    if w.kill_at != NEVER {
        add(&|x| x.kill_at /= 2);
        add(&|x| x.kill_at = x.kill_at.saturating_sub(1));
    }
    add(&|x| x.alloc_fail_at = 0);
    add(&|x| x.sig_alloc = 0);
    add(&|x| x.sig_ign = 0);
    add(&|x| x.argv0 = d.argv0.clone());
    add(&|x| x.alloc_sticky = false);
    add(&|x| x.mem_limit = 0);
    add(&|x| x.rnd_eintr = false);
    add(&|x| x.rnd_einval = false);
    add(&|x| x.merged = false);
    add(&|x| x.tty = [false; 3]);
    for i in 0..3 {
        add(&|x| x.tty[i] = false);
    }
    add(&|x| x.env = d.env.clone());
    add(&|x| x.env.clear());
    for i in 0..w.env.len() {
        add(&move |x| {
            x.env.remove(i);
        });
    }
    add(&|x| x.start_time = d.start_time);
    add(&|x| x.env_ask = 0);
    add(&|x| x.sched = 0);
    for p in 4..8u64 {
        if w.sched > 7 {
            add(&move |x| x.sched = p);
        }
    }
    add(&|x| x.clock_step = 0);
    add(&|x| x.clock_step /= 10);
    for h in 1..4u64 {
        if w.hash_seed > 3 {
            add(&move |x| x.hash_seed = h);
        }
    }
    let p = match w.profile {
        Profile::Release => Profile::Checked,
        p => p,
    };
    add(&|x| x.profile = p);
    r
}

/// How many worlds a case of this property cannot do without.
fn min_worlds(c: &Case) -> usize {
    match c.prop.as_str() {
        "C06" => 3,
        "C16" => c.cmds.len(),
        _ => 1,
    }
}

pub fn shrink(sim: &mut Sim, start: &Case, class: &str, limit: Duration) -> (Case, u64) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut tried = 0;
    let mut go = true;
    while go && t0.elapsed() < limit {
        go = false;
        // each candidate is made when its turn comes: there can be very many of long commands
        type Edit<'a> = Box<dyn Fn() -> Case + 'a>;
        let found = {
            let best = &best;
            let mut cand: Vec<Edit> = Vec::new();
            let paired = best.prop == "C16";
            for i in 0..best.cmds.len() {
                if best.cmds.len() > 1 && i > 0 {
                    cand.push(Box::new(move || {
                        let mut c = best.clone();
                        c.cmds.remove(i);
                        if paired && c.worlds.len() > i {
                            c.worlds.remove(i);
                        }
                        c
                    }));
                }
            }
            if !paired && best.worlds.len() > min_worlds(best) {
                for i in 0..best.worlds.len() {
                    cand.push(Box::new(move || {
                        let mut c = best.clone();
                        c.worlds.remove(i);
                        c
                    }));
                }
            }
            for k in [0, best.sched.len() / 2, best.sched.len().saturating_sub(1)] {
                if k < best.sched.len() {
                    cand.push(Box::new(move || {
                        let mut c = best.clone();
                        c.sched.truncate(k);
                        c
                    }));
                }
            }
            for i in 0..best.cmds.len() {
                let n = best.cmds[i].len();
                let mut chunk = n / 2;
                while chunk > 0 && n / chunk < 2_000 {
                    let mut at = 1;
                    while at < n {
                        cand.push(Box::new(move || {
                            let mut c = best.clone();
                            c.cmds[i].drain(at..(at + chunk).min(n));
                            // rearranged copies of one command have to lose the same arguments
                            if best.cmds.len() > 1 && best.prop == "C08" {
                                let gone: Vec<String> = best.cmds[i][at..(at + chunk).min(n)].to_vec();
                                let kept = c.cmds[i].clone();
                                for j in 0..c.cmds.len() {
                                    if j != i {
                                        c.cmds[j].retain(|x| !gone.contains(x) || kept.contains(x));
                                    }
                                }
                            }
                            c
                        }));
                        at += chunk;
                    }
                    chunk /= 2;
                }
            }
            for i in 0..best.worlds.len() {
                for w in simpler_worlds(&best.worlds[i]) {
                    cand.push(Box::new(move || {
                        let mut c = best.clone();
                        c.worlds[i] = w.clone();
                        c
                    }));
                }
            }
            for i in 0..best.cmds.len() {
                for j in 0..best.cmds[i].len().min(2_000) {
                    for s in simpler_args(&best.cmds[i][j]) {
                        cand.push(Box::new(move || {
                            let mut c = best.clone();
                            let old = c.cmds[i][j].clone();
                            for x in c.cmds.iter_mut().flatten() {
                                if *x == old {
                                    *x = s.clone();
                                }
                            }
                            c
                        }));
                    }
                }
            }
            for i in 0..best.sched.len() {
                if best.sched[i] != 0 && best.sched.len() < 60 {
                    cand.push(Box::new(move || {
                        let mut c = best.clone();
                        c.sched[i] = 0;
                        c
                    }));
                }
            }
            let most = size(best);
            let mut found = None;
            for c in cand {
                if t0.elapsed() > limit {
                    break;
                }
                tried += 1;
                let c = c();
                if size(&c) < most && fails(sim, &c, class) {
                    found = Some(c);
                    break;
                }
            }
            found
        };
        if let Some(c) = found {
            best = c;
            go = true;
        }
    }
    (best, tried)
}

/// A measure that strictly decreases, so that shrinking ends.
fn size(c: &Case) -> (usize, usize, usize, u128, String) {
    let text: String = c.worlds.iter().map(|w| w.to_text()).collect::<Vec<_>>().join("|");
    let args: usize = c.cmds.iter().flatten().map(|a| a.len() + 3).sum();
    let mut value: u128 = 0;
    for a in c.cmds.iter().flatten() {
        if let Arg::Ok((x, n)) = read_spec(a) {
            value = value.saturating_add(x.count_ones().into()).saturating_add(n.wild().count_ones().into());
        } else if let Arg::Ok((_, x)) = read_arg_addr(a) {
            value = value.saturating_add(x.count_ones().into());
        }
    }
    let nums: u128 = c.worlds.iter().map(|w| {
        let f = |v: u64| if v == NEVER { 0 } else { u128::from(v) };
        f(w.cap[0]) + f(w.cap[1]) + f(w.kill_at) + f(w.hash_seed) / (1 << 40)
    }).sum();
    (
        c.cmds.iter().map(|a| a.len()).sum::<usize>() * 4 + c.worlds.len() * 8 + c.sched.iter().filter(|v| **v != 0).count() + c.sched.len(),
        text.len(),
        args,
        value + nums,
        text,
    )
}
