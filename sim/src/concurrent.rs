//! Several instances at once, writing to one shared place.  The driver is the scheduler: every
//! write of every instance waits until the schedule lets it happen.

use crate::oracle::{fail, Verdict};
use crate::props::Case;
use crate::world::*;

/// Writes of up to this size are never interleaved with others; a longer one may be.
const PIPE_BUF: usize = 4096;
/// Longer answers would only take longer.
pub const MAX_ANSWER: usize = 100_000;

struct Chooser<'a> {
    s: &'a [u64],
    i: usize,
}
impl Chooser<'_> {
    /// The schedule is a list of numbers; when it is used up, everything goes round robin.
    fn below(&mut self, n: u64) -> u64 {
        let v = self.s.get(self.i).copied().unwrap_or(u64::MAX);
        self.i += 1;
        if v == u64::MAX { self.i as u64 % n.max(1) } else { v % n.max(1) }
    }
    fn over(&self) -> bool {
        self.i >= self.s.len()
    }
}

pub fn check(sim: &mut Sim, c: &Case) -> Verdict {
    let n = c.cmds.len().min(c.worlds.len());
    if n < 2 {
        return Ok(());
    }
    let mut base = Vec::new();
    for k in 0..n {
        let o = sim.run(&c.worlds[k].calm(), &c.cmds[k]);
        if o.out.len() > MAX_ANSWER || o.out.split(|b| *b == b'\n').any(|l| l.len() >= PIPE_BUF) || !o.end.orderly() {
            return Ok(());
        }
        base.push(o);
    }
    let (pipe, kills, full) = (c.scen.starts_with("pipe"), c.scen == "pipe-kill", c.scen == "file-full");
    let mut ch = Chooser { s: &c.sched, i: 0 };
    let capacity = if pipe { [4096usize, 4096, 5000, 65536][ch.below(4) as usize] } else { usize::MAX };
    let total: usize = base.iter().map(|o| o.out.len()).sum();
    let disk = if full { ch.below(total as u64 + 1) as usize } else { usize::MAX };
    let mut in_pipe = 0usize;
    let mut on_disk = 0usize;

    let budget = sim.budget;
    let log = sim.keep_logs;
    let mut pending: Vec<Option<Pending>> = Vec::new();
    for k in 0..n {
        sim.zygote(c.worlds[k].profile, k + 1).begin(&c.worlds[k].paced(), &c.cmds[k], budget, true, log);
        pending.push(Some(sim.zygote(c.worlds[k].profile, k + 1).wait()));
    }
    let mut done: Vec<Option<Box<Outcome>>> = (0..n).map(|_| None).collect();
    let mut delivered: Vec<Vec<u8>> = vec![Vec::new(); n];
    let mut torn_ok = vec![false; n];
    let mut killed = vec![false; n];
    let mut failed = vec![false; n];
    let mut eintr_run = vec![0u32; n];
    let mut last_writer: Option<usize> = None;
    let mut tear: Option<String> = None;
    let mut history = String::new();
    let mut blocked = 0u64;
    let mut switches = 0u64;
    let mut steps = 0u64;
    loop {
        steps += 1;
        if steps > 200_000 {
            // let the instances end before giving up
            return drain(sim, c, pending, "concurrent.stuck", "no end in sight after 200000 scheduling steps");
        }
        let live: Vec<usize> = (0..n).filter(|k| pending[*k].is_some()).collect();
        if live.is_empty() {
            break;
        }
        // the reader takes something out of the pipe now and then
        if pipe && in_pipe > 0 && (ch.over() || ch.below(3) == 0) {
            let take = if ch.over() { in_pipe } else { 1 + ch.below(in_pipe as u64) as usize };
            in_pipe -= take;
            history += &format!("  reader takes {}\n", take);
        }
        let k = live[ch.below(live.len() as u64) as usize];
        match pending[k].take().unwrap() {
            Pending::Done(o) => {
                history += &format!("  instance {} ends: {:?}\n", k, o.end);
                done[k] = Some(o);
            }
            Pending::Write(fd, data) => {
                let len = data.len();
                let mut answer = len as i64;
                let mut stall = 0;
                if !ch.over() {
                    match ch.below(40) {
                        0 | 1 if eintr_run[k] < 4 => {
                            answer = -(EINTR as i64);
                            eintr_run[k] += 1;
                        }
                        2 if kills => {
                            answer = KILL;
                        }
                        3 | 4 => stall = ch.below(2_000_000) as i64,
                        _ => {}
                    }
                }
                if answer > 0 && fd == 1 {
                    if pipe {
                        let room = capacity - in_pipe;
                        if len > room {
                            if len <= PIPE_BUF || room == 0 {
                                // an atomic write waits for room
                                blocked += 1;
                                history += &format!("  instance {} blocks with {} bytes, room for {}\n", k, len, room);
                                pending[k] = Some(Pending::Write(fd, data));
                                continue;
                            }
                            answer = room as i64;
                            torn_ok[k] = true;
                        }
                        in_pipe += answer as usize;
                    } else if full {
                        let room = disk - on_disk.min(disk);
                        if room == 0 && len > 0 {
                            answer = -(ENOSPC as i64);
                            failed[k] = true;
                        } else if len > room {
                            answer = room as i64;
                            torn_ok[k] = true;
                        }
                        if answer > 0 {
                            on_disk += answer as usize;
                        }
                    }
                }
                if answer != -(EINTR as i64) {
                    eintr_run[k] = 0;
                }
                if answer > 0 && fd == 1 {
                    if let Some(l) = last_writer {
                        if l != k {
                            switches += 1;
                            if delivered[l].last().is_some_and(|b| *b != b'\n') && !torn_ok[l] && !killed[l] && tear.is_none() {
                                let t = String::from_utf8_lossy(&delivered[l]).into_owned();
                                tear = Some(format!("instance {} was in the middle of the line {:?} when instance {} wrote", l, t.lines().last().unwrap_or(""), k));
                            }
                        }
                    }
                    last_writer = Some(k);
                    delivered[k].extend_from_slice(&data[..answer as usize]);
                }
                if answer == KILL {
                    killed[k] = true;
                }
                history += &format!("  instance {} write({}, {} bytes) -> {}\n", k, fd, len, answer);
                let z = sim.zygote(c.worlds[k].profile, k + 1);
                z.answer(answer, stall);
                pending[k] = Some(z.wait());
            }
        }
    }
    for k in 0..n {
        let o = done[k].as_ref().unwrap();
        sim.note(&c.worlds[k], &c.cmds[k], o);
    }
    sim.stats.fired[12] += blocked;
    sim.stats.runs_with[12] += u64::from(blocked > 0);
    sim.stats.traces.insert(crate::rng::hash_bytes(3, history.as_bytes()));
    if switches > 2 {
        sim.probe("writers alternated more than twice");
    }
    if sim.keep_logs {
        sim.logs.push(format!("schedule\n{}", history));
    }
    if let Some(t) = tear {
        return fail("concurrent.torn", t);
    }
    for k in 0..n {
        let o = done[k].as_ref().unwrap();
        if !base[k].out.starts_with(&delivered[k]) {
            return fail("concurrent.garbled", format!("what instance {} delivered is not a beginning of its answer", k));
        }
        if killed[k] {
            continue;
        }
        if o.end.ok() && delivered[k] != base[k].out {
            return fail("concurrent.lost", format!("instance {} reported success with {} of {} bytes delivered", k, delivered[k].len(), base[k].out.len()));
        }
        if !failed[k] && o.end != base[k].end {
            return fail("concurrent.status", format!("instance {} ended with {:?} instead of {:?}", k, o.end, base[k].end));
        }
    }
    Ok(())
}

/// Lets every instance run to its end (killing it at its next write), then reports.
fn drain(sim: &mut Sim, c: &Case, pending: Vec<Option<Pending>>, class: &str, what: &str) -> Verdict {
    for (k, p) in pending.into_iter().enumerate() {
        let mut p = p;
        while let Some(Pending::Write(..)) = p {
            let z = sim.zygote(c.worlds[k].profile, k + 1);
            z.answer(KILL, 0);
            p = Some(z.wait());
        }
    }
    fail(class, what)
}
