//! The driver's side of the simulated machine: what a world is, how one run is started in it, and
//! what comes back.  The other side is world/simworld.c.

use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const NEVER: u64 = u64::MAX;

pub const EINTR: u32 = 4;
pub const EIO: u32 = 5;
pub const EAGAIN: u32 = 11;
pub const EFBIG: u32 = 27;
pub const ENOSPC: u32 = 28;
pub const EPIPE: u32 = 32;
pub const EDQUOT: u32 = 122;
pub const HARD_ERRNOS: [u32; 7] = [EIO, EAGAIN, EFBIG, ENOSPC, EPIPE, EDQUOT, 104];

/// Which build of the shipped program runs: with overflow checks and debug assertions (what `cargo
/// build` makes), or the release build that is packaged.
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum Profile {
    Checked,
    Release,
    /// Without any of the optional features, and with one of the two (otherwise as Checked).
    Bare,
    ConsoleOnly,
    BigintOnly,
}

pub const PROFILES: [(Profile, &str); 5] = [
    (Profile::Checked, "checked"),
    (Profile::Release, "release"),
    (Profile::Bare, "bare"),
    (Profile::ConsoleOnly, "console-only"),
    (Profile::BigintOnly, "bigint-only"),
];

impl Profile {
    pub fn name(self) -> &'static str {
        PROFILES.iter().find(|p| p.0 == self).unwrap().1
    }
    pub fn has_colours(self) -> bool {
        !matches!(self, Profile::Bare | Profile::BigintOnly)
    }
    pub fn has_bigint(self) -> bool {
        !matches!(self, Profile::Bare | Profile::ConsoleOnly)
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Action {
    Short(u32),
    Errno(u32),
    Stall(u32),
    Kill,
    PartialKill(u32),
    PartialErrno(u32, u32),
    Zero,
    Signal(u32),
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct Step {
    pub fd: u32,
    pub call: u32,
    pub action: Action,
}

/// Everything about the machine that one simulated execution runs on.  The default is an ordinary,
/// undisturbed one: output to a pipe that takes everything.
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct World {
    pub profile: Profile,
    pub hash_seed: u64,
    pub tty: [bool; 3],
    pub env: Vec<String>,
    pub rnd_eintr: bool,
    pub rnd_einval: bool,
    pub merged: bool,
    /// Very long answers are wanted: budgets are accordingly high.
    pub deep: bool,
    pub max_chunk: [u64; 2],
    pub eintr_every: [u64; 2],
    pub cap: [u64; 2],
    pub cap_errno: [u64; 2],
    pub cap_fails: [u64; 2],
    pub kill_at: u64,
    pub stop_at: u64,
    pub alloc_fail_at: u64,
    pub alloc_sticky: bool,
    pub mem_limit: u64,
    pub stall_us: [u64; 2],
    pub start_time: u64,
    /// Variables nobody set may be set after all, if the program asks for them.
    pub env_ask: u64,
    /// Which thread runs when, should the program start any; 0: each until it blocks.
    pub sched: u64,
    /// Readings of the clock jump by up to this many microseconds.
    pub clock_step: u64,
    /// The signal that arrives at the n-th allocation, and n (0: none).
    pub sig_no: u64,
    pub sig_alloc: u64,
    /// A signal that is ignored from the start, as under nohup; 0: none.
    pub sig_ign: u64,
    /// The name the program is called by.
    pub argv0: String,
    pub script: Vec<Step>,
}

impl World {
    pub fn plain(profile: Profile) -> World {
        World {
            profile,
            hash_seed: 1,
            tty: [false; 3],
            env: vec!["PATH=/usr/bin:/bin".into(), "TERM=xterm-256color".into()],
            rnd_eintr: false,
            rnd_einval: false,
            merged: false,
            deep: false,
            max_chunk: [0; 2],
            eintr_every: [0; 2],
            cap: [NEVER; 2],
            cap_errno: [ENOSPC as u64; 2],
            cap_fails: [0; 2],
            kill_at: NEVER,
            stop_at: NEVER,
            alloc_fail_at: 0,
            alloc_sticky: false,
            mem_limit: 0,
            stall_us: [0; 2],
            start_time: 1_600_000_000_000_000,
            env_ask: 0,
            sched: 0,
            clock_step: 0,
            sig_no: 0,
            sig_alloc: 0,
            sig_ign: 0,
            argv0: "ripcalc".into(),
            script: Vec::new(),
        }
    }

    /// The same machine without any of the injected disturbances.
    pub fn calm(&self) -> World {
        let d = World::plain(self.profile);
        World {
            hash_seed: self.hash_seed,
            tty: self.tty,
            env: self.env.clone(),
            merged: self.merged,
            deep: self.deep,
            start_time: self.start_time,
            env_ask: self.env_ask,
            argv0: self.argv0.clone(),
            sig_ign: self.sig_ign,
            stop_at: self.stop_at,
            ..d
        }
    }
    /// The same, but as fast and even as specified.
    pub fn paced(&self) -> World {
        World { sched: self.sched, clock_step: self.clock_step, ..self.calm() }
    }
    /// Whether anything is injected that may keep the answer from being delivered in full.
    pub fn can_fail(&self) -> bool {
        self.cap != [NEVER; 2]
            || self.kill_at != NEVER
            || self.alloc_fail_at != 0
            || self.mem_limit != 0
            || self.sig_alloc != 0
            || self.script.iter().any(|s| !matches!(s.action, Action::Short(_) | Action::Stall(_) | Action::Errno(EINTR)))
    }

    /// The signal that arrives, if one does.
    pub fn signal(&self) -> Option<u64> {
        let at_write = self.script.iter().find_map(|s| match s.action {
            Action::Signal(n) => Some(u64::from(n)),
            _ => None,
        });
        at_write.or(if self.sig_alloc != 0 { Some(self.sig_no) } else { None })
    }

    pub fn to_text(&self) -> String {
        let d = World::plain(Profile::Checked);
        let mut s = format!("profile={}", self.profile.name());
        s += &format!(" hash={:#x}", self.hash_seed);
        let mut num = |k: &str, v: u64, dv: u64| {
            if v != dv {
                s += &format!(" {}={}", k, if v == NEVER { "never".into() } else { v.to_string() });
            }
        };
        num("tty_in", self.tty[0].into(), 0);
        num("tty_out", self.tty[1].into(), 0);
        num("tty_err", self.tty[2].into(), 0);
        num("rnd_eintr", self.rnd_eintr.into(), 0);
        num("rnd_einval", self.rnd_einval.into(), 0);
        num("merged", self.merged.into(), 0);
        num("deep", self.deep.into(), 0);
        for i in 0..2 {
            let n = ["out", "err"][i];
            num(&format!("{}_max_chunk", n), self.max_chunk[i], 0);
            num(&format!("{}_eintr_every", n), self.eintr_every[i], 0);
            num(&format!("{}_cap", n), self.cap[i], NEVER);
            num(&format!("{}_cap_errno", n), self.cap_errno[i], ENOSPC as u64);
            num(&format!("{}_cap_fails", n), self.cap_fails[i], 0);
            num(&format!("{}_stall_us", n), self.stall_us[i], 0);
        }
        num("kill_at", self.kill_at, NEVER);
        num("stop_at", self.stop_at, NEVER);
        num("alloc_fail_at", self.alloc_fail_at, 0);
        num("alloc_sticky", self.alloc_sticky.into(), 0);
        num("mem_limit", self.mem_limit, 0);
        num("start_time", self.start_time, d.start_time);
        num("env_ask", self.env_ask, 0);
        num("sched", self.sched, 0);
        num("clock_step", self.clock_step, 0);
        num("sig_no", self.sig_no, 0);
        num("sig_alloc", self.sig_alloc, 0);
        num("sig_ign", self.sig_ign, 0);
        if self.argv0 != d.argv0 {
            s += &format!(" argv0={}", enc(&self.argv0));
        }
        for e in &self.env {
            s += &format!(" env={}", enc(e));
        }
        for st in &self.script {
            let a = match st.action {
                Action::Short(n) => format!("short:{}", n),
                Action::Errno(n) => format!("errno:{}", n),
                Action::Stall(n) => format!("stall:{}", n),
                Action::Kill => "kill".into(),
                Action::PartialKill(n) => format!("partialkill:{}", n),
                Action::PartialErrno(n, e) => format!("partialerrno:{}:{}", n, e),
                Action::Zero => "zero".into(),
                Action::Signal(n) => format!("signal:{}", n),
            };
            s += &format!(" at={}:{}:{}", st.fd, st.call, a);
        }
        s
    }

    pub fn from_text(t: &str) -> Option<World> {
        let mut w = World::plain(Profile::Checked);
        w.env.clear();
        for f in t.split(' ').filter(|f| !f.is_empty()) {
            let (k, v) = f.split_once('=')?;
            let n = || -> Option<u64> {
                if v == "never" {
                    Some(NEVER)
                } else if let Some(h) = v.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else {
                    v.parse().ok()
                }
            };
            let i = usize::from(k.starts_with("err_"));
            match k {
                "profile" => w.profile = PROFILES.iter().find(|p| p.1 == v)?.0,
                "hash" => w.hash_seed = n()?,
                "tty_in" => w.tty[0] = n()? != 0,
                "tty_out" => w.tty[1] = n()? != 0,
                "tty_err" => w.tty[2] = n()? != 0,
                "rnd_eintr" => w.rnd_eintr = n()? != 0,
                "rnd_einval" => w.rnd_einval = n()? != 0,
                "merged" => w.merged = n()? != 0,
                "deep" => w.deep = n()? != 0,
                "out_max_chunk" | "err_max_chunk" => w.max_chunk[i] = n()?,
                "out_eintr_every" | "err_eintr_every" => w.eintr_every[i] = n()?,
                "out_cap" | "err_cap" => w.cap[i] = n()?,
                "out_cap_errno" | "err_cap_errno" => w.cap_errno[i] = n()?,
                "out_cap_fails" | "err_cap_fails" => w.cap_fails[i] = n()?,
                "out_stall_us" | "err_stall_us" => w.stall_us[i] = n()?,
                "kill_at" => w.kill_at = n()?,
                "stop_at" => w.stop_at = n()?,
                "alloc_fail_at" => w.alloc_fail_at = n()?,
                "alloc_sticky" => w.alloc_sticky = n()? != 0,
                "mem_limit" => w.mem_limit = n()?,
                "start_time" => w.start_time = n()?,
                "env_ask" => w.env_ask = n()?,
                "sched" => w.sched = n()?,
                "clock_step" => w.clock_step = n()?,
                "sig_no" => w.sig_no = n()?,
                "sig_alloc" => w.sig_alloc = n()?,
                "sig_ign" => w.sig_ign = n()?,
                "argv0" => w.argv0 = dec(v),
                "env" => w.env.push(dec(v)),
                "at" => {
                    let p: Vec<&str> = v.split(':').collect();
                    let a = |i: usize| -> Option<u32> { p.get(i)?.parse().ok() };
                    let action = match *p.get(2)? {
                        "short" => Action::Short(a(3)?),
                        "errno" => Action::Errno(a(3)?),
                        "stall" => Action::Stall(a(3)?),
                        "kill" => Action::Kill,
                        "partialkill" => Action::PartialKill(a(3)?),
                        "partialerrno" => Action::PartialErrno(a(3)?, a(4)?),
                        "zero" => Action::Zero,
                        "signal" => Action::Signal(a(3)?),
                        _ => return None,
                    };
                    w.script.push(Step { fd: a(0)?, call: a(1)?, action });
                }
                _ => return None,
            }
        }
        Some(w)
    }
}

/// What a process gets to see of a text.  The characters from U+F780 stand for single bytes that are
/// not part of any character: 0x80 to 0xff.
fn raw_bytes(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for c in s.chars().filter(|c| *c != '\0') {
        match c {
            '\u{f780}'..='\u{f7ff}' => v.push((c as u32 & 0xff) as u8),
            c => v.extend(c.encode_utf8(&mut [0; 4]).bytes()),
        }
    }
    v
}

/// Percent-encoding for replay files: one token without blanks, never empty.
pub fn enc(s: &str) -> String {
    let mut r = String::from("'");
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' {
            r.push(b as char);
        } else {
            r += &format!("%{:02x}", b);
        }
    }
    r
}
pub fn dec(s: &str) -> String {
    let b = s.strip_prefix('\'').unwrap_or(s).as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let Ok(v) = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("zz"), 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// How a simulated execution ended.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum End {
    /// It ended by itself, with this status.
    Exit(i32),
    /// A signal it brought on itself (abort, segmentation fault).
    Signal(i32),
    /// The simulator killed it: an injected crash.
    Killed,
    /// The observation limit was reached.
    Stopped,
    /// It died of SIGPIPE because it has not asked to ignore it.
    Sigpipe,
    /// It exceeded its step budget (allocations, writes or, for loops without either, CPU time).
    Hang(&'static str),
}

impl End {
    pub fn ok(self) -> bool {
        self == End::Exit(0)
    }
    /// An orderly end chosen by the program: not a panic, an abort or a hang.
    pub fn orderly(self) -> bool {
        matches!(self, End::Exit(c) if c != 101 && c < 128)
    }
}

pub const EFFECTS: [&str; 9] = [
    "opened a file for writing", "changed the file system", "started a process", "used the network", "sent a signal to another process",
    "consumed standard input", "changed the state of a shared file or terminal", "changed the system", "left a shared file locked",
];

pub const N_FAULTS: usize = 18;
pub const FAULTS: [&str; N_FAULTS] = [
    "short_write", "interrupted_write(EINTR)", "sink_full_or_broken", "write_error_once", "stalled_write", "process_killed",
    "partial_write_then_error", "allocation_failed", "memory_limit_hit", "getrandom_EINTR",
    "getrandom_EINVAL", "write_returned_zero", "blocked_on_full_pipe", "environment_variable_made_up",
    "file_or_input_made_up", "clock_jump", "thread_preempted", "signal",
];

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub trace: u64,
    pub n_events: u64,
    pub sim_time: u64,
    pub calls: [u64; 2],
    pub allocs: u64,
    pub peak: u64,
    pub after_fail_writes: u64,
    pub after_fail_allocs: u64,
    pub first_out_allocs: u64,
    pub fired: [u64; N_FAULTS],
    pub random_calls: u64,
    pub threads: u64,
    pub out_failed: u64,
    /// What it tried to do to the world around it; one bit for each of EFFECTS.
    pub effects: u64,
    pub signals: u64,
    pub after_sig_writes: u64,
    pub after_sig_allocs: u64,
    pub log: Vec<(u32, u32, i64, i64, u64)>,
}

/// Step budgets: how much one execution may do before it counts as hanging.
#[derive(Clone, Copy)]
pub struct Budget {
    pub allocs: u64,
    pub writes: u64,
    pub cpu_ms: u64,
}
impl Default for Budget {
    fn default() -> Budget {
        Budget { allocs: 30_000_000, writes: 600_000, cpu_ms: 20_000 }
    }
}

const SPEC_WORDS: usize = 31;
const HEAD_WORDS: usize = 44;

pub struct Zygote {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// What an interactive execution is waiting for.
pub enum Pending {
    Write(u32, Vec<u8>),
    Done(Box<Outcome>),
}

#[derive(Clone)]
pub struct Paths {
    /// The directory of the builds.
    pub builds: PathBuf,
    pub world: PathBuf,
}

/// An error of the harness, never of the program under test.
pub fn harness_error(what: &str) -> ! {
    eprintln!("ripsim: harness error: {}", what);
    std::process::exit(3)
}

extern "C" {
    fn personality(persona: std::ffi::c_ulong) -> std::ffi::c_int;
}

impl Zygote {
    pub fn start(paths: &Paths, profile: Profile) -> Zygote {
        let exe = &paths.builds.join(format!("ripcalc-{}", profile.name()));
        let mut cmd = Command::new(exe);
        unsafe {
            // no address space randomisation: addresses are then the same in every simulated execution
            cmd.pre_exec(|| {
                personality(0x004_0000);
                Ok(())
            });
        }
        let mut child = cmd
            .env_clear()
            .env("LD_PRELOAD", &paths.world)
            .env("RIPSIM_ZYGOTE", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("cannot start {:?}: {}", exe, e)));
        let to = child.stdin.take().unwrap();
        let from = child.stdout.take().unwrap();
        let mut z = Zygote { child, to, from };
        let hello = z.words(2);
        if hello[0] != 0x52_4950_5349 || hello[1] != 8 * SPEC_WORDS as u64 {
            harness_error("the simulated world did not come up");
        }
        z
    }

    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        if let Err(e) = self.from.read_exact(&mut v) {
            harness_error(&format!("lost the zygote: {}", e));
        }
        v
    }
    fn words(&mut self, n: usize) -> Vec<u64> {
        self.bytes(8 * n).chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    }

    pub fn begin(&mut self, w: &World, args: &[String], mut b: Budget, interactive: bool, log: bool) {
        if w.max_chunk.iter().chain(&w.eintr_every).any(|v| *v != 0) {
            // a device that takes a byte at a time and interrupts needs many calls for an honest answer
            b.writes *= 12;
        }
        if w.deep {
            b = Budget { allocs: b.allocs * 10, writes: b.writes * 70, cpu_ms: b.cpu_ms * 10 };
        }
        let mut blob: Vec<u8> = Vec::new();
        for a in std::iter::once(&w.argv0).chain(args).chain(&w.env) {
            blob.extend(raw_bytes(a));
            blob.push(0);
        }
        while blob.len() % 8 != 0 {
            blob.push(0);
        }
        for s in &w.script {
            let (action, arg) = match s.action {
                Action::Short(n) => (1, n),
                Action::Errno(e) => (2, e),
                Action::Stall(n) => (3, n),
                Action::Kill => (4, 0),
                Action::PartialKill(n) => (5, n),
                Action::PartialErrno(n, e) => (6, (n << 16) | e),
                Action::Zero => (7, 0),
                Action::Signal(n) => (8, n),
            };
            for v in [s.fd, s.call, action, arg] {
                blob.extend(v.to_le_bytes());
            }
        }
        let flags = u64::from(w.tty[1])
            | u64::from(w.tty[2]) << 1
            | u64::from(interactive) << 2
            | u64::from(log) << 3
            | u64::from(w.tty[0]) << 4
            | u64::from(w.rnd_eintr) << 5
            | u64::from(w.rnd_einval) << 6
            | u64::from(w.alloc_sticky) << 7
            | u64::from(w.merged) << 8
            | u64::from(w.deep) << 9;
        let spec: [u64; SPEC_WORDS] = [
            flags, w.hash_seed, w.max_chunk[0], w.max_chunk[1], w.eintr_every[0], w.eintr_every[1],
            w.cap[0], w.cap[1], w.cap_errno[0], w.cap_errno[1], w.cap_fails[0], w.cap_fails[1],
            w.kill_at, w.stop_at, w.alloc_fail_at, w.mem_limit, b.allocs, b.writes,
            w.stall_us[0], w.stall_us[1], b.cpu_ms, w.start_time, w.env_ask, w.sched, w.clock_step,
            if w.sig_alloc == 0 { 0 } else { w.sig_alloc << 8 | w.sig_no & 255 }, w.sig_ign,
            args.len() as u64 + 1, w.env.len() as u64, w.script.len() as u64, blob.len() as u64,
        ];
        let mut msg = Vec::with_capacity(8 * SPEC_WORDS + blob.len());
        for v in spec {
            msg.extend(v.to_le_bytes());
        }
        msg.extend(blob);
        if let Err(e) = self.to.write_all(&msg).and_then(|_| self.to.flush()) {
            harness_error(&format!("lost the zygote: {}", e));
        }
    }

    pub fn wait(&mut self) -> Pending {
        let mut early = Vec::new();
        let mut head = self.words(3);
        while head[0] == 3 {
            early.extend(self.bytes(head[2] as usize));
            head = self.words(3);
        }
        if head[0] == 1 {
            let data = self.bytes(head[2] as usize);
            return Pending::Write(head[1] as u32, data);
        }
        if head[0] != 2 {
            harness_error("garbled answer from the zygote");
        }
        let status = head[1] as i32;
        let h = self.words(HEAD_WORDS);
        let mut out = self.bytes(h[0] as usize);
        if !early.is_empty() {
            early.append(&mut out);
            out = early;
        }
        let err = self.bytes(h[1] as usize);
        let mut log = Vec::new();
        for _ in 0..head[2] {
            let e = self.bytes(32);
            let q = |i: usize| u64::from_le_bytes(e[i..i + 8].try_into().unwrap());
            let d = |i: usize| u32::from_le_bytes(e[i..i + 4].try_into().unwrap());
            log.push((d(0), d(4), q(8) as i64, q(16) as i64, q(24)));
        }
        let end = match h[4] {
            1 => End::Killed,
            2 => End::Stopped,
            3 => End::Hang("allocation budget"),
            4 => End::Hang("write budget"),
            5 => End::Sigpipe,
            6 => End::Hang("deadlock"),
            _ if status & 0x7f == 0 => End::Exit((status >> 8) & 0xff),
            _ if status & 0x7f == 27 => End::Hang("CPU limit"),
            _ if status & 0x7f == 14 => End::Hang("threads waiting for each other"),
            _ => End::Signal(status & 0x7f),
        };
        let mut fired = [0; N_FAULTS];
        fired.copy_from_slice(&h[15..15 + N_FAULTS]);
        let h2 = &h[15 + N_FAULTS..];
        Pending::Done(Box::new(Outcome {
            end,
            out,
            err,
            n_events: h[2],
            trace: h[3] ^ crate::rng::mix(status as u64, h[4]),
            sim_time: h[5],
            calls: [h[6], h[7]],
            allocs: h[8],
            peak: h[10],
            after_fail_writes: h[11],
            after_fail_allocs: h[12],
            first_out_allocs: h[13],
            fired,
            random_calls: h2[0],
            threads: h2[2],
            out_failed: h2[4],
            effects: h2[6],
            signals: h2[7],
            after_sig_writes: h2[8],
            after_sig_allocs: h2[9],
            log,
        }))
    }

    /// Lets a pending write return: a byte count, a negated errno, or the kill code.
    pub fn answer(&mut self, result: i64, stall_us: i64) {
        let mut m = result.to_le_bytes().to_vec();
        m.extend(stall_us.to_le_bytes());
        if let Err(e) = self.to.write_all(&m).and_then(|_| self.to.flush()) {
            harness_error(&format!("lost the zygote: {}", e));
        }
    }

    pub fn run(&mut self, w: &World, args: &[String], b: Budget, log: bool) -> Outcome {
        self.begin(w, args, b, false, log);
        match self.wait() {
            Pending::Done(o) => *o,
            Pending::Write(..) => harness_error("unexpected interactive write"),
        }
    }
}

pub const KILL: i64 = -1_000_000;

/// What a worker has seen; merged over all workers for the evidence.
#[derive(Clone, Default)]
pub struct Stats {
    pub runs: u64,
    pub fired: [u64; N_FAULTS],
    pub runs_with: [u64; N_FAULTS],
    pub sim_us: u64,
    pub events: u64,
    pub traces: std::collections::HashSet<u64>,
    pub ends: BTreeMap<String, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub bytes_out: u64,
    pub threads: u64,
    pub writes: u64,
    pub random_calls: u64,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        for i in 0..N_FAULTS {
            self.fired[i] += o.fired[i];
            self.runs_with[i] += o.runs_with[i];
        }
        self.sim_us += o.sim_us;
        self.events += o.events;
        self.traces.extend(o.traces);
        for (k, v) in o.ends {
            *self.ends.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.bytes_out += o.bytes_out;
        self.threads += o.threads;
        self.writes += o.writes;
        self.random_calls += o.random_calls;
    }
}

/// One worker's machine park.
pub struct Sim {
    pub paths: Paths,
    zygotes: BTreeMap<(Profile, usize), Zygote>,
    pub stats: Stats,
    pub budget: Budget,
    /// When set, every run's event log is kept here (for replay files and determinism checks).
    pub keep_logs: bool,
    pub logs: Vec<String>,
    /// Self-test: answers are damaged before anyone sees them, to find out whether anyone notices.
    pub damage: Option<crate::rng::Rng>,
    pub damaged: u64,
    /// Undisturbed executions of the case at hand, which need not be repeated.
    recent: std::collections::VecDeque<(World, Vec<String>, Outcome)>,
}

impl Sim {
    pub fn new(paths: Paths) -> Sim {
        Sim {
            paths,
            zygotes: BTreeMap::new(),
            stats: Stats::default(),
            budget: Budget::default(),
            keep_logs: false,
            logs: Vec::new(),
            damage: None,
            damaged: 0,
            recent: Default::default(),
        }
    }
    pub fn zygote(&mut self, p: Profile, i: usize) -> &mut Zygote {
        let paths = self.paths.clone();
        self.zygotes.entry((p, i)).or_insert_with(|| Zygote::start(&paths, p))
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.stats.probes.entry(name).or_insert(0) += 1;
    }
    pub fn run(&mut self, w: &World, args: &[String]) -> Outcome {
        let (b, log) = (self.budget, self.keep_logs);
        let keep = !log && self.damage.is_none() && *w == w.calm();
        if keep {
            if let Some((_, _, o)) = self.recent.iter().find(|(v, a, _)| v == w && a == args) {
                return o.clone();
            }
        }
        let mut o = self.zygote(w.profile, 0).run(w, args, b, log);
        if keep && o.out.len() < 1 << 20 {
            self.recent.truncate(7);
            self.recent.push_front((w.clone(), args.to_vec(), o.clone()));
        }
        if let Some(r) = &mut self.damage {
            self.damaged += u64::from(do_damage(r, &mut o));
        }
        self.note(w, args, &o);
        o
    }
    pub fn note(&mut self, w: &World, args: &[String], o: &Outcome) {
        let s = &mut self.stats;
        s.runs += 1;
        for i in 0..N_FAULTS {
            s.fired[i] += o.fired[i];
            s.runs_with[i] += u64::from(o.fired[i] > 0);
        }
        s.sim_us += o.sim_time;
        s.events += o.n_events;
        s.bytes_out += o.out.len() as u64;
        s.threads += o.threads;
        s.writes += o.calls[0] + o.calls[1];
        s.random_calls += o.random_calls;
        s.traces.insert(o.trace);
        *s.ends.entry(format!("{:?}", o.end)).or_insert(0) += 1;
        if self.keep_logs {
            let mut t = format!("run args={:?} world {}\n", args, w.to_text());
            for (kind, fd, req, res, at) in &o.log {
                let name = ["?", "write", "getrandom", "isatty", "kill", "alloc-fail", "clock", "sleep", "thread", "deadlock", "environment", "file", "switch", "signal", "effect"]
                    .get(*kind as usize)
                    .unwrap_or(&"?");
                t += &format!("  t={}us {}({}, {}) -> {}\n", at, name, fd, req, res);
            }
            t += &format!(
                "  end={:?} stdout={} bytes (hash {:016x}) stderr={} bytes (hash {:016x}) allocs={} trace={:016x}\n",
                o.end, o.out.len(), crate::rng::hash_bytes(7, &o.out), o.err.len(), crate::rng::hash_bytes(7, &o.err), o.allocs, o.trace
            );
            self.logs.push(t);
        }
    }
}

fn do_damage(r: &mut crate::rng::Rng, o: &mut Outcome) -> bool {
    if o.out.is_empty() {
        return false;
    }
    let before = (o.out.clone(), o.end);
    let mut lines: Vec<Vec<u8>> = o.out.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    let i = r.idx(o.out.len());
    let l = r.idx(lines.len());
    match r.below(8) {
        0 => o.out[i] = *r.pick(b"0123456789abcdef:./\n x-\xff"),
        1 => {
            o.out.remove(i);
        }
        2 => o.out.insert(i, *r.pick(b"0123456789abcdef:./\n x-\xff")),
        3 => {
            lines.remove(l);
            o.out = lines.concat();
        }
        4 => {
            let x = lines[l].clone();
            lines.insert(r.idx(lines.len()), x);
            o.out = lines.concat();
        }
        5 => {
            let m = r.idx(lines.len());
            lines.swap(l, m);
            o.out = lines.concat();
        }
        6 => o.out.truncate(i),
        _ => o.end = if o.end.ok() { End::Exit(*r.pick(&[1, 101, 2])) } else { End::Exit(0) },
    }
    before != (o.out.clone(), o.end)
}
