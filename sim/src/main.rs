#![feature(formatting_options)]
#![allow(stable_features)]
//! Deterministic simulation of colorz: command line, run isolation, replay and
//! minimisation.  See /verif/DESIGN.md.

mod csstab;
mod exec;
mod gen;
mod model;
mod oracle;
mod plan;

use plan::*;
use simrt::{mix, Outcome, Policy, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

// ---------------------------------------------------------------- allocator

/// Fails every allocation of library code while armed.
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if simrt::alloc_armed() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if simrt::alloc_armed() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

// ------------------------------------------------------------- child process

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn close(fd: i32) -> i32;
}

const SHM: usize = 4 << 20;
struct Shm(*mut u8);
impl Shm {
    fn new() -> Shm {
        let p = unsafe { mmap(std::ptr::null_mut(), SHM, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Shm(p)
    }
    fn put(&self, b: &[u8]) {
        let n = b.len().min(SHM - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), n);
            (self.0 as *mut u64).write_volatile(n as u64);
        }
    }
    fn reset(&self) {
        unsafe { (self.0 as *mut u64).write_volatile(u64::MAX) }
    }
    fn get(&self) -> Option<Vec<u8>> {
        unsafe {
            let n = (self.0 as *const u64).read_volatile();
            if n == u64::MAX {
                return None;
            }
            Some(std::slice::from_raw_parts(self.0.add(8), n as usize).to_vec())
        }
    }
}

const COUNTERS: &[&str] = &[
    "judged",
    "hash",
    "steps",
    "context_switches",
    "switches_inside_calls",
    "stale_reads",
    "lost_threads",
    "getenv_calls",
    "isatty_calls",
    "atomic_operations",
    "futex_waits",
    "destination_errors",
    "torn_writes",
    "short_writes",
    "eintr",
    "destination_panics",
    "value_errors",
    "value_panics",
    "calls_while_unwinding",
    "reentrant_calls",
    "environment_changes",
    "terminal_changes",
    "calls_with_failing_allocator",
    "max_steps_of_a_call",
    "stuck",
    "calls",
    "repeated_calls",
    "clock_reads",
    "simulated_ms",
];
const C_JUDGED: usize = 0;
const C_HASH: usize = 1;

#[derive(Default, Clone)]
struct Out {
    c: Vec<u64>,
    class: String,
    msg: String,
    tape: Vec<u32>,
    trace: String,
}

impl Out {
    fn encode(&self) -> Vec<u8> {
        let mut b = vec![];
        let mut blob = |x: &[u8]| {
            b.extend_from_slice(&(x.len() as u32).to_le_bytes());
            b.extend_from_slice(x);
        };
        blob(&self.c.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        blob(self.class.as_bytes());
        blob(self.msg.as_bytes());
        blob(&self.tape.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        blob(self.trace.as_bytes());
        b
    }
    fn decode(b: &[u8]) -> Out {
        let mut at = 0;
        let mut blob = || {
            let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            at += 4 + n;
            b[at - n..at].to_vec()
        };
        let c = blob().chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
        let class = String::from_utf8_lossy(&blob()).into();
        let msg = String::from_utf8_lossy(&blob()).into();
        let tape = blob().chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
        let trace = String::from_utf8_lossy(&blob()).into();
        Out { c, class, msg, tape, trace }
    }
}

struct How {
    seed: u64,
    policy: Policy,
    stale_pct: u32,
    tape: Option<Vec<u32>>,
    log: bool,
}

fn child(prop: &str, plan: &Plan, how: &How) -> Out {
    simrt::init(simrt::RunCfg {
        seed: how.seed,
        policy: how.policy,
        weak: plan.weak,
        stale_pct: how.stale_pct,
        tape: how.tape.clone(),
        log: how.log,
    });
    exec::setup(plan);
    let outcome = exec::run(plan, prop == "C13");
    let w = exec::world();
    let st = simrt::stats();
    let tape = simrt::tape();
    let hash = simrt::hash();
    let events = simrt::events();
    let nrecs = w.recs.len();
    let ctx = oracle::Ctx::new(plan, w, outcome);
    let v = ctx.judge(prop);
    let (class, msg) = v.bad.unwrap_or_default();
    let f = &w.f;
    let stuck = !matches!(outcome, Outcome::Finished) as u64;
    let c = [
        v.judged as u64,
        hash,
        st.yields as u64,
        st.switches as u64,
        st.inner_switches as u64,
        st.stale_reads as u64,
        st.stalls as u64,
        st.getenvs as u64,
        st.isattys as u64,
        st.atomics as u64,
        st.futex_waits as u64,
        f.sink_errors as u64,
        f.torn_writes as u64,
        f.short_writes as u64,
        f.eintr as u64,
        f.sink_panics as u64,
        f.value_errors as u64,
        f.value_panics as u64,
        f.calls_unwinding as u64,
        f.reentrant_calls as u64,
        f.env_changes as u64,
        f.tty_changes as u64,
        f.armed_calls as u64,
        st.max_op_steps as u64,
        stuck,
        nrecs as u64,
        f.muted_calls as u64,
        st.clock_reads as u64,
        simrt::clock() / 1_000_000,
    ]
    .to_vec();
    let mut trace = String::new();
    if how.log {
        for e in events {
            writeln!(trace, "{:4} T{} {:?} {}", e.seq, e.tid, e.kind, e.arg).unwrap();
        }
        for r in &w.recs[..nrecs] {
            let who = match r.task {
                exec::PRE => "before".to_string(),
                exec::POST => "after".to_string(),
                t => format!("T{t}"),
            };
            writeln!(
                trace,
                "[{}..{}] {who}{}: {} => {:?}{}",
                r.s,
                r.e,
                if r.parent.is_some() { " (nested)" } else { "" },
                describe(&r.op),
                r.res,
                if r.writes.is_empty() { String::new() } else { format!(" wrote {:?}", oracle::show(&r.out)) }
            )
            .unwrap();
        }
    }
    Out { c, class, msg, tape, trace }
}

/// One run in a process of its own.
fn isolated(shm: &Shm, f: &dyn Fn() -> Out) -> Out {
    for attempt in 0.. {
        shm.reset();
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                // aborts and panics of the code under test stay quiet
                close(2);
                setitimer(2, &[0, 0, 20, 0], std::ptr::null_mut());
                alarm(120);
                let o = f();
                shm.put(&o.encode());
                _exit(0);
            }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if let Some(b) = shm.get() {
            return Out::decode(&b);
        }
        let sig = st & 127;
        // a wall-clock alarm must repeat before it counts
        if sig == 14 && attempt == 0 {
            continue;
        }
        let mut o = Out {
            c: vec![0; COUNTERS.len()],
            ..Default::default()
        };
        o.class = "crash".into();
        o.msg = match sig {
            6 => "the process aborted inside the library".into(),
            11 => "the process crashed (SIGSEGV) inside the library".into(),
            27 => "a call kept the processor busy without finishing".into(),
            14 => "a call waits outside of the simulator's control".into(),
            _ => {
                o.class = "harness".into();
                format!("the simulator itself ended with status {st:#x}")
            }
        };
        return o;
    }
    unreachable!()
}

fn run_plan(shm: &Shm, prop: &str, plan: &Plan, how: &How) -> Out {
    isolated(shm, &|| child(prop, plan, how))
}

/// The plan and schedule of a seed.
fn of_seed(prop: &str, seed: u64) -> (Plan, How) {
    let mut r = Rng::new(seed);
    let plan = gen::plan(prop, &mut r);
    let s = gen::sched(&mut r);
    (
        plan,
        How {
            seed: mix(seed, 1),
            policy: s.policy,
            stale_pct: s.stale_pct,
            tape: None,
            log: false,
        },
    )
}

fn config() -> String {
    let mut v = vec![];
    if oracle::STD {
        v.push("std");
    }
    if oracle::SC {
        v.push("supports-color");
    }
    if oracle::STRIP {
        v.push("strip-colors");
    }
    if v.is_empty() {
        "none".into()
    } else {
        v.join("+")
    }
}

// -------------------------------------------------------------- minimisation

struct Shrinker<'a> {
    shm: &'a Shm,
    prop: &'a str,
    class: String,
    t0: Instant,
    secs: u64,
    tries: u32,
}

impl Shrinker<'_> {
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs() >= self.secs
    }
    fn with_tape(&mut self, p: &Plan, tape: &[u32]) -> Option<Vec<u32>> {
        self.tries += 1;
        let how = How {
            seed: 0,
            policy: Policy::Random(0),
            stale_pct: 0,
            tape: Some(tape.to_vec()),
            log: false,
        };
        let o = run_plan(self.shm, self.prop, p, &how);
        (o.class == self.class).then_some(if o.tape.is_empty() { tape.to_vec() } else { o.tape })
    }
    /// still failing, on the same tape or on some schedule nearby?
    fn fails(&mut self, p: &Plan, tape: &[u32]) -> Option<Vec<u32>> {
        if let Some(t) = self.with_tape(p, tape) {
            return Some(t);
        }
        if let Some(t) = self.with_tape(p, &[]) {
            return Some(t);
        }
        for i in 0..8 {
            if self.over() {
                return None;
            }
            self.tries += 1;
            let mut r = Rng::new(mix(0x51ed, i));
            let s = gen::sched(&mut r);
            let how = How {
                seed: i,
                policy: s.policy,
                stale_pct: s.stale_pct,
                tape: None,
                log: false,
            };
            let o = run_plan(self.shm, self.prop, p, &how);
            if o.class == self.class {
                return Some(o.tape);
            }
        }
        None
    }

    fn minimise(&mut self, mut p: Plan, mut tape: Vec<u32>) -> (Plan, Vec<u32>) {
        macro_rules! attempt {
            ($q:expr) => {{
                let q: Plan = $q;
                match self.fails(&q, &tape) {
                    Some(t) => {
                        p = q;
                        tape = t;
                        true
                    }
                    None => false,
                }
            }};
        }
        loop {
            let before = (p.to_text(), tape.len());
            // whole tasks, then single operations
            let mut i = 0;
            while i < p.tasks.len() && !self.over() {
                let mut q = p.clone();
                q.tasks.remove(i);
                if !attempt!(q) {
                    i += 1;
                }
            }
            for list in 0..p.tasks.len() + 2 {
                let mut i = 0;
                loop {
                    let mut q = p.clone();
                    let n = q.tasks.len();
                    let ops = match list {
                        0 => &mut q.pre,
                        1 => &mut q.post,
                        l if l - 2 < n => &mut q.tasks[l - 2].ops,
                        _ => break,
                    };
                    if i >= ops.len() || self.over() {
                        break;
                    }
                    ops.remove(i);
                    if !attempt!(q) {
                        i += 1;
                    }
                }
            }
            // lost threads
            for i in 0..p.tasks.len() {
                if p.tasks[i].stall != 0 && !self.over() {
                    let mut q = p.clone();
                    q.tasks[i].stall = 0;
                    if !attempt!(q) {
                        let mut q = p.clone();
                        q.tasks[i].stall /= 2;
                        if q.tasks[i].stall > 0 {
                            attempt!(q);
                        }
                    }
                }
            }
            for i in 0..p.tasks.len() {
                if p.tasks[i].exit != 0 && !self.over() {
                    let mut q = p.clone();
                    q.tasks[i].exit = 0;
                    attempt!(q);
                }
            }
            // environment
            for i in 0..p.env.len() {
                if p.env[i] != 0 && !self.over() {
                    let mut q = p.clone();
                    q.env[i] = 0;
                    attempt!(q);
                }
            }
            for i in 0..2 {
                if p.tty[i] && !self.over() {
                    let mut q = p.clone();
                    q.tty[i] = false;
                    attempt!(q);
                }
            }
            if p.stdin && !self.over() {
                let mut q = p.clone();
                q.stdin = false;
                attempt!(q);
            }
            if p.weak && self.prop != "C04" && !self.over() {
                let mut q = p.clone();
                q.weak = false;
                attempt!(q);
            }
            // fields of operations
            for list in 0..p.tasks.len() + 2 {
                let n = match list {
                    0 => p.pre.len(),
                    1 => p.post.len(),
                    l => p.tasks[l - 2].ops.len(),
                };
                for i in 0..n {
                    for fld in 0..NF {
                        loop {
                            let mut q = p.clone();
                            let o = match list {
                                0 => &mut q.pre[i],
                                1 => &mut q.post[i],
                                l => &mut q.tasks[l - 2].ops[i],
                            };
                            if o.a[fld] == 0 || self.over() {
                                break;
                            }
                            let old = o.a[fld];
                            o.a[fld] = 0;
                            if attempt!(q.clone()) {
                                break;
                            }
                            if old < 2 {
                                break;
                            }
                            let o = match list {
                                0 => &mut q.pre[i],
                                1 => &mut q.post[i],
                                l => &mut q.tasks[l - 2].ops[i],
                            };
                            o.a[fld] = old / 2;
                            if !attempt!(q) {
                                break;
                            }
                        }
                    }
                }
            }
            // the schedule: shorter, then quieter
            while tape.last() == Some(&0) {
                tape.pop();
            }
            let mut cut = tape.len() / 2;
            while cut > 0 && !self.over() {
                let mut start = 0;
                while start < tape.len() && !self.over() {
                    let mut t = tape.clone();
                    for x in t.iter_mut().skip(start).take(cut) {
                        *x = 0;
                    }
                    if t != tape && self.with_tape(&p, &t).is_some() {
                        tape = t;
                    }
                    start += cut;
                }
                cut /= 2;
            }
            while tape.last() == Some(&0) {
                tape.pop();
            }
            if self.over() || before == (p.to_text(), tape.len()) {
                break;
            }
        }
        // whatever was tried last, the pair must fail
        (p, tape)
    }
}

// ----------------------------------------------------------------- commands

fn replay_text(prop: &str, seed: u64, p: &Plan, tape: &[u32], o: &Out, tries: u32) -> String {
    let mut s = String::from("colorz-simulation-replay 1\n");
    writeln!(s, "property {prop}").unwrap();
    writeln!(s, "config {}", config()).unwrap();
    writeln!(s, "seed {seed} # minimised in {tries} runs").unwrap();
    s += &p.to_text();
    write!(s, "tape").unwrap();
    for t in tape {
        write!(s, " {t}").unwrap();
    }
    writeln!(s, "\nclass {}", o.class).unwrap();
    writeln!(s, "violation {}", o.msg.replace('\n', "\\n")).unwrap();
    writeln!(s, "--- trace").unwrap();
    s += &o.trace;
    s
}

fn cmd_shrink(prop: &str, seed: u64, file: &str, secs: u64) {
    let shm = Shm::new();
    let (plan, how) = of_seed(prop, seed);
    let first = run_plan(&shm, prop, &plan, &how);
    if first.class.is_empty() {
        println!("seed {seed} does not fail");
        std::process::exit(3);
    }
    let mut s = Shrinker {
        shm: &shm,
        prop,
        class: first.class.clone(),
        t0: Instant::now(),
        secs,
        tries: 0,
    };
    // a crashed run reports no tape: find one that fails
    let start = if first.tape.is_empty() { s.fails(&plan, &[]) } else { Some(first.tape.clone()) };
    let (p, tape, o) = match start {
        Some(t) if s.with_tape(&plan, &t).is_some() => {
            let (p, tape) = s.minimise(plan.clone(), t);
            (p, Some(tape), ())
        }
        _ => (plan.clone(), None, ()),
    };
    let _ = o;
    let how2 = How {
        seed: how.seed,
        policy: how.policy,
        stale_pct: how.stale_pct,
        tape: tape.clone(),
        log: true,
    };
    let last = run_plan(&shm, prop, &p, &how2);
    let mut text = replay_text(prop, seed, &p, tape.as_deref().unwrap_or(&[]), &last, s.tries);
    if tape.is_none() {
        text = text.replace("\ntape\n", "\ntape-of-seed\n");
    }
    std::fs::write(file, text).unwrap();
    println!("class {}", last.class);
    println!("violation {}", last.msg);
}

fn cmd_replay(file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    let head = text.split("\n--- trace").next().unwrap();
    let get = |k: &str| head.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").split(" #").next().unwrap().trim().to_string();
    let prop = get("property ");
    if get("config ") != config() {
        println!("this replay is for the configuration {}, this is {}", get("config "), config());
        std::process::exit(4);
    }
    let seed: u64 = get("seed ").parse().unwrap();
    let plan = Plan::from_text(head);
    let (_, mut how) = of_seed(&prop, seed);
    if !head.contains("\ntape-of-seed") {
        how.tape = Some(get("tape").split_whitespace().map(|x| x.parse().unwrap()).collect());
    }
    how.log = true;
    let shm = Shm::new();
    let o = run_plan(&shm, &prop, &plan, &how);
    print!("{}", o.trace);
    println!("class {}", o.class);
    println!("violation {}", o.msg);
    println!("hash {:x}", o.c[C_HASH]);
    let same = o.class == get("class ");
    std::process::exit(if o.class.is_empty() {
        0
    } else if same {
        1
    } else {
        5
    });
}

fn cmd_batch(prop: &str, base: u64, start: u64, end: u64, step: u64, secs: u64, hashes: &str) {
    let shm = Shm::new();
    let t0 = Instant::now();
    let mut sum = vec![0u64; COUNTERS.len()];
    let mut runs = 0u64;
    let mut nontrivial = HashSet::new();
    let mut distinct = HashSet::new();
    let mut viol: Option<(u64, u64, Out)> = None;
    let mut with_fault = 0u64;
    let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut idx = start;
    while idx < end {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let seed = mix(base, idx);
        let (plan, how) = of_seed(prop, seed);
        for o in plan.each_op() {
            *kinds.entry(KINDS[o.k as usize].1).or_default() += 1;
        }
        let o = run_plan(&shm, prop, &plan, &how);
        runs += 1;
        for (i, x) in o.c.iter().enumerate() {
            if COUNTERS[i].starts_with("max") {
                sum[i] = sum[i].max(*x);
            } else if i != C_HASH {
                sum[i] += x;
            }
        }
        if !o.class.is_empty() {
            viol = Some((idx, seed, o));
            break;
        }
        let faults: u64 = [5, 6, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21].iter().map(|i| o.c[*i]).sum();
        if faults > 0 {
            with_fault += 1;
        }
        let h = mix(o.c[C_HASH], fnv(plan.to_text().as_bytes()));
        distinct.insert(h);
        if o.c[C_JUDGED] > 0 && (o.c[4] > 0 || faults > 0) && nontrivial.insert(h) && samples.len() < 2 {
            samples.push((seed, plan.to_text()));
        }
        idx += step;
    }
    let b: Vec<u8> = nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(hashes, b).unwrap();
    // JSON, by hand
    let esc = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let mut j = String::from("{");
    write!(j, "\"runs\":{runs},\"distinct\":{},\"with_fault\":{with_fault},\"next\":{idx},\"secs\":{:.3},", distinct.len(), t0.elapsed().as_secs_f64()).unwrap();
    write!(j, "\"config\":{},\"counters\":{{", esc(&config())).unwrap();
    for (i, c) in COUNTERS.iter().enumerate().filter(|x| x.0 != C_HASH) {
        write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, esc(c), sum[i]).unwrap();
    }
    j.push_str("},\"operations\":{");
    for (i, (k, n)) in kinds.iter().enumerate() {
        write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), n).unwrap();
    }
    j.push_str("},\"samples\":[");
    for (i, (s, t)) in samples.iter().enumerate() {
        write!(j, "{}{}", if i > 0 { "," } else { "" }, esc(&format!("seed {s}\n{t}"))).unwrap();
    }
    j.push(']');
    if let Some((i, seed, o)) = viol {
        write!(j, ",\"violation\":{{\"index\":{i},\"seed\":{seed},\"class\":{},\"msg\":{}}}", esc(&o.class), esc(&o.msg)).unwrap();
    }
    j.push('}');
    println!("{j}");
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

/// Event hashes of runs: for the determinism self-test.
fn cmd_hashes(prop: &str, base: u64, n: u64) {
    let shm = Shm::new();
    for i in 0..n {
        let seed = mix(base, i);
        let (plan, mut how) = of_seed(prop, seed);
        let o = run_plan(&shm, prop, &plan, &how);
        how.tape = Some(o.tape.clone());
        let o2 = run_plan(&shm, prop, &plan, &how);
        println!("{i} {:x} {:x} {} {}", o.c[C_HASH], fnv(&o.encode()), (o.encode() == o2.encode()) as u8, o.class);
    }
}

/// The sequences of a fixed list of styles and colors in a fresh process.
fn cmd_digest(prop: &str) {
    let shm = Shm::new();
    let o = isolated(&shm, &|| {
        let mut s = String::new();
        simrt::init(simrt::RunCfg {
            seed: 0,
            policy: Policy::Random(0),
            weak: false,
            stale_pct: 0,
            tape: None,
            log: false,
        });
        exec::setup(&Plan::new());
        let mut r = Rng::new(7);
        for i in 0..3000 {
            if prop == "C16" {
                let op = gen::digest_fmt(&mut r);
                for on in [0, 7] {
                    writeln!(s, "{} -> {}", describe(&op), oracle::show(&exec::reference(&op, on))).unwrap();
                }
                continue;
            }
            let op = gen::digest_op(&mut r, i);
            if op.k == K::EffText {
                exec::exec(&op, None);
                let rec = exec::world().recs.last().unwrap();
                writeln!(s, "{} -> {}", describe(&op), oracle::show(format!("{:?}", rec.res).as_bytes())).unwrap();
            } else {
                writeln!(s, "{} -> {}", describe(&op), oracle::show(&exec::reference(&op, 0))).unwrap();
            }
        }
        Out {
            c: vec![0; COUNTERS.len()],
            trace: s,
            ..Default::default()
        }
    });
    if !o.class.is_empty() {
        println!("crash {}", o.msg);
        return;
    }
    print!("{}", o.trace);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "batch" => cmd_batch(&a[2], n(3), n(4), n(5), n(6), n(7), &a[8]),
        "shrink" => cmd_shrink(&a[2], n(3), &a[4], n(5)),
        "replay" => cmd_replay(&a[2]),
        "show" => {
            let (p, how) = of_seed(&a[2], n(3));
            println!("{}{:?}", p.to_text(), how.policy);
        }
        "hashes" => cmd_hashes(&a[2], n(3), n(4)),
        "digest" => cmd_digest(&a[2]),
        "config" => println!("{}", config()),
        _ => panic!("usage"),
    }
}
