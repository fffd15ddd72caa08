//! The simulator runtime: one token, handed from task to task by a seeded
//! scheduler; a view-based memory model behind every atomic operation of the
//! instrumented crates; and the libc boundary (getenv, isatty, futex,
//! sched_yield) of the code under test.
//!
//! This crate is NOT instrumented.  All state in `Rt` is only touched by the
//! thread that holds the token, so it needs no locks.

use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering as O};

mod shims;
pub use shims::with_oracle_env;

pub type Tid = usize;

/// Own steps one library call may take before it counts as not finishing.
pub const OP_LIMIT: u32 = 200_000;
/// Steps a task runs without a switch before the scheduler forces one.
const FAIR_LIMIT: u32 = 400;

// ------------------------------------------------------------------ PRNG

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 32) * n as u64 >> 32) as u32
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u32) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize]
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

// ------------------------------------------------------------- run state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    TaskStart,
    OpStart,
    OpEnd,
    Load,
    Store,
    Rmw,
    Fence,
    Getenv,
    Isatty,
    Clock,
    Random,
    Output,
    Open,
    FutexWait,
    FutexWake,
    SchedYield,
    SinkWrite,
    ValueStep,
    EnvSet,
    TtySet,
    Stalled,
    TaskEnd,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    BlockedTimed(usize),
    Stalled,
    /// runs once everybody else is done or stopped
    Last,
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Running,
    /// every task that was not stopped finished
    Finished,
    /// some task waits and nobody is left who could wake it
    Deadlock(Tid),
    /// one call took more than OP_LIMIT own steps
    OpLimit(Tid),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// at each step switch with this percentage
    Random(u32),
    /// PCT: highest priority runs, priorities change at `n` random points
    Pct(u32),
    /// switch (with this percentage) only at atomics and libc calls
    Atomics(u32),
}

type View = Vec<u32>;

fn join(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        if *y > *x {
            *x = *y;
        }
    }
}
fn vget(v: &View, l: usize) -> u32 {
    v.get(l).copied().unwrap_or(0)
}
fn vset(v: &mut View, l: usize, x: u32) {
    if v.len() <= l {
        v.resize(l + 1, 0);
    }
    if x > v[l] {
        v[l] = x;
    }
}

struct Msg {
    val: u64,
    view: View,
}
struct Loc {
    addr: usize,
    msgs: Vec<Msg>,
}

#[derive(Default)]
struct Mem {
    cur: View,
    acq: View,
    rel: View,
}

struct Task {
    word: &'static AtomicU32,
    status: Status,
    mem: Mem,
    steps: u32,
    op_steps: u32,
    run_len: u32,
    stall_at: u32,
    prio: u32,
    woken: bool,
}

#[derive(Clone, Copy)]
pub struct Event {
    pub seq: u32,
    pub tid: u8,
    pub kind: Kind,
    pub arg: u32,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub switches: u32,
    /// switches in the middle of a call
    pub inner_switches: u32,
    pub yields: u32,
    pub stale_reads: u32,
    pub stalls: u32,
    pub getenvs: u32,
    pub isattys: u32,
    pub clock_reads: u32,
    pub atomics: u32,
    pub futex_waits: u32,
    pub max_op_steps: u32,
    pub forced_fair: u32,
}

pub struct RunCfg {
    pub seed: u64,
    pub policy: Policy,
    pub weak: bool,
    pub stale_pct: u32,
    /// replay: take decisions from here instead of from the PRNG
    pub tape: Option<Vec<u32>>,
    pub log: bool,
}

struct Rt {
    tasks: Vec<Task>,
    cur: Tid,
    running: bool,
    outcome: Outcome,
    rng: Rng,
    cfg: RunCfg,
    tape_pos: usize,
    tape_out: Vec<u32>,
    seq: u32,
    log: Vec<Event>,
    hash: u64,
    locs: Vec<Loc>,
    sc: View,
    main_mem: Mem,
    pct_points: Vec<u32>,
    env: Vec<(Vec<u8>, Option<&'static [u8]>)>,
    tty: [bool; 3],
    /// simulated time in ns, and what the wall clock was set by
    now: u64,
    skew: i64,
    entropy: u64,
    stats: Stats,
    main_word: &'static AtomicU32,
}

static mut RT: *mut Rt = std::ptr::null_mut();

const NONE: usize = usize::MAX;
const MAIN: usize = usize::MAX - 1;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static SUT: Cell<bool> = const { Cell::new(false) };
    static ALLOC_ARMED: Cell<bool> = const { Cell::new(false) };
}

/// What library code asks or does outside.
#[derive(Clone, Copy, Debug)]
pub enum Look<'a> {
    Env(&'a [u8]),
    Tty(i32),
    Clock,
    Write(i32),
    Open(&'a [u8]),
    SetEnv(&'a [u8]),
    Other(&'static str),
}
static mut LOOK: fn(Look<'_>) = |_| ();
/// `f` hears of everything library code does at the libc boundary.
pub fn on_look(f: fn(Look<'_>)) {
    unsafe { LOOK = f }
}

fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
fn active() -> bool {
    unsafe { !RT.is_null() }
}

/// the calling thread's task, if it is one and a run is in progress
fn me() -> usize {
    TID.with(|t| t.get())
}

// --------------------------------------------------------- SUT bracketing

/// Runs library code: atomics, getenv, isatty, futex and the allocator belong
/// to the simulator meanwhile.
pub fn enter_sut<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            SUT.with(|s| s.set(self.0));
        }
    }
    let _r = Restore(SUT.with(|s| s.replace(true)));
    f()
}

/// Runs harness code called back from library code.
pub fn leave_sut<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            SUT.with(|s| s.set(self.0));
        }
    }
    let _r = Restore(SUT.with(|s| s.replace(false)));
    f()
}

#[inline]
pub fn in_sut() -> bool {
    SUT.try_with(|s| s.get()).unwrap_or(false)
}

/// Arms the failing allocator for this thread's library code.
pub fn arm_alloc(on: bool) -> bool {
    ALLOC_ARMED.with(|a| a.replace(on))
}
#[inline]
pub fn alloc_armed() -> bool {
    ALLOC_ARMED.try_with(|a| a.get()).unwrap_or(false) && in_sut()
}

// ------------------------------------------------------------ raw parking

unsafe fn raw_syscall6(n: usize, a: [usize; 6]) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

fn park(w: &AtomicU32) {
    while w.load(O::Acquire) == 0 {
        unsafe { raw_syscall6(202, [w as *const _ as usize, 128, 0, 0, 0, 0]) };
    }
    w.store(0, O::Relaxed);
}
fn unpark(w: &AtomicU32) {
    w.store(1, O::Release);
    unsafe { raw_syscall6(202, [w as *const _ as usize, 129, 1, 0, 0, 0]) };
}

fn new_word() -> &'static AtomicU32 {
    Box::leak(Box::new(AtomicU32::new(0)))
}

// ------------------------------------------------------------------ tape

impl Rt {
    /// one decision among n; 0 is the quiet default
    fn decide(&mut self, n: u32, pick: impl FnOnce(&mut Rt) -> u32) -> u32 {
        debug_assert!(n >= 2);
        let x = match &self.cfg.tape {
            Some(t) => t.get(self.tape_pos).copied().unwrap_or(0).min(n - 1),
            None => pick(self),
        };
        self.tape_pos += 1;
        self.tape_out.push(x);
        x
    }

    fn event(&mut self, tid: usize, kind: Kind, arg: u32) {
        self.seq += 1;
        self.hash = mix(
            self.hash,
            (tid as u64) << 40 | (kind as u64) << 32 | arg as u64,
        );
        if self.cfg.log {
            self.log.push(Event {
                seq: self.seq,
                tid: if tid == MAIN { 255 } else { tid as u8 },
                kind,
                arg,
            });
        }
    }

    fn candidates(&self, cur_first: bool) -> Vec<Tid> {
        let mut v = Vec::new();
        if cur_first && self.tasks[self.cur].status == Status::Ready {
            v.push(self.cur);
        }
        for (i, t) in self.tasks.iter().enumerate() {
            if t.status == Status::Ready && (i != self.cur || !cur_first) {
                v.push(i);
            }
        }
        v
    }

    fn choose_next(&mut self, c: &[Tid], kind: Kind) -> usize {
        let policy = self.cfg.policy;
        let c2: Vec<Tid> = c.to_vec();
        let cur = self.cur;
        self.decide(c.len() as u32, move |rt| {
            let stay = c2[0] == cur;
            match policy {
                Policy::Random(p) => {
                    if stay && !rt.rng.pct(p) {
                        0
                    } else if stay {
                        1 + rt.rng.below(c2.len() as u32 - 1)
                    } else {
                        rt.rng.below(c2.len() as u32)
                    }
                }
                Policy::Atomics(p) => {
                    let hot = matches!(
                        kind,
                        Kind::Load | Kind::Store | Kind::Rmw | Kind::Fence | Kind::Getenv | Kind::Isatty | Kind::Clock
                    );
                    if stay && (!hot || !rt.rng.pct(p)) {
                        0
                    } else if stay {
                        1 + rt.rng.below(c2.len() as u32 - 1)
                    } else {
                        rt.rng.below(c2.len() as u32)
                    }
                }
                Policy::Pct(_) => {
                    let y = rt.stats.yields;
                    if rt.pct_points.contains(&y) {
                        let low = rt.tasks.iter().map(|t| t.prio).min().unwrap_or(1);
                        rt.tasks[cur].prio = low.saturating_sub(1);
                    }
                    let mut best = 0;
                    for (i, t) in c2.iter().enumerate() {
                        if rt.tasks[*t].prio > rt.tasks[c2[best]].prio {
                            best = i;
                        }
                    }
                    best as u32
                }
            }
        }) as usize
    }

    fn finish(&mut self, o: Outcome) {
        self.outcome = o;
        self.running = false;
        unpark(self.main_word);
    }
}

/// Gives the token to `next` and, unless this task is over, waits to get it back.
fn hand_over(my: Tid, next: Tid, wait: bool) {
    let r = rt();
    r.stats.switches += 1;
    r.cur = next;
    r.tasks[next].run_len = 0;
    let mine = r.tasks[my].word;
    unpark(r.tasks[next].word);
    if wait {
        park(mine);
    }
}

fn park_forever(my: Tid) -> ! {
    let w = rt().tasks[my].word;
    loop {
        park(w);
    }
}

/// This task cannot go on: pass the token to someone who can, or end the run.
fn yield_away(my: Tid, kind: Kind, wait: bool) {
    let r = rt();
    let c = r.candidates(false);
    if c.is_empty() {
        // a timed wait may time out instead
        if let Some(t) = r
            .tasks
            .iter()
            .position(|t| matches!(t.status, Status::BlockedTimed(_)))
        {
            r.tasks[t].status = Status::Ready;
            r.tasks[t].woken = false;
            if t == my {
                r.cur = my;
                return;
            }
            hand_over(my, t, wait);
            return;
        }
        let blocked = r
            .tasks
            .iter()
            .position(|t| matches!(t.status, Status::Blocked(_)));
        if let (None, Some(t)) = (blocked, r.tasks.iter().position(|t| t.status == Status::Last)) {
            r.tasks[t].status = Status::Ready;
            // joined with everyone: sees everything
            for l in 0..r.locs.len() {
                let last = r.locs[l].msgs.len() as u32 - 1;
                vset(&mut r.tasks[t].mem.cur, l, last);
            }
            hand_over(my, t, wait);
            return;
        }
        r.finish(match blocked {
            Some(t) => Outcome::Deadlock(t),
            None => Outcome::Finished,
        });
        if wait {
            park_forever(my);
        }
        return;
    }
    let i = if c.len() > 1 { r.choose_next(&c, kind) } else { 0 };
    hand_over(my, c[i], wait);
}

/// A point at which another task may run.
pub fn yield_point(kind: Kind, arg: u32) {
    let my = me();
    if my == NONE || !active() {
        return;
    }
    let was = SUT.with(|s| s.replace(false));
    yield_inner(my, kind, arg);
    SUT.with(|s| s.set(was));
}

fn yield_inner(my: Tid, kind: Kind, arg: u32) {
    let r = rt();
    if my == MAIN || !r.running {
        return;
    }
    r.event(my, kind, arg);
    r.stats.yields += 1;
    let t = &mut r.tasks[my];
    t.steps += 1;
    t.op_steps += 1;
    t.run_len += 1;
    if t.op_steps > r.stats.max_op_steps {
        r.stats.max_op_steps = t.op_steps;
    }
    if t.op_steps > OP_LIMIT {
        r.finish(Outcome::OpLimit(my));
        park_forever(my);
    }
    if t.stall_at != 0 && t.steps >= t.stall_at && kind != Kind::TaskStart {
        t.status = Status::Stalled;
        r.stats.stalls += 1;
        r.event(my, Kind::Stalled, 0);
        yield_away(my, kind, true);
        park_forever(my);
    }
    let force = kind == Kind::SchedYield || t.run_len > FAIR_LIMIT;
    if force {
        let mut c = r.candidates(false);
        c.retain(|x| *x != my);
        if !c.is_empty() {
            r.stats.forced_fair += 1;
            let i = if c.len() > 1 { r.choose_next(&c, kind) } else { 0 };
            hand_over(my, c[i], true);
        }
        return;
    }
    let c = r.candidates(true);
    if c.len() > 1 {
        let i = r.choose_next(&c, kind);
        if i != 0 {
            if !matches!(kind, Kind::OpStart | Kind::OpEnd | Kind::TaskStart) {
                r.stats.inner_switches += 1;
            }
            hand_over(my, c[i], true);
        }
    }
}

/// Unique, totally ordered stamp; not a scheduling point.
pub fn stamp() -> u32 {
    let r = rt();
    r.seq += 1;
    r.seq
}

/// Marks the begin of an operation of this task (resets its step budget).
pub fn begin_op() {
    let my = me();
    if my != MAIN && my != NONE {
        rt().tasks[my].op_steps = 0;
    }
}

pub fn log_event(kind: Kind, arg: u32) {
    let my = me();
    rt().event(my, kind, arg);
}

// ------------------------------------------------------------------ runs

/// Starts a run; the calling thread becomes its main thread.
pub fn init(cfg: RunCfg) {
    let mut rng = Rng::new(cfg.seed);
    let pct_points = match cfg.policy {
        Policy::Pct(n) => (0..n).map(|_| rng.below(150)).collect(),
        _ => Vec::new(),
    };
    let entropy = mix(cfg.seed, 77);
    let b = Box::new(Rt {
        tasks: Vec::new(),
        cur: 0,
        running: false,
        outcome: Outcome::Running,
        rng,
        cfg,
        tape_pos: 0,
        tape_out: Vec::new(),
        seq: 0,
        log: Vec::new(),
        hash: 0,
        locs: Vec::new(),
        sc: Vec::new(),
        main_mem: Mem::default(),
        pct_points,
        env: Vec::new(),
        tty: [false; 3],
        now: 0,
        skew: 0,
        entropy,
        stats: Stats::default(),
        main_word: new_word(),
    });
    unsafe { RT = Box::into_raw(b) };
    TID.with(|t| t.set(MAIN));
}

pub type Body = Box<dyn FnOnce() + Send>;

/// Ends a task: runs what it does while its thread exits.
struct AtExit(usize, Option<Body>);
impl Drop for AtExit {
    fn drop(&mut self) {
        let i = self.0;
        if let Some(b) = self.1.take() {
            b();
        }
        let r = rt();
        r.event(i, Kind::TaskEnd, 0);
        r.tasks[i].status = Status::Done;
        TID.with(|t| t.set(NONE));
        yield_away(i, Kind::TaskEnd, false);
        // stay around: thread teardown must not race with the run
        let w = new_word();
        loop {
            park(w);
        }
    }
}
thread_local! {
    static AT_EXIT: std::cell::RefCell<Option<AtExit>> = const { std::cell::RefCell::new(None) };
}

/// Runs the given tasks to the end under the scheduler, then `last`, and
/// returns how it ended.  The second part of a task runs in the destructor of a
/// thread-local value, after those of all values the first part has used.
pub fn run(mut bodies: Vec<(Body, Body, u32)>, last: Body) -> Outcome {
    let r = rt();
    if bodies.is_empty() {
        bodies.push((Box::new(|| ()), Box::new(|| ()), 0));
    }
    bodies.push((last, Box::new(|| ()), 0));
    let n = bodies.len();
    let main_cur = r.main_mem.cur.clone();
    for (_, _, stall_at) in bodies.iter() {
        let prio = 1000 + r.rng.below(1000);
        r.tasks.push(Task {
            word: new_word(),
            status: Status::Ready,
            mem: Mem {
                cur: main_cur.clone(),
                acq: main_cur.clone(),
                rel: main_cur.clone(),
            },
            steps: 0,
            op_steps: 0,
            run_len: 0,
            stall_at: *stall_at,
            prio,
            woken: false,
        });
    }
    r.tasks[n - 1].status = Status::Last;
    r.running = true;
    for (i, (body, exit, _)) in bodies.into_iter().enumerate() {
        let word = r.tasks[i].word;
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                park(word);
                TID.with(|t| t.set(i));
                // the first with a destructor, so the last to be destroyed
                AT_EXIT.with(|e| *e.borrow_mut() = Some(AtExit(i, Some(exit))));
                yield_point(Kind::TaskStart, 0);
                body();
            })
            .expect("thread");
    }
    // first task
    r.cur = 0;
    let c = r.candidates(false);
    let first = if c.len() > 1 {
        let k = r.choose_next(&c, Kind::TaskStart);
        c[k]
    } else {
        c[0]
    };
    r.cur = first;
    unpark(r.tasks[first].word);
    park(r.main_word);
    // join: main sees everything
    let r = rt();
    for l in 0..r.locs.len() {
        let last = r.locs[l].msgs.len() as u32 - 1;
        vset(&mut r.main_mem.cur, l, last);
    }
    r.outcome
}

/// Runs `f` on a thread of its own while the caller waits for it to end: to the
/// scheduler and the memory model they are one, thread-local values are not.
pub fn on_new_thread(f: impl FnOnce()) {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            TID.with(|t| t.set(NONE));
        }
    }
    thread_local! {
        static END: std::cell::RefCell<Option<End>> = const { std::cell::RefCell::new(None) };
    }
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    impl<T: FnOnce()> Any<T> {
        fn call(self) {
            (self.0)()
        }
    }
    let (my, f) = (me(), Any(f));
    std::thread::scope(|s| {
        let t = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, move || {
                TID.with(|t| t.set(my));
                END.with(|e| *e.borrow_mut() = Some(End));
                f.call();
            })
            .expect("thread");
        // also until its thread-local values are gone
        t.join().expect("thread");
    });
}

pub fn task_stalled(t: Tid) -> bool {
    rt().tasks[t].status == Status::Stalled
}
pub fn stats() -> Stats {
    rt().stats.clone()
}
pub fn tape() -> Vec<u32> {
    rt().tape_out.clone()
}
pub fn hash() -> u64 {
    rt().hash
}
pub fn events() -> Vec<Event> {
    rt().log.clone()
}

// ------------------------------------------------- simulated environment

pub fn set_env(name: &[u8], val: Option<&[u8]>) {
    let r = rt();
    let v: Option<&'static [u8]> = val.map(|v| {
        let mut b = v.to_vec();
        b.push(0);
        &*Box::leak(b.into_boxed_slice())
    });
    match r.env.iter_mut().find(|e| e.0 == name) {
        Some(e) => e.1 = v,
        None => r.env.push((name.to_vec(), v)),
    }
    shims::publish_environ(&r.env);
}
pub fn set_tty(fd: usize, on: bool) {
    rt().tty[fd] = on;
}
/// ns of simulated time the library saw pass
pub fn clock() -> u64 {
    rt().now
}
pub fn get_tty(fd: usize) -> bool {
    rt().tty[fd]
}

// ---------------------------------------------------------- memory model

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mo {
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}
impl Mo {
    fn acq(self) -> bool {
        matches!(self, Mo::Acquire | Mo::AcqRel | Mo::SeqCst)
    }
    fn rel(self) -> bool {
        matches!(self, Mo::Release | Mo::AcqRel | Mo::SeqCst)
    }
    fn sc(self) -> bool {
        self == Mo::SeqCst
    }
}

fn native_read(addr: usize, size: usize) -> u64 {
    unsafe {
        match size {
            1 => (addr as *const u8).read_volatile() as u64,
            2 => (addr as *const u16).read_volatile() as u64,
            4 => (addr as *const u32).read_volatile() as u64,
            _ => (addr as *const u64).read_volatile(),
        }
    }
}
fn native_write(addr: usize, size: usize, v: u64) {
    unsafe {
        match size {
            1 => (addr as *mut u8).write_volatile(v as u8),
            2 => (addr as *mut u16).write_volatile(v as u16),
            4 => (addr as *mut u32).write_volatile(v as u32),
            _ => (addr as *mut u64).write_volatile(v),
        }
    }
}

impl Rt {
    fn loc(&mut self, addr: usize, size: usize) -> usize {
        let v = native_read(addr, size);
        if let Some(i) = self.locs.iter().position(|l| l.addr == addr) {
            // a write by uninstrumented code (std): visible to everyone, and
            // publishing everything
            if self.locs[i].msgs.last().unwrap().val != v {
                let mut view = self.sc.clone();
                for t in &self.tasks {
                    join(&mut view, &t.mem.cur);
                }
                self.locs[i].msgs.push(Msg { val: v, view });
            }
            return i;
        }
        self.locs.push(Loc {
            addr,
            msgs: vec![Msg { val: v, view: Vec::new() }],
        });
        self.locs.len() - 1
    }

    fn mem(&mut self, my: Tid) -> &mut Mem {
        if my == MAIN {
            &mut self.main_mem
        } else {
            &mut self.tasks[my].mem
        }
    }

    fn sc_pre(&mut self, my: Tid, mo: Mo) {
        if mo.sc() {
            let sc = self.sc.clone();
            join(&mut self.mem(my).cur, &sc);
        }
    }
    fn sc_post(&mut self, my: Tid, mo: Mo) {
        if mo.sc() {
            let cur = self.mem(my).cur.clone();
            join(&mut self.sc, &cur);
        }
    }

    fn read_msg(&mut self, my: Tid, l: usize, idx: usize, mo: Mo) -> u64 {
        let val = self.locs[l].msgs[idx].val;
        let view = self.locs[l].msgs[idx].view.clone();
        let m = self.mem(my);
        vset(&mut m.cur, l, idx as u32);
        join(&mut m.acq, &view);
        if mo.acq() {
            join(&mut m.cur, &view);
        }
        val
    }

    fn load(&mut self, my: Tid, addr: usize, size: usize, mo: Mo) -> u64 {
        let l = self.loc(addr, size);
        self.sc_pre(my, mo);
        let lo = vget(&self.mem(my).cur, l) as usize;
        let last = self.locs[l].msgs.len() - 1;
        let mut idx = last;
        if self.cfg.weak && self.running && my != MAIN && last > lo {
            let n = (last - lo + 1) as u32;
            let k = self.decide(n, |r| {
                let p = r.cfg.stale_pct;
                if r.rng.pct(p) {
                    1 + r.rng.below(n - 1)
                } else {
                    0
                }
            });
            if k > 0 {
                self.stats.stale_reads += 1;
            }
            idx = last - k as usize;
        }
        let v = self.read_msg(my, l, idx, mo);
        self.sc_post(my, mo);
        v
    }

    fn write_msg(&mut self, my: Tid, l: usize, size: usize, v: u64, mo: Mo, prev: Option<View>) {
        let idx = self.locs[l].msgs.len() as u32;
        let m = self.mem(my);
        vset(&mut m.cur, l, idx);
        let mut view = if mo.rel() { m.cur.clone() } else { m.rel.clone() };
        vset(&mut view, l, idx);
        if let Some(p) = prev {
            join(&mut view, &p);
        }
        self.locs[l].msgs.push(Msg { val: v, view });
        native_write(self.locs[l].addr, size, v);
    }

    fn store(&mut self, my: Tid, addr: usize, size: usize, v: u64, mo: Mo) {
        let l = self.loc(addr, size);
        self.sc_pre(my, mo);
        self.write_msg(my, l, size, v, mo, None);
        self.sc_post(my, mo);
    }

    fn rmw(&mut self, my: Tid, addr: usize, size: usize, mo: Mo, fail: Mo, f: &dyn Fn(u64) -> Option<u64>) -> (u64, bool) {
        let l = self.loc(addr, size);
        let last = self.locs[l].msgs.len() - 1;
        let old = self.locs[l].msgs[last].val;
        match f(old) {
            Some(new) => {
                self.sc_pre(my, mo);
                self.read_msg(my, l, last, mo);
                let prev = self.locs[l].msgs[last].view.clone();
                self.write_msg(my, l, size, new, mo, Some(prev));
                self.sc_post(my, mo);
                (old, true)
            }
            None => {
                self.sc_pre(my, fail);
                self.read_msg(my, l, last, fail);
                self.sc_post(my, fail);
                (old, false)
            }
        }
    }

    fn fence(&mut self, my: Tid, mo: Mo) {
        if mo.acq() {
            let a = self.mem(my).acq.clone();
            join(&mut self.mem(my).cur, &a);
        }
        self.sc_pre(my, mo);
        self.sc_post(my, mo);
        if mo.rel() {
            let c = self.mem(my).cur.clone();
            self.mem(my).rel = c;
        }
    }
}
