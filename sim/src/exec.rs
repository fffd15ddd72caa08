//! Executes plans: tasks, operations, values, destinations; and records what
//! happened.  Everything recorded is written by whoever holds the scheduler's
//! token, so plain memory suffices.

use crate::model::{self, Node};
use crate::plan::*;
use simrt::{begin_op, leave_sut, stamp, yield_point, Kind};
use std::cell::Cell;
use std::fmt::{self, Formatter, FormattingOptions};
use std::io;

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    /// not finished (its task was stopped, or the run was)
    Pending,
    Unit,
    Bool(bool),
    /// mode, stream; 255 = None
    Val(u8),
    Fmt(bool),
    Io(Option<io::ErrorKind>),
    /// text of an effect etc.
    Text(&'static str),
    /// a panic of ours, by token
    UserPanic(u32),
    /// any other panic
    Panic(String),
}

#[derive(Clone)]
pub struct Write {
    pub stamp: u32,
    pub off: usize,
    pub len: usize,
    pub err: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Opts {
    pub fill: char,
    pub align: u8,
    pub width: Option<usize>,
    pub precision: Option<usize>,
    pub plus: bool,
    pub minus: bool,
    pub alt: bool,
    pub zero: bool,
    pub hex: u8,
}

pub struct Rec {
    /// PRE, POST or the task
    pub task: usize,
    pub parent: Option<usize>,
    pub op: Op,
    pub s: u32,
    /// 0: not finished
    pub e: u32,
    pub res: Res,
    pub out: Vec<u8>,
    pub writes: Vec<Write>,
    /// (trait, options) of each call of the value's formatting code
    pub seen: Vec<(u8, Opts)>,
    /// the value's formatting code returned or panicked with this
    pub val_err: bool,
    /// it was called although the destination had failed before
    pub late: bool,
    /// of the calls before the recorded one, one ran the value so often
    pub unusual: Option<u32>,
    pub panicked: Option<u32>,
    /// stamp of the first thing written by the value itself
    pub first_val: u32,
    /// a styled value written as part of its parent's value
    pub inline: bool,
    /// what the library asked or did at the libc boundary meanwhile
    pub looks: Vec<Looked>,
}
impl Rec {
    pub fn end(&self) -> u32 {
        if self.e == 0 {
            u32::MAX
        } else {
            self.e
        }
    }
    pub fn errs(&self) -> impl Iterator<Item = usize> + '_ {
        self.writes.iter().enumerate().filter(|w| w.1.err).map(|w| w.0)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Looked {
    Env(String),
    Tty(i32),
    Clock,
    Write(i32),
    Open(String),
    SetEnv(String),
    Other(&'static str),
}
fn looked(l: simrt::Look<'_>) {
    let Some(r) = world().recs.get_mut(CUR.with(|c| c.get())) else { return };
    let s = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let l = match l {
        simrt::Look::Env(n) => Looked::Env(s(n)),
        simrt::Look::Tty(fd) => Looked::Tty(fd),
        simrt::Look::Clock => Looked::Clock,
        simrt::Look::Write(fd) => Looked::Write(fd),
        simrt::Look::Open(p) => Looked::Open(s(p)),
        simrt::Look::SetEnv(n) => Looked::SetEnv(s(n)),
        simrt::Look::Other(x) => Looked::Other(x),
    };
    if !r.looks.contains(&l) {
        r.looks.push(l);
    }
}

pub const PRE: usize = 254;
pub const POST: usize = 255;

#[derive(Default)]
pub struct World {
    pub recs: Vec<Rec>,
    /// (stamp, variable, value)
    pub env: Vec<(u32, usize, u32)>,
    /// (stamp, fd - 1, terminal?)
    pub tty: Vec<(u32, usize, bool)>,
    pub f: Faults,
    pub panics: u32,
    pub alloc_arm: bool,
    pub last_panic: String,
}

#[derive(Default, Clone, Debug)]
pub struct Faults {
    pub sink_errors: u32,
    pub torn_writes: u32,
    pub short_writes: u32,
    pub eintr: u32,
    pub sink_panics: u32,
    pub value_errors: u32,
    pub value_panics: u32,
    pub calls_unwinding: u32,
    pub reentrant_calls: u32,
    pub env_changes: u32,
    pub tty_changes: u32,
    pub armed_calls: u32,
    pub muted_calls: u32,
}

static mut WORLD: *mut World = std::ptr::null_mut();
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

thread_local! {
    /// the innermost record
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
    /// runs of the value in a call made before the recorded one
    static RUNS: Cell<u32> = const { Cell::new(0) };
    static TASK: Cell<usize> = const { Cell::new(PRE) };
    /// inside an op whose allocations must fail
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub struct PanicToken(pub u32);

pub fn kinds_of(a: &[u32; NF]) -> Vec<u8> {
    (0..(a[1] % 5) as usize).map(|i| ((a[2] >> (2 * i)) & 3) as u8).collect()
}

// ----------------------------------------------------------------- options

const FILLS: [char; 4] = [' ', '*', '0', 'é'];
pub fn options(spec: u32) -> (FormattingOptions, Opts) {
    let mut o = FormattingOptions::new();
    let mut w = Opts {
        fill: ' ',
        ..Default::default()
    };
    if spec & 1 != 0 {
        let n = (spec >> 1) as usize % 16 * [1, 7, 40, 300][(spec >> 17) as usize % 4];
        w.width = Some(n);
        o.width(Some(n as u16));
    }
    if spec & 32 != 0 {
        let n = (spec >> 6) as usize % 8 * [1, 9, 80, 2000][(spec >> 19) as usize % 4];
        w.precision = Some(n);
        o.precision(Some(n as u16));
    }
    let al = (spec >> 9) % 4;
    w.align = al as u8;
    o.align(match al {
        0 => None,
        1 => Some(fmt::Alignment::Left),
        2 => Some(fmt::Alignment::Center),
        _ => Some(fmt::Alignment::Right),
    });
    w.fill = FILLS[(spec >> 11) as usize % 4];
    o.fill(w.fill);
    match (spec >> 13) % 4 {
        1 => {
            w.plus = true;
            o.sign(Some(fmt::Sign::Plus));
        }
        2 => {
            w.minus = true;
            o.sign(Some(fmt::Sign::Minus));
        }
        _ => {}
    }
    w.alt = spec & 1 << 15 != 0;
    o.alternate(w.alt);
    w.zero = spec & 1 << 16 != 0;
    o.sign_aware_zero_pad(w.zero);
    w.hex = (spec >> 21) as u8 % 4 % 3;
    o.debug_as_hex(match w.hex {
        0 => None,
        1 => Some(fmt::DebugAsHex::Lower),
        _ => Some(fmt::DebugAsHex::Upper),
    });
    (o, w)
}
fn seen(f: &Formatter<'_>) -> Opts {
    Opts {
        fill: f.fill(),
        align: match f.align() {
            None => 0,
            Some(fmt::Alignment::Left) => 1,
            Some(fmt::Alignment::Center) => 2,
            Some(fmt::Alignment::Right) => 3,
        },
        width: f.width(),
        precision: f.precision(),
        plus: f.sign_plus(),
        minus: f.sign_minus(),
        alt: f.alternate(),
        zero: f.sign_aware_zero_pad(),
        hex: match f.options().get_debug_as_hex() {
            None => 0,
            Some(fmt::DebugAsHex::Lower) => 1,
            Some(fmt::DebugAsHex::Upper) => 2,
        },
    }
}

// ------------------------------------------------------------------ values

pub fn text(arg: u32) -> String {
    const T: [&str; 8] = ["a", "text", "", "38;5;1m", "päd", "[0m", "Zz9", "x y"];
    let s = format!("{}{}", T[arg as usize % 8], ["", "~", "\n", "-long-tail-of-text-"][(arg as usize / 8) % 4]);
    match (arg as usize / 32) % 4 {
        1 => s.repeat(400),
        2 => s.repeat(10),
        3 => s.repeat(40),
        _ => s,
    }
}

/// so many more values deep is one that is formatted elsewhere
pub fn own_depth(arg: u32) -> u32 {
    (arg >> 11 & 15) + (arg >> 16 & 127)
}

/// nested styled value: one layer and one text step, then the value's own end
/// or, if `deep`, further values formatted within each other; of the same style
/// as the outer value, if there is one and `SAME_STYLE` is set
pub fn nested_op(arg: u32, deep: bool, outer: Option<&Op>) -> Op {
    let mut o = Op::new(K::Fmt);
    let st = arg % 8;
    let l = LAYER;
    match st {
        0 => {
            o.a[l + L_FG] = drv::K_CT_ANSI as u32;
        }
        1 => o.a[l + L_EFF] = 1,
        2 => {
            o.a[l + L_BG] = drv::K_RGB as u32;
            o.a[l + L_BG + 1] = 0x0a0b0c;
        }
        3 => {
            o.a[l + L_FG] = drv::K_XTERM as u32;
            o.a[l + L_FG + 1] = 77;
            o.a[l + L_EFF] = 1 << 2 | 1 << 9;
        }
        4 => {
            o.a[l + L_UL] = drv::K_RGB as u32;
            o.a[l + L_UL + 1] = 0xfe0102;
            o.a[l + L_EFF] = 1 << 3;
        }
        5 => {}
        6 => {
            o.a[l + L_FG] = drv::K_CSS as u32;
            o.a[l + L_FG + 1] = 9;
            o.a[l + L_BG] = drv::K_CT_ANSI as u32;
        }
        _ => o.a[l + L_EFF] = 1 << 5 | 1 << 8,
    }
    match outer {
        Some(p) if arg & SAME_STYLE != 0 => o.a[l..l + 8].copy_from_slice(&p.a[l..l + 8]),
        _ => {}
    }
    o.a[l + L_STREAM] = (arg >> 3) % 5;
    o.a[STEPS] = V_TEXT;
    o.a[STEPS + 1] = 8 + (arg >> 6) % 8;
    let depth = own_depth(arg);
    if deep && depth > 0 {
        o.a[STEPS + 2] = V_OWN;
        o.a[STEPS + 3] = if depth > 15 { (depth - 16) << 16 | 15 << 11 } else { (depth - 1) << 11 } | arg & 0x7f8 | (arg + 3) & 7;
        o.a[STEPS + 4] = V_TEXT;
        o.a[STEPS + 5] = 1;
    } else {
        o.a[STEPS + 2] = [V_END, V_END, V_ERR, V_PANIC][(arg >> 9) as usize % 4];
    }
    o
}

/// The program a value's formatting code runs.
pub struct Prog<'a> {
    pub op: &'a Op,
    pub rec: usize,
    /// reference run: no side effects, no faults
    pub quiet: bool,
    /// forces nested layers (bit per step) in a reference run
    pub force: Option<u32>,
    /// a quiet run which still fails and panics as told
    pub faulty: bool,
}

impl drv::ValFmt for Prog<'_> {
    fn fmt(&self, tr: u8, f: &mut Formatter<'_>) -> fmt::Result {
        if !self.quiet {
            let s = seen(f);
            let recs = &mut world().recs;
            recs[self.rec].seen.push((tr, s));
            // the record with the destination
            let mut root = self.rec;
            while let (true, Some(p)) = (recs[root].inline, recs[root].parent) {
                root = p;
            }
            if recs[root].errs().next().is_some() {
                recs[self.rec].late = true;
            }
        }
        if self.quiet && self.faulty {
            RUNS.with(|r| r.set(r.get() + 1));
        }
        let r = self.steps(f);
        if r.is_err() && !self.quiet {
            world().recs[self.rec].val_err = true;
        }
        r
    }
}

impl Prog<'_> {
    fn mark(&self) {
        if !self.quiet {
            let st = stamp();
            let r = &mut world().recs[self.rec];
            if r.first_val == 0 {
                r.first_val = st;
            }
        }
    }
    fn steps(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for i in 0..N_STEPS {
            let (k, arg) = self.op.step(i);
            if k == V_END {
                break;
            }
            if !self.quiet {
                yield_point(Kind::ValueStep, i as u32);
            }
            match k {
                V_TEXT => {
                    self.mark();
                    f.write_str(&text(arg))?
                }
                V_PAD => {
                    self.mark();
                    f.pad(&text(arg))?
                }
                V_CHARS => {
                    self.mark();
                    for c in text(arg % 32).chars() {
                        fmt::Write::write_char(f, c)?
                    }
                }
                V_YIELD => {}
                V_ACT => {
                    if !self.quiet {
                        world().f.reentrant_calls += 1;
                        act(arg, Some(self.rec));
                    }
                }
                V_NESTED => {
                    self.mark();
                    let mut o = nested_op(arg, false, Some(self.op));
                    match self.force {
                        Some(m) => {
                            o.a[LAYER + L_STREAM] = if m & (1 << i) != 0 { 1 } else { 2 };
                            let p = Prog {
                                op: &o,
                                rec: usize::MAX,
                                quiet: true,
                                force: None,
                                faulty: false,
                            };
                            call(&o, &p, f)?
                        }
                        None if self.quiet => f.write_str(&text(o.a[STEPS + 1]))?,
                        None => {
                            world().f.reentrant_calls += 1;
                            let rec = open(&o, Some(self.rec));
                            world().recs[rec].inline = true;
                            let p = Prog {
                                op: &o,
                                rec,
                                quiet: false,
                                force: None,
                                faulty: false,
                            };
                            let on = OnUnwind(rec);
                            let r = call(&o, &p, f);
                            std::mem::forget(on);
                            close(rec, Res::Fmt(r.is_ok()));
                            r?
                        }
                    }
                }
                V_OWN => {
                    if !self.quiet {
                        world().f.reentrant_calls += 1;
                        exec(&nested_op(arg, true, Some(self.op)), Some(self.rec));
                    }
                }
                V_ERR => {
                    if !self.quiet {
                        world().f.value_errors += 1;
                    }
                    if !self.quiet || self.faulty {
                        return Err(fmt::Error);
                    }
                }
                _ => {
                    if !self.quiet {
                        world().f.value_panics += 1;
                        user_panic(self.rec, self.op);
                    } else if self.faulty {
                        std::panic::panic_any(PanicToken(0));
                    }
                }
            }
        }
        Ok(())
    }
}

/// User code whose destructors call the library while a panic passes by.
struct Unwinding<'a>(usize, &'a Op);
impl Drop for Unwinding<'_> {
    fn drop(&mut self) {
        let u = self.1.a[UNWIND];
        world().f.calls_unwinding += 1;
        if u & 2 == 0 {
            act(u >> 2, Some(self.0));
        } else {
            exec(&nested_op(u >> 2, true, Some(self.1)), Some(self.0));
        }
    }
}

fn user_panic(rec: usize, op: &Op) -> ! {
    let _last = (op.a[UNWIND] & 1 == 1).then(|| Unwinding(rec, op));
    let w = world();
    w.panics += 1;
    let t = w.panics;
    w.recs[rec].panicked = Some(t);
    std::panic::panic_any(PanicToken(t))
}

/// the text the value writes on its own, and the structure of the output
pub fn nodes(op: &Op) -> Vec<Node> {
    let (opts, _) = options(op.a[SPEC]);
    let mut v = vec![];
    let mut next = match op.k {
        K::Fmt => op.a[NL] as usize % 3 + 1,
        _ => 1,
    };
    for i in 0..N_STEPS {
        let (k, arg) = op.step(i);
        match k {
            V_END => break,
            V_TEXT => v.push(Node::Text(text(arg).into_bytes())),
            V_CHARS => v.push(Node::Text(text(arg % 32).into_bytes())),
            V_PAD => {
                let mut s = String::new();
                let _ = Formatter::new(&mut s, opts).pad(&text(arg));
                v.push(Node::Text(s.into_bytes()));
            }
            V_NESTED => {
                let o = nested_op(arg, false, Some(op));
                let mut s = String::new();
                s.push_str(&text(o.a[STEPS + 1]));
                v.push(Node::Layer(next, model::layer_style(&o, 0), vec![Node::Text(s.into_bytes())]));
                next += 1;
            }
            V_ERR | V_PANIC => {}
            _ => {}
        }
    }
    for (j, s) in layer_styles(op).into_iter().enumerate() {
        v = vec![Node::Layer(j, s, v)];
    }
    v
}

/// outermost last
pub fn layer_styles(op: &Op) -> Vec<model::MStyle> {
    match op.k {
        K::Fmt => (0..=op.a[NL] as usize % 3).map(|j| model::layer_style(op, j)).collect(),
        K::Named => {
            let form = op.a[11];
            let base = base_style(op);
            let mut s = model::layer_style(&base, 0);
            if op.a[9] % 2 == 0 {
                let c = model::Col::Idx((op.a[10] % 16) as u8);
                let plain = model::MStyle::default();
                match form % 6 {
                    0 | 1 => s = model::MStyle { fg: Some(c), kinds: [1, 0, 0], ..plain },
                    2 | 3 => s = model::MStyle { bg: Some(c), kinds: [0, 1, 0], ..plain },
                    4 => {
                        s.fg = Some(c);
                        s.kinds[0] = 1;
                    }
                    _ => {
                        s.bg = Some(c);
                        s.kinds[1] = 1;
                    }
                }
            } else {
                let e = 1 << (op.a[10] as usize % drv::N_EFFECTS);
                match form % 5 {
                    0..=2 => {
                        s = model::MStyle {
                            eff: e,
                            ..Default::default()
                        }
                    }
                    _ => s.eff |= e,
                }
            }
            vec![s]
        }
        K::Generic => {
            let c = generic_color(op);
            let col = Some(model::any_col(c));
            let k = model::kind_of(drv::K_COLOR as u32, c);
            let mut s = model::MStyle::default();
            match op.a[11] % 6 {
                0 | 1 => {
                    s.fg = col;
                    s.kinds[0] = k;
                }
                2 | 3 => {
                    s.bg = col;
                    s.kinds[1] = k;
                }
                4 => {
                    s.ul = col;
                    s.kinds[2] = k;
                    s.eff = 1 << 3;
                }
                _ => {
                    s.ul = col;
                    s.kinds[2] = k;
                    s.eff = 1 << 4;
                }
            }
            vec![s]
        }
        _ => vec![model::layer_style(op, 0)],
    }
}
/// `Named` keeps its own fields at 9..12, where a second layer would be
fn base_style(op: &Op) -> Op {
    op.clone()
}

fn generic_color(op: &Op) -> u32 {
    model::any(op.a[10] & 0x3ff_ffff)
}

pub fn layer_stream(op: &Op, j: usize) -> u32 {
    op.a[LAYER + 8 * j + L_STREAM] % 5
}

/// Calls the library for a formatting op.
pub fn call(op: &Op, p: &Prog<'_>, f: &mut Formatter<'_>) -> fmt::Result {
    let a = &op.a;
    match op.k {
        K::Fmt => {
            let n = a[NL] as usize % 3 + 1;
            let layers: Vec<drv::LayerD> = (0..n)
                .map(|j| drv::LayerD {
                    style: model::layer_d(op, j),
                    stream: layer_stream(op, j) as u8,
                })
                .collect();
            armed(|| drv::format(&layers, (a[TR] % drv::N_TRAITS as u32) as u8, [a[CTOR], a[CTOR] >> 8, a[CTOR] >> 16].map(|c| c as u8), p, f))
        }
        K::Named => {
            let effect = a[9] % 2 == 1;
            let (n, forms) = if effect { (drv::N_EFFECTS, 5) } else { (16, 6) };
            let base = model::layer_d(op, 0);
            armed(|| drv::format_named(effect, a[10] as usize % n, (a[11] % forms) as u8, &base, layer_stream(op, 0) as u8, p, f))
        }
        K::Generic => {
            let c = generic_color(op);
            armed(|| drv::format_generic((a[11] % 6) as u8, c, layer_stream(op, 0) as u8, p, f))
        }
        K::Apply => {
            let d = model::layer_d(op, 0);
            armed(|| drv::apply(&d, a[TR] % 2 == 1, f))
        }
        K::Clear => {
            let d = model::layer_d(op, 0);
            armed(|| drv::clear(&d, a[TR] % 2 == 1, f))
        }
        K::ClearAll => armed(|| drv::clear_all(a[TR] % 2 == 1, f)),
        K::Direct => {
            let (source, c, layer, args) = direct_args(op);
            armed(|| drv::direct(source, c, layer, args, f))
        }
        _ => Ok(()),
    }
}

fn armed<R>(f: impl FnOnce() -> R) -> R {
    if !QUIET.with(|q| q.get()) && world().alloc_arm {
        world().f.armed_calls += 1;
        let was = simrt::arm_alloc(true);
        let r = f();
        simrt::arm_alloc(was);
        r
    } else {
        f()
    }
}

/// source 0/1/4: compile-time (rgb: index), 2/5 runtime, 3 any
pub fn direct_args(op: &Op) -> (u8, u32, u8, bool) {
    let a = &op.a;
    let source = (a[9] % 6) as u8;
    let mut c = model::any(a[10] & 0x3ff_ffff);
    if matches!(source, 0 | 1 | 4) && c >> 24 == 3 {
        c = 3 << 24 | (c & 0xff_ffff) % drv::CT_RGB_VALS.len() as u32;
    }
    (source, c, (a[11] % 3) as u8, a[12] % 2 == 1)
}
pub fn direct_col(op: &Op) -> model::Col {
    let (source, c, ..) = direct_args(op);
    if matches!(source, 0 | 1 | 4) && c >> 24 == 3 {
        return model::any_col(3 << 24 | drv::CT_RGB_VALS[(c & 0xff_ffff) as usize]);
    }
    model::any_col(c)
}

// ------------------------------------------------------------ destinations

struct Sink<'a> {
    op: &'a Op,
    rec: usize,
    n: u32,
}

impl Sink<'_> {
    fn accept(&self, b: &[u8], err: bool) {
        let st = stamp();
        let r = &mut world().recs[self.rec];
        r.writes.push(Write {
            stamp: st,
            off: r.out.len(),
            len: b.len(),
            err,
        });
        r.out.extend_from_slice(b);
    }
    fn act(&self) {
        world().f.reentrant_calls += 1;
        act(self.op.a[SINK_ARG2], Some(self.rec));
    }
}

impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        leave_sut(|| {
            yield_point(Kind::SinkWrite, s.len() as u32);
            self.n += 1;
            let b = s.as_bytes();
            let arg = self.op.a[SINK_ARG];
            match self.op.a[SINK] % N_SINKS {
                S_FAIL if self.n > arg => {
                    world().f.sink_errors += 1;
                    self.accept(b"", true);
                    Err(fmt::Error)
                }
                S_FAIL_ONCE if self.n == arg + 1 => {
                    world().f.sink_errors += 1;
                    self.accept(b"", true);
                    Err(fmt::Error)
                }
                S_TORN => {
                    let room = (arg as usize).saturating_sub(world().recs[self.rec].out.len());
                    if b.len() > room {
                        world().f.torn_writes += 1;
                        world().f.sink_errors += 1;
                        self.accept(&b[..room], true);
                        Err(fmt::Error)
                    } else {
                        self.accept(b, false);
                        Ok(())
                    }
                }
                S_PANIC if self.n == arg + 1 => {
                    world().f.sink_panics += 1;
                    user_panic(self.rec, self.op)
                }
                S_ACT => {
                    if self.n == arg + 1 {
                        self.act();
                    }
                    self.accept(b, false);
                    Ok(())
                }
                _ => {
                    self.accept(b, false);
                    Ok(())
                }
            }
        })
    }
}

const IO_ERRORS: [io::ErrorKind; 8] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero, // Ok(0)
    io::ErrorKind::StorageFull,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::Other,
];

struct IoSink<'a>(Sink<'a>);
impl io::Write for IoSink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        leave_sut(|| {
            yield_point(Kind::SinkWrite, b.len() as u32);
            let s = &mut self.0;
            s.n += 1;
            let arg = s.op.a[SINK_ARG];
            if s.op.a[SINK] % N_SINKS == S_IO_FAIL && s.n > arg {
                world().f.sink_errors += 1;
                s.accept(b"", true);
                return match IO_ERRORS[s.op.a[SINK_ARG2] as usize % 8] {
                    io::ErrorKind::WriteZero => Ok(0),
                    k => Err(k.into()),
                };
            }
            // pattern: 0 whole, 1 one byte, 2 half, 3 EINTR first
            let pat = (s.op.a[SINK_ARG] >> (2 * ((s.n - 1) % 8))) & 3;
            let n = match pat {
                1 => 1.min(b.len()),
                2 => b.len().div_ceil(2),
                // at least every eighth write makes progress
                3 if s.n % 8 != 0 => {
                    world().f.eintr += 1;
                    return Err(io::ErrorKind::Interrupted.into());
                }
                _ => b.len(),
            };
            if n < b.len() {
                world().f.short_writes += 1;
            }
            s.accept(&b[..n], false);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct CallDisplay<'a>(&'a Op, Prog<'a>);
impl fmt::Display for CallDisplay<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut f = Formatter::new(f, options(self.0.a[SPEC]).0);
        call(self.0, &self.1, &mut f)
    }
}

// -------------------------------------------------------------- operations

fn open(op: &Op, parent: Option<usize>) -> usize {
    let w = world();
    w.recs.push(Rec {
        task: TASK.with(|t| t.get()),
        parent,
        op: op.clone(),
        s: stamp(),
        e: 0,
        res: Res::Pending,
        out: vec![],
        writes: vec![],
        seen: vec![],
        val_err: false,
        late: false,
        unusual: None,
        panicked: None,
        first_val: 0,
        inline: false,
        looks: vec![],
    });
    CUR.with(|c| c.set(w.recs.len() - 1));
    w.recs.len() - 1
}
/// Ends the record of a call that is left by a panic.
struct OnUnwind(usize);
impl Drop for OnUnwind {
    fn drop(&mut self) {
        if std::thread::panicking() && world().recs[self.0].e == 0 {
            close(self.0, Res::Pending);
        }
    }
}
fn close(rec: usize, res: Res) {
    let e = stamp();
    let r = &mut world().recs[rec];
    r.e = e;
    r.res = res;
    CUR.with(|c| c.set(r.parent.unwrap_or(usize::MAX)));
}

/// Performs an act of re-entrant user code.
fn act(arg: u32, parent: Option<usize>) {
    let p = arg / 16;
    let op = match arg % 16 % N_ACTS {
        A_SETMODE => Op::with(K::SetMode, &[p]),
        A_SETSTREAM => Op::with(K::SetStream, &[p]),
        A_GETMODE => Op::new(K::GetMode),
        A_GETSTREAM => Op::new(K::GetStream),
        A_SHOULD => Op::with(K::Should, &[p, 1, 1 + p % 3]),
        A_ENVMODE => Op::new(K::EnvMode),
        A_SETFROMENV => Op::new(K::SetFromEnv),
        A_SETVAR => Op::with(K::SetVar, &[p]),
        _ => Op::with(K::SetTty, &[p]),
    };
    exec(&op, parent);
}

/// A destination of a call nobody looks at: fails like the recorded one.
struct MutedSink<'a> {
    op: &'a Op,
    n: u32,
    len: usize,
}
impl fmt::Write for MutedSink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.n += 1;
        self.len += s.len();
        let arg = self.op.a[SINK_ARG];
        match self.op.a[SINK] % N_SINKS {
            S_FAIL | S_IO_FAIL if self.n > arg => Err(fmt::Error),
            S_FAIL_ONCE if self.n == arg + 1 => Err(fmt::Error),
            S_TORN if self.len > arg as usize => Err(fmt::Error),
            S_PANIC if self.n == arg + 1 => leave_sut(|| std::panic::panic_any(PanicToken(0))),
            _ => Ok(()),
        }
    }
}

/// The calls made before the recorded one.  Setters change other tasks' view,
/// so they repeat only while there is nobody else.
fn warm(op: &Op, rec: usize) {
    let a = &op.a;
    let task = TASK.with(|t| t.get());
    let most = if task != PRE || may_panic(op) || a[WARM] & WARM_APART != 0 { 1025 } else { 66_000 };
    let n = (a[WARM] % WARM_APART).min(most);
    let one = |i| {
        begin_op();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op.k {
            K::SetMode if task >= PRE => drv::set_mode(((a[0] + n - i) % 3) as u8),
            K::SetStream if task >= PRE => drv::set_stream(((a[0] + n - i) % 4 + 1) as u8),
            K::GetMode => {
                armed(drv::get_mode);
            }
            K::GetStream => {
                armed(drv::get_stream);
            }
            K::EnvMode => {
                drv::env_mode();
            }
            K::Should => {
                let k = kinds_of(a);
                armed(|| drv::should((a[0] % 5) as u8, &k));
            }
            K::StyleShould => {
                let d = model::layer_d(op, 0);
                armed(|| drv::style_should(&d, layer_stream(op, 0) as u8));
            }
            k if is_formatting(k) => {
                let p = Prog {
                    op,
                    rec: usize::MAX,
                    quiet: true,
                    force: None,
                    faulty: true,
                };
                let mut s = MutedSink { op, n: 0, len: 0 };
                RUNS.with(|r| r.set(0));
                let r = call(op, &p, &mut Formatter::new(&mut s, options(a[SPEC]).0));
                if r.is_ok() && matches!(op.k, K::Fmt | K::Named | K::Generic) && RUNS.with(|r| r.get()) == 0 {
                    world().recs[rec].unusual = Some(0);
                }
            }
            _ => {}
        }));
        simrt::arm_alloc(false);
        let runs = RUNS.with(|r| r.replace(0));
        if runs > 1 {
            world().recs[rec].unusual = Some(runs);
        }
        world().f.muted_calls += 1;
    };
    for i in 0..n {
        if a[WARM] & WARM_APART == 0 {
            one(i);
            continue;
        }
        let cur = CUR.with(|c| c.get());
        simrt::on_new_thread(|| {
            CUR.with(|c| c.set(cur));
            TASK.with(|t| t.set(task));
            one(i);
        });
    }
}
/// As `warm`, where nobody else interferes and so every call must do the same:
/// the first which does not is the recorded one.
fn odd_one(op: &Op, rec: usize) -> Option<Res> {
    let plain = |i| matches!(op.step(i).0, V_END | V_TEXT | V_PAD | V_CHARS | V_YIELD);
    if TASK.with(|t| t.get()) != PRE || op.a[WARM] & WARM_APART != 0 || !odd_able(op) || !(0..N_STEPS).all(plain) {
        warm(op, rec);
        begin_op();
        return None;
    }
    let mut first: Option<(Res, Vec<u8>, usize)> = None;
    for _ in 0..op.a[WARM].min(66_000) {
        begin_op();
        let res = run_op(op, rec);
        simrt::arm_alloc(false);
        let r = &mut world().recs[rec];
        match &first {
            None => first = Some((res, std::mem::take(&mut r.out), r.seen.len())),
            Some(f) if f.0 != res || f.1 != r.out || f.2 != r.seen.len() => return Some(res),
            _ => {}
        }
        let r = &mut world().recs[rec];
        r.out.clear();
        r.writes.clear();
        r.seen.clear();
        r.first_val = 0;
        r.val_err = false;
        r.late = false;
        r.looks.truncate(100);
        world().f.muted_calls += 1;
    }
    begin_op();
    None
}
fn odd_able(op: &Op) -> bool {
    match op.k {
        K::Should | K::StyleShould | K::GetMode | K::GetStream => true,
        k => is_formatting(k) && op.a[SINK] % N_SINKS == 0,
    }
}
pub fn may_panic(op: &Op) -> bool {
    is_formatting(op.k) && (op.a[SINK] % N_SINKS == S_PANIC || (0..N_STEPS).any(|i| op.step(i).0 == V_PANIC))
}
fn is_formatting(k: K) -> bool {
    matches!(k, K::Fmt | K::Named | K::Generic | K::Apply | K::Clear | K::ClearAll | K::Direct)
}

fn run_op(op: &Op, rec: usize) -> Res {
    let a = &op.a;
    match op.k {
        K::SetMode => {
            armed(|| drv::set_mode((a[0] % 3) as u8));
            Res::Unit
        }
        K::SetStream => {
            armed(|| drv::set_stream((a[0] % 4 + 1) as u8));
            Res::Unit
        }
        K::GetMode => Res::Val(armed(drv::get_mode)),
        K::GetStream => Res::Val(armed(drv::get_stream)),
        K::EnvMode => Res::Val(drv::env_mode().unwrap_or(255)),
        K::SetFromEnv => {
            drv::set_from_env();
            Res::Unit
        }
        K::Should => {
            let k = kinds_of(a);
            Res::Bool(armed(|| drv::should((a[0] % 5) as u8, &k)))
        }
        K::StyleShould => {
            let d = model::layer_d(op, 0);
            Res::Bool(armed(|| drv::style_should(&d, layer_stream(op, 0) as u8)))
        }
        K::Fmt | K::Named | K::Generic | K::Apply | K::Clear | K::ClearAll | K::Direct => {
            let p = Prog {
                op,
                rec,
                quiet: false,
                force: None,
                                faulty: false,
            };
            let s = Sink { op, rec, n: 0 };
            match a[SINK] % N_SINKS {
                S_IO | S_IO_FAIL => {
                    let mut s = IoSink(s);
                    match io::Write::write_fmt(&mut s, format_args!("{}", CallDisplay(op, p))) {
                        Ok(()) => Res::Io(None),
                        Err(e) => Res::Io(Some(e.kind())),
                    }
                }
                _ => {
                    let mut s = s;
                    let mut f = Formatter::new(&mut s, options(a[SPEC]).0);
                    Res::Fmt(call(op, &p, &mut f).is_ok())
                }
            }
        }
        K::EffText => Res::Text(armed(|| drv::effect_text(a[9] as usize % drv::N_EFFECTS, a[10] % 2 == 1, a[11] % 2 == 1))),
        K::Noise => {
            drv::noise(a[0]);
            Res::Unit
        }
        K::SetVar => {
            let (v, x) = act_var(a[0]);
            let st = stamp();
            world().env.push((st, v, x));
            world().f.env_changes += 1;
            simrt::set_env(ENV_NAMES[v].as_bytes(), ENV_VALUES[x as usize]);
            Res::Unit
        }
        K::SetTty => {
            let (fd, on) = ((a[0] & 1) as usize, a[0] & 2 != 0);
            let st = stamp();
            world().tty.push((st, fd, on));
            world().f.tty_changes += 1;
            simrt::set_tty(fd, on);
            Res::Unit
        }
    }
}

pub fn exec(op: &Op, parent: Option<usize>) {
    let top = parent.is_none();
    if top {
        yield_point(Kind::OpStart, op.k as u32);
        begin_op();
    }
    let hold = if top { op.a[HOLD] % 3 } else { 0 };
    let rec = open(op, parent);
    let res = if top {
        let _o = (hold == 1).then(|| io::stdout().lock());
        let _e = (hold == 2).then(|| io::stderr().lock());
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let odd = if op.a[WARM] > 0 { odd_one(op, rec) } else { None };
            odd.unwrap_or_else(|| run_op(op, rec))
        })) {
            Ok(r) => r,
            Err(p) => match p.downcast::<PanicToken>() {
                Ok(t) => Res::UserPanic(t.0),
                Err(_) => Res::Panic(world().last_panic.clone()),
            },
        }
    } else {
        let on = OnUnwind(rec);
        let r = run_op(op, rec);
        std::mem::forget(on);
        r
    };
    if top {
        simrt::arm_alloc(false);
    }
    close(rec, res);
    if top {
        yield_point(Kind::OpEnd, op.k as u32);
    }
}

// -------------------------------------------------------------------- runs

pub fn setup(plan: &Plan) {
    unsafe { WORLD = Box::into_raw(Box::default()) };
    simrt::on_look(looked);
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        world().last_panic = s;
    }));
    for (i, v) in plan.env.iter().enumerate() {
        simrt::set_env(ENV_NAMES[i].as_bytes(), ENV_VALUES[*v as usize % ENV_VALUES.len()]);
    }
    for fd in 0..2 {
        simrt::set_tty(fd, plan.tty[fd]);
    }
    simrt::set_tty(2, plan.stdin);
}

pub fn run(plan: &Plan, alloc: bool) -> simrt::Outcome {
    if alloc {
        // the first detection of a stream may allocate
        drv::should(3, &[1]);
        drv::should(4, &[1]);
    }
    for o in &plan.pre {
        exec(o, None);
    }
    world().alloc_arm = alloc;
    let bodies = plan
        .tasks
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let (now, exit) = t.ops.split_at(t.at_exit());
            let body = |ops: &[Op]| -> simrt::Body {
                let ops = ops.to_vec();
                Box::new(move || {
                    TASK.with(|t| t.set(i));
                    for o in &ops {
                        exec(o, None);
                    }
                })
            };
            (body(now), body(exit), t.stall)
        })
        .collect();
    let post = plan.post.clone();
    let out = simrt::run(
        bodies,
        Box::new(move || {
            TASK.with(|t| t.set(POST));
            for o in &post {
                exec(o, None);
            }
        }),
    );
    world().alloc_arm = false;
    out
}

/// Calls the library in a quiet world.  If that panics, there is a text no call
/// writes.
fn quietly(f: impl FnOnce() -> fmt::Result) -> Option<Vec<u8>> {
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.err().map(|_| b"<panics>".to_vec())
}

/// What the explicit apply (or clear) of layer `j` of a formatting op writes in
/// a quiet world; the style has the type the op uses.
pub fn layer_part(op: &Op, n: usize, j: usize, clear: bool) -> Vec<u8> {
    let mut s = String::new();
    let tr = (op.a[TR] % drv::N_TRAITS as u32) as u8;
    quietly(|| {
        let mut f = Formatter::new(&mut s, FormattingOptions::new());
        drv::layer_part(n, j, &model::layer_d(op, j), tr, clear, &mut f)
    })
    .unwrap_or_else(|| s.into_bytes())
}

/// Output of `op` in a quiet world, with exactly the layers in `on` styled.
/// Leaves the mode at `mode`.
pub fn reference(op: &Op, on: u32) -> Vec<u8> {
    let mut o = op.clone();
    let n = match op.k {
        K::Fmt => op.a[NL] as usize % 3 + 1,
        _ => 1,
    };
    let mut force = 0;
    if matches!(op.k, K::Fmt | K::Named | K::Generic) {
        for j in 0..n {
            o.a[LAYER + 8 * j + L_STREAM] = if on & (1 << j) != 0 { 1 } else { 2 };
        }
        let mut next = n;
        for i in 0..N_STEPS {
            let (k, _) = op.step(i);
            if k == V_END {
                break;
            }
            if k == V_NESTED {
                if on & (1 << next) != 0 {
                    force |= 1 << i;
                }
                next += 1;
            }
        }
    }
    let mut s = String::new();
    let p = Prog {
        op: &o,
        rec: usize::MAX,
        quiet: true,
        force: Some(force),
        faulty: false,
    };
    quietly(|| call(&o, &p, &mut Formatter::new(&mut s, options(op.a[SPEC]).0))).unwrap_or_else(|| s.into_bytes())
}
