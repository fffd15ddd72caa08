//! What a run does: plain numbers, so that it can be generated, shrunk,
//! written to a replay file and read back.

use std::fmt::Write;

pub const NF: usize = 44;

macro_rules! kinds {
    ($($n:ident)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum K { $($n),* }
        pub const KINDS: &[(K, &str)] = &[$((K::$n, stringify!($n))),*];
    };
}
kinds! {
    SetMode GetMode SetStream GetStream EnvMode SetFromEnv Should StyleShould
    Fmt Named Generic Apply Clear ClearAll Direct EffText Noise SetVar SetTty
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Op {
    pub k: K,
    pub a: [u32; NF],
}

// field indices
pub const NL: usize = 0; // number of layers - 1
pub const LAYER: usize = 1; // 8 per layer
pub const L_STREAM: usize = 0;
pub const L_FG: usize = 1;
pub const L_BG: usize = 3;
pub const L_UL: usize = 5;
pub const L_EFF: usize = 7;
pub const TR: usize = 25;
pub const CTOR: usize = 26;
pub const STEPS: usize = 27; // 4 x (kind, arg)
pub const N_STEPS: usize = 4;
pub const SINK: usize = 35;
pub const SINK_ARG: usize = 36;
pub const SINK_ARG2: usize = 37;
pub const SPEC: usize = 38;
pub const HOLD: usize = 39;
/// so often the call was made before, with nobody looking
pub const WARM: usize = 40;
/// each time in a thread of its own
pub const WARM_APART: u32 = 1 << 20;
/// how the style is built
pub const ROUTE: usize = 41;
/// where it panics: 1 = a destructor calls the library meanwhile,
/// | 2 = formats a value (else acts), argument << 2
pub const UNWIND: usize = 42;

// value steps
pub const V_END: u32 = 0;
pub const V_TEXT: u32 = 1;
pub const V_PAD: u32 = 2;
pub const V_CHARS: u32 = 3;
pub const V_YIELD: u32 = 4;
pub const V_ACT: u32 = 5;
pub const V_NESTED: u32 = 6; // styled value written into the same formatter
pub const V_OWN: u32 = 7; // styled value formatted into a string of its own
pub const V_ERR: u32 = 8;
pub const V_PANIC: u32 = 9;
pub const N_V: u32 = 10;

/// a nested value styled as the one around it
pub const SAME_STYLE: u32 = 1 << 15;

// acts, in arg: act + 16 * param
pub const A_SETMODE: u32 = 0;
pub const A_SETSTREAM: u32 = 1;
pub const A_GETMODE: u32 = 2;
pub const A_GETSTREAM: u32 = 3;
pub const A_SHOULD: u32 = 4;
pub const A_ENVMODE: u32 = 5;
pub const A_SETFROMENV: u32 = 6;
pub const A_SETVAR: u32 = 7;
pub const A_SETTTY: u32 = 8;
pub const N_ACTS: u32 = 9;

// sinks
pub const S_OK: u32 = 0;
pub const S_FAIL: u32 = 1; // every write from the arg-th on fails
pub const S_FAIL_ONCE: u32 = 2; // only the arg-th write fails
pub const S_TORN: u32 = 3; // takes arg bytes in all, then fails
pub const S_PANIC: u32 = 4; // panics at the arg-th write
pub const S_IO: u32 = 5; // io::Write, short writes and EINTR
pub const S_IO_FAIL: u32 = 6; // io::Write, hard error at the arg-th write
pub const S_ACT: u32 = 7; // performs act arg2 at the arg-th write
pub const N_SINKS: u32 = 8;

pub const ENV_NAMES: &[&str] = &[
    "NO_COLOR",
    "ALWAYS_COLOR",
    "CLICOLOR_FORCE",
    "FORCE_COLOR",
    "TERM",
    "COLORTERM",
    "TERM_PROGRAM",
    "CLICOLOR",
    "IGNORE_IS_TERMINAL",
    "CI",
    "GITHUB_ACTION",
    "COLOR",
    "CARGO_TERM_COLOR",
    "ANSI_COLORS_DISABLED",
    "NO_COLOUR",
    "FORCE_COLOUR",
    "no_color",
    "force_color",
    // every other name
    "*",
];
/// without the last
pub const ENV_NAMED: usize = ENV_NAMES.len() - 1;
pub const ENV_VALUES: &[Option<&[u8]>] = &[
    None,
    Some(b"1"),
    Some(b"0"),
    Some(b""),
    Some(b"00"),
    Some(b"false"),
    Some(b"true"),
    Some(b"2"),
    Some(b"3"),
    Some(b"\xff"),
    Some(b"0\xff"),
    Some(b" 0"),
    Some(b"truecolor"),
    Some(b"xterm-256color"),
    Some(b"dumb"),
    Some(b"xterm"),
    Some(b"iTerm.app"),
    Some(b"Apple_Terminal"),
    Some(b"yes"),
    Some(b"0 "),
    Some(b"+0"),
    Some(b"-0"),
    Some(b"0\n"),
    Some(b"no"),
    Some(b"off"),
    Some(b"never"),
    Some(b"0x0"),
    Some(b"O"),
    Some(b"10"),
    Some(b"auto"),
    Some(b"always"),
    Some(b"none"),
    Some(b"disabled"),
    Some(b"n"),
    Some(b"f"),
    Some(b"False"),
    Some(b"NO"),
    Some(b"0.0"),
    Some(b"01"),
    Some(b"4"),
    Some(b"-1"),
    Some(b"256"),
    Some(b"\t0"),
    Some("\u{ff10}".as_bytes()),
    Some("\u{e9}".as_bytes()),
    Some(&[b'0'; 300]),
    Some(&[b'x'; 5000]),
];

impl Op {
    pub fn new(k: K) -> Op {
        Op { k, a: [0; NF] }
    }
    pub fn with(k: K, args: &[u32]) -> Op {
        let mut o = Op::new(k);
        o.a[..args.len()].copy_from_slice(args);
        o
    }
    pub fn step(&self, i: usize) -> (u32, u32) {
        (self.a[STEPS + 2 * i] % N_V, self.a[STEPS + 2 * i + 1])
    }
}

#[derive(Clone, Debug, Default)]
pub struct TaskPlan {
    pub ops: Vec<Op>,
    /// stop this task forever at its stall-th step (0: never)
    pub stall: u32,
    /// so many of the last operations happen while the thread exits
    pub exit: u32,
}

impl TaskPlan {
    /// index of the first operation done while the thread exits
    pub fn at_exit(&self) -> usize {
        self.ops.len() - (self.exit as usize).min(self.ops.len())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub env: Vec<u32>,
    pub tty: [bool; 2],
    pub stdin: bool,
    pub weak: bool,
    /// by the main thread, before and after
    pub pre: Vec<Op>,
    pub post: Vec<Op>,
    pub tasks: Vec<TaskPlan>,
}

impl Plan {
    pub fn new() -> Plan {
        Plan {
            env: vec![0; ENV_NAMES.len()],
            ..Default::default()
        }
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "weak {}", self.weak as u8).unwrap();
        for (i, v) in self.env.iter().enumerate() {
            if *v != 0 {
                writeln!(s, "env {i} {v} # {}={}", ENV_NAMES[i], show_val(*v)).unwrap();
            }
        }
        writeln!(s, "tty {} {} {}", self.tty[0] as u8, self.tty[1] as u8, self.stdin as u8).unwrap();
        let put = |s: &mut String, o: &Op| {
            let mut n = NF;
            while n > 0 && o.a[n - 1] == 0 {
                n -= 1;
            }
            write!(s, "op {:?}", o.k).unwrap();
            for x in &o.a[..n] {
                write!(s, " {x}").unwrap();
            }
            writeln!(s, " # {}", describe(o)).unwrap();
        };
        writeln!(s, "pre").unwrap();
        for o in &self.pre {
            put(&mut s, o);
        }
        for (i, t) in self.tasks.iter().enumerate() {
            writeln!(s, "task {} {} # T{i}{}", t.stall, t.exit, if t.stall > 0 { ", lost at that step" } else { "" }).unwrap();
            for (i, o) in t.ops.iter().enumerate() {
                if t.exit > 0 && i == t.at_exit() {
                    writeln!(s, "# the thread exits").unwrap();
                }
                put(&mut s, o);
            }
        }
        writeln!(s, "post").unwrap();
        for o in &self.post {
            put(&mut s, o);
        }
        s
    }

    pub fn from_text(text: &str) -> Plan {
        let mut p = Plan::new();
        // 0 pre, 1 tasks, 2 post
        let mut at = 0;
        for line in text.lines() {
            let line = line.split(" #").next().unwrap().trim();
            let w: Vec<&str> = line.split_whitespace().collect();
            let n = |i: usize| w[i].parse::<u32>().unwrap();
            match w.first().copied() {
                Some("weak") => p.weak = n(1) == 1,
                Some("env") => p.env[n(1) as usize] = n(2),
                Some("tty") => {
                    p.tty = [n(1) == 1, n(2) == 1];
                    p.stdin = w.len() > 3 && n(3) == 1;
                }
                Some("pre") => at = 0,
                Some("post") => at = 2,
                Some("task") => {
                    at = 1;
                    p.tasks.push(TaskPlan { ops: vec![], stall: n(1), exit: if w.len() > 2 { n(2) } else { 0 } });
                }
                Some("op") => {
                    let k = KINDS.iter().find(|k| k.1 == w[1]).unwrap().0;
                    let mut o = Op::new(k);
                    for i in 2..w.len() {
                        o.a[i - 2] = n(i);
                    }
                    match at {
                        0 => p.pre.push(o),
                        1 => p.tasks.last_mut().unwrap().ops.push(o),
                        _ => p.post.push(o),
                    }
                }
                _ => {}
            }
        }
        p
    }

    pub fn each_op(&self) -> impl Iterator<Item = &Op> {
        self.pre.iter().chain(self.tasks.iter().flat_map(|t| t.ops.iter())).chain(self.post.iter())
    }
}

pub fn show_val(v: u32) -> String {
    match ENV_VALUES[v as usize % ENV_VALUES.len()] {
        None => "(unset)".into(),
        Some(b) => format!("{:?}", String::from_utf8_lossy(b)),
    }
}

pub fn mode_name(m: u32) -> &'static str {
    ["Detect", "Always", "Never"][m as usize % 3]
}
pub fn stream_name(s: u32) -> &'static str {
    ["-", "AlwaysColor", "NeverColor", "Stdout", "Stderr"][s as usize % 5]
}

pub fn show_act(arg: u32) -> String {
    let p = arg / 16;
    match arg % 16 % N_ACTS {
        A_SETMODE => format!("set mode {}", mode_name(p)),
        A_SETSTREAM => format!("set default stream {}", stream_name(p % 4 + 1)),
        A_GETMODE => "get mode".into(),
        A_GETSTREAM => "get default stream".into(),
        A_SHOULD => format!("should_color({})", stream_name(p)),
        A_ENVMODE => "Mode::from_env".into(),
        A_SETFROMENV => "set mode from env".into(),
        A_SETVAR => {
            let (v, x) = act_var(p);
            format!("environment: {}={}", ENV_NAMES[v], show_val(x))
        }
        _ => format!("fd {} becomes {}", 1 + (p & 1), if p & 2 != 0 { "a terminal" } else { "no terminal" }),
    }
}
pub fn act_var(p: u32) -> (usize, u32) {
    ((p as usize) % ENV_NAMES.len(), p / ENV_NAMES.len() as u32 % ENV_VALUES.len() as u32)
}

fn color_name(k: u32, v: u32) -> String {
    match crate::model::color(k, v) {
        None => String::new(),
        Some(c) => format!("{c:?}(type {k})"),
    }
}

pub fn show_layer(o: &Op, j: usize) -> String {
    let l = &o.a[LAYER + 8 * j..LAYER + 8 * j + 8];
    let mut s = String::new();
    for (n, i) in [("fg", L_FG), ("bg", L_BG), ("ul", L_UL)] {
        let c = color_name(l[i], l[i + 1]);
        if !c.is_empty() {
            write!(s, "{n}={c} ").unwrap();
        }
    }
    write!(s, "effects={:#x} stream={}", l[L_EFF], stream_name(l[L_STREAM])).unwrap();
    s
}

fn show_nested(arg: u32, outer: &Op) -> String {
    show_layer(&crate::exec::nested_op(arg, false, Some(outer)), 0)
}

pub fn describe(o: &Op) -> String {
    let a = &o.a;
    let mut s = match o.k {
        K::SetMode => format!("set mode {}", mode_name(a[0])),
        K::SetStream => format!("set default stream {}", stream_name(a[0] % 4 + 1)),
        K::GetMode => "get mode".into(),
        K::GetStream => "get default stream".into(),
        K::EnvMode => "Mode::from_env".into(),
        K::SetFromEnv => "set mode from env".into(),
        K::Should => format!("should_color({}, {:?})", stream_name(a[0]), crate::exec::kinds_of(a)),
        K::StyleShould => format!("style.should_color: {}", show_layer(o, 0)),
        K::Fmt => {
            let mut s = String::from("format");
            for j in 0..=(a[NL] as usize % 3) {
                write!(s, " [{}]", show_layer(o, j)).unwrap();
            }
            write!(s, " trait {}", a[TR] % drv::N_TRAITS as u32).unwrap();
            s
        }
        K::Named => format!("format through {} #{} form {} (base {})", if a[9] % 2 == 0 { "color method" } else { "effect method" }, a[10], a[11], show_layer(o, 0)),
        K::Generic => format!("format through color setter form {} color {:#x}", a[11], a[10]),
        K::Apply => format!("style.apply(): {}", show_layer(o, 0)),
        K::Clear => format!("style.clear(): {}", show_layer(o, 0)),
        K::ClearAll => "Style::clear_all()".into(),
        K::Direct => format!("color sequence source {} color {:#x} layer {} args {}", a[9], a[10], a[11] % 3, a[12] % 2),
        K::EffText => format!("effect text #{} clear {} args {}", a[9], a[10] % 2, a[11] % 2),
        K::Noise => "other call".into(),
        K::SetVar => {
            let (v, x) = act_var(a[0]);
            format!("environment: {}={}", ENV_NAMES[v], show_val(x))
        }
        K::SetTty => format!("fd {} becomes {}", 1 + (a[0] & 1), if a[0] & 2 != 0 { "a terminal" } else { "no terminal" }),
    };
    if matches!(o.k, K::Fmt | K::Named | K::Generic) {
        s.push_str(" value:");
        for i in 0..N_STEPS {
            let (k, arg) = o.step(i);
            match k {
                V_END => break,
                V_TEXT | V_PAD | V_CHARS => write!(s, " text{k}#{arg}").unwrap(),
                V_YIELD => s.push_str(" pause"),
                V_ACT => write!(s, " <{}>", show_act(arg)).unwrap(),
                V_NESTED => write!(s, " nested({}{})", show_nested(arg, o), ["", "", ", then returns Err", ", then panics"][(arg >> 9) as usize % 4]).unwrap(),
                V_OWN => write!(s, " formats-elsewhere({}, {} levels deep{})", show_nested(arg, o), 1 + crate::exec::own_depth(arg), ["", "", ", ending with Err", ", ending with a panic"][(arg >> 9) as usize % 4]).unwrap(),
                V_ERR => s.push_str(" returns-Err"),
                _ => s.push_str(" panics"),
            }
        }
    }
    if a[SINK] != 0 {
        write!(
            s,
            " destination: {}",
            match a[SINK] % N_SINKS {
                S_FAIL => format!("fails from write {} on", a[SINK_ARG]),
                S_FAIL_ONCE => format!("fails at write {} only", a[SINK_ARG]),
                S_TORN => format!("takes {} bytes, then fails", a[SINK_ARG]),
                S_PANIC => format!("panics at write {}", a[SINK_ARG]),
                S_IO => format!("io, short writes/EINTR pattern {}", a[SINK_ARG]),
                S_IO_FAIL => format!("io, error {} at write {}", a[SINK_ARG2], a[SINK_ARG]),
                _ => format!("at write {} <{}>", a[SINK_ARG], show_act(a[SINK_ARG2])),
            }
        )
        .unwrap();
    }
    if a[UNWIND] & 1 == 1 && crate::exec::may_panic(o) {
        let u = a[UNWIND];
        match u & 2 {
            0 => write!(s, " unwinding: <{}>", show_act(u >> 2)).unwrap(),
            _ => write!(s, " unwinding: formats-elsewhere({}, {} levels deep)", show_nested(u >> 2, o), 1 + crate::exec::own_depth(u >> 2)).unwrap(),
        }
    }
    if a[WARM] != 0 {
        let apart = if a[WARM] & WARM_APART != 0 { ", each in a thread of its own" } else { "" };
        write!(s, " (after {} calls like it{apart})", a[WARM] % WARM_APART).unwrap();
    }
    if a[HOLD] != 0 && matches!(o.k, K::Fmt | K::Named | K::Generic | K::Apply) {
        write!(s, " (holding the lock of {})", ["", "stdout", "stderr"][a[HOLD] as usize % 3]).unwrap();
    }
    s
}
