//! Seeded generation of plans, one generator per property.

use crate::oracle::{SC, STD};
use crate::plan::*;
use simrt::{Policy, Rng};

fn color(r: &mut Rng) -> (u32, u32) {
    let kind = r.below(drv::N_KINDS as u32);
    color_val(r, kind)
}
fn edge_byte(r: &mut Rng) -> u32 {
    if r.pct(60) {
        r.pick(&[0, 1, 9, 10, 11, 99, 100, 101, 109, 110, 199, 200, 249, 250, 255])
    } else {
        r.below(256)
    }
}
fn rgb(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => return edge_byte(r) * 0x01_0101,
        1 => return crate::model::css_rgb(r.below(crate::model::N_CSS)),
        2 => {
            // of the xterm palette
            let c = |r: &mut Rng| r.pick(&[0, 95, 135, 175, 215, 255]);
            return c(r) << 16 | c(r) << 8 | c(r);
        }
        _ => {}
    }
    edge_byte(r) << 16 | edge_byte(r) << 8 | edge_byte(r)
}
fn any(r: &mut Rng) -> u32 {
    let f = r.below(4);
    f << 24
        | match f {
            0 => r.below(crate::model::N_ANSI),
            1 => r.below(256),
            2 => r.below(crate::model::N_CSS),
            _ => rgb(r),
        }
}
fn color_val(r: &mut Rng, kind: u32) -> (u32, u32) {
    let none = if r.pct(25) { drv::NONE_BIT } else { 0 };
    let v = match kind as u8 {
        drv::K_OPT => none | any(r),
        drv::K_COLOR => any(r),
        drv::K_RGB => rgb(r),
        drv::K_OPT_RGB => none | rgb(r),
        drv::K_ANSI => r.below(crate::model::N_ANSI),
        drv::K_OPT_OPT => none | r.below(crate::model::N_ANSI),
        drv::K_XTERM => r.below(256),
        drv::K_CSS => r.below(crate::model::N_CSS),
        drv::K_OPT_NO => none,
        _ => 0,
    };
    (kind, v)
}
fn effects(r: &mut Rng) -> u32 {
    let n = r.pick(&[0, 0, 1, 1, 2, 2, 3, 5, 13, 99]);
    if n == 99 {
        // every effect, or all but one
        let all = (1 << drv::N_EFFECTS) - 1;
        return if r.pct(50) { all } else { all & !(1 << r.below(drv::N_EFFECTS as u32)) };
    }
    let mut e = 0;
    for _ in 0..n {
        e |= 1 << r.below(drv::N_EFFECTS as u32);
    }
    e
}

/// A layer; `visible`: has some foreground, so that styled and plain differ.
fn layer(r: &mut Rng, o: &mut Op, j: usize, stream: u32, visible: bool) {
    let b = LAYER + 8 * j;
    o.a[b + L_STREAM] = stream;
    let (k, v) = color(r);
    o.a[b + L_FG] = k;
    o.a[b + L_FG + 1] = v;
    if r.pct(50) {
        let (k, v) = color(r);
        o.a[b + L_BG] = k;
        o.a[b + L_BG + 1] = v;
    }
    o.a[b + L_EFF] = effects(r);
    if r.pct(35) {
        let (k, v) = color(r);
        o.a[b + L_UL] = k;
        o.a[b + L_UL + 1] = v;
        if r.pct(80) {
            o.a[b + L_EFF] |= r.pick(&[8, 16, 8, 24]);
        }
    }
    // equal parts
    if r.pct(12) {
        let (from, to) = r.pick(&[(L_FG, L_BG), (L_FG, L_UL), (L_BG, L_FG), (L_UL, L_BG)]);
        o.a[b + to] = o.a[b + from];
        o.a[b + to + 1] = o.a[b + from + 1];
    }
    if j > 0 && r.pct(20) {
        // the same style as the layer below, or a part of it
        let from = b - 8;
        for (i, pct) in [(L_FG, 80), (L_BG, 80), (L_UL, 80)] {
            if r.pct(pct) {
                o.a[b + i] = o.a[from + i];
                o.a[b + i + 1] = o.a[from + i + 1];
            }
        }
        if r.pct(80) {
            o.a[b + L_EFF] = o.a[from + L_EFF];
        }
    }
    if visible && crate::model::color(o.a[b + L_FG], o.a[b + L_FG + 1]).is_none() && o.a[b + L_EFF] == 0 {
        o.a[b + L_FG] = r.pick(&[drv::K_CT_ANSI as u32, drv::K_RGB as u32, drv::K_XTERM as u32]);
    }
}

fn stream(r: &mut Rng, none: u32) -> u32 {
    if r.pct(none) {
        0
    } else {
        1 + r.below(4)
    }
}

#[derive(Clone, Copy)]
struct V {
    acts: u32,   // percentage of steps that act
    nested: u32, // ... that nest
    end: u32,    // 0 nothing, 1 may fail, 2 may panic
    set: bool,   // acts may change settings
    env: bool,   // acts may change environment/terminal
}
const QUIET: V = V {
    acts: 0,
    nested: 10,
    end: 0,
    set: false,
    env: false,
};

fn act(r: &mut Rng, v: V) -> u32 {
    loop {
        let a = r.below(N_ACTS);
        let p = match a {
            A_SETMODE if v.set => r.below(3),
            A_SETSTREAM if v.set => r.below(4),
            A_SETFROMENV if v.set && STD => 0,
            A_SHOULD => r.below(5),
            A_GETMODE | A_GETSTREAM => 0,
            A_ENVMODE if STD => 0,
            A_SETVAR if v.env => setvar(r),
            A_SETTTY if v.env => r.below(4),
            _ => continue,
        };
        return a + 16 * p;
    }
}
fn setvar(r: &mut Rng) -> u32 {
    let (var, val) = var_val(r);
    var + ENV_NAMES.len() as u32 * val
}
fn var_val(r: &mut Rng) -> (u32, u32) {
    let var = if r.pct(3) { r.below(ENV_NAMES.len() as u32) } else if r.pct(5) { ENV_NAMED as u32 } else { r.pick(&[0, 0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10]) };
    let val = if r.pct(25) {
        r.below(ENV_VALUES.len() as u32)
    } else {
        match var {
            4 => r.pick(&[0, 13, 14, 15]),
            5 => r.pick(&[0, 12, 1]),
            6 => r.pick(&[0, 16, 17]),
            3 => r.pick(&[0, 1, 2, 3, 5, 6, 7, 8]),
            _ => r.pick(&[0, 1, 2, 3, 4]),
        }
    };
    (var, val)
}

fn same(r: &mut Rng) -> u32 {
    if r.pct(25) {
        SAME_STYLE
    } else {
        0
    }
}
/// how a nested value ends
fn ends(r: &mut Rng, v: V) -> u32 {
    if v.end != 0 && r.pct(25) {
        v.end + 1
    } else {
        0
    }
}

fn value(r: &mut Rng, o: &mut Op, v: V) {
    let n = r.pick(&[1, 1, 2, 3, 4]) as usize;
    let mut nested = 0;
    for i in 0..n {
        let (k, a) = if r.pct(v.acts) {
            if r.pct(20) {
                let deep = r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 7, 12]);
                let deeper = if deep == 12 && r.pct(20) { r.pick(&[3, 5, 8, 20, 40, 56]) << 16 } else { 0 };
                (V_OWN, r.below(512) | ends(r, v) << 9 | deep << 11 | same(r) | deeper)
            } else {
                (V_ACT, act(r, v))
            }
        } else if nested < 2 && r.pct(v.nested) {
            nested += 1;
            (V_NESTED, r.below(512) | ends(r, v) << 9 | same(r))
        } else if r.pct(10) {
            (V_YIELD, 0)
        } else {
            let k = r.pick(&[V_TEXT, V_TEXT, V_PAD, V_CHARS]);
            (k, r.below(32) | if r.pct(4) { r.pick(&[64, 96, if k == V_CHARS { 96 } else { 32 }]) } else { 0 })
        };
        o.a[STEPS + 2 * i] = k;
        o.a[STEPS + 2 * i + 1] = a;
    }
    if v.end != 0 && r.pct(if v.end == 1 { 25 } else { 35 }) {
        let i = r.below(n as u32) as usize;
        o.a[STEPS + 2 * i] = if v.end == 1 { V_ERR } else { V_PANIC };
        o.a[STEPS + 2 * i + 1] = 0;
    }
}

fn spec(r: &mut Rng) -> u32 {
    if r.pct(60) {
        0
    } else {
        r.below(1 << 17) | if r.pct(8) { r.below(16) << 17 } else { 0 } | if r.pct(15) { r.below(4) << 21 } else { 0 }
    }
}

/// A formatting call.
fn fmt(r: &mut Rng, v: V, none: u32, visible: bool) -> Op {
    let k = r.pick(&[K::Fmt, K::Fmt, K::Fmt, K::Fmt, K::Named, K::Generic]);
    let mut o = Op::new(k);
    let n = if k == K::Fmt { r.pick(&[0, 0, 0, 1, 1, 2]) } else { 0 };
    let st = stream(r, none);
    layer(r, &mut o, 0, st, visible);
    match k {
        K::Named => {
            o.a[9] = r.below(2);
            o.a[10] = r.below(16 * 13);
            o.a[11] = r.below(30);
        }
        K::Generic => {
            o.a[10] = any(r);
            o.a[11] = r.below(6);
        }
        _ => {
            o.a[NL] = n;
            for j in 1..=n as usize {
                let st = stream(r, none);
                if r.pct(10) {
                    o.a[LAYER + 8 * j] = st; // plain wrapper
                } else {
                    layer(r, &mut o, j, st, visible);
                }
            }
            o.a[TR] = if r.pct(60) { 0 } else { r.below(drv::N_TRAITS as u32) };
            o.a[CTOR] = r.below(1 << 24);
        }
    }
    value(r, &mut o, v);
    o.a[SPEC] = spec(r);
    o.a[ROUTE] = r.below(u32::MAX);
    o
}

fn seq(r: &mut Rng) -> Op {
    let k = r.pick(&[K::Apply, K::Apply, K::Clear, K::Clear, K::Direct, K::Direct, K::ClearAll]);
    let mut o = Op::new(k);
    match k {
        K::Direct => {
            o.a[9] = r.below(6);
            o.a[10] = any(r);
            o.a[11] = r.below(3);
            o.a[12] = r.below(2);
        }
        K::ClearAll => {}
        _ => layer(r, &mut o, 0, 0, false),
    }
    o.a[ROUTE] = r.below(256);
    o.a[TR] = r.below(2);
    o.a[SPEC] = spec(r);
    o
}
fn efftext(r: &mut Rng) -> Op {
    let mut o = Op::new(K::EffText);
    o.a[9] = r.below(13);
    o.a[10] = r.below(2);
    o.a[11] = r.below(2);
    o
}

fn should(r: &mut Rng, none: u32) -> Op {
    if r.pct(60) {
        Op::with(K::Should, &[stream(r, none), r.below(5), r.below(256)])
    } else {
        let mut o = Op::new(K::StyleShould);
        let st = stream(r, none);
        layer(r, &mut o, 0, st, false);
        o
    }
}

fn setter(r: &mut Rng) -> Op {
    match r.below(if STD { 9 } else { 8 }) {
        0..=3 => Op::with(K::SetMode, &[r.pick(&[0, 0, 1, 2])]),
        8 => Op::new(K::SetFromEnv),
        _ => Op::with(K::SetStream, &[r.below(4)]),
    }
}

fn sink_io(r: &mut Rng, o: &mut Op) {
    o.a[SINK] = S_IO;
    o.a[SINK_ARG] = r.below(1 << 16);
}

fn env(r: &mut Rng, p: &mut Plan, n: u32) {
    for _ in 0..r.below(n + 1) {
        let (var, val) = var_val(r);
        p.env[var as usize] = val;
    }
    if SC && r.pct(50) {
        p.env[4] = r.pick(&[13, 15]);
    }
    p.tty = [r.pct(50), r.pct(50)];
    p.stdin = r.pct(50);
}

pub struct Sched {
    pub policy: Policy,
    pub stale_pct: u32,
}

pub fn sched(r: &mut Rng) -> Sched {
    let policy = match r.below(20) {
        0..=7 => Policy::Random(r.pick(&[5, 15, 30, 60])),
        8..=14 => Policy::Pct(r.pick(&[1, 2, 3, 5])),
        _ => Policy::Atomics(r.pick(&[25, 60])),
    };
    Sched {
        policy,
        stale_pct: r.pick(&[20, 50, 80]),
    }
}

fn tasks(r: &mut Rng, p: &mut Plan, n: u32, ops: u32, mut f: impl FnMut(&mut Rng, usize) -> Op) {
    let (n, ops) = if r.pct(4) { (4 + r.below(5), ops.min(3)) } else { (1 + r.below(n), ops) };
    for t in 0..n as usize {
        let k = 1 + r.below(ops);
        let mut ops: Vec<Op> = (0..k).map(|_| f(r, t)).collect();
        // the same again, or nearly
        if ops.len() > 1 && r.pct(25) {
            let i = r.below(k - 1) as usize;
            if crate::oracle::is_fmt(&ops[i]) && crate::oracle::is_fmt(&ops[i + 1]) {
                ops[i + 1] = ops[i].clone();
                if r.pct(30) {
                    ops[i + 1].a[LAYER + L_STREAM] = r.below(5);
                }
            }
        }
        p.tasks.push(TaskPlan { ops, stall: 0, exit: 0 });
    }
}
fn final_reads(p: &mut Plan) {
    p.post.push(Op::new(K::GetMode));
    p.post.push(Op::new(K::GetStream));
}
/// At most one task holds each of the process-wide output locks.
fn holds(r: &mut Rng, p: &mut Plan) {
    for h in 1..=2 {
        if r.pct(30) {
            let t = r.below(p.tasks.len() as u32) as usize;
            for o in &mut p.tasks[t].ops {
                if r.pct(60) && crate::oracle::is_fmt(o) && o.a[HOLD] == 0 {
                    o.a[HOLD] = h;
                }
            }
        }
    }
}
fn stalls(r: &mut Rng, p: &mut Plan, pct: u32) {
    let n = p.tasks.len();
    for (i, t) in p.tasks.iter_mut().enumerate() {
        if n > 1 && i + 1 < n && r.pct(pct) {
            let m = if r.pct(50) { 12 } else { 60 };
            t.stall = 1 + r.below(m);
        }
    }
}

pub fn plan(prop: &str, r: &mut Rng) -> Plan {
    let mut p = Plan::new();
    let all = V {
        acts: 35,
        nested: 20,
        end: 0,
        set: true,
        env: STD || SC,
    };
    match prop {
        "C01" => {
            p.weak = r.pct(30);
            env(r, &mut p, 3);
            if r.pct(50) {
                p.pre.push(Op::with(K::SetMode, &[r.pick(&[0, 1, 2])]));
            }
            tasks(r, &mut p, 4, 4, |r, _| {
                if r.pct(60) {
                    let mut o = fmt(r, all, 40, true);
                    match r.below(10) {
                        0 => sink_io(r, &mut o),
                        1 | 2 => {
                            o.a[SINK] = S_ACT;
                            o.a[SINK_ARG] = r.below(5);
                            o.a[SINK_ARG2] = act(r, all);
                        }
                        _ => {}
                    }
                    o
                } else if r.pct(80) {
                    setter(r)
                } else if STD || SC {
                    Op::with(K::SetTty, &[r.below(4)])
                } else {
                    should(r, 30)
                }
            });
        }
        "C02" => {
            let dynamic = r.pct(25);
            env(r, &mut p, 3);
            if r.pct(50) {
                p.pre.push(Op::with(K::SetStream, &[r.below(4)]));
            }
            let v = V {
                acts: 20,
                env: dynamic && (STD || SC),
                ..all
            };
            tasks(r, &mut p, 4, 5, |r, _| match r.below(100) {
                0..=29 => fmt(r, v, 45, true),
                30..=54 => should(r, 45),
                55..=89 => setter(r),
                _ if v.env => {
                    if r.pct(50) {
                        Op::with(K::SetTty, &[r.below(4)])
                    } else {
                        Op::with(K::SetVar, &[setvar(r)])
                    }
                }
                _ => should(r, 45),
            });
            p.post.push(Op::with(K::Should, &[0, 0]));
        }
        "C03" => {
            env(r, &mut p, 3);
            tasks(r, &mut p, 4, 6, |r, _| match r.below(100) {
                0..=34 => setter(r),
                35..=49 => Op::new(K::GetMode),
                50..=64 => Op::new(K::GetStream),
                65..=74 => fmt(r, V { acts: 25, ..all }, 40, true),
                75..=82 => should(r, 40),
                83..=87 => {
                    if STD {
                        Op::new(K::EnvMode)
                    } else {
                        efftext(r)
                    }
                }
                88..=91 => seq(r),
                92..=95 => Op::with(K::Noise, &[r.below(50)]),
                _ if STD || SC => Op::with(K::SetVar, &[setvar(r)]),
                _ => Op::new(K::GetMode),
            });
            final_reads(&mut p);
        }
        "C04" => {
            p.weak = true;
            p.tty = [r.pct(50), r.pct(50)];
            p.stdin = r.pct(50);
            let n = 2 + r.below(3) as usize;
            // the writers of mode and stream: the same task, or two
            let wm = r.below(n as u32) as usize;
            let ws = if r.pct(60) { wm } else { r.below(n as u32) as usize };
            // unique values, so that each read tells which write it saw; Detect
            // as a set value makes decisions fall back to the stream
            let m0 = r.pick(&[0, 1, 2, 1, 2]);
            let mut modes: Vec<u32> = [0, 1, 2].into_iter().filter(|m| *m != m0).collect();
            let s0 = r.below(4);
            let mut streams: Vec<u32> = (0..4).filter(|s| *s != s0).collect();
            for v in [&mut modes, &mut streams] {
                for i in (1..v.len()).rev() {
                    v.swap(i, r.below(i as u32 + 1) as usize);
                }
            }
            if m0 != 0 {
                p.pre.push(Op::with(K::SetMode, &[m0]));
            }
            if s0 != 0 {
                p.pre.push(Op::with(K::SetStream, &[s0]));
            }
            // one of them through the environment
            let from_env = if STD && r.pct(35) { r.pick(&modes) } else { 0 };
            match from_env {
                0 => {}
                1 => p.env[r.pick(&[1, 2, 3])] = r.pick(&[1, 3]),
                _ => {
                    p.env[0] = 1;
                    p.env[1] = r.below(2);
                }
            }
            let mut left = [modes.len(), 1 + r.below(3) as usize];
            let read = |r: &mut Rng| match r.below(10) {
                0..=3 => Op::new(K::GetMode),
                4..=6 => Op::new(K::GetStream),
                7 => {
                    let mut o = fmt(r, QUIET, 70, true);
                    o.a[NL] = 0;
                    o
                }
                _ => should(r, 80),
            };
            for t in 0..n {
                let mut ops = vec![];
                for _ in 0..3 + r.below(4) {
                    let w = r.below(10);
                    if t == wm && w < 4 && left[0] > 0 {
                        left[0] -= 1;
                        ops.push(match modes.remove(0) {
                            m if m != 0 && m == from_env => Op::new(K::SetFromEnv),
                            m => Op::with(K::SetMode, &[m]),
                        });
                    } else if t == ws && (4..8).contains(&w) && left[1] > 0 {
                        left[1] -= 1;
                        ops.push(Op::with(K::SetStream, &[streams.remove(0)]));
                    } else {
                        ops.push(read(r));
                    }
                }
                p.tasks.push(TaskPlan { ops, stall: 0, exit: 0 });
            }
        }
        "C05" => {
            p.weak = r.pct(20);
            env(r, &mut p, 3);
            let v = V { env: true, ..all };
            tasks(r, &mut p, 4, 6, |r, _| match r.below(100) {
                0..=29 => fmt(r, v, 30, true),
                30..=44 => should(r, 30),
                45..=74 => match r.below(10) {
                    0..=5 => Op::with(K::SetMode, &[r.pick(&[1, 1, 0, 2])]),
                    6 if STD => Op::new(K::SetFromEnv),
                    _ => Op::with(K::SetStream, &[r.pick(&[0, 2, 3, 1])]),
                },
                75..=84 => Op::new(K::GetMode),
                85..=92 => Op::with(K::SetVar, &[setvar(r)]),
                _ => Op::with(K::SetTty, &[r.below(4)]),
            });
            p.post.push(Op::new(K::GetMode));
            p.post.push(Op::with(K::Should, &[1, 1, 1]));
        }
        "C06" => {
            env(r, &mut p, 4);
            if r.pct(60) {
                p.pre.push(Op::with(K::SetStream, &[r.pick(&[2, 3, 2, 3, 0])]));
            }
            let v = V {
                acts: 20,
                set: false,
                env: true,
                ..all
            };
            let st = |r: &mut Rng| r.pick(&[0, 3, 3, 4, 4, 4, 3, 1]);
            let changing = r.pct(60);
            tasks(r, &mut p, 4, 5, |r, _| match r.below(100) {
                0..=14 => {
                    let mut o = fmt(r, v, 20, true);
                    for j in 0..3 {
                        o.a[LAYER + 8 * j + L_STREAM] = if j == 0 || o.k == K::Fmt { st(r) } else { o.a[LAYER + 8 * j + L_STREAM] };
                    }
                    o
                }
                15..=24 => {
                    let mut o = should(r, 0);
                    if o.k == K::StyleShould {
                        o.a[LAYER + L_STREAM] = st(r);
                    } else {
                        o.a[0] = st(r);
                    }
                    o
                }
                25..=69 => Op::with(K::Should, &[st(r), r.pick(&[1, 1, 1, 2, 3, 0]), r.below(256)]),
                70..=79 => Op::new(r.pick(&[K::GetMode, K::GetStream])),
                _ if !changing => Op::with(K::Should, &[st(r), 1, 1 + r.below(3)]),
                80..=91 => Op::with(K::SetTty, &[r.below(4)]),
                _ => Op::with(K::SetVar, &[setvar(r)]),
            });
            for s in [3, 4] {
                for k in 1..4 {
                    p.post.push(Op::with(K::Should, &[s, 1, k]));
                }
            }
        }
        "C07" => {
            env(r, &mut p, 2);
            if r.pct(70) {
                p.pre.push(Op::with(K::SetMode, &[r.pick(&[1, 1, 0, 2])]));
            }
            // a part of the runs has no fault at all
            let faulty = r.pct(85);
            let v = V {
                acts: 12,
                nested: 20,
                end: 0,
                set: true,
                env: false,
            };
            tasks(r, &mut p, 3, 4, |r, _| match r.below(100) {
                0..=69 => {
                    let mut v = v;
                    let sink = if faulty { r.pick(&[S_OK, S_FAIL, S_FAIL, S_FAIL_ONCE, S_FAIL_ONCE, S_TORN, S_TORN, S_IO, S_IO_FAIL]) } else { r.pick(&[S_OK, S_IO]) };
                    if faulty && !matches!(sink, S_IO | S_IO_FAIL) && r.pct(30) {
                        v.end = 1;
                    }
                    let mut o = fmt(r, v, 40, true);
                    sinks(r, &mut o, sink);
                    o
                }
                70..=84 => {
                    let mut o = seq(r);
                    let sink = if faulty { r.pick(&[S_FAIL, S_FAIL_ONCE, S_TORN, S_IO, S_IO_FAIL]) } else { S_IO };
                    sinks(r, &mut o, sink);
                    o
                }
                _ => setter(r),
            });
        }
        "C08" => {
            p.weak = r.pct(20);
            env(r, &mut p, 3);
            tasks(r, &mut p, 4, 5, |r, _| match r.below(100) {
                0..=59 => {
                    let mut o = seq(r);
                    if r.pct(15) {
                        sink_io(r, &mut o);
                    }
                    o
                }
                60..=64 => efftext(r),
                65..=79 => setter(r),
                80..=89 => fmt(r, V { env: STD || SC, ..all }, 40, false),
                90..=94 => Op::with(K::SetTty, &[r.below(4)]),
                95..=96 => should(r, 40),
                _ => Op::with(K::SetVar, &[setvar(r)]),
            });
        }
        "C09" => {
            p.weak = r.pct(20);
            env(r, &mut p, 2);
            p.pre.push(Op::with(K::SetMode, &[r.pick(&[1, 1, 1, 0])]));
            if r.pct(30) {
                p.pre.push(Op::with(K::SetStream, &[r.below(4)]));
            }
            tasks(r, &mut p, 3, 5, |r, _| {
                let mut o = if r.pct(80) { fmt(r, V { nested: 25, ..QUIET }, 40, false) } else { seq(r) };
                if r.pct(25) {
                    sink_io(r, &mut o);
                }
                o
            });
        }
        "C10" => {
            for v in 4..ENV_NAMES.len() {
                if r.pct(6) {
                    p.env[v] = r.below(ENV_VALUES.len() as u32);
                }
            }
            for v in 0..4 {
                if r.pct(45) {
                    p.env[v] = if r.pct(35) { r.below(ENV_VALUES.len() as u32) } else { r.pick(&[1, 2, 3, 4, 5, 6, 9, 10, 11, 19, 2, 2]) };
                }
            }
            let val = |r: &mut Rng| if r.pct(35) { r.below(ENV_VALUES.len() as u32) } else { r.pick(&[0, 0, 1, 2, 2, 3, 4, 5, 9, 10, 11, 19]) };
            tasks(r, &mut p, 4, 6, |r, _| match r.below(100) {
                0..=29 => Op::new(K::EnvMode),
                30..=54 => Op::new(K::SetFromEnv),
                55..=64 => Op::with(K::SetMode, &[r.below(3)]),
                65..=79 => Op::new(K::GetMode),
                80..=82 => fmt(r, V { acts: 50, env: true, ..all }, 40, true),
                _ => {
                    let v = if r.pct(5) { r.below(ENV_NAMES.len() as u32) } else { r.below(4) };
                    Op::with(K::SetVar, &[v + ENV_NAMES.len() as u32 * val(r)])
                }
            });
            p.post.push(Op::new(K::EnvMode));
            p.post.push(Op::new(K::GetMode));
            p.post.push(Op::new(K::SetFromEnv));
            p.post.push(Op::new(K::GetMode));
        }
        "C11" | "C12" => {
            let c12 = prop == "C12";
            p.weak = !c12 && r.pct(20);
            env(r, &mut p, 3);
            let faulty = r.pct(90);
            let v = V {
                acts: 40,
                end: if c12 && faulty { 2 } else { 0 },
                env: !c12 && (STD || SC),
                ..all
            };
            tasks(r, &mut p, 4, 4, |r, _| match r.below(100) {
                0..=44 => {
                    let mut o = fmt(r, v, 40, true);
                    if c12 && faulty && r.pct(25) {
                        o.a[SINK] = S_PANIC;
                        o.a[SINK_ARG] = r.below(7);
                    } else if r.pct(15) {
                        o.a[SINK] = S_ACT;
                        o.a[SINK_ARG] = r.below(5);
                        o.a[SINK_ARG2] = act(r, v);
                    }
                    o
                }
                45..=59 => should(r, 30),
                60..=79 => setter(r),
                80..=86 => Op::new(K::GetMode),
                87..=92 => Op::new(K::GetStream),
                93..=96 if STD => Op::new(K::EnvMode),
                _ => {
                    let mut o = seq(r);
                    if c12 && faulty && r.pct(40) {
                        o.a[SINK] = S_PANIC;
                        o.a[SINK_ARG] = r.below(3);
                    }
                    o
                }
            });
            if faulty {
                stalls(r, &mut p, if c12 { 30 } else { 60 });
            }
            holds(r, &mut p);
            final_reads(&mut p);
            let calm = V { end: 0, acts: 0, ..v };
            p.post.push(fmt(r, calm, 40, true));
            p.post.push(should(r, 40));
            p.post.push(Op::with(K::SetMode, &[r.below(3)]));
            p.post.push(Op::with(K::SetStream, &[r.below(4)]));
            p.post.push(fmt(r, calm, 40, true));
            for s in 1..5 {
                p.post.push(Op::with(K::Should, &[s, 1, 1 + r.below(3)]));
            }
            final_reads(&mut p);
        }
        "C13" => {
            env(r, &mut p, 2);
            let v = V { acts: 20, env: false, ..all };
            tasks(r, &mut p, 3, 5, |r, _| match r.below(100) {
                0..=44 => {
                    let mut o = fmt(r, v, 40, true);
                    // reading the environment may allocate
                    for i in 0..N_STEPS {
                        if o.a[STEPS + 2 * i] == V_ACT && matches!(o.a[STEPS + 2 * i + 1] % 16, A_ENVMODE | A_SETFROMENV) {
                            o.a[STEPS + 2 * i + 1] = A_GETMODE;
                        }
                    }
                    if r.pct(15) {
                        sink_io(r, &mut o);
                    }
                    o
                }
                45..=59 => should(r, 40),
                60..=74 => match r.below(2) {
                    0 => Op::with(K::SetMode, &[r.below(3)]),
                    _ => Op::with(K::SetStream, &[r.below(4)]),
                },
                75..=79 => Op::new(K::GetMode),
                80..=84 => Op::new(K::GetStream),
                85..=88 => efftext(r),
                _ => seq(r),
            });
            final_reads(&mut p);
        }
        "C14" => {
            env(r, &mut p, 3);
            if r.pct(50) {
                p.pre.push(Op::with(K::SetStream, &[r.below(4)]));
            }
            let m = r.pick(&[0, 1, 2, 2]);
            if m != 0 {
                p.pre.push(Op::with(K::SetMode, &[m]));
            }
            // settled from the start, or changing
            let set = r.pct(50);
            let v = V {
                acts: 20,
                set,
                end: r.pick(&[0, 0, 1]),
                env: STD || SC,
                ..all
            };
            tasks(r, &mut p, 4, 5, |r, _| match r.below(100) {
                0..=34 => {
                    let mut o = fmt(r, v, 40, true);
                    match r.below(10) {
                        0 => sink_io(r, &mut o),
                        1 => {
                            let s = r.pick(&[S_FAIL, S_FAIL_ONCE, S_TORN]);
                            sinks(r, &mut o, s)
                        }
                        _ => {}
                    }
                    o
                }
                35..=59 => should(r, 40),
                60..=74 if set => setter(r),
                60..=74 => should(r, 20),
                75..=79 => seq(r),
                80..=81 => efftext(r),
                82..=84 => Op::new(K::GetMode),
                85..=87 => Op::new(K::GetStream),
                88..=89 => Op::with(K::Noise, &[r.below(50)]),
                90..=92 if STD => Op::new(K::EnvMode),
                93..=94 if STD => Op::new(K::SetFromEnv),
                _ if STD || SC => {
                    if r.pct(50) {
                        Op::with(K::SetTty, &[r.below(4)])
                    } else {
                        Op::with(K::SetVar, &[setvar(r)])
                    }
                }
                _ => should(r, 40),
            });
            final_reads(&mut p);
        }
        "C15" => {
            p.weak = r.pct(20);
            env(r, &mut p, 2);
            if r.pct(70) {
                p.pre.push(Op::with(K::SetMode, &[r.pick(&[1, 1, 0, 2])]));
            }
            let faulty = r.pct(75);
            let v = V {
                acts: 15,
                nested: 25,
                end: 0,
                set: true,
                env: STD || SC,
            };
            tasks(r, &mut p, 4, 4, |r, _| match r.below(100) {
                0..=74 => {
                    let mut v = v;
                    let sink = if faulty { r.pick(&[S_OK, S_OK, S_FAIL, S_FAIL_ONCE, S_FAIL_ONCE, S_TORN, S_IO, S_IO_FAIL, S_PANIC, S_ACT]) } else { r.pick(&[S_OK, S_OK, S_OK, S_IO, S_ACT]) };
                    // std panics where a value fails and an io::Write does not
                    if faulty && r.pct(35) {
                        v.end = if matches!(sink, S_IO | S_IO_FAIL) { 2 } else { r.pick(&[1, 1, 2]) };
                    }
                    let visible = r.pct(70);
                    let mut o = fmt(r, v, 40, visible);
                    // values which write nothing at all, or nothing themselves
                    if r.pct(12) {
                        let keep = r.pct(50);
                        for i in 0..N_STEPS {
                            if !keep || matches!(o.step(i).0, V_TEXT | V_PAD | V_CHARS) {
                                o.a[STEPS + 2 * i] = if i == 0 || keep { V_YIELD } else { V_END };
                            }
                        }
                    }
                    match sink {
                        S_ACT => {
                            o.a[SINK] = S_ACT;
                            o.a[SINK_ARG] = r.below(5);
                            o.a[SINK_ARG2] = act(r, v);
                        }
                        S_OK => {}
                        _ => sinks(r, &mut o, sink),
                    }
                    o
                }
                75..=89 => setter(r),
                90..=94 => seq(r),
                _ => should(r, 40),
            });
            if faulty {
                stalls(r, &mut p, 15);
            }
        }
        "C16" => {
            p.weak = r.pct(20);
            env(r, &mut p, 3);
            if r.pct(50) {
                p.pre.push(Op::with(K::SetMode, &[r.pick(&[1, 1, 0, 2])]));
            }
            // a few requests, again and again
            let pool: Vec<Op> = (0..1 + r.below(3))
                .map(|_| {
                    if r.pct(80) {
                        let visible = r.pct(80);
                        fmt(r, V { acts: 15, env: STD || SC, ..all }, 50, visible)
                    } else {
                        seq(r)
                    }
                })
                .collect();
            let pick = |r: &mut Rng| {
                let mut o = pool[r.below(pool.len() as u32) as usize].clone();
                if crate::oracle::is_fmt(&o) && r.pct(20) {
                    o.a[LAYER + L_STREAM] = r.below(5);
                }
                let sink = r.pick(&[S_OK, S_OK, S_OK, S_IO, S_IO, S_FAIL, S_FAIL_ONCE, S_TORN, S_IO_FAIL]);
                if sink != S_OK {
                    sinks(r, &mut o, sink);
                }
                o
            };
            tasks(r, &mut p, 4, 6, |r, _| match r.below(100) {
                0..=69 => pick(r),
                70..=84 => setter(r),
                85..=89 => should(r, 40),
                90..=92 => seq(r),
                93..=95 => Op::with(K::Noise, &[r.below(50)]),
                _ if STD || SC => Op::with(K::SetTty, &[r.below(4)]),
                _ => Op::new(K::GetMode),
            });
            for o in &pool {
                p.post.push(o.clone());
            }
            p.post.push(setter(r));
            for o in &pool {
                p.post.push(o.clone());
            }
        }
        _ => panic!("no such property {prop}"),
    }
    repeats(prop, r, &mut p);
    threads(r, &mut p);
    unwinding(r, &mut p);
    if r.pct(8) {
        for t in &mut p.tasks {
            if r.pct(50) {
                t.exit = 1 + r.below(t.ops.len() as u32);
            }
        }
    }
    p
}

/// Lets destructors of user code call the library while a panic unwinds.
fn unwinding(r: &mut Rng, p: &mut Plan) {
    let v = V {
        set: true,
        ..QUIET
    };
    for o in p.tasks.iter_mut().flat_map(|t| t.ops.iter_mut()) {
        if crate::exec::may_panic(o) && r.pct(40) {
            let what = if r.pct(60) { 2 | (r.below(512) | r.pick(&[0, 0, 1, 3]) << 11 | same(r)) << 2 } else { act(r, v) << 2 };
            o.a[UNWIND] = 1 | what;
        }
    }
}

/// Lets some calls happen many times: state which counts, fills up or wraps
/// around shows only then.
fn repeats(prop: &str, r: &mut Rng, p: &mut Plan) {
    if r.below(1000) < 8 && prop != "C04" {
        // before everything else, a long history of settings between two looks
        let look = |r: &mut Rng| {
            let mut o = match r.below(5) {
                0 => Op::new(K::GetMode),
                1 => Op::new(K::GetStream),
                2 => should(r, 60),
                _ => fmt(r, QUIET, 60, true),
            };
            o.a[WARM] = match r.below(40) {
                0..=7 => 256,
                8..=10 => r.pick(&[512, 1000, 1024, 4096, 5000]),
                11 => r.pick(&[65_535, 65_536]),
                _ => 0,
            };
            o
        };
        let mut ops = vec![look(r)];
        for _ in 0..1 + r.below(2) {
            let mut o = match r.below(2) {
                0 => Op::with(K::SetMode, &[r.below(3)]),
                _ => Op::with(K::SetStream, &[r.below(4)]),
            };
            o.a[WARM] = if r.pct(20) { r.pick(&[65_534, 65_535, 65_536, 32_767]) } else { r.pick(&[2, 15, 63, 126, 127, 128, 254, 255, 256, 300]) };
            ops.push(o);
        }
        ops.push(look(r));
        // C05 and C06 rely on what comes before the tasks
        if !matches!(prop, "C05" | "C06" | "C10") {
            ops.append(&mut p.pre);
        }
        p.pre.splice(0..0, ops);
    }
    let (some, n) = match prop {
        "C12" | "C14" => (50, 1),
        "C07" | "C11" | "C15" | "C16" => (30, 1),
        _ => (15, 1),
    };
    if r.below(1000) < some {
        for _ in 0..n {
            let t = r.below(p.tasks.len() as u32) as usize;
            let ops = &mut p.tasks[t].ops;
            if ops.is_empty() {
                continue;
            }
            let faulty: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].a[SINK] != 0 || (0..N_STEPS).any(|s| crate::oracle::is_fmt(&ops[*i]) && ops[*i].step(s).0 >= V_ERR)).collect();
            let i = if !faulty.is_empty() && r.pct(70) { faulty[r.below(faulty.len() as u32) as usize] } else { r.below(ops.len() as u32) as usize };
            ops[i].a[WARM] = if r.pct(4) { r.pick(&[512, 1000, 1024, 1025]) } else { r.pick(&[1, 2, 8, 17, 33, 65, 101, 130, 130, 257, 300]) };
        }
    }
}

/// Lets some calls come after the same call by many threads that are gone: what
/// is kept per thread, and shared by those of some number, shows only then.
fn threads(r: &mut Rng, p: &mut Plan) {
    if r.below(1000) >= 20 {
        return;
    }
    let t = r.below(p.tasks.len() as u32) as usize;
    let ops = &mut p.tasks[t].ops;
    if !ops.is_empty() {
        let i = r.below(ops.len() as u32) as usize;
        ops[i].a[WARM] = WARM_APART | (r.pick(&[2, 4, 8, 16, 16, 32, 32, 64, 64, 100, 128, 256]) - r.below(3));
    }
}

fn sinks(r: &mut Rng, o: &mut Op, sink: u32) {
    o.a[SINK] = sink;
    o.a[SINK_ARG] = match sink {
        S_TORN => {
            let m = r.pick(&[20, 60, 60, 400]);
            r.below(m)
        }
        S_IO => r.below(1 << 16),
        _ => {
            let m = if r.pct(70) { 6 } else { 20 };
            r.below(m)
        }
    };
    o.a[SINK_ARG2] = r.below(8);
}

/// The i-th rendition of the list compared between configurations that style.
pub fn digest_fmt(r: &mut Rng) -> Op {
    let mut o = fmt(r, QUIET, 0, false);
    for i in 0..N_STEPS {
        if o.step(i).0 == V_NESTED {
            o.a[STEPS + 2 * i] = V_TEXT;
        }
    }
    o
}

/// The i-th explicit sequence of the list compared between configurations.
pub fn digest_op(r: &mut Rng, i: u32) -> Op {
    match i {
        0..=51 => {
            let mut o = Op::new(K::EffText);
            o.a[9] = i / 4;
            o.a[10] = i / 2 % 2;
            o.a[11] = i % 2;
            o
        }
        _ => seq(r),
    }
}
