//! Decides the properties over the history of one run.

use crate::exec::{self, Rec, Res, World};
use crate::model::{self, Node, Term};
use crate::plan::*;
use simrt::Outcome;
use std::collections::{HashMap, HashSet};

pub const STD: bool = cfg!(feature = "std");
pub const SC: bool = cfg!(feature = "supports-color");
pub const STRIP: bool = cfg!(feature = "strip-colors");

pub struct Verdict {
    /// judgements made
    pub judged: u32,
    pub bad: Option<(String, String)>,
}

pub struct Ctx<'a> {
    pub plan: &'a Plan,
    pub w: &'a World,
    pub outcome: Outcome,
    levels: std::cell::RefCell<HashMap<(u32, Vec<u32>, bool), u8>>,
}

type R = Result<(), (String, String)>;
fn bad(class: &str, msg: String) -> R {
    Err((class.to_string(), msg))
}

const INIT_MODE: u8 = 0;
const INIT_STREAM: u8 = 1;

struct W {
    outs: Vec<Option<u8>>,
    s: u32,
    e: u32,
}

pub fn is_fmt(o: &Op) -> bool {
    matches!(o.k, K::Fmt | K::Named | K::Generic)
}
fn is_seq(o: &Op) -> bool {
    matches!(o.k, K::Apply | K::Clear | K::ClearAll | K::Direct)
}

/// The documented rule.
pub fn env_rule(v: [u32; 4]) -> Option<u8> {
    let on = |i: usize| matches!(ENV_VALUES[v[i] as usize], Some(x) if x != b"0");
    if on(0) {
        Some(2)
    } else if on(1) || on(2) || on(3) {
        Some(1)
    } else {
        None
    }
}

impl<'a> Ctx<'a> {
    pub fn new(plan: &'a Plan, w: &'a World, outcome: Outcome) -> Self {
        Ctx {
            plan,
            w,
            outcome,
            levels: Default::default(),
        }
    }
    fn recs(&self) -> &'a [Rec] {
        &self.w.recs
    }
    fn name(&self, r: &Rec) -> String {
        let who = match r.task {
            exec::PRE => "main".to_string(),
            exec::POST => "main (afterwards)".to_string(),
            t => format!("T{t}"),
        };
        let nested = if r.parent.is_some() { " from within a value or destination" } else { "" };
        format!("{who}{nested}, {} [{}..{}]", describe(&r.op), r.s, if r.e == 0 { "-".into() } else { r.e.to_string() })
    }

    // ------------------------------------------------ environment windows

    fn env_values(&self, var: usize, a: u32, b: u32) -> Vec<u32> {
        let mut cur = self.plan.env[var] % ENV_VALUES.len() as u32;
        let mut v = vec![];
        for (st, x, val) in &self.w.env {
            if *x == var {
                if *st > b {
                    break;
                }
                if *st > a {
                    v.push(cur);
                }
                cur = *val;
            }
        }
        v.push(cur);
        v.sort();
        v.dedup();
        v
    }
    fn tty_values(&self, fd: usize, a: u32, b: u32) -> Vec<bool> {
        let mut cur = self.plan.tty[fd];
        let mut v = vec![];
        for (st, x, val) in &self.w.tty {
            if *x == fd {
                if *st > b {
                    break;
                }
                if *st > a {
                    v.push(cur);
                }
                cur = *val;
            }
        }
        v.push(cur);
        v.sort();
        v.dedup();
        v
    }
    fn from_env(&self, a: u32, b: u32) -> Vec<Option<u8>> {
        let v: Vec<Vec<u32>> = (0..4).map(|i| self.env_values(i, a, b)).collect();
        let mut out = vec![];
        for x in &v[0] {
            for y in &v[1] {
                for z in &v[2] {
                    for t in &v[3] {
                        out.push(env_rule([*x, *y, *z, *t]));
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Levels detection may find on a stream (3 or 4) during a window.
    fn levels(&self, stream: u32, a: u32, b: u32) -> Vec<u8> {
        let fd = stream as usize - 3;
        let ttys = self.tty_values(fd, a, b);
        if !SC {
            return ttys.into_iter().map(|t| t as u8).collect();
        }
        let mut combos: Vec<Vec<u32>> = vec![vec![]];
        for var in 0..ENV_NAMES.len() {
            let vals = self.env_values(var, a, b);
            if vals.len() > 1 && ((4..=6).contains(&var) || var == ENV_NAMED) {
                // read several times by detection: any mixture is possible
                return vec![0, 1, 2, 3];
            }
            let mut next = vec![];
            for c in &combos {
                for v in &vals {
                    let mut c = c.clone();
                    c.push(*v);
                    next.push(c);
                }
            }
            combos = next;
            if combos.len() > 256 {
                return vec![0, 1, 2, 3];
            }
        }
        let mut out = vec![];
        for c in combos {
            for t in &ttys {
                out.push(self.level(stream, &c, *t));
            }
        }
        out.sort();
        out.dedup();
        out
    }
    #[cfg(feature = "supports-color")]
    fn level(&self, stream: u32, env: &[u32], tty: bool) -> u8 {
        let key = (stream, env.to_vec(), tty);
        if let Some(l) = self.levels.borrow().get(&key) {
            return *l;
        }
        let e = env
            .iter()
            .enumerate()
            .map(|(i, v)| (ENV_NAMES[i].as_bytes().to_vec(), ENV_VALUES[*v as usize].map(|b| b.to_vec())))
            .collect();
        let l = simrt::with_oracle_env((e, [tty; 2]), || {
            let s = if stream == 3 { supports_color::Stream::Stdout } else { supports_color::Stream::Stderr };
            match supports_color::on(s) {
                None => 0,
                Some(l) if l.has_16m => 3,
                Some(l) if l.has_256 => 2,
                Some(l) if l.has_basic => 1,
                Some(_) => 0,
            }
        });
        self.levels.borrow_mut().insert(key, l);
        l
    }
    #[cfg(not(feature = "supports-color"))]
    fn level(&self, _: u32, _: &[u32], tty: bool) -> u8 {
        let _ = &self.levels;
        tty as u8
    }

    // --------------------------------------------------- register windows

    fn mode_writes(&self) -> Vec<W> {
        if STRIP {
            return vec![];
        }
        let mut v = vec![];
        for r in self.recs() {
            match r.op.k {
                K::SetMode => v.push(W {
                    outs: vec![Some((r.op.a[0] % 3) as u8)],
                    s: r.s,
                    e: r.end(),
                }),
                K::SetFromEnv if STD => v.push(W {
                    outs: self.from_env(r.s, r.end()),
                    s: r.s,
                    e: r.end(),
                }),
                _ => {}
            }
        }
        v
    }
    fn stream_writes(&self) -> Vec<W> {
        self.recs()
            .iter()
            .filter(|r| r.op.k == K::SetStream)
            .map(|r| W {
                outs: vec![Some((r.op.a[0] % 4 + 1) as u8)],
                s: r.s,
                e: r.end(),
            })
            .collect()
    }

    /// Decisions the rules allow, given windows.
    fn allowed(&self, mw: &[W], sw: &[W], stream: u32, kinds: &[u8], a: u32, b: u32) -> [bool; 2] {
        let mut ok = [false; 2];
        if STRIP {
            ok[0] = true;
            return ok;
        }
        for m in possible(INIT_MODE, mw, a, b) {
            match m {
                1 => ok[1] = true,
                2 => ok[0] = true,
                _ => {
                    let ss = if stream != 0 { vec![stream as u8] } else { possible(INIT_STREAM, sw, a, b) };
                    for s in ss {
                        match s {
                            1 => ok[1] = true,
                            2 => ok[0] = true,
                            s => {
                                if !STD && !SC {
                                    ok[1] = true;
                                } else {
                                    for l in self.levels(s as u32, 0, b) {
                                        ok[answer(l, kinds) as usize] = true;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        ok
    }

    // -------------------------------------------------------- formatting

    fn nodes(&self, r: &Rec) -> Vec<Node> {
        exec::nodes(&r.op)
    }
    /// (complete?, sets of layers that explain the output)
    fn explained(&self, r: &Rec) -> Result<Vec<u32>, String> {
        let complete = matches!(r.res, Res::Fmt(true) | Res::Io(None));
        model::explain(&r.out, &self.nodes(r), complete)
    }
    /// stream, kinds and window of each layer of a formatting call
    fn layers(&self, r: &Rec, ri: usize) -> Vec<(u32, [u8; 3], u32, u32)> {
        let b = if r.first_val != 0 { r.first_val } else { r.end() };
        let mut v: Vec<_> = exec::layer_styles(&r.op)
            .iter()
            .enumerate()
            .map(|(j, s)| (exec::layer_stream(&r.op, j), s.kinds, r.s, b))
            .collect();
        for c in self.recs().iter().filter(|c| c.parent == Some(ri) && c.inline) {
            let s = &exec::layer_styles(&c.op)[0];
            let b = if c.first_val != 0 { c.first_val } else { c.end() };
            v.push((exec::layer_stream(&c.op, 0), s.kinds, c.s, b));
        }
        v
    }

    fn all_or_nothing(&self, judged: &mut u32) -> R {
        for r in self.recs().iter().filter(|r| is_fmt(&r.op) && !r.inline) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            let faulty = r.val_err || r.panicked.is_some() || r.writes.iter().any(|w| w.err);
            if matches!(r.res, Res::Fmt(false) | Res::Io(Some(_))) && !faulty {
                return bad("incomplete", format!("{}: failed although nothing went wrong; wrote {:?}", self.name(r), show(&r.out)));
            }
            if let Err(e) = self.explained(r) {
                return bad("mixture", format!("{}: output {:?}: {e}", self.name(r), show(&r.out)));
            }
            let (_, want) = exec::options(r.op.a[SPEC]);
            let tr = match r.op.k {
                K::Fmt => {
                    let t = (r.op.a[TR] % drv::N_TRAITS as u32) as u8;
                    if t == drv::TR_WITH && r.op.a[NL] % 3 != 0 {
                        0
                    } else {
                        t
                    }
                }
                _ => 0,
            };
            for (t, o) in &r.seen {
                if *t != tr || *o != want {
                    return bad("options", format!("{}: value formatted with trait {t} {o:?} instead of trait {tr} {want:?}", self.name(r)));
                }
            }
            *judged += 1;
        }
        Ok(())
    }

    /// how often each value's formatting code ran
    fn once(&self, judged: &mut u32) -> R {
        for r in self.recs().iter().filter(|r| is_fmt(&r.op)) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if let Some(n) = r.unusual {
                return bad("repeated", format!("{}: made again and again, the value was formatted {n} times in one of the calls", self.name(r)));
            }
            let n = r.seen.len();
            if n > 1 {
                return bad("repeated", format!("{}: the value was formatted {n} times; wrote {:?}", self.name(r), show(&r.out)));
            }
            if r.late {
                return bad("late", format!("{}: the value was formatted although its destination had failed before", self.name(r)));
            }
            if n == 0 && matches!(r.res, Res::Fmt(true) | Res::Io(None)) {
                return bad("skipped", format!("{}: succeeded without formatting the value; wrote {:?}", self.name(r), show(&r.out)));
            }
            if r.e != 0 {
                *judged += 1;
            }
        }
        Ok(())
    }

    /// equal requests, equal bytes
    fn reproducible(&self, judged: &mut u32) -> R {
        drv::set_mode(0);
        let mut known: HashMap<Vec<u32>, Vec<Vec<u8>>> = HashMap::new();
        for r in self.recs().iter().filter(|r| (is_fmt(&r.op) || is_seq(&r.op)) && !r.inline) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if !matches!(r.res, Res::Fmt(true) | Res::Io(None)) {
                continue;
            }
            // the request alone: not where it goes, nor how it came about
            let mut o = r.op.clone();
            for i in [SINK, SINK_ARG, SINK_ARG2, HOLD, WARM, UNWIND] {
                o.a[i] = 0;
            }
            let mut key = o.a.to_vec();
            key.push(o.k as u32);
            if !known.contains_key(&key) {
                let refs = self.refs(&o);
                self.composed(r, &o, &refs)?;
                known.insert(key.clone(), refs);
            }
            let refs = &known[&key];
            if !refs.contains(&r.out) {
                return bad(
                    "differs",
                    format!(
                        "{}: wrote {:?}, the same request in a quiet process writes one of {:?}",
                        self.name(r),
                        show(&r.out),
                        refs.iter().map(|x| show(x)).collect::<Vec<_>>()
                    ),
                );
            }
            *judged += 1;
        }
        Ok(())
    }
    /// a styled layer is its apply sequence, what is inside, its clear sequence
    fn composed(&self, r: &Rec, o: &Op, refs: &[Vec<u8>]) -> R {
        if o.k != K::Fmt || STRIP {
            return Ok(());
        }
        let n = o.a[NL] as usize % 3 + 1;
        let parts: Vec<_> = (0..n).map(|j| (exec::layer_part(o, n, j, false), exec::layer_part(o, n, j, true))).collect();
        for on in 0..refs.len() {
            let mut want = refs[on & !((1 << n) - 1)].clone();
            for (j, (apply, clear)) in parts.iter().enumerate() {
                if on >> j & 1 == 1 {
                    want = [&apply[..], &want, clear].concat();
                }
            }
            if refs[on] != want {
                return bad(
                    "composed",
                    format!("{}: styled it is {:?}, put together from its explicit sequences {:?}", self.name(r), show(&refs[on]), show(&want)),
                );
            }
        }
        Ok(())
    }

    fn decisions(&self, judged: &mut u32) -> R {
        let (mw, sw) = (self.mode_writes(), self.stream_writes());
        for (ri, r) in self.recs().iter().enumerate() {
            if let Res::Panic(m) = &r.res {
                if is_fmt(&r.op) || matches!(r.op.k, K::Should | K::StyleShould) {
                    return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
                }
            }
            match (r.op.k, &r.res) {
                (K::Should, Res::Bool(x)) => {
                    let k = exec::kinds_of(&r.op.a);
                    let ok = self.allowed(&mw, &sw, r.op.a[0] % 5, &k, r.s, r.end());
                    if !ok[*x as usize] {
                        return bad("decision", format!("{}: answered {x}", self.name(r)));
                    }
                    *judged += 1;
                }
                (K::StyleShould, Res::Bool(x)) => {
                    let s = model::layer_style(&r.op, 0);
                    let ok = self.allowed(&mw, &sw, exec::layer_stream(&r.op, 0), &s.kinds, r.s, r.end());
                    if !ok[*x as usize] {
                        return bad("decision", format!("{}: answered {x}", self.name(r)));
                    }
                    *judged += 1;
                }
                _ if is_fmt(&r.op) && !r.inline => {
                    let Ok(found) = self.explained(r) else { continue };
                    let ok: Vec<[bool; 2]> = self
                        .layers(r, ri)
                        .into_iter()
                        .map(|(st, k, a, b)| self.allowed(&mw, &sw, st, &k, a, b))
                        .collect();
                    let fits = found.iter().any(|on| ok.iter().enumerate().all(|(j, o)| o[(on >> j & 1) as usize]));
                    if !fits {
                        return bad(
                            "decision",
                            format!("{}: output {:?} means layers styled in {found:?}, allowed per layer (no, yes): {ok:?}", self.name(r), show(&r.out)),
                        );
                    }
                    *judged += 1;
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn registers(&self, judged: &mut u32, mode: bool, stream: bool) -> R {
        for r in self.recs() {
            if let (Res::Panic(m), K::SetMode | K::SetStream | K::GetMode | K::GetStream | K::SetFromEnv | K::EnvMode) = (&r.res, r.op.k) {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
        }
        let mut regs = vec![];
        if mode {
            regs.push((K::GetMode, INIT_MODE, self.mode_writes(), "coloring mode"));
        }
        if stream {
            regs.push((K::GetStream, INIT_STREAM, self.stream_writes(), "default stream"));
        }
        for (get, init, writes, what) in regs {
            let mut ops: Vec<LOp> = writes
                .into_iter()
                .map(|w| LOp {
                    w: Some(w.outs),
                    r: 0,
                    s: w.s,
                    e: w.e,
                })
                .collect();
            for r in self.recs() {
                if let (true, Res::Val(v)) = (r.op.k == get, &r.res) {
                    if STRIP && get == K::GetMode {
                        if *v != 2 {
                            return bad("register", format!("{}: strip-colors build read mode {}", self.name(r), mode_name(*v as u32)));
                        }
                        *judged += 1;
                        continue;
                    }
                    ops.push(LOp {
                        w: None,
                        r: *v,
                        s: r.s,
                        e: r.e,
                    });
                    *judged += 1;
                }
            }
            if STRIP && get == K::GetMode {
                continue;
            }
            ops.sort_by_key(|o| o.s);
            if ops.len() > 60 {
                continue;
            }
            if !linearizable(init, &ops) {
                let mut m = format!("the reads of the {what} are not linearizable:");
                for r in self.recs() {
                    let keep = match get {
                        K::GetMode => matches!(r.op.k, K::GetMode | K::SetMode | K::SetFromEnv),
                        _ => matches!(r.op.k, K::GetStream | K::SetStream),
                    };
                    if keep {
                        m += &format!(" {{{} -> {:?}}}", self.name(r), r.res);
                    }
                }
                return bad("register", m);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------- properties

    fn stripped(&self, judged: &mut u32) -> R {
        for r in self.recs() {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            match (r.op.k, &r.res) {
                (K::Should | K::StyleShould, Res::Bool(true)) => return bad("decision", format!("{}: answered yes", self.name(r))),
                (K::GetMode, Res::Val(v)) if *v != 2 => return bad("register", format!("{}: read {}", self.name(r), mode_name(*v as u32))),
                _ if is_fmt(&r.op) && !r.inline => {
                    if r.out.contains(&0x1b) && !text_has_escape(&r.op) {
                        return bad("styled", format!("{}: wrote {:?}", self.name(r), show(&r.out)));
                    }
                    if let Err(e) = self.explained(r) {
                        return bad("text", format!("{}: wrote {:?}: {e}", self.name(r), show(&r.out)));
                    }
                }
                _ => {}
            }
            *judged += 1;
        }
        Ok(())
    }

    fn causal(&self, judged: &mut u32) -> R {
        // one writer per location, unique values; otherwise not judged
        let mut idx: [HashMap<u8, u8>; 2] = [HashMap::from([(INIT_MODE, 0)]), HashMap::from([(INIT_STREAM, 0)])];
        let mut vals: [Vec<u8>; 2] = [vec![INIT_MODE], vec![INIT_STREAM]];
        let mut writer = [None; 2];
        let mut order: Vec<(u32, usize, bool)> = vec![];
        for (i, r) in self.recs().iter().enumerate() {
            let l = match r.op.k {
                K::SetMode => 0,
                K::SetStream => 1,
                K::SetFromEnv if STD => 0,
                _ => {
                    if r.e != 0 {
                        order.push((r.e, i, false));
                    }
                    continue;
                }
            };
            let v = match r.op.k {
                K::SetFromEnv => match self.from_env(r.s, r.end())[..] {
                    [Some(v)] => v,
                    [None] => continue,
                    _ => return Ok(()),
                },
                K::SetMode => (r.op.a[0] % 3) as u8,
                _ => (r.op.a[0] % 4 + 1) as u8,
            };
            if r.task == exec::PRE {
                idx[l] = HashMap::from([(v, 0)]);
                vals[l] = vec![v];
                continue;
            }
            if *writer[l].get_or_insert(r.task) != r.task || idx[l].contains_key(&v) || r.task >= exec::PRE {
                return Ok(());
            }
            idx[l].insert(v, vals[l].len() as u8);
            vals[l].push(v);
            order.push((r.s, i, true));
        }
        if STRIP {
            return Ok(());
        }
        order.sort();
        let tasks = self.plan.tasks.len();
        #[derive(Clone, PartialEq, Eq, Hash)]
        struct S {
            known: Vec<[u8; 2]>,
            /// per location: view of each write so far
            views: [Vec<[u8; 2]>; 2],
        }
        let join = |a: [u8; 2], b: [u8; 2]| [a[0].max(b[0]), a[1].max(b[1])];
        let mut states = HashSet::from([S {
            known: vec![[0, 0]; tasks + 1],
            views: [vec![[0, 0]], vec![[0, 0]]],
        }]);
        for (_, i, write) in order {
            let r = &self.recs()[i];
            let t = r.task.min(tasks);
            let post = r.task == exec::POST;
            let mut next = HashSet::new();
            // (location, index) pairs one after the other that explain the result
            let mut whys: Vec<Vec<(usize, Option<u8>)>> = vec![];
            if write {
                let l = (r.op.k == K::SetStream) as usize;
                for mut s in states {
                    let n = s.views[l].len() as u8;
                    let mut v = s.known[t];
                    v[l] = n;
                    s.known[t] = v;
                    s.views[l].push(v);
                    next.insert(s);
                }
                states = next;
                continue;
            }
            match (r.op.k, &r.res) {
                (K::GetMode | K::GetStream, Res::Val(v)) => {
                    let l = (r.op.k == K::GetStream) as usize;
                    match idx[l].get(v) {
                        Some(k) => whys.push(vec![(l, Some(*k))]),
                        None => return bad("value", format!("{}: read {v}, which nobody set", self.name(r))),
                    }
                }
                _ => {
                    let (answer, stream, kinds) = match (r.op.k, &r.res) {
                        (K::Should, Res::Bool(x)) => (*x, r.op.a[0] % 5, exec::kinds_of(&r.op.a)),
                        (K::StyleShould, Res::Bool(x)) => (*x, exec::layer_stream(&r.op, 0), model::layer_style(&r.op, 0).kinds.to_vec()),
                        (k, _) if is_fmt(&Op::new(k)) && r.parent.is_none() && (k != K::Fmt || r.op.a[NL] % 3 == 0) => match self.explained(r) {
                            Ok(f) => {
                                let yes = f.iter().any(|on| on & 1 == 1);
                                let no = f.iter().any(|on| on & 1 == 0);
                                if yes == no {
                                    continue;
                                }
                                (yes, exec::layer_stream(&r.op, 0), exec::layer_styles(&r.op)[0].kinds.to_vec())
                            }
                            Err(_) => continue,
                        },
                        _ => continue,
                    };
                    for (m, mv) in vals[0].iter().enumerate() {
                        match mv {
                            1 | 2 => {
                                if (*mv == 1) == answer {
                                    whys.push(vec![(0, Some(m as u8))]);
                                }
                            }
                            _ => {
                                let mut try_stream = |s: u8, k: Option<u8>| {
                                    let a: Vec<bool> = match s {
                                        1 => vec![true],
                                        2 => vec![false],
                                        _ if !STD && !SC => vec![true],
                                        s => self.levels(s as u32, 0, r.e).into_iter().map(|l| self::answer(l, &kinds)).collect(),
                                    };
                                    if a.contains(&answer) {
                                        whys.push(vec![(0, Some(m as u8)), (1, k)]);
                                    }
                                };
                                if stream != 0 {
                                    try_stream(stream as u8, None);
                                } else {
                                    for (k, sv) in vals[1].iter().enumerate() {
                                        try_stream(*sv, Some(k as u8));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            *judged += 1;
            for s in &states {
                'why: for w in &whys {
                    let mut n = s.clone();
                    if post {
                        // joined: knows everything
                        n.known[t] = [n.views[0].len() as u8 - 1, n.views[1].len() as u8 - 1];
                    }
                    for (l, k) in w {
                        let Some(k) = *k else { continue };
                        if k < n.known[t][*l] || k as usize >= n.views[*l].len() {
                            continue 'why;
                        }
                        let v = n.views[*l][k as usize];
                        n.known[t] = join(n.known[t], v);
                    }
                    next.insert(n);
                }
            }
            if next.is_empty() {
                return bad("stale", format!("{}: {:?} {} contradicts what this thread must already have seen", self.name(r), r.res, show(&r.out)));
            }
            states = next;
        }
        Ok(())
    }

    fn detection(&self, judged: &mut u32) -> R {
        // fixed mode Detect, default stream set by main only
        let mut default = INIT_STREAM as u32;
        for r in self.recs() {
            match r.op.k {
                K::SetMode | K::SetFromEnv => return Ok(()),
                K::SetStream if r.task == exec::PRE => default = r.op.a[0] % 4 + 1,
                K::SetStream => return Ok(()),
                _ => {}
            }
        }
        if STRIP || (!STD && !SC) {
            return Ok(());
        }
        struct E<'b> {
            r: &'b Rec,
            stream: u32,
            kinds: Vec<u8>,
            s: u32,
            /// until when it may have looked
            look: u32,
            done: u32,
            ans: Option<bool>,
            definite: bool,
        }
        let mut es: Vec<E> = vec![];
        let mut cur_default = INIT_STREAM as u32;
        for (ri, r) in self.recs().iter().enumerate() {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if r.task == exec::PRE && r.op.k == K::SetStream {
                cur_default = r.op.a[0] % 4 + 1;
            }
            let dflt = if r.task == exec::PRE { cur_default } else { default };
            let mut add = |stream: u32, kinds: Vec<u8>, s: u32, look: u32, ans: Option<bool>| {
                let stream = if stream == 0 { dflt } else { stream };
                if stream >= 3 {
                    let definite = !SC || kinds.iter().any(|k| *k != 0);
                    es.push(E {
                        r,
                        stream,
                        kinds,
                        s,
                        look,
                        done: r.end(),
                        ans,
                        definite,
                    });
                }
            };
            match (r.op.k, &r.res) {
                (K::Should, x) => add(r.op.a[0] % 5, exec::kinds_of(&r.op.a), r.s, r.end(), if let Res::Bool(b) = x { Some(*b) } else { None }),
                (K::StyleShould, x) => add(
                    exec::layer_stream(&r.op, 0),
                    model::layer_style(&r.op, 0).kinds.to_vec(),
                    r.s,
                    r.end(),
                    if let Res::Bool(b) = x { Some(*b) } else { None },
                ),
                _ if is_fmt(&r.op) && !r.inline => {
                    let found = self.explained(r).unwrap_or_default();
                    for (j, (st, k, a, b)) in self.layers(r, ri).into_iter().enumerate() {
                        let yes = found.iter().any(|on| on >> j & 1 == 1);
                        let no = found.iter().any(|on| on >> j & 1 == 0);
                        add(st, k.to_vec(), a, b, if yes != no { Some(yes) } else { None });
                    }
                }
                _ => {}
            }
        }
        for stream in [3, 4] {
            let my: Vec<&E> = es.iter().filter(|e| e.stream == stream).collect();
            let levels = |until: u32| -> Vec<u8> {
                let mut v: Vec<u8> = my.iter().filter(|c| c.s < until).flat_map(|c| self.levels(stream, c.s, c.look.min(until))).collect();
                v.sort();
                v.dedup();
                v
            };
            for e in &my {
                if let Some(x) = e.ans {
                    *judged += 1;
                    let l = levels(e.look);
                    if !l.iter().any(|l| answer(*l, &e.kinds) == x) {
                        return bad(
                            "unfaithful",
                            format!("{}: answer {x} for {}, kinds {:?}; possible levels {l:?}", self.name(e.r), stream_name(stream), e.kinds),
                        );
                    }
                }
            }
            let p = my
                .iter()
                .filter(|f| f.definite && f.done != u32::MAX)
                .map(|f| f.done)
                .filter(|d| !my.iter().any(|c| c.s < *d && c.done > *d))
                .min();
            let Some(p) = p else { continue };
            let before = levels(p);
            let after: Vec<&&E> = my.iter().filter(|e| e.s > p && e.ans.is_some()).collect();
            if !after.is_empty() && !before.iter().any(|l| after.iter().all(|e| answer(*l, &e.kinds) == e.ans.unwrap())) {
                let mut m = format!("{} was settled at {p} (possible levels {before:?}), but later answers are:", stream_name(stream));
                for e in after {
                    m += &format!(" {{{} kinds {:?} -> {}}}", self.name(e.r), e.kinds, e.ans.unwrap());
                }
                return bad("unstable", m);
            }
            *judged += 1;
        }
        Ok(())
    }

    fn refs(&self, op: &Op) -> Vec<Vec<u8>> {
        if !is_fmt(op) {
            return vec![exec::reference(op, 0)];
        }
        let mut ls = vec![];
        model::layers_of(&exec::nodes(op), &mut ls);
        let n = ls.len() as u32;
        (0..1u32 << n).map(|on| exec::reference(op, on)).collect()
    }

    fn errors(&self, judged: &mut u32) -> R {
        drv::set_mode(0);
        for r in self.recs().iter().filter(|r| (is_fmt(&r.op) || is_seq(&r.op)) && !r.inline) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if r.res == Res::Pending {
                continue;
            }
            let failed = matches!(r.res, Res::Fmt(false) | Res::Io(Some(_)));
            let err = r.writes.iter().any(|w| w.err);
            let user_panic = matches!(r.res, Res::UserPanic(_));
            if user_panic {
                continue;
            }
            if (err || r.val_err) && !failed {
                return bad("swallowed", format!("{}: reported success although {} failed", self.name(r), if err { "the destination" } else { "the value" }));
            }
            if failed && !err && !r.val_err {
                return bad("invented", format!("{}: reported an error although nothing failed", self.name(r)));
            }
            if let Some(i) = r.errs().next() {
                if i + 1 < r.writes.len() {
                    return bad("write-after-error", format!("{}: wrote {} more times after the destination's error", self.name(r), r.writes.len() - i - 1));
                }
            }
            let refs = self.refs(&r.op);
            let ok = refs.iter().any(|x| if failed { x.starts_with(&r.out) } else { *x == r.out });
            if !ok {
                return bad(
                    "garbled",
                    format!(
                        "{}: destination took {:?}, without the fault it would be one of {:?}",
                        self.name(r),
                        show(&r.out),
                        refs.iter().map(|x| show(x)).collect::<Vec<_>>()
                    ),
                );
            }
            *judged += 1;
        }
        Ok(())
    }

    /// semantic check of one explicit sequence
    fn sequence(&self, r: &Rec) -> R {
        let o = &r.op;
        let out: Vec<u8> = match (o.k, &r.res) {
            (K::EffText, Res::Text(t)) => t.as_bytes().to_vec(),
            (K::EffText, _) => return Ok(()),
            (K::Direct, _) => r.out.clone(),
            _ => r.out.clone(),
        };
        let args = match o.k {
            K::EffText => o.a[11] % 2 == 1,
            K::Direct => exec::direct_args(o).3,
            _ => false,
        };
        let wrapped = if args {
            let mut w = b"\x1b[".to_vec();
            w.extend_from_slice(&out);
            w.push(b'm');
            w
        } else {
            out.clone()
        };
        for start in [Term::CLEAN, Term::DIRTY] {
            let s = match model::show(&wrapped, start) {
                Ok(s) => s,
                Err(e) => return bad("sequence", format!("{}: wrote {:?}: {e}", self.name(r), show(&out))),
            };
            let mut want = vec![];
            let st = model::layer_style(o, 0);
            let uls: &[bool] = if st.ul.is_some() && st.eff & model::UNDERLINES == 0 { &[false, true] } else { &[true] };
            match o.k {
                K::Apply => {
                    for u in uls {
                        let mut t = start;
                        t.apply(&st, *u);
                        want.push(t);
                    }
                }
                K::Clear => {
                    for u in uls {
                        let mut t = start;
                        t.clear(&st, *u);
                        want.push(t);
                    }
                }
                K::ClearAll => want.push(Term::CLEAN),
                K::Direct => {
                    let c = exec::direct_col(o);
                    let mut t = start;
                    match exec::direct_args(o).2 {
                        0 => t.fg = c,
                        1 => t.bg = c,
                        _ => t.ul = c,
                    }
                    want.push(t);
                }
                _ => {
                    let e = 1 << (o.a[9] as usize % drv::N_EFFECTS);
                    let mut t = start;
                    if o.a[10] % 2 == 1 {
                        t.eff &= !model::group_mask(e);
                    } else {
                        t.eff |= e;
                    }
                    want.push(t);
                }
            }
            if !s.text.is_empty() || s.cut || !want.contains(&s.last) {
                return bad(
                    "sequence",
                    format!("{}: wrote {:?}: a terminal at {start:?} goes to {:?}, wanted {want:?}", self.name(r), show(&out), s.last),
                );
            }
        }
        Ok(())
    }

    fn explicit(&self, judged: &mut u32) -> R {
        for r in self.recs().iter().filter(|r| is_seq(&r.op) || r.op.k == K::EffText) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if r.e == 0 || matches!(r.res, Res::UserPanic(_)) {
                continue;
            }
            if matches!(r.res, Res::Fmt(false) | Res::Io(Some(_))) {
                return bad("failed", format!("{}: failed", self.name(r)));
            }
            self.sequence(r)?;
            if is_seq(&r.op) {
                for m in [1, 2, 0] {
                    drv::set_mode(m);
                    let x = exec::reference(&r.op, 0);
                    if x != r.out {
                        return bad("varies", format!("{}: wrote {:?}, later on {:?}", self.name(r), show(&r.out), show(&x)));
                    }
                }
            }
            *judged += 1;
        }
        Ok(())
    }

    fn terminal(&self, judged: &mut u32) -> R {
        // settings are fixed by main
        for r in self.recs() {
            if r.task != exec::PRE && matches!(r.op.k, K::SetMode | K::SetStream | K::SetFromEnv | K::SetVar | K::SetTty) {
                return Ok(());
            }
        }
        for r in self.recs().iter().filter(|r| is_seq(&r.op)) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if matches!(r.res, Res::Fmt(true) | Res::Io(None)) {
                self.sequence(r)?;
                *judged += 1;
            }
        }
        let (mw, sw) = (self.mode_writes(), self.stream_writes());
        for (ri, r) in self.recs().iter().enumerate().filter(|(_, r)| is_fmt(&r.op) && !r.inline) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if r.e == 0 {
                continue;
            }
            let found = match self.explained(r) {
                Ok(f) => f,
                Err(e) => return bad("display", format!("{}: sent {:?}: {e}", self.name(r), show(&r.out))),
            };
            let ok: Vec<[bool; 2]> = self.layers(r, ri).into_iter().map(|(st, k, a, b)| self.allowed(&mw, &sw, st, &k, a, b)).collect();
            if !found.iter().any(|on| ok.iter().enumerate().all(|(j, o)| o[(on >> j & 1) as usize])) {
                return bad(
                    "display",
                    format!("{}: sent {:?}: shows layers {found:?}, requested per layer (no, yes): {ok:?}", self.name(r), show(&r.out)),
                );
            }
            *judged += 1;
        }
        Ok(())
    }

    fn environment(&self, judged: &mut u32) -> R {
        if !STD {
            return Ok(());
        }
        self.env_reads(judged)?;
        self.registers(judged, true, false)
    }
    fn env_reads(&self, judged: &mut u32) -> R {
        for r in self.recs() {
            if let (K::EnvMode, Res::Val(v)) = (r.op.k, &r.res) {
                let got = if *v == 255 { None } else { Some(*v) };
                let want = self.from_env(r.s, r.end());
                if !want.contains(&got) {
                    let f = |x: &Option<u8>| x.map_or("nothing", |m| mode_name(m as u32)).to_string();
                    return bad(
                        "environment",
                        format!("{}: read {}, the environment said {:?}", self.name(r), f(&got), want.iter().map(f).collect::<Vec<_>>()),
                    );
                }
                *judged += 1;
            }
        }
        Ok(())
    }
    /// every explicit sequence written without a fault
    fn sequences(&self, judged: &mut u32) -> R {
        for r in self.recs().iter().filter(|r| is_seq(&r.op) || r.op.k == K::EffText) {
            if let Res::Panic(m) = &r.res {
                return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
            }
            if r.e != 0 && matches!(r.res, Res::Fmt(true) | Res::Io(None) | Res::Text(_)) {
                self.sequence(r)?;
                *judged += 1;
            }
        }
        Ok(())
    }

    fn panics(&self, judged: &mut u32) -> R {
        for (i, r) in self.recs().iter().enumerate() {
            if r.parent.is_some() {
                continue;
            }
            let mine: Vec<u32> = self
                .recs()
                .iter()
                .enumerate()
                .filter(|(j, _)| {
                    let mut j = Some(*j);
                    while j.is_some() && j != Some(i) {
                        j = self.recs()[j.unwrap()].parent;
                    }
                    j.is_some()
                })
                .filter_map(|(_, c)| c.panicked)
                .collect();
            match (&r.res, mine.as_slice()) {
                (Res::UserPanic(t), [.., x]) if t == x => *judged += 1,
                (Res::UserPanic(_), _) => return bad("payload", format!("{}: caught a panic that was not raised in it", self.name(r))),
                (Res::Panic(m), _) => return bad("panic", format!("{}: panicked with something else: {m}", self.name(r))),
                (Res::Pending, _) => {}
                (_, [_, ..]) => return bad("payload", format!("{}: user code panicked, but the caller got {:?}", self.name(r), r.res)),
                _ => {}
            }
        }
        Ok(())
    }
    /// Who may look at a terminal or the environment, and at what.
    fn lookups(&self, judged: &mut u32) -> R {
        let (mw, sw) = (self.mode_writes(), self.stream_writes());
        for r in self.recs() {
            let mut ttys = [false; 2];
            let streams: Vec<u32> = match r.op.k {
                K::Should => vec![r.op.a[0] % 5],
                K::StyleShould => vec![exec::layer_stream(&r.op, 0)],
                K::Fmt => (0..exec::layer_styles(&r.op).len()).map(|j| exec::layer_stream(&r.op, j)).collect(),
                K::Named | K::Generic => vec![exec::layer_stream(&r.op, 0)],
                _ => vec![],
            };
            if !STRIP && (STD || SC) && !streams.is_empty() && possible(INIT_MODE, &mw, r.s, r.end()).contains(&0) {
                for st in streams {
                    let ss = if st != 0 { vec![st as u8] } else { possible(INIT_STREAM, &sw, r.s, r.end()) };
                    for s in ss {
                        if s >= 3 {
                            ttys[s as usize - 3] = true;
                        }
                    }
                }
            }
            let from_env = matches!(r.op.k, K::EnvMode | K::SetFromEnv);
            let detects = ttys[0] || ttys[1];
            for l in &r.looks {
                let ok = match l {
                    exec::Looked::Env(n) => (from_env && ENV_NAMES[..4].contains(&n.as_str())) || (SC && detects),
                    exec::Looked::Tty(fd) => matches!(fd, 1 | 2) && ttys[*fd as usize - 1],
                    exec::Looked::Clock => true,
                    exec::Looked::Write(_) | exec::Looked::Open(_) | exec::Looked::SetEnv(_) | exec::Looked::Other(_) => false,
                };
                if !ok {
                    let what = match l {
                        exec::Looked::Env(n) => format!("read the environment variable {n}"),
                        exec::Looked::Tty(fd) => format!("asked whether file descriptor {fd} is a terminal"),
                        exec::Looked::Write(fd) => format!("wrote to file descriptor {fd}"),
                        exec::Looked::Open(p) => format!("opened {p}"),
                        exec::Looked::SetEnv(n) => format!("changed the environment variable {n}"),
                        exec::Looked::Other(x) => format!("called {x}"),
                        exec::Looked::Clock => "read the clock".to_string(),
                    };
                    return bad("lookup", format!("{}: {what}", self.name(r)));
                }
            }
            *judged += 1;
        }
        Ok(())
    }
    fn stuck(&self) -> R {
        match self.outcome {
            Outcome::Deadlock(t) => bad("stuck", format!("{} waits for another thread", self.who(t))),
            Outcome::OpLimit(t) => bad("stuck", format!("{} does not finish within {} own steps", self.who(t), simrt::OP_LIMIT)),
            _ => Ok(()),
        }
    }
    fn who(&self, t: usize) -> String {
        let t = if t >= self.plan.tasks.len() { exec::POST } else { t };
        match self.recs().iter().rev().find(|r| r.task == t && r.e == 0 && r.parent.is_none()) {
            Some(r) => self.name(r),
            None => format!("task {t}"),
        }
    }

    pub fn judge(&self, prop: &str) -> Verdict {
        let mut n = 0;
        let r = match prop {
            "C01" => self.all_or_nothing(&mut n),
            "C02" => self.decisions(&mut n),
            "C03" => self.registers(&mut n, true, true),
            "C04" => self.causal(&mut n),
            "C05" => self.stripped(&mut n),
            "C06" => self.detection(&mut n),
            "C07" => self.errors(&mut n),
            "C08" => self.explicit(&mut n),
            "C09" => self.terminal(&mut n),
            "C10" => self.environment(&mut n),
            "C11" => self.stuck().map(|_| n += self.recs().iter().filter(|r| r.e != 0).count() as u32),
            "C12" => self
                .stuck()
                .and_then(|_| self.panics(&mut n))
                .and_then(|_| self.all_or_nothing(&mut n))
                .and_then(|_| self.decisions(&mut n))
                .and_then(|_| self.sequences(&mut n))
                .and_then(|_| self.env_reads(&mut n))
                .and_then(|_| self.registers(&mut n, true, true)),
            "C13" => self.all_or_nothing(&mut n).and_then(|_| self.decisions(&mut n)).and_then(|_| self.registers(&mut n, true, true)).and_then(|_| {
                for r in self.recs().iter().filter(|r| is_seq(&r.op) || r.op.k == K::EffText) {
                    if let Res::Panic(m) = &r.res {
                        return bad("panic", format!("{}: unexpected panic: {m}", self.name(r)));
                    }
                    if r.e != 0 {
                        self.sequence(r)?;
                        n += 1;
                    }
                }
                Ok(())
            }),
            "C14" => self.lookups(&mut n),
            "C15" => self.once(&mut n),
            "C16" => self.reproducible(&mut n),
            _ => panic!("no such property {prop}"),
        };
        Verdict { judged: n, bad: r.err() }
    }
}

fn text_has_escape(_o: &Op) -> bool {
    false
}

pub fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).replace('\u{1b}', "\\e")
}

/// level: std 0/1; supports-color 0..=3; kinds as in drv::kind_of
fn answer(level: u8, kinds: &[u8]) -> bool {
    if !SC {
        return level != 0;
    }
    kinds.iter().all(|k| level >= *k)
}

/// Values a register read in [a, b] may return.
fn possible(init: u8, ws: &[W], a: u32, b: u32) -> Vec<u8> {
    let definite = |w: &W| !w.outs.contains(&None);
    let mut v = vec![];
    if !ws.iter().any(|w| definite(w) && w.e < a) {
        v.push(init);
    }
    for w in ws {
        if w.s > b {
            continue;
        }
        if ws.iter().any(|x| definite(x) && x.s > w.e && x.e < a) {
            continue;
        }
        v.extend(w.outs.iter().flatten());
    }
    v.sort();
    v.dedup();
    v
}

struct LOp {
    w: Option<Vec<Option<u8>>>,
    r: u8,
    s: u32,
    e: u32,
}

fn linearizable(init: u8, ops: &[LOp]) -> bool {
    fn go(ops: &[LOp], done: u64, val: u8, seen: &mut HashSet<(u64, u8)>) -> bool {
        if ops.iter().enumerate().all(|(i, o)| done >> i & 1 == 1 || o.e == u32::MAX) {
            return true;
        }
        if !seen.insert((done, val)) {
            return false;
        }
        // next may be any op not preceded by another unfinished one
        let first_end = ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.e).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if done >> i & 1 == 1 || o.s > first_end {
                continue;
            }
            let d = done | 1 << i;
            match &o.w {
                None => {
                    if o.r == val && go(ops, d, val, seen) {
                        return true;
                    }
                }
                Some(outs) => {
                    for x in outs {
                        if go(ops, d, x.unwrap_or(val), seen) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    go(ops, 0, init, &mut HashSet::new())
}
