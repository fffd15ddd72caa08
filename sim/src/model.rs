//! A model of what styles mean and of a terminal.  Independent of colorz.

use crate::csstab::CSS_RGB;
use crate::plan::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Col {
    Default,
    /// palette entry (the ansi colors are entries 0..16)
    Idx(u8),
    Rgb(u8, u8, u8),
    /// a color of a dirty terminal that no style can ask for
    Sentinel,
}

fn rgb(v: u32) -> Col {
    Col::Rgb((v >> 16) as u8, (v >> 8) as u8, v as u8)
}
fn ansi(v: u32) -> Col {
    if v >= 16 {
        Col::Default
    } else {
        Col::Idx(v as u8)
    }
}
fn css(v: u32) -> Col {
    let (r, g, b) = CSS_RGB[v as usize];
    Col::Rgb(r, g, b)
}

pub const N_ANSI: u32 = 17;
pub const N_CSS: u32 = CSS_RGB.len() as u32;

/// Brings the value of a color into the range its type allows.
pub fn norm(kind: u32, v: u32) -> (u8, u32) {
    let kind = (kind % drv::N_KINDS as u32) as u8;
    let none = v & drv::NONE_BIT;
    let w = v & 0x3ff_ffff;
    let r = match kind {
        drv::K_OPT => none | any(w),
        drv::K_COLOR => any(w),
        drv::K_RGB => w & 0xff_ffff,
        drv::K_OPT_RGB => none | w & 0xff_ffff,
        drv::K_ANSI => (w & 0xff_ffff) % N_ANSI,
        drv::K_OPT_OPT => none | (w & 0xff_ffff) % N_ANSI,
        drv::K_XTERM => w & 255,
        drv::K_CSS => (w & 0xff_ffff) % N_CSS,
        drv::K_OPT_NO => none,
        _ => 0,
    };
    (kind, r)
}
/// family in bits 24..26
pub fn any(w: u32) -> u32 {
    let x = w & 0xff_ffff;
    let f = (w >> 24) & 3;
    f << 24
        | match f {
            0 => x % N_ANSI,
            1 => x & 255,
            2 => x % N_CSS,
            _ => x,
        }
}
pub fn any_col(w: u32) -> Col {
    let x = w & 0xff_ffff;
    match (w >> 24) & 3 {
        0 => ansi(x),
        1 => Col::Idx(x as u8),
        2 => css(x),
        _ => rgb(x),
    }
}

pub fn color(kind: u32, v: u32) -> Option<Col> {
    let (k, v) = norm(kind, v);
    if k == drv::K_NOCOLOR || k == drv::K_OPT_NO {
        return None;
    }
    if v & drv::NONE_BIT != 0 {
        return None;
    }
    Some(match k {
        drv::K_OPT | drv::K_COLOR => any_col(v),
        drv::K_RGB | drv::K_OPT_RGB => rgb(v),
        drv::K_ANSI | drv::K_OPT_OPT => ansi(v),
        drv::K_XTERM => Col::Idx(v as u8),
        drv::K_CSS => css(v),
        drv::K_CT_ANSI => Col::Idx(5),
        drv::K_CT_XTERM => Col::Idx(219),
        drv::K_CT_CSS => Col::Rgb(255, 99, 71),
        _ => Col::Rgb(1, 20, 255),
    })
}

/// kinds as in `drv::kind_of`: 0 none 1 ansi 2 xterm 3 rgb
pub fn kind_of(kind: u32, v: u32) -> u8 {
    let (k, v) = norm(kind, v);
    if color(kind, v).is_none() {
        return 0;
    }
    let fam = |v: u32| [1, 2, 3, 3][((v >> 24) & 3) as usize];
    match k {
        drv::K_OPT | drv::K_COLOR => fam(v),
        drv::K_RGB | drv::K_OPT_RGB | drv::K_CSS | drv::K_CT_CSS | drv::K_CT_RGB => 3,
        drv::K_ANSI | drv::K_OPT_OPT | drv::K_CT_ANSI => 1,
        _ => 2,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct MStyle {
    pub fg: Option<Col>,
    pub bg: Option<Col>,
    pub ul: Option<Col>,
    pub eff: u16,
    /// color kinds asked about
    pub kinds: [u8; 3],
}

// effect bits in the order of drv::EFFECTS
pub const UNDERLINES: u16 = 1 << 3 | 1 << 4;
const GROUPS: [u16; 9] = [
    1 | 1 << 1,           // 22
    1 << 2,               // 23
    UNDERLINES,           // 24
    1 << 5 | 1 << 6,      // 25
    1 << 7,               // 27
    1 << 8,               // 28
    1 << 9,               // 29
    1 << 10,              // 55
    1 << 11 | 1 << 12,    // 75
];
pub fn group_mask(eff: u16) -> u16 {
    GROUPS.iter().filter(|g| eff & **g != 0).fold(0, |a, g| a | g)
}

pub const EFF_MASK: u32 = (1 << drv::N_EFFECTS) - 1;

pub fn layer_style(o: &Op, j: usize) -> MStyle {
    let l = &o.a[LAYER + 8 * j..LAYER + 8 * j + 8];
    MStyle {
        fg: color(l[L_FG], l[L_FG + 1]),
        bg: color(l[L_BG], l[L_BG + 1]),
        ul: color(l[L_UL], l[L_UL + 1]),
        eff: (l[L_EFF] & EFF_MASK) as u16,
        kinds: [kind_of(l[L_FG], l[L_FG + 1]), kind_of(l[L_BG], l[L_BG + 1]), kind_of(l[L_UL], l[L_UL + 1])],
    }
}
pub fn layer_d(o: &Op, j: usize) -> drv::StyleD {
    let l = &o.a[LAYER + 8 * j..LAYER + 8 * j + 8];
    let c = |i: usize| {
        let (kind, val) = norm(l[i], l[i + 1]);
        drv::ColorD { kind, val }
    };
    drv::StyleD {
        fg: c(L_FG),
        bg: c(L_BG),
        ul: c(L_UL),
        eff: (l[L_EFF] & EFF_MASK) as u16,
        route: ((o.a[ROUTE] >> (8 * j)) & 15) as u8 % drv::N_ROUTES,
        hist: match (o.a[ROUTE] >> (8 * j + 4)) & 15 {
            h @ 8.. => h as u8,
            _ => 0,
        },
    }
}

// ---------------------------------------------------------------- terminal

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Term {
    pub fg: Col,
    pub bg: Col,
    pub ul: Col,
    pub eff: u16,
}
impl Term {
    pub const CLEAN: Term = Term {
        fg: Col::Default,
        bg: Col::Default,
        ul: Col::Default,
        eff: 0,
    };
    pub const DIRTY: Term = Term {
        fg: Col::Sentinel,
        bg: Col::Sentinel,
        ul: Col::Sentinel,
        eff: EFF_MASK as u16,
    };
    /// What a character shows: the underline color only if underlined.
    pub fn shows(&self) -> Term {
        let mut t = *self;
        if t.eff & UNDERLINES == 0 {
            t.ul = Col::Default;
        }
        t
    }
    pub fn apply(&mut self, s: &MStyle, with_ul: bool) {
        if let Some(c) = s.fg {
            self.fg = c;
        }
        if let Some(c) = s.bg {
            self.bg = c;
        }
        if let (Some(c), true) = (s.ul, with_ul) {
            self.ul = c;
        }
        self.eff |= s.eff;
    }
    pub fn clear(&mut self, s: &MStyle, with_ul: bool) {
        if s.fg.is_some() {
            self.fg = Col::Default;
        }
        if s.bg.is_some() {
            self.bg = Col::Default;
        }
        if s.ul.is_some() && with_ul {
            self.ul = Col::Default;
        }
        self.eff &= !group_mask(s.eff);
    }

    /// One SGR sequence's parameters.
    pub fn sgr(&mut self, params: &[u8]) -> Result<(), String> {
        let text = std::str::from_utf8(params).map_err(|_| "bad bytes in sequence".to_string())?;
        let mut v = Vec::new();
        if text.is_empty() {
            v.push(0);
        } else {
            for p in text.split(';') {
                let n: u32 = p.parse().map_err(|_| format!("malformed parameters {text:?}"))?;
                if p.len() > 3 {
                    return Err(format!("malformed parameters {text:?}"));
                }
                v.push(n);
            }
        }
        let mut i = 0;
        while i < v.len() {
            let n = v[i];
            i += 1;
            let bit = match n {
                0 => {
                    *self = Term::CLEAN;
                    continue;
                }
                1 => 0,
                2 => 1,
                3 => 2,
                4 => 3,
                21 => 4,
                5 => 5,
                6 => 6,
                7 => 7,
                8 => 8,
                9 => 9,
                53 => 10,
                73 => 11,
                74 => 12,
                22 | 23 | 24 | 25 | 27 | 28 | 29 | 55 | 75 => {
                    let g = [22, 23, 24, 25, 27, 28, 29, 55, 75].iter().position(|x| *x == n).unwrap();
                    self.eff &= !GROUPS[g];
                    continue;
                }
                30..=37 => {
                    self.fg = Col::Idx(n as u8 - 30);
                    continue;
                }
                40..=47 => {
                    self.bg = Col::Idx(n as u8 - 40);
                    continue;
                }
                90..=97 => {
                    self.fg = Col::Idx(n as u8 - 90 + 8);
                    continue;
                }
                100..=107 => {
                    self.bg = Col::Idx(n as u8 - 100 + 8);
                    continue;
                }
                39 => {
                    self.fg = Col::Default;
                    continue;
                }
                49 => {
                    self.bg = Col::Default;
                    continue;
                }
                59 => {
                    self.ul = Col::Default;
                    continue;
                }
                38 | 48 | 58 => {
                    let c = match v.get(i) {
                        Some(5) if i + 1 < v.len() && v[i + 1] < 256 => {
                            i += 2;
                            Col::Idx(v[i - 1] as u8)
                        }
                        Some(2) if i + 3 < v.len() && v[i + 1..i + 4].iter().all(|x| *x < 256) => {
                            i += 4;
                            Col::Rgb(v[i - 3] as u8, v[i - 2] as u8, v[i - 1] as u8)
                        }
                        _ => return Err(format!("incomplete color in {text:?}")),
                    };
                    match n {
                        38 => self.fg = c,
                        48 => self.bg = c,
                        _ => self.ul = c,
                    }
                    continue;
                }
                _ => return Err(format!("unknown SGR parameter {n} in {text:?}")),
            };
            self.eff |= 1 << bit;
        }
        Ok(())
    }
}

/// What a terminal made of some output.
pub struct Shown {
    pub text: Vec<u8>,
    /// state at each byte of `text`
    pub at: Vec<Term>,
    pub last: Term,
    pub escapes: bool,
    /// the output ends inside an escape sequence
    pub cut: bool,
}

pub fn show(out: &[u8], mut t: Term) -> Result<Shown, String> {
    let mut s = Shown {
        text: vec![],
        at: vec![],
        last: t,
        escapes: false,
        cut: false,
    };
    let mut i = 0;
    while i < out.len() {
        if out[i] != 0x1b {
            if (out[i] < 0x20 && out[i] != b'\n') || out[i] == 0x7f {
                return Err(format!("control byte {:#x}", out[i]));
            }
            s.text.push(out[i]);
            s.at.push(t);
            i += 1;
            continue;
        }
        s.escapes = true;
        if i + 1 >= out.len() {
            s.cut = true;
            break;
        }
        if out[i + 1] != b'[' {
            return Err("escape that is not a control sequence".into());
        }
        let mut j = i + 2;
        while j < out.len() && matches!(out[j], b'0'..=b'9' | b';') {
            j += 1;
        }
        if j >= out.len() {
            s.cut = true;
            break;
        }
        if out[j] != b'm' {
            return Err(format!("control sequence that is not SGR: {:?}", String::from_utf8_lossy(&out[i..=j])));
        }
        t.sgr(&out[i + 2..j])?;
        i = j + 1;
    }
    s.last = t;
    Ok(s)
}

// ------------------------------------------------------ expected structure

#[derive(Clone, Debug)]
pub enum Node {
    Text(Vec<u8>),
    /// layer index (into the decisions), its style, content
    Layer(usize, MStyle, Vec<Node>),
}

/// What should be shown if exactly the layers in `on` are styled; `ulx`: which
/// layers set their underline color although they do not underline.
pub fn expect(nodes: &[Node], on: u32, ulx: u32, t: &mut Term, out: &mut Vec<(u8, Term)>) {
    for n in nodes {
        match n {
            Node::Text(b) => out.extend(b.iter().map(|b| (*b, *t))),
            Node::Layer(i, s, inner) => {
                let styled = on & (1 << i) != 0;
                let with_ul = s.eff & UNDERLINES != 0 || ulx & (1 << i) != 0;
                if styled {
                    t.apply(s, with_ul);
                }
                expect(inner, on, ulx, t, out);
                if styled {
                    t.clear(s, with_ul);
                }
            }
        }
    }
}

pub fn layers_of(nodes: &[Node], out: &mut Vec<(usize, MStyle)>) {
    for n in nodes {
        if let Node::Layer(i, s, inner) = n {
            out.push((*i, *s));
            layers_of(inner, out);
        }
    }
}

/// All sets of layers whose styling explains `out`; `complete`: the whole
/// output is there (otherwise any prefix will do).
pub fn explain(out: &[u8], nodes: &[Node], complete: bool) -> Result<Vec<u32>, String> {
    let clean = show(out, Term::CLEAN)?;
    let dirty = show(out, Term::DIRTY)?;
    if complete && clean.cut {
        return Err("output ends inside an escape sequence".into());
    }
    let mut ls = vec![];
    layers_of(nodes, &mut ls);
    let mut all = 0u32;
    let mut odd = 0u32; // layers whose underline color may or may not be set
    for (i, s) in &ls {
        all |= 1 << i;
        if s.ul.is_some() && s.eff & UNDERLINES == 0 {
            odd |= 1 << i;
        }
    }
    let mut found = vec![];
    let mut why = String::from("no layers");
    let mut on = all;
    loop {
        // submasks of `all`, from all to none
        let odd_on = odd & on;
        let mut ulx = odd_on;
        loop {
            match fits(&clean, &dirty, nodes, on, ulx, complete) {
                Ok(()) => {
                    found.push(on);
                    break;
                }
                Err(e) => {
                    if on == all && ulx == odd_on {
                        why = e
                    }
                }
            }
            if ulx == 0 {
                break;
            }
            ulx = (ulx - 1) & odd_on;
        }
        if on == 0 {
            break;
        }
        on = (on - 1) & all;
    }
    if found.is_empty() {
        Err(why)
    } else {
        Ok(found)
    }
}

fn fits(clean: &Shown, dirty: &Shown, nodes: &[Node], on: u32, ulx: u32, complete: bool) -> Result<(), String> {
    if on == 0 && (clean.escapes || clean.cut) {
        return Err("unstyled, but contains escapes".into());
    }
    for (start, got) in [(Term::CLEAN, clean), (Term::DIRTY, dirty)] {
        let mut t = start;
        let mut want = vec![];
        expect(nodes, on, ulx, &mut t, &mut want);
        if complete && got.text.len() != want.len() || got.text.len() > want.len() {
            return Err(format!("text is {:?}", String::from_utf8_lossy(&got.text)));
        }
        for (i, (b, w)) in want.iter().enumerate().take(got.text.len()) {
            if got.text[i] != *b {
                return Err(format!("text differs at byte {i}: {:?}", String::from_utf8_lossy(&got.text)));
            }
            if got.at[i].shows() != w.shows() {
                return Err(format!("byte {i} is shown as {:?}, wanted {:?}", got.at[i].shows(), w.shows()));
            }
        }
        if complete && got.last != t {
            return Err(format!("terminal left as {:?}, wanted {:?} (it started as {:?})", got.last, t, start));
        }
    }
    Ok(())
}

pub fn css_rgb(i: u32) -> u32 {
    let (r, g, b) = CSS_RGB[i as usize];
    (r as u32) << 16 | (g as u32) << 8 | b as u32
}
