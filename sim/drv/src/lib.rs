//! Thin driver over colorz's public API.  Compiled with the same
//! instrumentation as colorz, because it instantiates colorz's generic and
//! inline code.  Everything is expressed in small integers so that the rest of
//! the harness never touches colorz.

use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, ColorSpec, Colorize, Effect, EffectFlags, NoColor, OptionalColor, Style, StyledValue, WriteColor};
use core::fmt::{self, Formatter};
use simrt::{enter_sut, leave_sut};

#[macro_use]
mod names;

pub const N_EFFECTS: usize = 13;
pub const EFFECTS: [Effect; N_EFFECTS] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct ColorD {
    /// static type of the layer, see `K_*`
    pub kind: u8,
    pub val: u32,
}

pub const K_NOCOLOR: u8 = 0;
pub const K_OPT: u8 = 1; // Option<Color>, val bit 31 = None
pub const K_COLOR: u8 = 2;
pub const K_RGB: u8 = 3;
pub const K_ANSI: u8 = 4;
pub const K_XTERM: u8 = 5;
pub const K_CSS: u8 = 6;
pub const K_CT_ANSI: u8 = 7; // ansi::Magenta
pub const K_CT_XTERM: u8 = 8; // code 219
pub const K_CT_CSS: u8 = 9; // css::Tomato
pub const K_CT_RGB: u8 = 10; // Rgb<1, 20, 255>
pub const K_OPT_RGB: u8 = 11;
pub const K_OPT_OPT: u8 = 12; // Option<Option<AnsiColor>>
pub const K_OPT_NO: u8 = 13; // Option<NoColor>
pub const N_KINDS: u8 = 14;
pub const NONE_BIT: u32 = 1 << 31;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct StyleD {
    pub fg: ColorD,
    pub bg: ColorD,
    pub ul: ColorD,
    pub eff: u16,
    /// which builder methods make the style, see `N_ROUTES`
    pub route: u8,
    /// what the builder went through before, see `history`; 0 = nothing
    pub hist: u8,
}

pub trait ValFmt {
    fn fmt(&self, tr: u8, f: &mut Formatter<'_>) -> fmt::Result;
}

/// The value under the style.
#[derive(Clone, Copy)]
pub struct DynVal<'a>(pub &'a dyn ValFmt);

macro_rules! val_impls {
    ($($tr:ident $n:literal)*) => {$(
        impl fmt::$tr for DynVal<'_> {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                leave_sut(|| self.0.fmt($n, f))
            }
        }
    )*};
}
val_impls!(Display 0 Debug 1 Binary 2 Octal 3 Pointer 4 LowerExp 5 UpperExp 6 LowerHex 7 UpperHex 8);
pub const TR_WITH: u8 = 9;
pub const N_TRAITS: u8 = 10;

// ------------------------------------------------------------- conversions

pub fn mode_of(m: u8) -> Mode {
    match m {
        0 => Mode::Detect,
        1 => Mode::Always,
        _ => Mode::Never,
    }
}
pub fn mode_id(m: Mode) -> u8 {
    match m {
        Mode::Detect => 0,
        Mode::Always => 1,
        Mode::Never => 2,
    }
}
/// 0 = none given
pub fn stream_of(s: u8) -> Option<Stream> {
    match s {
        0 => None,
        1 => Some(Stream::AlwaysColor),
        2 => Some(Stream::NeverColor),
        3 => Some(Stream::Stdout),
        _ => Some(Stream::Stderr),
    }
}
pub fn stream_id(s: Stream) -> u8 {
    match s {
        Stream::AlwaysColor => 1,
        Stream::NeverColor => 2,
        Stream::Stdout => 3,
        Stream::Stderr => 4,
        _ => 255,
    }
}
pub fn kind_of(k: u8) -> ColorKind {
    match k {
        0 => ColorKind::NoColor,
        1 => ColorKind::Ansi,
        2 => ColorKind::Xterm,
        _ => ColorKind::Rgb,
    }
}

macro_rules! ansi_arr { ($($n:ident)*) => { pub const ANSI: &[ansi::AnsiColor] = &[$(ansi::AnsiColor::$n,)*]; } }
macro_rules! css_arr { ($($n:ident)*) => { pub const CSS: &[css::CssColor] = &[$(css::CssColor::$n,)*]; } }
for_ansi!(ansi_arr);
for_css!(css_arr);

fn rgbc(v: u32) -> rgb::RgbColor {
    rgb::RgbColor {
        red: (v >> 16) as u8,
        green: (v >> 8) as u8,
        blue: v as u8,
    }
}
/// bits 24..26: family, rest: value within it
pub fn color_of(v: u32) -> Color {
    match (v >> 24) & 3 {
        0 => Color::Ansi(ANSI[v as usize & 0xff_ffff]),
        1 => Color::Xterm(xterm::XtermColor::from_code(v as u8)),
        2 => Color::Css(CSS[v as usize & 0xff_ffff]),
        _ => Color::Rgb(rgbc(v)),
    }
}
fn rt_color(c: ColorD) -> Option<Color> {
    match c.kind {
        K_NOCOLOR | K_OPT_NO => None,
        _ if c.val & NONE_BIT != 0 => None,
        K_OPT | K_COLOR => Some(color_of(c.val)),
        K_RGB | K_OPT_RGB => Some(rgbc(c.val).into()),
        K_ANSI | K_OPT_OPT => Some(ANSI[c.val as usize].into()),
        K_XTERM => Some(xterm::XtermColor::from(c.val as u8).into()),
        K_CSS => Some(CSS[c.val as usize].into()),
        K_CT_ANSI => ansi::Magenta.into(),
        K_CT_XTERM => xterm_ct().into(),
        K_CT_CSS => css::Tomato.into(),
        _ => rgb::Rgb::<1, 20, 255>.into(),
    }
}
type CtXterm = colorz::xterm_from_code!(219);
fn xterm_ct() -> CtXterm {
    colorz::xterm_from_code!(219)
}

pub fn flags(e: u16) -> EffectFlags {
    let mut f = EffectFlags::new();
    for (i, x) in EFFECTS.iter().enumerate() {
        if e & (1 << i) != 0 {
            f = f.with(*x);
        }
    }
    f
}

pub const N_ROUTES: u8 = 12;

type Empty = Style<NoColor, NoColor, NoColor>;
macro_rules! each_effect_method {
    ($s:ident, $e:ident) => {
        each_effect_method!(@ $s $e bold dimmed italics underline double_underline blink blink_fast reverse hide strikethrough overline superscript subscript)
    };
    (@ $s:ident $e:ident $($m:ident)*) => {
        let mut _i = 0;
        $(
            if $e & (1 << _i) != 0 {
                $s = $s.$m();
            }
            _i += 1;
        )*
    };
}

struct Lcg(u64);
impl Lcg {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
    fn set(&mut self) -> u16 {
        let m = (1 << N_EFFECTS) - 1;
        let (a, b) = (self.below(1 << N_EFFECTS), self.below(1 << N_EFFECTS));
        ((a & b) & m) as u16
    }
    /// the members of a set in any order, some of them more than once
    fn list(&mut self, e: u16) -> List {
        // no allocation here: it may be about to fail
        let mut l = List { v: [Effect::Bold; 16], n: 0 };
        for i in 0..N_EFFECTS {
            if e & (1 << i) != 0 {
                l.push(EFFECTS[i]);
            }
        }
        if l.n != 0 {
            for _ in 0..self.below(4) {
                l.push(l.v[self.below(l.n)]);
            }
            for i in (1..l.n).rev() {
                l.v.swap(i, self.below(i + 1));
            }
        }
        l
    }
}
struct List {
    v: [Effect; 16],
    n: usize,
}
impl List {
    fn push(&mut self, e: Effect) {
        self.v[self.n] = e;
        self.n += 1;
    }
    fn get(&self) -> &[Effect] {
        &self.v[..self.n]
    }
}
/// An array of exactly this set, when one fits.
fn arrays(l: &[Effect], s: Empty) -> Empty {
    match *l {
        [] => s.effects_array([]),
        [a] => s.effects_array([a, a]),
        [a, b] => s.effects_array([a, b]),
        [a, b, c] => s.effects_array([a, b, c]),
        [a, b, c, d] => s.effects_array([a, b, c, d]),
        [a, b, c, d, e] => s.effect_flags(EffectFlags::from_array([a, b, c, d, e])),
        [a, b, c, d, e, f] => s.effects_array([a, b, c, d, e, f]),
        _ => s.effects(l.iter().copied()),
    }
}

/// A style of nothing but effects, after a life of its own.
fn history(e: u16, seed: u64) -> Empty {
    let mut r = Lcg(seed);
    r.below(1);
    let mut s = Style::new();
    let mut cur = 0u16;
    for _ in 0..r.below(7) {
        let i = r.below(N_EFFECTS);
        let (x, bit) = (EFFECTS[i], 1u16 << i);
        match r.below(13) {
            0 => (s, cur) = (s.with(x), cur | bit),
            1 => (s, cur) = (s.without(x), cur & !bit),
            2 => (s, cur) = (s.toggled(x), cur ^ bit),
            3 => {
                each_effect_method!(s, bit);
                cur |= bit;
            }
            4 => {
                cur = r.set();
                s = s.effects(r.list(cur).get().iter().copied());
            }
            5 => {
                cur = r.set();
                s = arrays(r.list(cur).get(), s);
            }
            6 => {
                cur = r.set();
                s = s.effect_flags(flags(cur));
            }
            7 => (s, cur) = (s.clear_effects(), 0),
            8 => {
                s.effects.set(x);
                cur |= bit;
            }
            9 => {
                s.effects.unset(x);
                cur &= !bit;
            }
            10 => {
                s.effects.toggle(x);
                cur ^= bit;
            }
            11 => s = s.fg(ansi::Red).underline_color(NoColor).fg(NoColor),
            _ => {
                let on: Style = s.fg(ansi::Red).bg(css::Tomato).underline_color(rgb::Rgb::<1, 2, 3>).into_runtime_style();
                s = Style::new().effect_flags(on.effects);
            }
        }
    }
    match r.below(5) {
        0 => s = s.effects(r.list(e).get()),
        1 => s = arrays(r.list(e).get(), s),
        2 => {
            let m = e;
            for i in 0..N_EFFECTS {
                if m & (1 << i) == 0 {
                    s = s.without(EFFECTS[i]);
                }
            }
            each_effect_method!(s, m);
        }
        3 => {
            for i in 0..N_EFFECTS {
                if (e ^ cur) & (1 << i) != 0 {
                    s = s.toggled(EFFECTS[i]);
                }
            }
        }
        _ => {
            for i in 0..N_EFFECTS {
                if e & (1 << i) != 0 {
                    s.effects.set(EFFECTS[i]);
                } else {
                    s.effects.unset(EFFECTS[i]);
                }
            }
        }
    }
    s
}

/// A style of nothing but effects, by one of the ways to ask for them.
fn eff_style(d: &StyleD) -> Empty {
    let (e, route) = (d.eff, d.route);
    if d.hist != 0 {
        return history(e, (d.hist as u64) << 24 | (route as u64) << 16 | e as u64);
    }
    let on = || EFFECTS.iter().enumerate().filter(move |(i, _)| e & (1 << i) != 0).map(|(_, x)| x);
    let off = || EFFECTS.iter().enumerate().filter(move |(i, _)| e & (1 << i) == 0).map(|(_, x)| *x);
    match route % 8 {
        1 => on().fold(Style::new(), |s, x| s.with(*x)),
        2 => Style::new().effects(on()),
        3 => on().fold(Style::new(), |s, x| s.toggled(*x)),
        4 => {
            let mut s = Style::new();
            each_effect_method!(s, e);
            s
        }
        5 => off().fold(Style::new().effect_flags(EffectFlags::all()), |s, x| s.without(x)),
        6 => {
            let f: EffectFlags = on().collect();
            Style::new().bold().clear_effects().effect_flags(f)
        }
        7 => {
            let v = [
                on().next().copied().unwrap_or(Effect::Bold),
                on().nth(1).copied().unwrap_or(Effect::Bold),
                on().nth(2).copied().unwrap_or(Effect::Bold),
            ];
            match e.count_ones() {
                1 => Style::new().effects_array([v[0]]),
                2 => Style::new().effects_array([v[0], v[1]]),
                3 => Style::new().effects_array(v),
                _ => {
                    let mut s = Style::new();
                    for x in on() {
                        s.effects.toggle(*x);
                    }
                    s
                }
            }
        }
        _ => Style::new().effect_flags(flags(e)),
    }
}

pub fn runtime_style(d: &StyleD) -> Style {
    let s = eff_style(d);
    if d.route >= 8 {
        if let Some(s) = converted_style(d, s) {
            return s;
        }
    }
    if d.route % 3 == 1 {
        return s.underline_color(rt_color(d.ul)).bg(rt_color(d.bg)).fg(rt_color(d.fg));
    }
    s.fg(rt_color(d.fg)).bg(rt_color(d.bg)).underline_color(rt_color(d.ul))
}

/// Through the conversions of typed styles to runtime styles.
fn converted_style(d: &StyleD, s: Empty) -> Option<Style> {
    const NO: u8 = K_NOCOLOR;
    macro_rules! conv {
        ($k:expr, $c:ident, $x:ident, $e:expr) => {
            Some(match $k {
                K_COLOR => { let $x = color_of($c.val); $e.into_runtime_style() }
                K_RGB => { let $x = rgbc($c.val); $e.into_runtime_style() }
                K_ANSI => { let $x = ANSI[$c.val as usize]; $e.into_runtime_style() }
                K_XTERM => { let $x = xterm::XtermColor::from_code($c.val as u8); $e.into_runtime_style() }
                K_CSS => { let $x = CSS[$c.val as usize]; $e.into_runtime_style() }
                K_CT_ANSI => { let $x = ansi::Magenta; $e.const_into_runtime_style() }
                K_CT_XTERM => { let $x = xterm_ct(); $e.into_runtime_style() }
                K_CT_CSS => { let $x = css::Tomato; $e.const_into_runtime_style() }
                K_CT_RGB => { let $x = rgb::Rgb::<1, 20, 255>; $e.const_into_runtime_style() }
                _ => return None,
            })
        };
    }
    let (fg, bg, ul) = (d.fg, d.bg, d.ul);
    match (fg.kind, bg.kind, ul.kind) {
        (NO, NO, NO) => Some(s.const_into_runtime_style()),
        (k, NO, NO) => conv!(k, fg, x, s.fg(x)),
        (NO, k, NO) => conv!(k, bg, x, s.bg(x)),
        (NO, NO, k) => conv!(k, ul, x, s.underline_color(x)),
        (K_CT_ANSI, k, NO) => conv!(k, bg, x, s.fg(ansi::Magenta).bg(x)),
        (K_CT_CSS, NO, k) => conv!(k, ul, x, s.fg(css::Tomato).underline_color(x)),
        (_, NO, K_CT_RGB) => Some(s.fg(rt_color(fg)).underline_color(rgb::Rgb::<1, 20, 255>).into_runtime_style()),
        _ => Some(s.fg(rt_color(fg)).bg(rt_color(bg)).underline_color(rt_color(ul)).into_runtime_style()),
    }
}

// --------------------------------------------------------- generic actions

pub enum Act<'a, 'b, 'f> {
    Fmt {
        tr: u8,
        stream: Option<Stream>,
        ctor: (u8, Option<Stream>),
        val: DynVal<'a>,
        f: &'b mut Formatter<'f>,
    },
    Apply { debug: bool, f: &'b mut Formatter<'f> },
    Clear { debug: bool, f: &'b mut Formatter<'f> },
    Should { stream: Option<Stream>, out: &'b mut bool },
}

/// Everything a value of the driver can be asked for.
pub trait Val: Copy + fmt::Display + fmt::Debug + fmt::Binary + fmt::Octal + fmt::Pointer + fmt::LowerExp + fmt::UpperExp + fmt::LowerHex + fmt::UpperHex {
    /// what the closure given to `fmt_with` does
    fn raw(&self, f: &mut Formatter<'_>) -> fmt::Result;
    fn by_ref(&self) -> StyledValue<&Self>;
    fn by_val(self) -> StyledValue<Self>;
}
impl Val for DynVal<'_> {
    fn raw(&self, f: &mut Formatter<'_>) -> fmt::Result {
        leave_sut(|| self.0.fmt(TR_WITH, f))
    }
    fn by_ref(&self) -> StyledValue<&Self> {
        self.style()
    }
    fn by_val(self) -> StyledValue<Self> {
        self.into_style()
    }
}
impl<T: Val> Val for &T {
    fn raw(&self, f: &mut Formatter<'_>) -> fmt::Result {
        (**self).raw(f)
    }
    fn by_ref(&self) -> StyledValue<&Self> {
        self.style()
    }
    fn by_val(self) -> StyledValue<Self> {
        self.into_style()
    }
}
impl<T: Val, F: Opt, B: Opt, U: Opt> Val for StyledValue<T, F, B, U> {
    fn raw(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
    // these two are inherent methods of styled values
    fn by_ref(&self) -> StyledValue<&Self> {
        self.style()
    }
    fn by_val(self) -> StyledValue<Self> {
        self.into_style()
    }
}

pub trait Opt: OptionalColor + Copy {}
impl<T: OptionalColor + Copy> Opt for T {}

/// What to do with a styled value.
trait Use {
    fn with<T: Val, F: Opt, B: Opt, U: Opt>(self, sv: StyledValue<T, F, B, U>) -> fmt::Result;
}

pub const N_CTORS: u8 = 14;

/// One layer over `val`, built in one of many ways.  A layer without a stream
/// of its own leaves the stream alone, in most of them; others choose a stream
/// first (`prior`) and think better of it.
fn build<T: Val, F: Opt, B: Opt, U: Opt>((ctor, prior): (u8, Option<Stream>), val: T, style: Style<F, B, U>, stream: Option<Stream>, k: impl Use) -> fmt::Result {
    match (ctor, stream) {
        (1, None) => k.with(val.into_style_with(style)),
        (1, Some(s)) => k.with(val.into_style_with(style).stream_opt(prior).stream(s)),
        (2, _) => k.with(val.into_style_with(style).stream_opt(prior).stream_opt(stream)),
        (3, _) => {
            let mut sv = val.into_style_with(style).stream_opt(prior);
            sv.stream = stream;
            k.with(sv)
        }
        (4, Some(s)) => k.with(StyledValue::new(val, style, Some(Stream::NeverColor)).stream(s)),
        (5, None) => k.with(val.by_val().fg(style.foreground).bg(style.background).underline_color(style.underline_color).map_eff(style.effects)),
        (5, Some(s)) => k.with(val.by_val().stream(prior.unwrap_or(s)).stream(s).fg(style.foreground).bg(style.background).underline_color(style.underline_color).map_eff(style.effects)),
        (6, _) => k.with(val.by_val().underline_color(style.underline_color).bg(style.background).map_eff(style.effects).fg(style.foreground).stream_opt(prior).stream_opt(stream)),
        // borrowing
        (7, None) => k.with(val.style_with(style)),
        (7, Some(s)) => k.with(val.style_with(style).stream(s)),
        (8, None) => k.with(val.by_ref().fg(style.foreground).bg(style.background).underline_color(style.underline_color).map_eff(style.effects)),
        (8, Some(s)) => k.with(val.by_ref().stream(s).fg(style.foreground).bg(style.background).underline_color(style.underline_color).map_eff(style.effects)),
        (9, _) => k.with(Colorize::into_fg(val, style.foreground).bg(style.background).underline_color(style.underline_color).map_eff(style.effects).stream_opt(prior).stream_opt(stream)),
        (10, _) => k.with(Colorize::bg(&val, style.background).underline_color(style.underline_color).fg(style.foreground).map_eff(style.effects).stream_opt(prior).stream_opt(stream)),
        (11, _) => k.with(Colorize::underline_color(&val, style.underline_color).stream_opt(prior).stream_opt(stream).fg(style.foreground).bg(style.background).map_eff(style.effects)),
        (12, _) => {
            let mut sv = val.by_val().stream_opt(prior).stream_opt(stream).bg(style.background).fg(style.foreground).underline_color(style.underline_color);
            sv.style.effects = style.effects;
            k.with(sv.clone())
        }
        _ => k.with(StyledValue::new(val, style, stream)),
    }
}
/// Borrowing layers print the address of what they borrow under `{:p}`.
fn owned(c: u8, tr: u8) -> (u8, Option<Stream>) {
    let (ctor, p) = ((c & 15) % N_CTORS, c >> 4);
    let ctor = if tr == 4 && matches!(ctor, 7 | 8 | 10 | 11) { 5 } else { ctor };
    (ctor, if p < 8 { None } else { stream_of((p - 8) % 5) })
}

trait MapEff {
    fn map_eff(self, e: EffectFlags) -> Self;
}
impl<T, F: OptionalColor, B: OptionalColor, U: OptionalColor> MapEff for StyledValue<T, F, B, U> {
    fn map_eff(mut self, e: EffectFlags) -> Self {
        self.style = self.style.effect_flags(e);
        self
    }
}

/// Display, or `fmt_with`.
struct Disp<'b, 'f> {
    tr: u8,
    f: &'b mut Formatter<'f>,
}
impl Use for Disp<'_, '_> {
    fn with<T: Val, F: Opt, B: Opt, U: Opt>(self, sv: StyledValue<T, F, B, U>) -> fmt::Result {
        if self.tr == TR_WITH {
            sv.fmt_with(self.f, |v, f| v.raw(f))
        } else {
            fmt::Display::fmt(&sv, self.f)
        }
    }
}
/// Any formatting trait.
struct Any<'b, 'f> {
    tr: u8,
    f: &'b mut Formatter<'f>,
}
impl Use for Any<'_, '_> {
    fn with<T: Val, F: Opt, B: Opt, U: Opt>(self, sv: StyledValue<T, F, B, U>) -> fmt::Result {
        fmt_any(&sv, self.tr, self.f)
    }
}
/// One more layer on top.
struct Wrap<'l, K> {
    ctor: (u8, Option<Stream>),
    layer: &'l LayerD,
    then: K,
}
impl<K: Use> Use for Wrap<'_, K> {
    fn with<T: Val, F: Opt, B: Opt, U: Opt>(self, sv: StyledValue<T, F, B, U>) -> fmt::Result {
        let stream = stream_of(self.layer.stream);
        if self.layer.style.is_empty() {
            build(self.ctor, sv, Style::new(), stream, self.then)
        } else {
            build(self.ctor, sv, runtime_style(&self.layer.style), stream, self.then)
        }
    }
}
impl StyleD {
    fn is_empty(&self) -> bool {
        self.fg.kind == K_NOCOLOR && self.bg.kind == K_NOCOLOR && self.ul.kind == K_NOCOLOR && self.eff == 0
    }
}

fn go<F: Opt, B: Opt, U: Opt>(s: Style<F, B, U>, a: Act<'_, '_, '_>) -> fmt::Result {
    match a {
        Act::Fmt { tr, stream, ctor, val, f } => build(ctor, val, s, stream, Disp { tr, f }),
        Act::Apply { debug: false, f } => fmt::Display::fmt(&s.apply(), f),
        Act::Apply { debug: true, f } => fmt::Debug::fmt(&s.apply(), f),
        Act::Clear { debug: false, f } => fmt::Display::fmt(&s.clear(), f),
        Act::Clear { debug: true, f } => fmt::Debug::fmt(&s.clear(), f),
        Act::Should { stream, out } => {
            *out = s.should_color(stream);
            Ok(())
        }
    }
}

fn fmt_any<T: Val, F: Opt, B: Opt, U: Opt>(sv: &StyledValue<T, F, B, U>, tr: u8, f: &mut Formatter<'_>) -> fmt::Result {
    match tr {
        0 => fmt::Display::fmt(sv, f),
        TR_WITH => sv.fmt_with(f, |v, f| v.raw(f)),
        1 => fmt::Debug::fmt(sv, f),
        2 => fmt::Binary::fmt(sv, f),
        3 => fmt::Octal::fmt(sv, f),
        4 => fmt::Pointer::fmt(sv, f),
        5 => fmt::LowerExp::fmt(sv, f),
        6 => fmt::UpperExp::fmt(sv, f),
        7 => fmt::LowerHex::fmt(sv, f),
        _ => fmt::UpperHex::fmt(sv, f),
    }
}

macro_rules! layer {
    ($c:ident, $cont:ident, $($ks:ident)*; $s:ident) => {
        match $c.kind {
            $($ks => { layer!(@val $ks $c x); $cont!(x; $s) })*
            _ => { let x = rt_color($c); $cont!(x; $s) }
        }
    };
    (@val K_NOCOLOR $c:ident $x:ident) => { let $x = NoColor; };
    (@val K_COLOR $c:ident $x:ident) => { let $x = color_of($c.val); };
    (@val K_RGB $c:ident $x:ident) => { let $x = rgbc($c.val); };
    (@val K_ANSI $c:ident $x:ident) => { let $x = ANSI[$c.val as usize]; };
    (@val K_XTERM $c:ident $x:ident) => { let $x = xterm::XtermColor::from_code($c.val as u8); };
    (@val K_CSS $c:ident $x:ident) => { let $x = CSS[$c.val as usize]; };
    (@val K_CT_ANSI $c:ident $x:ident) => { let $x = ansi::Magenta; };
    (@val K_CT_XTERM $c:ident $x:ident) => { let $x = xterm_ct(); };
    (@val K_CT_CSS $c:ident $x:ident) => { let $x = css::Tomato; };
    (@val K_CT_RGB $c:ident $x:ident) => { let $x = rgb::Rgb::<1, 20, 255>; };
    (@val K_OPT_RGB $c:ident $x:ident) => { let $x = if $c.val & NONE_BIT != 0 { None } else { Some(rgbc($c.val)) }; };
    (@val K_OPT_OPT $c:ident $x:ident) => { let $x = if $c.val & NONE_BIT != 0 { Some(None) } else { Some(Some(ANSI[$c.val as usize])) }; };
    (@val K_OPT_NO $c:ident $x:ident) => { let $x = if $c.val & NONE_BIT != 0 { None } else { Some(NoColor) }; };
}

/// Static types for a style: every kind in one layer, a few in the others;
/// kinds that do not fit fall back to `Option<Color>`.
fn dispatch(d: &StyleD, a: Act<'_, '_, '_>) -> fmt::Result {
    let s = eff_style(d);
    let (fg, bg, ul) = (d.fg, d.bg, d.ul);
    macro_rules! fin_ul { ($x:ident; $s:ident) => { go($s.underline_color($x), a) }; }
    macro_rules! ul_few { ($s:ident) => { layer!(ul, fin_ul, K_NOCOLOR; $s) }; }
    macro_rules! ul_all { ($s:ident) => {
        layer!(ul, fin_ul, K_NOCOLOR K_COLOR K_RGB K_ANSI K_XTERM K_CSS K_CT_ANSI K_CT_XTERM K_CT_CSS K_CT_RGB K_OPT_RGB K_OPT_OPT K_OPT_NO; $s)
    }; }
    macro_rules! fin_bg { ($x:ident; $s:ident) => {{ let s = $s.bg($x); ul_few!(s) }}; }
    macro_rules! bg_few { ($s:ident) => { layer!(bg, fin_bg, K_NOCOLOR K_COLOR K_CT_ANSI; $s) }; }
    macro_rules! bg_all { ($s:ident) => {
        layer!(bg, fin_bg, K_NOCOLOR K_COLOR K_RGB K_ANSI K_XTERM K_CSS K_CT_ANSI K_CT_XTERM K_CT_CSS K_CT_RGB K_OPT_RGB K_OPT_OPT K_OPT_NO; $s)
    }; }
    macro_rules! fg_then_bg_all { ($x:ident; $s:ident) => {{ let s = $s.fg($x); bg_all!(s) }}; }
    macro_rules! fg_then_bg_few { ($x:ident; $s:ident) => {{ let s = $s.fg($x); bg_few!(s) }}; }

    let few = |k: u8| matches!(k, K_NOCOLOR | K_OPT);
    if !few(ul.kind) {
        // all underline types, over few foreground/background types
        return match (fg.kind, bg.kind) {
            (K_NOCOLOR, K_NOCOLOR) => ul_all!(s),
            (K_CT_ANSI, K_NOCOLOR) => {
                let s = s.fg(ansi::Magenta);
                ul_all!(s)
            }
            (K_NOCOLOR, K_CT_ANSI) => {
                let s = s.bg(ansi::Magenta);
                ul_all!(s)
            }
            _ => {
                let s = s.fg(rt_color(fg)).bg(rt_color(bg));
                ul_all!(s)
            }
        };
    }
    if matches!(fg.kind, K_NOCOLOR | K_OPT | K_COLOR | K_CT_ANSI) {
        layer!(fg, fg_then_bg_all, K_NOCOLOR K_COLOR K_CT_ANSI; s)
    } else {
        layer!(fg, fg_then_bg_few, K_RGB K_ANSI K_XTERM K_CSS K_CT_XTERM K_CT_CSS K_CT_RGB K_OPT_RGB K_OPT_OPT K_OPT_NO; s)
    }
}

// --------------------------------------------------------------- the API

pub struct LayerD {
    pub style: StyleD,
    pub stream: u8,
}

/// Formats `val` under the given layers (outermost last), each built in its
/// own way.
pub fn format(layers: &[LayerD], tr: u8, ctors: [u8; 3], val: &dyn ValFmt, f: &mut Formatter<'_>) -> fmt::Result {
    let v = DynVal(val);
    let ctor = ctors.map(|c| owned(c, tr));
    enter_sut(|| match layers {
        [] => fmt::Display::fmt(&v, f),
        [l] => {
            let stream = stream_of(l.stream);
            let none = |c: ColorD| c.kind == K_NOCOLOR;
            if tr == 0 || tr == TR_WITH {
                dispatch(&l.style, Act::Fmt { tr, stream, ctor: ctor[0], val: v, f })
            } else if none(l.style.fg) && none(l.style.bg) && none(l.style.ul) {
                build(ctor[0], v, eff_style(&l.style), stream, Any { tr, f })
            } else if l.style.fg.kind == K_CT_ANSI && none(l.style.bg) && none(l.style.ul) {
                build(ctor[0], v, eff_style(&l.style).fg(ansi::Magenta), stream, Any { tr, f })
            } else {
                build(ctor[0], v, runtime_style(&l.style), stream, Any { tr, f })
            }
        }
        [a, b] => {
            let w = Wrap { ctor: ctor[1], layer: b, then: Any { tr, f } };
            build(ctor[0], v, runtime_style(&a.style), stream_of(a.stream), w)
        }
        [a, b, c, ..] => {
            let w = Wrap { ctor: ctor[2], layer: c, then: Any { tr, f } };
            let mid = StyledValue::new(v, runtime_style(&a.style), stream_of(a.stream));
            let stream = stream_of(b.stream);
            // fewer ways for the middle layer: every one multiplies the code
            match ctor[1].0 {
                1 | 5 => w.with(mid.by_val().map_style(runtime_style(&b.style)).stream_some(stream)),
                7 | 8 if tr != 4 => w.with(mid.by_ref().map_style(runtime_style(&b.style)).stream_some(stream)),
                _ => w.with(StyledValue::new(mid, runtime_style(&b.style), stream)),
            }
        }
    })
}

/// The apply (or clear) sequence of layer `j` of what `format` would write for
/// `n` layers, from a style of the same type.
pub fn layer_part(n: usize, j: usize, d: &StyleD, tr: u8, clear: bool, f: &mut Formatter<'_>) -> fmt::Result {
    let a = if clear { Act::Clear { debug: false, f } } else { Act::Apply { debug: false, f } };
    enter_sut(|| {
        let none = |c: ColorD| c.kind == K_NOCOLOR;
        if n == 1 && (tr == 0 || tr == TR_WITH) {
            dispatch(d, a)
        } else if n == 1 && none(d.fg) && none(d.bg) && none(d.ul) {
            go(eff_style(d), a)
        } else if n == 1 && d.fg.kind == K_CT_ANSI && none(d.bg) && none(d.ul) {
            go(eff_style(d).fg(ansi::Magenta), a)
        } else if n > 1 && j == n - 1 && d.is_empty() {
            go(Style::new(), a)
        } else {
            go(runtime_style(d), a)
        }
    })
}

trait MapStyle<T> {
    fn map_style(self, s: Style) -> StyledValue<T, Option<Color>, Option<Color>, Option<Color>>;
}
impl<T> MapStyle<T> for StyledValue<T> {
    fn map_style(self, s: Style) -> StyledValue<T, Option<Color>, Option<Color>, Option<Color>> {
        self.fg(s.foreground).bg(s.background).underline_color(s.underline_color).map_eff(s.effects)
    }
}
trait StreamSome {
    fn stream_some(self, s: Option<Stream>) -> Self;
}
impl<T, F: OptionalColor, B: OptionalColor, U: OptionalColor> StreamSome for StyledValue<T, F, B, U> {
    fn stream_some(self, s: Option<Stream>) -> Self {
        match s {
            Some(s) => self.stream(s),
            None => self,
        }
    }
}

pub fn apply(d: &StyleD, debug: bool, f: &mut Formatter<'_>) -> fmt::Result {
    enter_sut(|| dispatch(d, Act::Apply { debug, f }))
}
pub fn clear(d: &StyleD, debug: bool, f: &mut Formatter<'_>) -> fmt::Result {
    enter_sut(|| dispatch(d, Act::Clear { debug, f }))
}
pub fn clear_all(debug: bool, f: &mut Formatter<'_>) -> fmt::Result {
    enter_sut(|| {
        let c = Style::clear_all();
        if debug {
            fmt::Debug::fmt(&c, f)
        } else {
            fmt::Display::fmt(&c, f)
        }
    })
}
pub fn style_should(d: &StyleD, stream: u8) -> bool {
    enter_sut(|| {
        let mut out = false;
        let _ = dispatch(d, Act::Should { stream: stream_of(stream), out: &mut out });
        out
    })
}
pub fn should(stream: u8, kinds: &[u8]) -> bool {
    let mut k = [ColorKind::NoColor; 8];
    for (i, x) in kinds.iter().enumerate() {
        k[i] = kind_of(*x);
    }
    enter_sut(|| mode::should_color(stream_of(stream), &k[..kinds.len()]))
}
pub fn set_mode(m: u8) {
    enter_sut(|| mode::set_coloring_mode(mode_of(m)))
}
pub fn get_mode() -> u8 {
    enter_sut(|| mode_id(mode::get_coloring_mode()))
}
/// 1..=4
pub fn set_stream(s: u8) {
    enter_sut(|| mode::set_default_stream(stream_of(s).unwrap()))
}
pub fn get_stream() -> u8 {
    enter_sut(|| stream_id(mode::get_default_stream()))
}
#[cfg(feature = "std")]
pub fn env_mode() -> Option<u8> {
    enter_sut(|| Mode::from_env().map(mode_id))
}
#[cfg(feature = "std")]
pub fn set_from_env() {
    enter_sut(mode::set_coloring_mode_from_env)
}
#[cfg(not(feature = "std"))]
pub fn env_mode() -> Option<u8> {
    None
}
#[cfg(not(feature = "std"))]
pub fn set_from_env() {}

// parsing and other read-only calls, as noise
pub fn noise(k: u32) {
    enter_sut(|| match k % 5 {
        0 => drop("#12ab9f".parse::<Color>()),
        1 => drop("always".parse::<Mode>()),
        2 => drop("stderr".parse::<Stream>()),
        3 => drop(flags(k as u16).iter().count()),
        _ => drop(xterm::XtermColor::from_code(k as u8).args()),
    })
}

// --------------------------------------------------------- named methods

type NamedFn = fn(DynVal<'_>, Style, Option<Stream>, u8, &mut Formatter<'_>) -> fmt::Result;

macro_rules! named_colors {
    ($($col:ident $fun:ident $into:ident $on:ident $into_on:ident)*) => {
        pub const NAMED_COLORS: &[NamedFn] = &[$(
            |v, base, stream, form, f| match form {
                0 => fmt::Display::fmt(&v.$fun().stream_opt(stream), f),
                1 => fmt::Display::fmt(&v.$into().stream_opt(stream), f),
                2 => fmt::Display::fmt(&v.$on().stream_opt(stream), f),
                3 => fmt::Display::fmt(&v.$into_on().stream_opt(stream), f),
                4 => fmt::Display::fmt(&StyledValue::new(v, base, stream).$fun(), f),
                _ => fmt::Display::fmt(&StyledValue::new(v, base, stream).$on(), f),
            },
        )*];
    };
}
named_colors! {
    Black black into_black on_black into_on_black
    Red red into_red on_red into_on_red
    Green green into_green on_green into_on_green
    Yellow yellow into_yellow on_yellow into_on_yellow
    Blue blue into_blue on_blue into_on_blue
    Magenta magenta into_magenta on_magenta into_on_magenta
    Cyan cyan into_cyan on_cyan into_on_cyan
    White white into_white on_white into_on_white
    BrightBlack bright_black into_bright_black on_bright_black into_on_bright_black
    BrightRed bright_red into_bright_red on_bright_red into_on_bright_red
    BrightGreen bright_green into_bright_green on_bright_green into_on_bright_green
    BrightYellow bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow
    BrightBlue bright_blue into_bright_blue on_bright_blue into_on_bright_blue
    BrightMagenta bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta
    BrightCyan bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan
    BrightWhite bright_white into_bright_white on_bright_white into_on_bright_white
}
macro_rules! named_effects {
    ($($fun:ident $into:ident)*) => {
        /// in the order of `EFFECTS`
        pub const NAMED_EFFECTS: &[NamedFn] = &[$(
            |v, base, stream, form, f| match form {
                0 => fmt::Display::fmt(&v.$fun().stream_opt(stream), f),
                1 => fmt::Display::fmt(&v.$into().stream_opt(stream), f),
                2 => fmt::Display::fmt(&StyledValue::new(v, Style::new().$fun(), stream), f),
                3 => fmt::Display::fmt(&StyledValue::new(v, base.$fun(), stream), f),
                _ => fmt::Display::fmt(&StyledValue::new(v, base, stream).$fun(), f),
            },
        )*];
    };
}
named_effects! {
    bold into_bold
    dimmed into_dimmed
    italics into_italics
    underline into_underline
    double_underline into_double_underline
    blink into_blink
    blink_fast into_blink_fast
    reverse into_reverse
    hide into_hide
    strikethrough into_strikethrough
    overline into_overline
    superscript into_superscript
    subscript into_subscript
}
/// Formats through a convenience method; `base` is only used by forms 3..=5.
pub fn format_named(effect: bool, idx: usize, form: u8, base: &StyleD, stream: u8, val: &dyn ValFmt, f: &mut Formatter<'_>) -> fmt::Result {
    let t = if effect { NAMED_EFFECTS[idx] } else { NAMED_COLORS[idx] };
    enter_sut(|| t(DynVal(val), runtime_style(base), stream_of(stream), form, f))
}
/// The generic color methods: form 0 fg, 1 into_fg, 2 bg, 3 into_bg, 4/5 underline_color (+ underline).
pub fn format_generic(form: u8, c: u32, stream: u8, val: &dyn ValFmt, f: &mut Formatter<'_>) -> fmt::Result {
    let v = DynVal(val);
    let s = stream_of(stream);
    enter_sut(|| {
        let c = color_of(c);
        match form {
            0 => fmt::Display::fmt(&v.fg(c).stream_opt(s), f),
            1 => fmt::Display::fmt(&v.into_fg(c).stream_opt(s), f),
            2 => fmt::Display::fmt(&v.bg(c).stream_opt(s), f),
            3 => fmt::Display::fmt(&v.into_bg(c).stream_opt(s), f),
            4 => fmt::Display::fmt(&v.underline_color(c).underline().stream_opt(s), f),
            _ => fmt::Display::fmt(&v.into_underline_color(c).double_underline().stream_opt(s), f),
        }
    })
}

// ------------------------------------------------------ direct sequences

pub struct CtEntry {
    pub write: fn(u8, bool, &mut Formatter<'_>) -> fmt::Result,
    pub text: fn(u8, bool) -> &'static str,
    pub color: fn() -> Option<Color>,
}

fn write_dyn<C: WriteColor>(c: C, layer: u8, args: bool, f: &mut Formatter<'_>) -> fmt::Result {
    match (layer, args) {
        (0, false) => c.fmt_foreground(f),
        (1, false) => c.fmt_background(f),
        (2, false) => c.fmt_underline(f),
        (0, true) => c.fmt_foreground_args(f),
        (1, true) => c.fmt_background_args(f),
        _ => c.fmt_underline_args(f),
    }
}
fn text_of<C: ColorSpec>(c: C, layer: u8, args: bool) -> &'static str {
    match (layer, args) {
        (0, false) => c.foreground_escape(),
        (1, false) => c.background_escape(),
        (2, false) => c.underline_escape(),
        (0, true) => c.foreground_args(),
        (1, true) => c.background_args(),
        _ => c.underline_args(),
    }
}
macro_rules! ct_ansi { ($($n:ident)*) => { pub const CT_ANSI: &[CtEntry] = &[$(CtEntry { write: |l, a, f| write_dyn(ansi::$n, l, a, f), text: |l, a| text_of(ansi::$n, l, a), color: || ansi::$n.into() },)*]; } }
macro_rules! ct_xterm { ($($n:ident)*) => { pub const CT_XTERM: &[CtEntry] = &[$(CtEntry { write: |l, a, f| write_dyn(xterm::$n, l, a, f), text: |l, a| text_of(xterm::$n, l, a), color: || xterm::$n.into() },)*]; } }
macro_rules! ct_css { ($($n:ident)*) => { pub const CT_CSS: &[CtEntry] = &[$(CtEntry { write: |l, a, f| write_dyn(css::$n, l, a, f), text: |l, a| text_of(css::$n, l, a), color: || css::$n.into() },)*]; } }
for_ansi!(ct_ansi);
for_xterm!(ct_xterm);
for_css!(ct_css);
macro_rules! ct_rgb { ($($r:literal $g:literal $b:literal),*) => {
    pub const CT_RGB_VALS: &[u32] = &[$(($r << 16) | ($g << 8) | $b,)*];
    pub const CT_RGB: &[CtEntry] = &[$(CtEntry { write: |l, a, f| write_dyn(rgb::Rgb::<$r, $g, $b>, l, a, f), text: |l, a| text_of(rgb::Rgb::<$r, $g, $b>, l, a), color: || rgb::Rgb::<$r, $g, $b>.into() },)*];
} }
for_rgb!(ct_rgb);

pub fn ct_table(fam: u32) -> &'static [CtEntry] {
    match fam & 3 {
        0 => CT_ANSI,
        1 => CT_XTERM,
        2 => CT_CSS,
        _ => CT_RGB,
    }
}

/// source 0: compile-time type through the writing trait, 1: its constant
/// text, 2: the family's runtime type, 3: the any-color type, 4: the any-color
/// value converted from the compile-time type, 5: the runtime type's constant
/// text.  `c` as for `color_of`; for compile-time rgb an index.
pub fn direct(source: u8, c: u32, layer: u8, args: bool, f: &mut Formatter<'_>) -> fmt::Result {
    let fam = (c >> 24) & 3;
    let idx = (c & 0xff_ffff) as usize;
    enter_sut(|| match source {
        0 => (ct_table(fam)[idx].write)(layer, args, f),
        1 => f.write_str((ct_table(fam)[idx].text)(layer, args)),
        4 => match (ct_table(fam)[idx].color)() {
            Some(c) => write_dyn(c, layer, args, f),
            None => Ok(()),
        },
        2 => match fam {
            0 => write_dyn(ANSI[idx], layer, args, f),
            1 => write_dyn(xterm::XtermColor::from_code(c as u8), layer, args, f),
            2 => write_dyn(CSS[idx], layer, args, f),
            _ => write_dyn(rgbc(c), layer, args, f),
        },
        5 => match fam {
            0 => f.write_str(text_of(ANSI[idx], layer, args)),
            1 => f.write_str(text_of(xterm::XtermColor::from_code(c as u8), layer, args)),
            2 => f.write_str(text_of(CSS[idx], layer, args)),
            _ => write_dyn(rgbc(c), layer, args, f),
        },
        _ => write_dyn(color_of(c), layer, args, f),
    })
}
pub fn effect_text(idx: usize, clear: bool, args: bool) -> &'static str {
    let e = EFFECTS[idx];
    enter_sut(|| match (clear, args) {
        (false, false) => e.apply_escape(),
        (false, true) => e.apply_args(),
        (true, false) => e.clear_escape(),
        (true, true) => e.clear_args(),
    })
}

#[cfg(feature = "supports-color")]
pub const SUPPORTS: bool = true;
#[cfg(not(feature = "supports-color"))]
pub const SUPPORTS: bool = false;
