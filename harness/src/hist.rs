//! Histories of API calls: generator, model semantics, and executor.

use crate::engine::{Cx, Res, Source};
use crate::model::*;
use crate::ty::{Ty, NATIVE};
use crate::{ensure, fail};
use std::io::{Read, Seek, Write};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsError, TdmsFile};

// ---------------------------------------------------------------- names and values

pub const NAMES: &[&str] = &[
    "a", "b", "ab", "a/", "a'", "a\"", "", "/", "'", "\"", "a'/'b", "a\"/\"b", "'/'", "g", "g1", "g/1", "/g", "g'", "''", "a b", " ", "é", "日本", "\u{10ffff}",
    "a\nb", "\0", "ch", "channel with a longer name", "\\", "a\"'/b", "//", "'a'", "/'a'", "A",
    "e\u{301}", "\u{e9}", "\u{2019}", "`", "\u{ff07}", "\u{feff}g", "\t", "g\r\n", "ß", "SS", "a ", " a", "%27", "&quot;",
];

pub fn gen_name(s: &mut Source) -> String {
    match s.weighted(&[5, 8, 2, 1]) {
        0 => NAMES[s.below(3)].to_string(),
        1 => s.pick(NAMES).to_string(),
        2 => {
            let mut n = String::new();
            while s.more(n.chars().count(), 0, 12, 4) {
                let c = match s.weighted(&[4, 3, 2, 1]) {
                    0 => (b'a' + s.below(26) as u8) as char,
                    1 => *s.pick(&['/', '\'', '"', ' ']),
                    2 => char::from_u32(s.draw(0x7f) as u32).unwrap_or('x'),
                    _ => char::from_u32(s.draw(0x10ffff) as u32).unwrap_or('\u{fffd}'),
                };
                n.push(c);
            }
            n
        }
        _ => {
            let part = if s.chance(50) { "x" } else { *s.pick(NAMES) };
            part.repeat(s.range(1, 300) as usize)
        }
    }
}

const PROP_NAMES: &[&str] = &["p", "q", "name", "", "unit_string", "NI_ArrayColumn", "a'b/c\"d", "é日本", "long property name long property name long property name"];

pub fn gen_prop_name(s: &mut Source) -> String {
    match s.weighted(&[600, 50, 1]) {
        0 => s.pick(PROP_NAMES).to_string(),
        1 => gen_name(s),
        _ => long_text(s),
    }
}

/// Text around the lengths at which 16 bits are not enough.
fn long_text(s: &mut Source) -> String { "n".repeat(s.range(65_500, 66_500) as usize) }

pub fn gen_string(s: &mut Source) -> String {
    match s.weighted(&[120, 80, 40, 20, 1]) {
        0 => s.pick(&["", "v", "value", "'", "日本語", "TDSm", "\0\0\0\0"]).to_string(),
        1 => gen_name(s),
        2 => "y".repeat(s.range(1, 2000) as usize),
        4 => long_text(s),
        _ => "é日".repeat(s.range(1, 4000) as usize),
    }
}

pub fn gen_bits(s: &mut Source, ty: Ty) -> u128 {
    if s.chance(25) { return special_bits(s, ty); }
    let seed = s.u64();
    // small seeds give small values, so that shrinking leaves readable cases
    let b = if seed < 256 { seed as u128 } else { ty.sample(seed, 0) };
    if ty == Ty::Bool { b & 1 } else if ty.size() == 16 { b } else { b & ((1 << (8 * ty.size())) - 1) }
}

pub fn gen_pv(s: &mut Source, foreign: bool) -> Pv {
    match s.weighted(&[8, 3, 1]) {
        0 => {
            let ty = *if foreign { s.pick(&crate::ty::FOREIGN) } else { s.pick(&NATIVE) };
            Pv::Fix(ty, gen_bits(s, ty))
        }
        1 => Pv::Str(gen_string(s)),
        _ => Pv::Void,
    }
}

/// A value for a property that holds `prev` already: often the same value, or one that only a byte comparison tells
/// from it.
pub fn gen_pv_after(s: &mut Source, prev: Option<&Pv>, foreign: bool) -> Pv {
    let Some(prev) = prev else { return gen_pv(s, foreign) };
    if !s.chance(40) { return gen_pv(s, foreign); }
    match prev {
        Pv::Void => if s.chance(50) { Pv::Void } else { Pv::Str(String::new()) },
        Pv::Str(x) => match s.below(6) {
            0 => prev.clone(),
            1 => Pv::Str(format!("{x} ")),
            2 => Pv::Str(format!("{x}\0")),
            3 => Pv::Str(x.chars().take(x.chars().count().saturating_sub(1)).collect()),
            4 => Pv::Str(if x.to_uppercase() == *x { x.to_lowercase() } else { x.to_uppercase() }),
            _ => Pv::Void,
        },
        Pv::Fix(ty, bits) => {
            let width = 8 * ty.size() as u32;
            match s.below(6) {
                0 => prev.clone(),
                // the sign of a number, or of the last part of a complex one
                1 if *ty != Ty::Bool => Pv::Fix(*ty, bits ^ 1 << (width - 1)),
                // the lowest bit
                2 => Pv::Fix(*ty, bits ^ 1),
                // the same bits under another type of the same width
                3 => {
                    let all: &[Ty] = if foreign { &crate::ty::FOREIGN } else { &NATIVE };
                    let same: Vec<Ty> = all.iter().copied().filter(|t| t.size() == ty.size() && *t != Ty::Bool).collect();
                    if same.is_empty() { return prev.clone(); }
                    Pv::Fix(*s.pick(&same), *bits)
                }
                // the same number in another width
                4 if *ty != Ty::Bool => {
                    let ints = [Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64];
                    let t = *s.pick(&ints);
                    Pv::Fix(t, bits & ((1 << (8 * t.size())) - 1))
                }
                _ => gen_special(s, *ty),
            }
        }
    }
}

/// Values at which equality, ordering or conversion of a type is easy to get wrong.
pub fn gen_special(s: &mut Source, ty: Ty) -> Pv {
    Pv::Fix(ty, special_bits(s, ty))
}

fn special_bits(s: &mut Source, ty: Ty) -> u128 {
    let width = 8 * ty.size() as u32;
    let all = if width == 128 { u128::MAX } else { (1 << width) - 1 };
    let f32s = [0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 0x7fa0_0000, 1, 0x7f7f_ffff];
    let f64s = [0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0x7ff8 << 48) + 1, 0xfff8 << 48, 0x7ff4 << 48, 1, 0x7fef_ffff_ffff_ffff];
    match ty {
        Ty::Bool => s.below(2) as u128,
        Ty::F32 | Ty::F32U => *s.pick(&f32s) as u128,
        Ty::F64 | Ty::F64U => *s.pick(&f64s) as u128,
        Ty::C32 => *s.pick(&f32s) as u128 | (*s.pick(&f32s) as u128) << 32,
        Ty::C64 => *s.pick(&f64s) as u128 | (*s.pick(&f64s) as u128) << 64,
        _ => *s.pick(&[0, all, 1 << (width - 1), (1 << (width - 1)) - 1, 1]) & all,
    }
}

/// A small pool of groups and channels with related names.
pub fn gen_universe(s: &mut Source) -> Universe {
    let mut u = Universe::default();
    u.groups.push(gen_name(s));
    while s.more(u.groups.len(), 1, 4, 1) {
        let g = match s.weighted(&[2, 1]) {
            0 => gen_name(s),
            // derive from an existing name, to get prefixes and quote variants
            _ => {
                let base = u.groups[s.below(u.groups.len())].clone();
                match s.below(4) { 0 => base + "1", 1 => base + "'", 2 => base + "/", _ => base + "'/'x" }
            }
        };
        u.groups.push(g);
    }
    while s.more(u.chans.len(), 1, 7, 3) {
        let g = u.groups[s.below(u.groups.len())].clone();
        let c = if s.chance(60) { format!("c{}", u.chans.len()) } else { gen_name(s) };
        u.chans.push((g, c));
    }
    while s.more(u.props.len(), 1, 5, 2) {
        let n = gen_prop_name(s);
        u.props.push(n);
    }
    if rarely(s, 500) {
        // many of everything, now and then more than 8 bits can count
        let (g, c, p) = gen_many(s);
        for i in 0..g { u.groups.push(format!("many {i}")); }
        for i in 0..c { let g = u.groups[s.below(u.groups.len())].clone(); u.chans.push((g, format!("many {i}"))); }
        for i in 0..p { u.props.push(format!("many {i}")); }
    }
    u
}

/// One case in `n`; never in a shrunk one.
pub fn rarely(s: &mut Source, n: usize) -> bool { s.below(n) == n - 1 }

/// Numbers of groups, channels and property names for a wide case.
pub fn gen_many(s: &mut Source) -> (u64, u64, u64) {
    let top = if s.chance(70) { 40 } else { 300 };
    (s.range(0, top), s.range(0, top), s.range(0, top))
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug, PartialEq)]
pub struct W {
    pub chs: Vec<usize>,
    pub ty: Ty,
    pub n: usize,
    pub inter: bool,
    pub seed: u64,
    pub by_ref: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target { File, Group(usize), Chan(usize) }

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    NoChannels { n: usize, inter: bool },
    /// `n` values per channel plus `extra` (0 < extra < channels).
    Indivisible { chs: Vec<usize>, n: usize, extra: usize, ty: Ty, inter: bool },
    Empty { chs: Vec<usize>, ty: Ty, inter: bool },
    Strings { chs: Vec<usize>, n: usize, inter: bool },
    /// A channel named twice.
    Duplicate { chs: Vec<usize>, n: usize, ty: Ty, inter: bool },
    ReadMissing { n: usize, multi: bool },
    PropMissing,
    WrongType { ch: usize, n: usize, ty: Ty },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(W),
    Props(Target, Vec<(String, Pv)>),
    Sync,
    NewWriter,
    Read { ch: usize, start: u64, len: usize },
    Bad(Bad),
    Reopen,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
    pub uni: Universe,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy)]
pub struct HCfg {
    pub avg_ops: u64,
    pub max_ops: usize,
    pub bad: bool,
    pub reopen: bool,
    pub reads: bool,
    pub props: u64,
    pub writes: u64,
    pub big: bool,
}

impl Default for HCfg {
    fn default() -> Self {
        HCfg { avg_ops: 7, max_ops: 40, bad: false, reopen: false, reads: true, props: 3, writes: 8, big: true }
    }
}

/// Sample counts: mostly tiny, sometimes across the 8 KiB buffers used for IO.
pub fn gen_count(s: &mut Source, big: bool) -> usize {
    match s.weighted(&[10, 5, 2, if big { 1 } else { 0 }]) {
        0 => s.range(1, 5) as usize,
        1 => s.range(1, 40) as usize,
        2 => s.range(1, 400) as usize,
        // now and then more than 16 bits can count
        _ => if s.below(300) > 0 { s.range(400, 3000) as usize } else { s.range(3000, 70_000) as usize },
    }
}

/// Distinct channels (by the path they resolve to).
pub fn gen_channels(s: &mut Source, u: &Universe, max: usize) -> Vec<usize> {
    let key = |i: usize| path_text(Some(&canon(&u.chans[i].0)), Some(&canon(&u.chans[i].1)));
    if u.chans.len() > 16 && s.chance(40) {
        // a run of neighbours, however long
        let at = s.below(u.chans.len());
        let k = s.range(1, (u.chans.len() - at) as u64) as usize;
        let mut seen = std::collections::BTreeSet::new();
        return (at..at + k).filter(|i| seen.insert(key(*i))).collect();
    }
    let mut chs: Vec<usize> = vec![s.below(u.chans.len())];
    while s.more(chs.len(), 1, max.min(u.chans.len()), 2) {
        let c = s.below(u.chans.len());
        if !chs.iter().any(|x| key(*x) == key(c)) { chs.push(c); }
    }
    chs
}

pub fn gen_hist(s: &mut Source, cfg: &HCfg) -> Hist {
    let uni = gen_universe(s);
    let ops = gen_ops(s, &uni, cfg);
    Hist { uni, ops }
}

pub fn gen_ops(s: &mut Source, uni: &Universe, cfg: &HCfg) -> Vec<Op> {
    let mut ops = Vec::new();
    let mut last: Option<W> = None;
    let mut set: Vec<(Target, String, Pv)> = Vec::new();
    // now and then a history of hundreds of small operations
    let long = cfg.max_ops >= 40 && rarely(s, 1000);
    let (max_ops, avg_ops, big) = if long { (600, 300, false) } else { (cfg.max_ops, cfg.avg_ops, cfg.big) };
    while s.more(ops.len(), 1, max_ops, avg_ops) {
        let w = [cfg.writes, cfg.props, 1, 2, if cfg.reads { 2 } else { 0 }, if cfg.bad { 4 } else { 0 }, if cfg.reopen { 2 } else { 0 }];
        let op = match s.weighted(&w) {
            0 => {
                let mut wr = match (&last, s.weighted(&[4, 5, 1, 1, 1])) {
                    (Some(l), 1) => l.clone(),
                    // a prefix of the live list
                    (Some(l), 2) => { let mut x = l.clone(); let k = 1 + s.below(x.chs.len()); x.chs.truncate(k); x }
                    // the live list in another order
                    (Some(l), 3) => { let mut x = l.clone(); let k = s.below(x.chs.len()); x.chs.rotate_left(k); x }
                    // the live list plus one
                    (Some(l), 4) => {
                        let mut x = l.clone();
                        let c = s.below(uni.chans.len());
                        let key = |i: usize| path_text(Some(&canon(&uni.chans[i].0)), Some(&canon(&uni.chans[i].1)));
                        if !x.chs.iter().any(|y| key(*y) == key(c)) { x.chs.push(c); }
                        x
                    }
                    _ => W { chs: gen_channels(s, uni, 5), ty: NATIVE[0], n: 1, inter: false, seed: 0, by_ref: false },
                };
                let keep = last.is_some();
                if !(keep && s.chance(65)) { wr.ty = *s.pick(&NATIVE); } else { wr.ty = last.as_ref().unwrap().ty; }
                if !(keep && s.chance(50)) { wr.n = gen_count(s, big && wr.chs.len() < 17); } else { wr.n = last.as_ref().unwrap().n; }
                wr.inter = s.chance(50);
                wr.seed = s.u64();
                wr.by_ref = s.chance(20);
                last = Some(wr.clone());
                Op::Write(wr)
            }
            1 => {
                let t = match s.weighted(&[2, 2, 4]) {
                    0 => Target::File,
                    1 => Target::Group(s.below(uni.groups.len())),
                    _ => Target::Chan(s.below(uni.chans.len())),
                };
                // a target that has properties already, now and then
                let t = if !set.is_empty() && s.chance(30) { set[s.below(set.len())].0 } else { t };
                let mut list = Vec::new();
                let many = uni.props.len() > 16 && s.chance(30);
                while if many { list.len() < uni.props.len() } else { s.more(list.len(), 0, 5, 2) } {
                    let name = if many { uni.props[list.len()].clone() } else { s.pick(&uni.props).clone() };
                    let prev = set.iter().rev().find(|(a, b, _)| *a == t && *b == name).map(|x| x.2.clone());
                    let v = gen_pv_after(s, prev.as_ref(), false);
                    set.push((t, name.clone(), v.clone()));
                    list.push((name, v));
                }
                Op::Props(t, list)
            }
            2 => Op::Sync,
            3 => Op::NewWriter,
            4 => Op::Read { ch: s.below(uni.chans.len()), start: s.draw(60), len: s.draw(200) as usize },
            5 => Op::Bad(gen_bad(s, uni)),
            _ => Op::Reopen,
        };
        ops.push(op);
    }
    ops
}

pub fn gen_bad(s: &mut Source, uni: &Universe) -> Bad {
    match s.below(8) {
        0 => Bad::NoChannels { n: if s.chance(90) { s.below(4) } else { gen_count(s, true) }, inter: s.chance(50) },
        1 => {
            let mut chs = gen_channels(s, uni, 5);
            if chs.len() < 2 {
                // needs at least two channels; fall back to an empty write
                return Bad::Empty { chs: std::mem::take(&mut chs), ty: *s.pick(&NATIVE), inter: s.chance(50) };
            }
            let extra = 1 + s.below(chs.len() - 1);
            Bad::Indivisible { chs, n: if s.chance(85) { s.below(6) } else { gen_count(s, true) }, extra, ty: *s.pick(&NATIVE), inter: s.chance(50) }
        }
        2 => Bad::Empty { chs: gen_channels(s, uni, 5), ty: *s.pick(&NATIVE), inter: s.chance(50) },
        3 => Bad::Strings { chs: gen_channels(s, uni, 3), n: if s.chance(90) { s.below(4) } else { gen_count(s, true) }, inter: s.chance(50) },
        4 => Bad::ReadMissing { n: s.below(4), multi: s.chance(50) },
        5 => Bad::PropMissing,
        6 => {
            let mut chs = gen_channels(s, uni, 5);
            for _ in 0..1 + s.below(2) {
                let c = chs[s.below(chs.len())];
                let at = s.below(chs.len() + 1);
                chs.insert(at, c);
            }
            Bad::Duplicate { chs, n: gen_count(s, false), ty: *s.pick(&NATIVE), inter: s.chance(50) }
        }
        _ => Bad::WrongType { ch: s.below(uni.chans.len()), n: s.range(1, 20) as usize, ty: *s.pick(&NATIVE) },
    }
}

// ---------------------------------------------------------------- semantics

/// The flat value list handed to `write_channels`.
pub fn flat_bits(w: &W) -> Vec<u128> {
    (0..(w.chs.len() * w.n) as u64).map(|i| w.ty.sample(w.seed, i)).collect()
}

/// Samples per channel, in order of `w.chs`.
pub fn channel_bits(w: &W) -> Vec<Vec<u128>> {
    let flat = flat_bits(w);
    let k = w.chs.len();
    (0..k).map(|c| (0..w.n).map(|i| if w.inter { flat[i * k + c] } else { flat[c * w.n + i] }).collect()).collect()
}

pub fn layout(inter: bool) -> DataLayout {
    if inter { DataLayout::Interleaved } else { DataLayout::Contigious }
}

pub fn chan_path(u: &Universe, i: usize) -> ChannelPath {
    ChannelPath::new(&u.chans[i].0, &u.chans[i].1)
}

pub fn target_path(u: &Universe, t: Target) -> PropertyPath {
    match t {
        Target::File => PropertyPath::file(),
        Target::Group(g) => PropertyPath::group(&u.groups[g]),
        Target::Chan(c) => PropertyPath::channel(&u.chans[c].0, &u.chans[c].1),
    }
}

pub fn model_apply(m: &mut Model, u: &Universe, op: &Op) {
    match op {
        Op::Write(w) => {
            for (c, bits) in w.chs.iter().zip(channel_bits(w)) {
                let (g, n) = &u.chans[*c];
                m.obj(Some(&canon(g)), Some(&canon(n))).blocks.push(Block { ty: w.ty, vals: bits });
            }
        }
        Op::Props(t, list) => {
            let o = match t {
                Target::File => m.obj(None, None),
                Target::Group(g) => m.obj(Some(&canon(&u.groups[*g])), None),
                Target::Chan(c) => m.obj(Some(&canon(&u.chans[*c].0)), Some(&canon(&u.chans[*c].1))),
            };
            for (k, v) in list { o.props.insert(k.clone(), v.clone()); }
        }
        _ => {}
    }
}

/// Applies a write-side operation to a library writer; evaluates to `Result<(), TdmsError>`.
#[macro_export]
macro_rules! apply_op {
    ($w:expr, $u:expr, $op:expr) => {{
        let u: &$crate::model::Universe = $u;
        match $op {
            $crate::hist::Op::Write(wr) => {
                let flat = $crate::hist::flat_bits(wr);
                let paths: Vec<tedium::ChannelPath> = wr.chs.iter().map(|c| $crate::hist::chan_path(u, *c)).collect();
                $crate::with_ty!(wr.ty, T => {
                    let vals: Vec<T> = flat.iter().map(|b| <T as $crate::ty::Smp>::of(*b)).collect();
                    if wr.by_ref {
                        struct Wrapped<'a>(&'a tedium::ChannelPath);
                        impl AsRef<tedium::ChannelPath> for Wrapped<'_> { fn as_ref(&self) -> &tedium::ChannelPath { self.0 } }
                        let refs: Vec<Wrapped<'_>> = paths.iter().map(Wrapped).collect();
                        $w.write_channels(&refs, &vals, $crate::hist::layout(wr.inter))
                    } else {
                        $w.write_channels(&paths, &vals, $crate::hist::layout(wr.inter))
                    }
                })
            }
            $crate::hist::Op::Props(t, list) => {
                let path = $crate::hist::target_path(u, *t);
                let vals: Vec<(&str, tedium::PropertyValue)> = list.iter().map(|(k, v)| (k.as_str(), v.to_lib())).collect();
                $w.write_properties(&path, &vals)
            }
            $crate::hist::Op::Sync => $w.sync(),
            _ => Ok(()),
        }
    }};
}

/// Applies a refused write; `Ok` if it was refused as it should be.
#[macro_export]
macro_rules! apply_bad_write {
    ($w:expr, $u:expr, $bad:expr) => {{
        let u: &$crate::model::Universe = $u;
        let paths = |chs: &[usize]| -> Vec<tedium::ChannelPath> { chs.iter().map(|c| $crate::hist::chan_path(u, *c)).collect() };
        match $bad {
            $crate::hist::Bad::NoChannels { n, inter } => {
                let none: [tedium::ChannelPath; 0] = [];
                $crate::hist::expect_err("write without channels", $w.write_channels(&none, &vec![1.5f64; *n], $crate::hist::layout(*inter)), |e| matches!(e, tedium::TdmsError::NoChannels))
            }
            $crate::hist::Bad::Indivisible { chs, n, extra, ty, inter } => $crate::with_ty!(ty, T => {
                let vals: Vec<T> = (0..(n * chs.len() + extra)).map(|i| <T as $crate::ty::Smp>::of(ty.sample(77, i as u64))).collect();
                $crate::hist::expect_err("write of an indivisible sample count", $w.write_channels(&paths(chs), &vals, $crate::hist::layout(*inter)), |e| matches!(e, tedium::TdmsError::BadDataBlockLength(..)))
            }),
            $crate::hist::Bad::Empty { chs, ty, inter } => $crate::with_ty!(ty, T => {
                let vals: Vec<T> = Vec::new();
                $crate::hist::expect_err("write of no samples", $w.write_channels(&paths(chs), &vals, $crate::hist::layout(*inter)), |_| true)
            }),
            $crate::hist::Bad::Duplicate { chs, n, ty, inter } => $crate::with_ty!(ty, T => {
                let vals: Vec<T> = (0..n * chs.len()).map(|i| <T as $crate::ty::Smp>::of(ty.sample(78, i as u64))).collect();
                $crate::hist::expect_err("write that names a channel twice", $w.write_channels(&paths(chs), &vals, $crate::hist::layout(*inter)), |_| true)
            }),
            $crate::hist::Bad::Strings { chs, n, inter } => {
                let vals: Vec<String> = (0..n * chs.len()).map(|i| format!("s{i}")).collect();
                $crate::hist::expect_err("write of string samples", $w.write_channels(&paths(chs), &vals, $crate::hist::layout(*inter)), |_| true)
            }
            _ => Ok(()),
        }
    }};
}

pub fn expect_err(what: &str, r: Result<(), TdmsError>, ok: impl Fn(&TdmsError) -> bool) -> Res {
    match r {
        Ok(()) => Err(format!("{what} was accepted")),
        Err(e) if ok(&e) => Ok(()),
        Err(e) => Err(format!("{what} was refused with an unexpected error: {e:?}")),
    }
}

pub fn apply_bad_read<F: Read + Seek>(file: &mut TdmsFile<F>, m: &Model, u: &Universe, bad: &Bad) -> Res {
    match bad {
        Bad::ReadMissing { n, multi } => {
            let ghost = ChannelPath::new("no such group \u{1}", "no such channel");
            let mut buf = filled::<f64>(*n);
            let r = if *multi {
                let first = chan_path(u, 0);
                let mut b2 = filled::<f64>(*n);
                file.read_channels(&[first, ghost], &mut [&mut b2, &mut buf])
            } else {
                file.read_channel(&ghost, &mut buf)
            };
            expect_err("read of an unknown channel", r, |e| matches!(e, TdmsError::MissingObject(_) | TdmsError::DataTypeMismatch(..)))?;
            check_buffer("buffer of a refused read", &buf, &[])
        }
        Bad::PropMissing => {
            let r = file.read_property(&PropertyPath::group("no such group \u{1}"), "p").map(|_| ());
            expect_err("property of an unknown object", r, |e| matches!(e, TdmsError::MissingObject(_)))
        }
        Bad::WrongType { ch, n, ty } => {
            let key = path_text(Some(&canon(&u.chans[*ch].0)), Some(&canon(&u.chans[*ch].1)));
            match m.objects.get(&key) {
                Some(o) => check_window(file, &chan_path(u, *ch), o, *ty, 0, *n),
                None => Ok(()),
            }
        }
        _ => Ok(()),
    }
}

pub fn is_write_side(op: &Op) -> bool {
    matches!(op, Op::Write(_) | Op::Props(..) | Op::Sync | Op::Bad(Bad::NoChannels { .. } | Bad::Indivisible { .. } | Bad::Empty { .. } | Bad::Strings { .. } | Bad::Duplicate { .. }))
}

pub enum Event<'a, F: Read + Seek> {
    /// After a write-side operation (the writer is still alive).
    Wrote(&'a Op),
    Synced,
    /// The writer has been dropped.
    Closed(&'a mut TdmsFile<F>),
}

/// Runs the history, updating the model; `obs` sees every step.
pub fn run_hist<F: Read + Write + Seek>(
    file: &mut TdmsFile<F>,
    h: &Hist,
    m: &mut Model,
    mut reopen: impl FnMut(&mut TdmsFile<F>) -> Res,
    mut obs: impl FnMut(Event<'_, F>, &Model) -> Res,
) -> Res {
    let u = &h.uni;
    let mut i = 0;
    while i < h.ops.len() {
        if is_write_side(&h.ops[i]) {
            {
                let mut w = file.writer().map_err(|e| format!("writer() failed: {e:?}"))?;
                while i < h.ops.len() && is_write_side(&h.ops[i]) {
                    let op = &h.ops[i];
                    if let Op::Bad(b) = op {
                        apply_bad_write!(w, u, b).map_err(|e| format!("op {i}: {e}"))?;
                    } else {
                        let r: Result<(), TdmsError> = apply_op!(w, u, op);
                        if let Err(e) = r { fail!("op {i} ({op:?}) failed: {e:?}"); }
                        model_apply(m, u, op);
                    }
                    obs(Event::Wrote(op), m)?;
                    if *op == Op::Sync { obs(Event::Synced, m)?; }
                    i += 1;
                }
            }
            obs(Event::Closed(file), m)?;
            continue;
        }
        match &h.ops[i] {
            Op::Read { ch, start, len } => {
                let (g, c) = &u.chans[*ch];
                let key = path_text(Some(&canon(g)), Some(&canon(c)));
                let cp = chan_path(u, *ch);
                match m.objects.get(&key) {
                    Some(o) => {
                        // read as the type found at the start of the window
                        let mut base = 0;
                        let mut ty = Ty::F64;
                        for b in &o.blocks {
                            if *start < base + b.vals.len() as u64 { ty = b.ty; break; }
                            base += b.vals.len() as u64;
                        }
                        check_window(file, &cp, o, if ty == Ty::Str { Ty::F64 } else { ty.reader() }, *start, *len).map_err(|e| format!("op {i}: {e}"))?;
                    }
                    None => {
                        let mut buf = filled::<f64>(2);
                        let r = file.read_channel_from(&cp, *start, &mut buf);
                        ensure!(matches!(r, Err(TdmsError::MissingObject(_))), "op {i}: read of unwritten channel {cp} gives {r:?}");
                    }
                }
            }
            Op::Bad(b) => apply_bad_read(file, m, u, b).map_err(|e| format!("op {i}: {e}"))?,
            Op::Reopen => reopen(file)?,
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

pub fn label_hist(cx: &mut Cx, h: &Hist) {
    let mut writes = 0;
    let mut prev: Option<&W> = None;
    for op in &h.ops {
        match op {
            Op::Write(w) => {
                writes += 1;
                if let Some(p) = prev {
                    cx.label_if(p.chs == w.chs && p.n == w.n && p.ty == w.ty, "same channels, type and count repeated");
                    cx.label_if(p.chs == w.chs && p.n != w.n, "same channels, new count");
                    cx.label_if(p.chs == w.chs && p.ty != w.ty, "same channels, new type");
                    cx.label_if(w.chs.len() < p.chs.len() && p.chs.starts_with(&w.chs), "prefix of live list");
                    cx.label_if(p.inter != w.inter && p.chs == w.chs, "layout change");
                }
                cx.label_if(w.chs.len() > 1, "multi-channel write");
                cx.label_if(w.n * w.chs.len() * w.ty.size() > 8192, "block larger than IO buffer");
                cx.label_if(matches!(w.ty, Ty::Ext | Ty::Time | Ty::C64), "10/16-byte type");
                prev = Some(w);
            }
            Op::Props(..) => cx.label("property write"),
            Op::NewWriter => cx.label("writer re-acquired"),
            Op::Reopen => cx.label("reopen"),
            Op::Read { .. } => cx.label("read inside history"),
            Op::Bad(_) => cx.label("refused call"),
            Op::Sync => cx.label("sync"),
        }
    }
    cx.label_if(writes >= 2, "two or more data writes");
    cx.label_if(h.uni.groups.iter().any(|g| g.contains('/') || g.contains('\'')), "separator or quote in a name");
}

pub fn lib_value(v: &Pv) -> PropertyValue { v.to_lib() }

