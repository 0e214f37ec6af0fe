//! An independent TDMS encoder and a generator of well-formed files as other producers write them.

use crate::engine::{mix, Source};
use crate::hist::{gen_count, gen_many, gen_name, gen_prop_name, gen_pv, gen_pv_after, rarely};
use crate::model::*;
use crate::ty::{Ty, FOREIGN, NATIVE};
use std::collections::BTreeMap;

pub fn put_u32(out: &mut Vec<u8>, v: u32, be: bool) {
    if be { out.extend(v.to_be_bytes()) } else { out.extend(v.to_le_bytes()) }
}
pub fn put_u64(out: &mut Vec<u8>, v: u64, be: bool) {
    if be { out.extend(v.to_be_bytes()) } else { out.extend(v.to_le_bytes()) }
}
pub fn put_str(out: &mut Vec<u8>, s: &str, be: bool) {
    put_u32(out, s.len() as u32, be);
    out.extend_from_slice(s.as_bytes());
}

#[derive(Clone, Debug, PartialEq)]
pub enum FIdx { None, Match, Raw { ty: Ty, n: u64, total: Option<u64> } }

#[derive(Clone, Debug)]
pub struct FObj {
    pub group: Option<String>,
    pub chan: Option<String>,
    pub idx: FIdx,
    pub props: Vec<(String, Pv)>,
}

impl FObj {
    pub fn path(&self) -> String { path_text(self.group.as_deref(), self.chan.as_deref()) }
}

#[derive(Clone, Debug)]
pub struct FSeg {
    pub be: bool,
    pub inter: bool,
    pub new_list: bool,
    pub meta: Option<Vec<FObj>>,
    /// (chunks, data seed)
    pub raw: Option<(u64, u64)>,
    pub version: u32,
    /// Padding between metadata and raw data.
    pub pad: usize,
}

#[derive(Clone, Debug, Default)]
pub struct FFile { pub segs: Vec<FSeg> }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FieldKind { Tag, Toc, Version, NextOff, RawOff, ObjCount, PathLen, Path, IdxHeader, TypeCode, Dims, NVals, TotalSize, PropCount, NameLen, Name, PropType, PropVal, Raw }

#[derive(Clone, Copy, Debug)]
pub struct Field { pub off: usize, pub len: usize, pub kind: FieldKind, pub be: bool, pub seg: usize }

#[derive(Clone, Debug, Default)]
pub struct SegInfo {
    pub start: usize,
    pub raw_start: usize,
    pub end: usize,
    pub be: bool,
    /// The channels with data in this segment and their numbers of values.
    pub counts: Vec<(String, u64)>,
}

#[derive(Clone, Debug, Default)]
pub struct Encoded {
    pub bytes: Vec<u8>,
    pub segs: Vec<SegInfo>,
    pub fields: Vec<Field>,
    /// The model after each segment.
    pub models: Vec<Model>,
}

impl Encoded {
    pub fn model(&self) -> Model { self.models.last().cloned().unwrap_or_default() }
}

pub fn foreign_string(seed: u64, i: u64) -> String {
    let r = mix(seed ^ mix(i));
    ["", "x", "string value", "é日本", "longer string sample value"][(r % 5) as usize].to_string()
}

pub fn string_total(seed: u64, ci: u64, n: u64) -> u64 {
    (0..n).map(|i| 4 + foreign_string(seed ^ mix(ci + 1), i).len() as u64).sum()
}

/// Channel value `j` of the `ci`-th active channel of a segment with data seed `seed`.
pub fn seg_sample(ty: Ty, seed: u64, ci: u64, j: u64) -> u128 {
    ty.sample(seed ^ mix(ci + 1), j)
}

/// Encodes the file, interpreting the segments by the format's rules, and builds the model along the way.
/// `keep_models` keeps the model after every segment, otherwise only the final one.
fn has_data(listed: &mut Vec<(String, bool)>, path: &str) {
    match listed.iter_mut().find(|l| l.0 == path) {
        Some(l) => l.1 = true,
        None => listed.push((path.to_string(), true)),
    }
}

pub fn encode(f: &FFile, keep_models: bool) -> Encoded {
    let mut e = Encoded::default();
    let mut m = Model::default();
    // the live list; an object that loses its data keeps its place
    let mut listed: Vec<(String, bool)> = Vec::new();
    let mut formats: BTreeMap<String, (Ty, u64, Option<u64>)> = BTreeMap::new();
    for (si, seg) in f.segs.iter().enumerate() {
        let be = seg.be;
        if seg.new_list { listed.clear(); }
        // metadata
        let mut meta = Vec::new();
        let mut fields: Vec<Field> = Vec::new();
        if let Some(objs) = &seg.meta {
            let mut add = |off: usize, len: usize, kind: FieldKind| fields.push(Field { off, len, kind, be, seg: si });
            add(0, 4, FieldKind::ObjCount);
            put_u32(&mut meta, objs.len() as u32, be);
            for o in objs {
                let path = o.path();
                add(meta.len(), 4, FieldKind::PathLen);
                add(meta.len() + 4, path.len(), FieldKind::Path);
                put_str(&mut meta, &path, be);
                let mo = m.obj(o.group.as_deref(), o.chan.as_deref());
                for (k, v) in &o.props { mo.props.insert(k.clone(), v.clone()); }
                add(meta.len(), 4, FieldKind::IdxHeader);
                match &o.idx {
                    FIdx::None => {
                        put_u32(&mut meta, 0xFFFF_FFFF, be);
                        if let Some(l) = listed.iter_mut().find(|l| l.0 == path) { l.1 = false; }
                    }
                    FIdx::Match => {
                        put_u32(&mut meta, 0, be);
                        has_data(&mut listed, &path);
                    }
                    FIdx::Raw { ty, n, total } => {
                        put_u32(&mut meta, if total.is_some() { 28 } else { 20 }, be);
                        add(meta.len(), 4, FieldKind::TypeCode);
                        put_u32(&mut meta, ty.code(), be);
                        add(meta.len(), 4, FieldKind::Dims);
                        put_u32(&mut meta, 1, be);
                        add(meta.len(), 8, FieldKind::NVals);
                        put_u64(&mut meta, *n, be);
                        if let Some(t) = total {
                            add(meta.len(), 8, FieldKind::TotalSize);
                            put_u64(&mut meta, *t, be);
                        }
                        formats.insert(path.clone(), (*ty, *n, *total));
                        has_data(&mut listed, &path);
                    }
                }
                add(meta.len(), 4, FieldKind::PropCount);
                put_u32(&mut meta, o.props.len() as u32, be);
                for (k, v) in &o.props {
                    add(meta.len(), 4, FieldKind::NameLen);
                    add(meta.len() + 4, k.len(), FieldKind::Name);
                    put_str(&mut meta, k, be);
                    add(meta.len(), 4, FieldKind::PropType);
                    let at = meta.len() + 4;
                    v.encode(be, &mut meta);
                    add(at, meta.len() - at, FieldKind::PropVal);
                }
            }
        }
        meta.resize(meta.len() + seg.pad, 0);
        // raw data
        let mut raw = Vec::new();
        let mut counts = Vec::new();
        if let Some((chunks, seed)) = seg.raw {
            let active: Vec<String> = listed.iter().filter(|l| l.1).map(|l| l.0.clone()).collect();
            let chans: Vec<(Ty, u64)> = active.iter().map(|p| { let f = formats[p]; (f.0, f.1) }).collect();
            for chunk in 0..chunks {
                if seg.inter {
                    let n = chans.first().map_or(0, |c| c.1);
                    for i in 0..n {
                        for (ci, (ty, _)) in chans.iter().enumerate() {
                            ty.encode(seg_sample(*ty, seed, ci as u64, chunk * n + i), be, &mut raw);
                        }
                    }
                } else {
                    for (ci, (ty, n)) in chans.iter().enumerate() {
                        if *ty == Ty::Str {
                            let strs: Vec<String> = (0..*n).map(|i| foreign_string(seed ^ mix(ci as u64 + 1), i)).collect();
                            let mut end = 0u32;
                            for s in &strs { end += s.len() as u32; put_u32(&mut raw, end, be); }
                            for s in &strs { raw.extend_from_slice(s.as_bytes()); }
                        } else {
                            for i in 0..*n { ty.encode(seg_sample(*ty, seed, ci as u64, chunk * n + i), be, &mut raw); }
                        }
                    }
                }
            }
            for (ci, p) in active.iter().enumerate() {
                let (ty, n) = chans[ci];
                let vals: Vec<u128> = (0..n * chunks).map(|j| if ty == Ty::Str { 0 } else { seg_sample(ty, seed, ci as u64, j) }).collect();
                counts.push((p.clone(), n * chunks));
                if !vals.is_empty() { m.objects.get_mut(p).unwrap().blocks.push(Block { ty, vals }); }
            }
        }
        let toc: u32 = (seg.meta.is_some() as u32) << 1 | (seg.new_list as u32) << 2 | (seg.raw.is_some() as u32) << 3 | (seg.inter as u32) << 5 | (be as u32) << 6;
        let start = e.bytes.len();
        let b = &mut e.bytes;
        b.extend_from_slice(b"TDSm");
        b.extend(toc.to_le_bytes());
        put_u32(b, seg.version, be);
        put_u64(b, (meta.len() + raw.len()) as u64, be);
        put_u64(b, meta.len() as u64, be);
        for (o, l, k) in [(0, 4, FieldKind::Tag), (4, 4, FieldKind::Toc), (8, 4, FieldKind::Version), (12, 8, FieldKind::NextOff), (20, 8, FieldKind::RawOff)] {
            e.fields.push(Field { off: start + o, len: l, kind: k, be, seg: si });
        }
        for f in fields { e.fields.push(Field { off: f.off + start + 28, ..f }); }
        b.extend_from_slice(&meta);
        let raw_start = b.len();
        b.extend_from_slice(&raw);
        if !raw.is_empty() { e.fields.push(Field { off: raw_start, len: raw.len(), kind: FieldKind::Raw, be, seg: si }); }
        e.segs.push(SegInfo { start, raw_start, end: b.len(), be, counts });
        if keep_models { e.models.push(m.clone()); }
    }
    if !keep_models { e.models.push(m); }
    e
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy)]
pub struct FCfg {
    pub max_segs: usize,
    pub avg_segs: u64,
    /// Names with (doubled) single quotes.
    pub quotes: bool,
    pub strings: bool,
    pub props: bool,
    pub big: bool,
    pub multi_chunk: bool,
    pub native_only: bool,
    /// Percentage of files in which every channel has the same type.
    pub one_type: u64,
    /// Allow padding between metadata and raw data.
    pub pad: bool,
    /// Channels of one contiguous segment may differ in their number of values.
    pub unequal: bool,
}

impl Default for FCfg {
    fn default() -> Self {
        FCfg { max_segs: 10, avg_segs: 3, quotes: false, strings: true, props: true, big: true, multi_chunk: true, native_only: false, one_type: 40, pad: true, unequal: true }
    }
}

fn foreign_name(s: &mut Source, quotes: bool) -> String {
    let n = gen_name(s);
    if quotes { n.replace('\'', "''") } else { n.replace('\'', "\"") }
}

pub struct FUni {
    pub groups: Vec<String>,
    pub chans: Vec<(String, String)>,
    pub props: Vec<String>,
}

impl FUni {
    pub fn universe(&self) -> Universe {
        Universe { groups: self.groups.clone(), chans: self.chans.clone(), props: self.props.clone() }
    }
}

pub fn gen_funi(s: &mut Source, cfg: &FCfg) -> FUni {
    let mut u = FUni { groups: vec![foreign_name(s, cfg.quotes)], chans: vec![], props: vec![] };
    while s.more(u.groups.len(), 1, 3, 1) {
        let g = if s.chance(60) { foreign_name(s, cfg.quotes) } else {
            let base = u.groups[0].clone();
            match s.below(3) { 0 => base + "1", 1 => base + "/", _ => if cfg.quotes { base + "''x" } else { base + "\"" } }
        };
        if !u.groups.contains(&g) { u.groups.push(g); }
    }
    while s.more(u.chans.len(), 1, 6, 3) {
        let g = u.groups[s.below(u.groups.len())].clone();
        let c = if s.chance(70) { format!("c{}", u.chans.len()) } else { foreign_name(s, cfg.quotes) };
        if !u.chans.contains(&(g.clone(), c.clone())) { u.chans.push((g, c)); } else { u.chans.push((g, format!("c{}", u.chans.len()))); }
    }
    while s.more(u.props.len(), 1, 4, 2) {
        u.props.push(gen_prop_name(s));
    }
    if rarely(s, 500) {
        let (g, c, p) = gen_many(s);
        for i in 0..g { u.groups.push(format!("many {i}")); }
        for i in 0..c { let g = u.groups[s.below(u.groups.len())].clone(); u.chans.push((g, format!("many {i}"))); }
        if cfg.props { for i in 0..p { u.props.push(format!("many {i}")); } }
    }
    u
}

fn gen_props(s: &mut Source, u: &FUni, cfg: &FCfg, set: &mut BTreeMap<String, Pv>) -> Vec<(String, Pv)> {
    let mut v: Vec<(String, Pv)> = Vec::new();
    if !cfg.props { return v; }
    let many = u.props.len() > 16 && s.chance(10);
    while if many { v.len() < u.props.len() } else { s.more(v.len(), 0, 4, 1) } {
        let name = if many { u.props[v.len()].clone() } else { s.pick(&u.props).clone() };
        if v.iter().any(|(k, _)| *k == name) { let _ = gen_pv(s, true); break; }
        let x = gen_pv_after(s, set.get(&name), true);
        set.insert(name.clone(), x.clone());
        v.push((name, x));
    }
    v
}

fn gen_ty(s: &mut Source, cfg: &FCfg, strings: bool) -> Ty {
    if strings && s.chance(8) { return Ty::Str; }
    if cfg.native_only { *s.pick(&NATIVE) } else { *s.pick(&FOREIGN) }
}

/// A channel of the live list as the generator sees it.
#[derive(Clone, Copy)]
struct Active { ci: usize, ty: Ty, n: u64, total: Option<u64>, on: bool }

pub fn gen_file(s: &mut Source, cfg: &FCfg) -> (FUni, FFile) {
    let u = gen_funi(s, cfg);
    let mut f = FFile::default();
    let mut set: BTreeMap<String, Pv> = BTreeMap::new();
    // generator-side state: active list with formats, and the last format of every channel
    let mut active: Vec<Active> = Vec::new();
    let mut last: BTreeMap<usize, (Ty, u64, Option<u64>)> = BTreeMap::new();
    let live = |active: &[Active]| -> Vec<u64> { active.iter().filter(|a| a.on).map(|a| a.n).collect() };
    let mut known: Vec<bool> = vec![false; u.chans.len()];
    // Channels that the live list names without data. Whether such a channel keeps its place when a later segment
    // gives it data is not settled between TDMS readers, so no generated file depends on it.
    let mut without_data: Vec<usize> = Vec::new();
    let one_type = s.chance(cfg.one_type).then(|| *s.pick(&NATIVE));
    // now and then a file of hundreds of small segments
    let long = cfg.max_segs >= 10 && rarely(s, 1000);
    let (max_segs, avg_segs) = if long { (600, 300) } else { (cfg.max_segs, cfg.avg_segs) };
    let cfg = &FCfg { big: cfg.big && !long && u.chans.len() < 17, ..*cfg };
    while s.more(f.segs.len(), 1, max_segs, avg_segs) {
        let be = s.chance(50);
        let inter = s.chance(50);
        let seed = s.u64();
        let version = if s.chance(30) { 4712 } else { 4713 };
        let pad = if s.chance(5) && cfg.pad { s.range(1, 40) as usize } else { 0 };
        let kind = if f.segs.is_empty() { if s.chance(10) { 4 } else { 0 } } else { s.weighted(&[12, 12, if live(&active).is_empty() { 0 } else { 16 }, 4, 3]) };
        let raw_wanted = s.chance(80);
        let strings = cfg.strings && !inter && one_type.is_none();
        // In contiguous data every channel can have a number of values of its own.
        let unequal = cfg.unequal && !inter && s.chance(12);
        let mut seg = FSeg { be, inter, new_list: kind == 0 || kind == 4, meta: None, raw: None, version, pad: if kind == 2 { 0 } else { pad } };
        let mut objs: Vec<FObj> = Vec::new();
        let mk = |ci: usize, idx: FIdx, props: Vec<(String, Pv)>| FObj { group: Some(u.chans[ci].0.clone()), chan: Some(u.chans[ci].1.clone()), idx, props };
        match kind {
            0 | 1 => {
                let mut n = gen_count(s, cfg.big) as u64;
                if kind == 0 {
                    active.clear();
                    without_data.clear();
                } else if let Some(m) = live(&active).first() {
                    // append: usually keep the count, otherwise restate every active channel
                    if s.chance(70) { n = *m; }
                }
                let restate_all = !unequal && live(&active).iter().any(|m| *m != n);
                let describe = |s: &mut Source, ci: usize, ty: Ty, n: u64, last: &mut BTreeMap<usize, (Ty, u64, Option<u64>)>| -> (FIdx, Option<u64>) {
                    let total = (ty == Ty::Str).then(|| 0u64);
                    let same = matches!(last.get(&ci), Some((t, m, _)) if *t == ty && *m == n) && ty != Ty::Str;
                    if same && s.chance(70) { (FIdx::Match, total) } else {
                        last.insert(ci, (ty, n, total));
                        (FIdx::Raw { ty, n, total }, total)
                    }
                };
                for a in active.iter_mut() {
                    // a channel that lost its data may get some again, in its old place
                    if (restate_all && a.on) || s.chance(30) {
                        if !a.on && a.ty == Ty::Str && !strings { continue; }
                        let ty = if s.chance(70) { a.ty } else { one_type.unwrap_or_else(|| gen_ty(s, cfg, strings)) };
                        let n = if unequal { gen_count(s, cfg.big) as u64 } else { n };
                        let (idx, total) = describe(s, a.ci, ty, n, &mut last);
                        *a = Active { ci: a.ci, ty, n, total, on: true };
                        let p = if s.chance(30) { gen_props(s, &u, cfg, &mut set) } else { vec![] };
                        objs.push(mk(a.ci, idx, p));
                    }
                }
                // add channels
                let min_new = if kind == 0 || live(&active).is_empty() { 1 } else { 0 };
                let mut added = 0;
                let run = if u.chans.len() > 16 && s.chance(30) { s.range(0, u.chans.len() as u64) as usize } else { 0 };
                while added < run || s.more(added, min_new, u.chans.len(), 2) {
                    added += 1;
                    let ci = s.below(u.chans.len());
                    if active.iter().any(|a| a.ci == ci) || without_data.contains(&ci) { continue; }
                    let ty = match last.get(&ci) {
                        Some((t, _, _)) if s.chance(60) && (*t != Ty::Str || strings) => *t,
                        _ => one_type.unwrap_or_else(|| gen_ty(s, cfg, strings)),
                    };
                    let n = if unequal && s.chance(60) { if s.chance(10) { 0 } else { gen_count(s, cfg.big) as u64 } } else { n };
                    let (idx, total) = describe(s, ci, ty, n, &mut last);
                    active.push(Active { ci, ty, n, total, on: true });
                    known[ci] = true;
                    let p = if s.chance(40) { gen_props(s, &u, cfg, &mut set) } else { vec![] };
                    objs.push(mk(ci, idx, p));
                }
                // Objects are written in any order, but an update keeps its place in the live list.
                seg.meta = Some(Vec::new());
            }
            2 => {}
            _ => {
                // properties only; with a new object list, no channel is live any more
                if kind == 4 { active.clear(); without_data.clear(); }
                seg.meta = Some(Vec::new());
            }
        }
        if seg.meta.is_some() {
            // objects without data in this segment
            let mut extra = 0;
            while s.more(extra, 0, 4, 1) {
                extra += 1;
                let (group, chan) = match s.below(3) {
                    0 => (None, None),
                    1 => (Some(u.groups[s.below(u.groups.len())].clone()), None),
                    _ => {
                        let ci = s.below(u.chans.len());
                        if let Some(a) = active.iter_mut().find(|a| a.ci == ci) {
                            // a live channel that has no data from here on
                            let path = path_text(Some(&u.chans[ci].0), Some(&u.chans[ci].1));
                            if objs.iter().any(|x| x.path() == path) { continue; }
                            a.on = false;
                        } else { without_data.push(ci); }
                        known[ci] = true;
                        (Some(u.chans[ci].0.clone()), Some(u.chans[ci].1.clone()))
                    }
                };
                let props = gen_props(s, &u, cfg, &mut set);
                let o = FObj { group, chan, idx: FIdx::None, props };
                if objs.iter().any(|x| x.path() == o.path()) { continue; }
                let at = s.below(objs.len() + 1);
                objs.insert(at, o);
            }
            // a property update of an active channel matches its previous description
            if kind == 3 && !active.is_empty() && s.chance(40) {
                let a = active[s.below(active.len())];
                if a.on && a.ty != Ty::Str && last.get(&a.ci).map(|l| (l.0, l.1)) == Some((a.ty, a.n)) {
                    let p = gen_props(s, &u, cfg, &mut set);
                    objs.push(mk(a.ci, FIdx::Match, p));
                }
            }
        }
        let has_str = active.iter().any(|a| a.on && a.ty == Ty::Str);
        let counts = live(&active);
        if has_str || counts.iter().any(|n| *n != counts[0]) { seg.inter = false; }
        if raw_wanted && counts.iter().any(|n| *n > 0) && kind != 3 {
            let mut chunks = if cfg.multi_chunk && !has_str && s.chance(40) { s.range(1, 5) } else { 1 };
            // now and then very many chunks, if they are small
            if chunks == 5 && cfg.big && counts.iter().sum::<u64>() < 12 && s.chance(15) { chunks = s.range(5, 700); }
            seg.raw = Some((chunks, seed));
        }
        // The total size of string channels depends on the segment's data; a segment that reuses an older description
        // must carry data of that very size, so string channels keep their seed for their lifetime.
        if seg.meta.is_some() { seg.meta = Some(objs); }
        if has_str {
            // restate string channels so that their total size matches this segment's data
            if let Some(objs) = seg.meta.as_mut() {
                for (ci, a) in active.iter_mut().filter(|a| a.on).enumerate() {
                    if a.ty != Ty::Str { continue; }
                    let total = string_total(seed, ci as u64, a.n);
                    a.total = Some(total);
                    last.insert(a.ci, (Ty::Str, a.n, Some(total)));
                    let path = path_text(Some(&u.chans[a.ci].0), Some(&u.chans[a.ci].1));
                    let idx = FIdx::Raw { ty: Ty::Str, n: a.n, total: Some(total) };
                    match objs.iter_mut().find(|o| o.path() == path) {
                        Some(o) => o.idx = idx,
                        None => objs.push(mk(a.ci, idx, vec![])),
                    }
                }
            } else {
                // no metadata: repeat the previous segment's data so that the sizes agree
                let prev = f.segs.iter().rev().find(|p| p.meta.is_some()).and_then(|p| p.raw);
                match prev {
                    Some((_, ps)) => seg.raw = seg.raw.map(|(c, _)| (c, ps)),
                    None => seg.raw = None,
                }
            }
        }
        // A segment with neither metadata nor data is legal but empty; keep it rare but possible.
        f.segs.push(seg);
    }
    (u, f)
}

pub fn describe(f: &FFile) -> String {
    f.segs.iter().map(|s| format!("[{}{}{} meta={:?} raw={:?} pad={}]", if s.be { "BE" } else { "LE" }, if s.inter { " inter" } else { " contig" }, if s.new_list { " new" } else { "" },
        s.meta.as_ref().map(|o| o.iter().map(|x| format!("{} {:?} props={}", x.path(), x.idx, x.props.len())).collect::<Vec<_>>()), s.raw, s.pad)).collect::<Vec<_>>().join(" ")
}
