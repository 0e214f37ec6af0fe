//! C04, C05, C06, C13, C20: reading well-formed files.
use super::common::*;
use super::{none, Regress};
use crate::disk::Disk;
use crate::engine::{mix, Cx, Property, Res, Source};
use crate::foreign::{describe, encode, gen_file, FCfg, FFile, FIdx, FObj, FSeg};
use crate::hist::*;
use crate::model::*;
use crate::ty::{Smp, Ty, NATIVE};
use crate::{ensure, fail, with_ty};
use std::io::{Read, Seek};
use tedium::{ChannelPath, TdmsError, TdmsFile};

// ---------------------------------------------------------------- C04

fn c04(s: &mut Source, cx: &mut Cx) -> Res {
    if s.weighted(&[120, 1]) == 1 { return super::scale::vast(s, cx, false); }
    let cfg = FCfg { quotes: true, avg_segs: if cx.thorough { 5 } else { 3 }, max_segs: 14, one_type: 25, ..FCfg::default() };
    let (u, f) = gen_file(s, &cfg);
    cx.note(|| describe(&f));
    label_foreign(cx, &f);
    let e = encode(&f, false);
    let m = e.model();
    cx.nontrivial = f.segs.len() >= 2 && m.total_samples() > 0;
    let mut file = must_open(e.bytes, "well-formed file")?;
    check_view(&mut file, &m, &u.universe())?;
    random_windows(s, &mut file, &m, 2)
}

/// A few windows of every channel, read as the type found at the window's start.
fn random_windows<F: Read + Seek>(s: &mut Source, file: &mut TdmsFile<F>, m: &Model, n: usize) -> Res {
    for (_, o) in m.channels() {
        let cp = channel_path(o)?;
        for _ in 0..n {
            let (start, len) = gen_window(s, o);
            let ty = type_at(o, start);
            check_window(file, &cp, o, ty, start, len)?;
        }
    }
    Ok(())
}

pub fn type_at(o: &Obj, start: u64) -> Ty {
    let mut base = 0;
    for b in &o.blocks {
        base += b.vals.len() as u64;
        if start < base { return if b.ty == Ty::Str { Ty::F64 } else { b.ty.reader() }; }
    }
    o.blocks.iter().rev().map(|b| b.ty.reader()).find(|t| *t != Ty::Str).unwrap_or(Ty::F64)
}

/// A start past the end that narrower arithmetic would take for one near `base`.
fn beyond(s: &mut Source, base: u64, total: u64) -> u64 {
    let m = match s.below(7) { 0 => 1 << 32, 1 => u32::MAX as u64, 2 => 1 << 31, 3 => 1 << 63, 4 => 1 << s.range(8, 63), 5 => (1u64 << s.range(8, 63)) - 1, _ => (u64::MAX >> s.range(1, 56)) / (1 + s.draw(15)) };
    let x = base.wrapping_add(m.wrapping_mul(1 + s.draw(2)));
    if x < total { x.wrapping_add(1 << 63) } else { x }
}

/// Interesting positions: block and (in the model invisible) chunk boundaries come from block starts and divisors.
pub fn gen_window(s: &mut Source, o: &Obj) -> (u64, usize) {
    let total = o.len();
    let mut marks: Vec<u64> = vec![0, total];
    let mut base = 0;
    for b in &o.blocks {
        let n = b.vals.len() as u64;
        for d in [2, 3, 4, 5] { if n % d == 0 { marks.push(base + n / d); marks.push(base + n - n / d); } }
        base += n;
        marks.push(base);
    }
    let near = |s: &mut Source| -> u64 {
        let m = marks[s.below(marks.len())];
        match s.below(3) { 0 => m, 1 => m.saturating_sub(1), _ => m + 1 }
    };
    let start = match s.weighted(&[5, 4, 1]) {
        0 => near(s),
        1 => s.draw(total.max(1)),
        _ => match s.below(5) { 0 => u64::MAX, 1 => u64::MAX - 1, 2 => i64::MAX as u64, 3 => { let b = near(s); beyond(s, b, total) }, _ => total + s.draw(1000) },
    };
    let left = total.saturating_sub(start);
    let len = match s.weighted(&[4, 3, 2, 2]) {
        0 => near(s).saturating_sub(start).min(left + 3),
        1 => s.draw(left.min(50) + 2),
        2 => left,
        _ => left + s.draw(5),
    };
    (start, len as usize)
}

// ---------------------------------------------------------------- sources for window reads

/// A file opened from foreign bytes, or a session that has just written its data.
fn gen_opened(s: &mut Source, cx: &mut Cx, cfg: &FCfg, session: u64) -> Result<(TdmsFile<Disk>, Model), String> {
    if s.chance(session) {
        let h = gen_hist(s, &HCfg { reads: false, avg_ops: 6, props: 1, ..HCfg::default() });
        cx.note(|| format!("session: {h:?}"));
        cx.label("read in the writing session");
        let (mut f, d) = new_file()?;
        let mut m = Model::default();
        run_on_disk(&mut f, &d, &h, &mut m, |_, _| Ok(()))?;
        Ok((f, m))
    } else {
        let (_, f) = gen_file(s, cfg);
        cx.note(|| describe(&f));
        label_foreign(cx, &f);
        let e = encode(&f, false);
        let m = e.model();
        Ok((must_open(e.bytes, "well-formed file")?, m))
    }
}

// ---------------------------------------------------------------- C05

fn c05(s: &mut Source, cx: &mut Cx) -> Res {
    if s.weighted(&[120, 1]) == 1 { return super::scale::vast(s, cx, false); }
    let cfg = FCfg { one_type: 75, props: false, avg_segs: if cx.thorough { 6 } else { 4 }, max_segs: 14, ..FCfg::default() };
    let (mut file, m) = gen_opened(s, cx, &cfg, 25)?;
    for (_, o) in m.channels() {
        let cp = channel_path(o)?;
        let total = o.len();
        if total <= if cx.thorough { 60 } else { 24 } {
            // every window
            cx.label("all windows enumerated");
            for start in 0..=total + 2 {
                let ty = type_at(o, start);
                for len in 0..=(total.saturating_sub(start) + 2) as usize {
                    check_window(&mut file, &cp, o, ty, start, len)?;
                    cx.evals += 1;
                }
            }
            let mut far = vec![u64::MAX, u64::MAX - 1, 1 << 63];
            for _ in 0..4 { let base = s.draw(total); far.push(beyond(s, base, total)); }
            for start in far {
                check_window(&mut file, &cp, o, type_at(o, start), start, 2)?;
                cx.evals += 1;
            }
        } else {
            cx.label("windows around boundaries");
            for _ in 0..12 {
                let (start, len) = gen_window(s, o);
                cx.note(|| format!("window of {cp}: start {start} length {len}"));
                check_window(&mut file, &cp, o, type_at(o, start), start, len)?;
                cx.evals += 1;
            }
        }
        cx.nontrivial |= o.blocks.len() > 1 && total > 0;
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

/// One multi-channel read compared with what independent reads deliver.
pub fn check_multi<F: Read + Seek>(file: &mut TdmsFile<F>, objs: &[&Obj], as_ty: Ty, start: u64, lens: &[usize]) -> Res {
    let paths: Vec<ChannelPath> = objs.iter().map(|o| channel_path(o)).collect::<Result<_, _>>()?;
    let exp: Vec<Result<Vec<u128>, ()>> = objs.iter().zip(lens).map(|(o, l)| expect_window(o, as_ty, start, *l as u64)).collect();
    let what = || format!("multi-channel read of {:?} as {as_ty:?} from {start} lengths {lens:?}", paths.iter().map(|p| p.path().to_string()).collect::<Vec<_>>());
    with_ty!(as_ty, T => {
        let mut bufs: Vec<Vec<T>> = lens.iter().map(|l| filled::<T>(*l)).collect();
        let r = {
            let mut outs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
            if start == 0 { file.read_channels(&paths, &mut outs) } else { file.read_channels_from(&paths, start, &mut outs) }
        };
        let bad = exp.iter().any(|e| e.is_err());
        match (r, bad) {
            (Ok(()), false) => {
                for (i, e) in exp.iter().enumerate() { check_buffer(&format!("{}: channel {}", what(), paths[i]), &bufs[i], e.as_ref().unwrap())?; }
            }
            (Err(TdmsError::DataTypeMismatch(..)), true) => {
                for (i, o) in objs.iter().enumerate() { check_partial(&what(), &bufs[i], o, as_ty, start)?; }
            }
            (Err(e), true) => fail!("{}: reaches incompatible samples and failed with {e:?}", what()),
            (Err(e), false) => fail!("{}: failed: {e:?}", what()),
            (Ok(()), true) => fail!("{}: reaches incompatible samples but succeeded", what()),
        }
        Ok(())
    })
}

/// After a failed read every changed position must hold the compatible sample of that place.
pub fn check_partial<T: Smp>(what: &str, buf: &[T], o: &Obj, as_ty: Ty, start: u64) -> Res {
    let clean = filled::<T>(buf.len());
    for (i, v) in buf.iter().enumerate() {
        let same = check_buffer("", std::slice::from_ref(v), &[]).is_ok() && i == 0;
        if same || format!("{}", v.show()) == clean[i].show() { continue; }
        match expect_window(o, as_ty, start.saturating_add(i as u64), 1) {
            Ok(e) if e.len() == 1 && v.is(e[0]) => {}
            e => fail!("{what}: failed, but left {} at position {i} where the channel has {e:?}", v.show()),
        }
    }
    Ok(())
}

fn c06(s: &mut Source, cx: &mut Cx) -> Res {
    if s.weighted(&[120, 1]) == 1 { return super::scale::vast(s, cx, false); }
    let cfg = FCfg { one_type: 80, props: false, avg_segs: if cx.thorough { 6 } else { 4 }, max_segs: 14, ..FCfg::default() };
    let (mut file, m) = gen_opened(s, cx, &cfg, 25)?;
    let chans: Vec<&Obj> = m.channels().map(|(_, o)| o).collect();
    if chans.is_empty() { return Ok(()); }
    for _ in 0..if cx.thorough { 10 } else { 6 } {
        // an ordered selection of channels, mostly distinct
        let again = s.chance(20);
        let mut pool: Vec<&Obj> = chans.clone();
        let mut sel: Vec<&Obj> = Vec::new();
        let wide = if chans.len() > 12 && s.chance(40) { s.range(0, chans.len() as u64) as usize } else { 0 };
        while !pool.is_empty() && (sel.len() < wide || s.more(sel.len(), 1, 6, 3)) {
            let i = s.below(pool.len());
            sel.push(if again { pool[i] } else { pool.remove(i) });
        }
        cx.label_if(sel.iter().enumerate().any(|(i, a)| sel[..i].iter().any(|b| std::ptr::eq(*a, *b))), "a channel named twice");
        let lead = s.below(sel.len());
        let (start, len) = gen_window(s, sel[lead]);
        let equal = s.chance(40);
        let lens: Vec<usize> = sel.iter().map(|o| if equal { len } else {
            match s.weighted(&[3, 3, 1, 2]) { 0 => len, 1 => s.draw(o.len().min(60) + 2) as usize, 2 => 0, _ => (o.len() + s.draw(4)) as usize }
        }).collect();
        let ty = if s.chance(90) { type_at(sel[s.below(sel.len())], start) } else { *s.pick(&NATIVE) };
        cx.note(|| format!("multi read {:?} as {ty:?} start {start} lens {lens:?}", sel.iter().map(|o| path_text(o.group.as_deref(), o.chan.as_deref())).collect::<Vec<_>>()));
        cx.label_if(sel.len() > 1 && lens.iter().any(|l| *l != lens[0]), "unequal buffers");
        cx.label_if(sel.iter().map(|o| o.len()).collect::<std::collections::BTreeSet<_>>().len() > 1, "channels of different length");
        cx.label_if(start > 0, "offset start");
        cx.nontrivial |= sel.len() > 1 && lens.iter().filter(|l| **l > 0).count() > 1;
        check_multi(&mut file, &sel, ty, start, &lens)?;
        cx.evals += 1;
    }
    // an unknown channel among known ones is refused
    let known = channel_path(chans[0])?;
    let ghost = ChannelPath::new("no such group \u{1}", "c");
    let (mut a, mut b) = (filled::<f64>(1), filled::<f64>(1));
    let r = file.read_channels(&[known, ghost], &mut [&mut a, &mut b]);
    ensure!(matches!(r, Err(TdmsError::MissingObject(_))), "multi-channel read with an unknown channel gives {r:?}");
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(s: &mut Source, cx: &mut Cx) -> Res {
    let cfg = FCfg { one_type: 10, props: false, avg_segs: 4, big: false, ..FCfg::default() };
    let (mut file, m) = gen_opened(s, cx, &cfg, 25)?;
    let chans: Vec<&Obj> = m.channels().map(|(_, o)| o).collect();
    for o in &chans {
        let cp = channel_path(o)?;
        cx.label_if(o.blocks.windows(2).any(|w| w[0].ty != w[1].ty), "type changes during the channel's history");
        cx.nontrivial |= o.len() > 0;
        for as_ty in NATIVE {
            for _ in 0..2 {
                let (start, len) = gen_window(s, o);
                check_typed(&mut file, &cp, o, as_ty, start, len)?;
                cx.evals += 1;
            }
            check_typed(&mut file, &cp, o, as_ty, 0, o.len() as usize)?;
            cx.evals += 1;
        }
        // String buffers: no channel data is readable as strings
        let mut buf = vec![String::from("keep"); o.len().min(5) as usize];
        let r = file.read_channel(&cp, &mut buf);
        if !buf.is_empty() {
            ensure!(r.is_err(), "channel {cp} was read into strings");
            ensure!(o.blocks[0].ty == Ty::Str || matches!(r, Err(TdmsError::DataTypeMismatch(..))), "reading {cp} as strings gives {r:?}");
        }
        ensure!(buf.iter().all(|b| b == "keep"), "refused string read of {cp} changed the buffer to {buf:?}");
    }
    if chans.len() > 1 {
        for _ in 0..4 {
            let a = s.below(chans.len());
            let mut b = s.below(chans.len());
            if a == b { b = (a + 1) % chans.len(); }
            let (start, len) = gen_window(s, chans[a]);
            let ty = type_at(chans[a], start);
            check_multi(&mut file, &[chans[a], chans[b]], ty, start, &[len, len])?;
            cx.evals += 1;
        }
    }
    Ok(())
}

fn check_typed<F: Read + Seek>(file: &mut TdmsFile<F>, cp: &ChannelPath, o: &Obj, as_ty: Ty, start: u64, len: usize) -> Res {
    let exp = expect_window(o, as_ty, start, len as u64);
    let what = format!("read of {cp} (stored as {:?}) as {as_ty:?} from {start} length {len}", o.blocks.iter().map(|b| b.ty).collect::<Vec<_>>());
    with_ty!(as_ty, T => {
        let mut buf = filled::<T>(len);
        match (file.read_channel_from(cp, start, &mut buf), exp) {
            (Ok(()), Ok(e)) => check_buffer(&what, &buf, &e),
            (Err(TdmsError::DataTypeMismatch(stored, asked)), Err(())) => {
                ensure!(asked == <T as tedium::TdmsStorageType>::NATURAL_TYPE && o.blocks.iter().any(|b| b.ty.data_type() == stored && !b.ty.readable_as(as_ty)),
                    "{what}: the mismatch names {stored} and {asked}");
                check_partial(&what, &buf, o, as_ty, start)
            }
            (r, e) => Err(format!("{what}: gives {r:?}, expected {}", if e.is_ok() { "success" } else { "a type mismatch" })),
        }
    })
}

// ---------------------------------------------------------------- C20

const READ_AHEAD: u64 = 64 * 1024;

fn gen_large(s: &mut Source, scale: u64) -> (FFile, usize) {
    let nch = 1 + s.below(3);
    let mk = |i: usize, idx: FIdx| FObj { group: Some("g".into()), chan: Some(format!("c{i}")), idx, props: vec![] };
    let mut f = FFile::default();
    let ty = *s.pick(&NATIVE);
    while s.more(f.segs.len(), 1, 6, 3) {
        let be = s.chance(50);
        let inter = s.chance(50);
        let chunks = 1 + s.below(3) as u64;
        // a random subset of the channels
        let mut chs: Vec<usize> = (0..nch).filter(|_| s.chance(65)).collect();
        if chs.is_empty() { chs.push(s.below(nch)); }
        let bytes = s.range(100_000, 300_000) * scale;
        let n = (bytes / (chunks * chs.len() as u64 * ty.size() as u64)).max(1);
        f.segs.push(FSeg { be, inter, new_list: true, meta: Some(chs.iter().map(|c| mk(*c, FIdx::Raw { ty, n, total: None })).collect()), raw: Some((chunks, s.u64())), version: 4713, pad: 0 });
    }
    (f, nch)
}

/// A generated file with its numbers of values multiplied so that segments have a hundred kilobytes or so of data.
fn gen_scaled(s: &mut Source) -> FFile {
    let cfg = FCfg { max_segs: 9, avg_segs: 5, strings: false, big: false, one_type: 60, ..FCfg::default() };
    let (_, mut f) = gen_file(s, &cfg);
    let e = encode(&f, false);
    let data: u64 = e.segs.iter().map(|g| (g.end - g.raw_start) as u64).sum();
    let with_data = e.segs.iter().filter(|g| g.end > g.raw_start).count() as u64;
    if data == 0 { return f; }
    let k = (with_data * s.range(60_000, 250_000) / data).max(1);
    for seg in &mut f.segs {
        for o in seg.meta.iter_mut().flatten() {
            if let FIdx::Raw { n, .. } = &mut o.idx { *n *= k; }
        }
    }
    f
}

fn c20(s: &mut Source, cx: &mut Cx) -> Res {
    let f = if s.chance(50) { gen_large(s, 1).0 } else { gen_scaled(s) };
    cx.note(|| describe(&f));
    label_foreign(cx, &f);
    let e = encode(&f, false);
    let m = e.model();
    let d = Disk::new(e.bytes);
    let h = d.handle();
    h.inner.borrow_mut().record = true;
    let mut file = TdmsFile::new(d).map_err(|x| format!("open failed: {x:?}"))?;
    let chans: Vec<(&String, &Obj)> = m.channels().collect();
    cx.nontrivial = e.segs.iter().any(|g| (g.end - g.raw_start) as u64 > READ_AHEAD);
    {
        let i = h.inner.borrow();
        let meta: u64 = e.segs.iter().map(|g| (g.raw_start - g.start) as u64).sum();
        for (k, g) in e.segs.iter().enumerate() {
            let (r0, r1) = (g.raw_start as u64, g.end as u64);
            // read-ahead goes on from what was wanted, it does not pick places
            let mut prev = 0;
            for (a, b) in &i.ranges {
                let (lo, hi) = ((*a).max(r0), (*b).min(r1));
                if lo < hi {
                    let ahead = *a <= r0 || *a == prev;
                    let behind = *b > r1;
                    ensure!((ahead && hi <= r0 + READ_AHEAD) || (behind && r1 - lo <= READ_AHEAD), "opening picked bytes {lo}..{hi} of the sample data {r0}..{r1} of segment {k}");
                }
                prev = *b;
            }
        }
        ensure!(i.bytes_read <= 2 * meta + READ_AHEAD * e.segs.len() as u64, "opening read {} bytes for {meta} bytes of metadata in {} segments", i.bytes_read, e.segs.len());
        ensure!(i.ops <= meta + 40 * e.segs.len() as u64 + 10, "opening took {} stream operations for {} segments", i.ops, e.segs.len());
    }
    if chans.is_empty() { return Ok(()); }
    for _ in 0..6 {
        let k = s.below(chans.len());
        let mut sel = vec![chans[k]];
        while sel.len() < chans.len() && s.chance(35) { sel.push(chans[(k + sel.len()) % chans.len()]); }
        let o = chans[k].1;
        let (start, len) = narrow_window(s, o);
        cx.note(|| format!("window of {:?}: start {start} length {len}", sel.iter().map(|o| o.0).collect::<Vec<_>>()));
        h.reset_counters();
        let lens: Vec<usize> = sel.iter().map(|_| len).collect();
        let objs: Vec<&Obj> = sel.iter().map(|o| o.1).collect();
        check_multi(&mut file, &objs, type_at(o, start), start, &lens)?;
        cx.evals += 1;
        let ranges = h.inner.borrow().ranges.clone();
        // which segments hold wanted samples?
        let mut wanted = vec![false; e.segs.len()];
        for (path, _) in &sel {
            let mut base = 0u64;
            for (si, g) in e.segs.iter().enumerate() {
                let n: u64 = g.counts.iter().filter(|c| c.0 == **path).map(|c| c.1).sum();
                if n > 0 && len > 0 && start < base + n && start.saturating_add(len as u64) > base { wanted[si] = true; }
                base += n;
            }
        }
        cx.label_if(wanted.iter().any(|w| !*w), "some blocks outside the window");
        cx.label_if(wanted.iter().all(|w| !*w), "window outside every block");
        for (si, g) in e.segs.iter().enumerate() {
            if wanted[si] { continue; }
            let mut prev = 0;
            for (a, b) in &ranges {
                let (lo, hi) = ((*a).max(g.raw_start as u64), (*b).min(g.end as u64));
                // read-ahead behind a wanted block is fine
                let justified = lo >= hi || e.segs.iter().enumerate().any(|(sj, w)| wanted[sj] && (*a < w.end as u64 || *a == prev) && lo >= w.end as u64 && hi <= w.end as u64 + READ_AHEAD);
                ensure!(justified, "reading {len} samples from {start} read bytes {lo}..{hi} of segment {si}, whose data is outside the window");
                prev = *b;
            }
        }
    }
    Ok(())
}

fn narrow_window(s: &mut Source, o: &Obj) -> (u64, usize) {
    let mut base = 0;
    let mut marks = vec![0u64];
    for b in &o.blocks { base += b.vals.len() as u64; marks.push(base); }
    let m = marks[s.below(marks.len())];
    let len = match s.below(4) { 0 => 0, 1 => 1, 2 => s.range(1, 50) as usize, _ => s.range(1, 20_000) as usize };
    let start = match s.below(6) {
        0 => m,
        1 => m.saturating_sub(len as u64),
        2 => m.saturating_sub(len as u64 / 2),
        3 => s.draw(base),
        4 => base + s.draw(10),
        _ => m.saturating_sub(1),
    };
    (start, len)
}

// ---------------------------------------------------------------- regressions

fn seg(chs: &[(&str, FIdx)], inter: bool, new_list: bool, be: bool, chunks: u64, seed: u64) -> FSeg {
    FSeg { be, inter, new_list, meta: Some(chs.iter().map(|(c, i)| FObj { group: Some("g".into()), chan: Some(c.to_string()), idx: i.clone(), props: vec![] }).collect()),
        raw: if chunks > 0 { Some((chunks, seed)) } else { None }, version: 4713, pad: 0 }
}
fn raw(ty: Ty, n: u64) -> FIdx { FIdx::Raw { ty, n, total: None } }

fn view(f: FFile) -> Res {
    let e = encode(&f, false);
    let mut file = must_open(e.bytes.clone(), "well-formed file")?;
    check_view(&mut file, &e.model(), &Universe::default())
}

fn r04() -> Regress {
    fn no_metadata(_: &mut Cx) -> Res {
        for be in [false, true] {
            let mut s2 = seg(&[], false, false, be, 2, 9);
            s2.meta = None;
            view(FFile { segs: vec![seg(&[("a", raw(Ty::I32, 3)), ("b", raw(Ty::I32, 3))], false, true, be, 1, 5), s2] })?;
        }
        Ok(())
    }
    fn wide_types(_: &mut Cx) -> Res {
        for ty in [Ty::Time, Ty::Ext, Ty::ExtU, Ty::F64U, Ty::F32U, Ty::C64] {
            for inter in [false, true] {
                view(FFile { segs: vec![seg(&[("a", raw(ty, 3)), ("b", raw(Ty::U16, 3))], inter, true, false, 2, 5)] })?;
            }
        }
        Ok(())
    }
    fn string_channel(_: &mut Cx) -> Res {
        let total = crate::foreign::string_total(5, 1, 3);
        view(FFile { segs: vec![
            seg(&[("a", raw(Ty::I32, 3)), ("s", FIdx::Raw { ty: Ty::Str, n: 3, total: Some(total) }), ("b", raw(Ty::I32, 3))], false, true, false, 1, 5),
            seg(&[("a", raw(Ty::I32, 3))], false, true, false, 1, 6)] })
    }
    fn quoted_names(_: &mut Cx) -> Res {
        let mut s1 = seg(&[("it''s", raw(Ty::I32, 2)), ("a/b", raw(Ty::I32, 2)), ("''", raw(Ty::I32, 2))], false, true, false, 1, 5);
        s1.meta.as_mut().unwrap().push(FObj { group: Some("g''".into()), chan: Some("/'".replace('\'', "''")), idx: raw(Ty::I32, 2), props: vec![] });
        s1.meta.as_mut().unwrap().push(FObj { group: Some("g''/''x".into()), chan: None, idx: FIdx::None, props: vec![] });
        view(FFile { segs: vec![s1] })
    }
    /// Several chunks in a segment that holds strings; taken for one chunk is a known finding.
    fn string_chunks(cx: &mut Cx) -> Res {
        for chunks in [2, 3, 7] {
            let total = crate::foreign::string_total(5, 1, 3);
            let f = FFile { segs: vec![
                seg(&[("a", raw(Ty::I32, 3)), ("s", FIdx::Raw { ty: Ty::Str, n: 3, total: Some(total) }), ("b", raw(Ty::I32, 3))], false, true, false, chunks, 5),
                seg(&[("a", raw(Ty::I32, 3))], false, true, false, 1, 6)] };
            let Err(why) = view(f.clone()) else { continue };
            let mut one = must_open(encode(&f, false).bytes, "file")?;
            let lens = ["a", "b", "s"].map(|c| one.channel_length(&ChannelPath::new("g", c)));
            let mut first = [0i32; 6];
            one.read_channel(&ChannelPath::new("g", "a"), &mut first).map_err(|e| format!("{why}; {e:?}"))?;
            let want: Vec<i32> = (0..3).map(|i| crate::foreign::seg_sample(Ty::I32, 5, 0, i) as i32).chain((0..3).map(|i| crate::foreign::seg_sample(Ty::I32, 6, 0, i) as i32)).collect();
            if lens == [Some(6), Some(3), Some(3)] && first[..] == want[..] && known_finding("C04", "string-chunks") {
                cx.known.push("string-chunks: of a segment with several chunks that holds a string channel only the first chunk is read".into());
            } else { fail!("{why}"); }
        }
        Ok(())
    }
    /// A live channel is listed without data, and gets data again in its old place.
    fn data_lost(_: &mut Cx) -> Res {
        for be in [false, true] { for inter in [false, true] { for with_data in [false, true] {
            let first = seg(&[("a", raw(Ty::I32, 2)), ("b", raw(Ty::I16, 2)), ("c", raw(Ty::U8, 2))], inter, true, be, 2, 5);
            let mut lost = seg(&[("b", FIdx::None)], inter, false, be, 3, 6);
            if !with_data { lost.raw = None; }
            let mut same = seg(&[], inter, false, be, 1, 7);
            same.meta = None;
            let again = seg(&[("b", FIdx::Match)], inter, false, be, 2, 8);
            view(FFile { segs: vec![first, lost, same.clone(), again, same] })?;
        } } }
        Ok(())
    }
    vec![("no_metadata", no_metadata), ("wide_types", wide_types), ("string_channel", string_channel), ("quoted_names", quoted_names), ("string_chunks", string_chunks), ("data_lost", data_lost)]
}

fn two_lengths() -> FFile {
    FFile { segs: vec![
        seg(&[("a", raw(Ty::I32, 4)), ("b", raw(Ty::I32, 4))], true, true, false, 2, 5),
        seg(&[("b", raw(Ty::I32, 3))], false, true, true, 2, 6),
        seg(&[("b", raw(Ty::I32, 4)), ("a", raw(Ty::I32, 4))], false, true, false, 3, 7)] }
}

fn r06() -> Regress {
    fn unequal_progress(cx: &mut Cx) -> Res {
        let e = encode(&two_lengths(), false);
        let m = e.model();
        let mut f = must_open(e.bytes.clone(), "file")?;
        let o: Vec<&Obj> = m.channels().map(|(_, o)| o).collect();
        for start in 0..30 {
            for la in [0usize, 1, 5, 9, 20, 40] {
                for lb in [0usize, 1, 6, 13, 27, 40] {
                    check_multi(&mut f, &[o[0], o[1]], Ty::I32, start, &[la, lb])?;
                    check_multi(&mut f, &[o[1], o[0]], Ty::I32, start, &[lb, la])?;
                    cx.evals += 2;
                }
            }
        }
        Ok(())
    }
    vec![("unequal_progress", unequal_progress)]
}

fn r13() -> Regress {
    fn string_reads(_: &mut Cx) -> Res {
        let total = crate::foreign::string_total(5, 0, 3);
        let e = encode(&FFile { segs: vec![seg(&[("s", FIdx::Raw { ty: Ty::Str, n: 3, total: Some(total) })], false, true, false, 1, 5)] }, false);
        let mut f = must_open(e.bytes.clone(), "file")?;
        let cp = ChannelPath::new("g", "s");
        let mut buf = vec![String::from("keep"); 3];
        let r = f.read_channel(&cp, &mut buf);
        ensure!(r.is_err() && buf.iter().all(|b| b == "keep"), "string channel read gives {r:?} and {buf:?}");
        Ok(())
    }
    vec![("string_reads", string_reads)]
}

pub fn all() -> Vec<Property> {
    let level = "exploration";
    let a: &[&str] = &["files are well formed: equal channel lengths within a segment, no DAQmx, no object stripped of its data while it stays in the live list"];
    let _ = mix;
    vec![
        Property { id: "C04", level, rule: "one case in 120 is a file of up to 2^60 bytes on a computed stream, as in C26; the others: files encoded by an independent TDMS encoder from generated segment lists (both byte orders, layouts, 1-5 chunks, new/inherited object lists, restated/matched/inherited descriptions, metadata-less segments, padding, 18 fixed-size types and strings, properties, quoted names); the complete view and random windows are compared with the encoder's model. Non-trivial: at least two segments and some samples.", run: c04, quick: 700000, thorough: 17500000, regress: r04, assumptions: a },
        Property { id: "C05", level, rule: "one case in 120 is a file of up to 2^60 bytes on a computed stream, as in C26; the others: encoded foreign files (75%) and fresh writing sessions (25%); for channels of up to 24 samples (60 in the thorough tier) every window is enumerated, for longer ones windows around block and chunk boundaries, past the end and at extreme starts; buffers are prefilled with a pattern that must survive beyond the channel's end. Non-trivial: a channel with at least two blocks.", run: c05, quick: 350000, thorough: 8750000, regress: none, assumptions: a },
        Property { id: "C06", level, rule: "one case in 120 is a file of up to 2^60 bytes on a computed stream, as in C26; the others: encoded foreign files and writing sessions; several multi-channel reads each with an ordered selection of channels (in a fifth of them not all distinct), unequal buffer lengths and boundary-aligned starts, compared buffer by buffer with independent windows of the model. Non-trivial: at least two channels with non-empty buffers.", run: c06, quick: 300000, thorough: 7500000, regress: r06, assumptions: a },
        Property { id: "C13", level, rule: "files with several stored types per channel; every channel is read as each of the 15 native types over several windows, as strings, and in mixed multi-channel reads; a window touching incompatible samples must fail with a mismatch naming both types and leave only correct samples behind, any other must succeed with exact values. Non-trivial: a channel with samples.", run: c13, quick: 30000, thorough: 750000, regress: r13, assumptions: a },
        Property { id: "C20", level, rule: "files with 1-9 data blocks of about 60-300 KB each (mixed types, inherited and missing metadata, many chunks) on a recording stream; bytes delivered while opening, and the byte ranges delivered for boundary-aligned windows of one or more channels, are checked against block bounds with 64 KiB allowed for read-ahead that goes on from a wanted part. Non-trivial: some block is larger than the read-ahead.", run: c20, quick: 15000, thorough: 375000, regress: none, assumptions: a },
    ]
}
