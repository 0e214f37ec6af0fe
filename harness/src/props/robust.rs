//! C10, C11, C21: damaged, truncated and contradictory files.
use super::common::*;
use super::names::random_text;
use super::values::BAD_TEXT;
use super::Regress;
use crate::disk::Disk;
use crate::engine::{mix, Cx, Property, Res, Source};
use crate::foreign::{self, describe, encode, gen_file, gen_funi, Encoded, FCfg, FFile, FIdx, FObj, FSeg, Field, FieldKind};
use crate::hist::*;
use crate::model::*;
use crate::ty::{Smp, Ty, NATIVE};
use crate::{apply_op, ensure, fail, with_ty};
use tedium::{ChannelPath, PropertyPath, TdmsError, TdmsFile};

// ---------------------------------------------------------------- C10

fn interesting(s: &mut Source, old: u64, len: usize, file_len: u64) -> u64 {
    let max = if len == 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
    let v = match s.below(14) {
        0 => 0,
        1 => 1,
        2 => old.wrapping_add(1),
        3 => old.wrapping_sub(1),
        4 => old.wrapping_mul(2),
        5 => max,
        6 => max - s.draw(40),
        7 => max / 2 + s.draw(2),
        8 => 1 << s.draw(8 * len as u64 - 1),
        9 => (1u64 << s.draw(8 * len as u64 - 1)).wrapping_sub(1),
        10 => s.draw(file_len + 40),
        11 => s.draw(16),
        12 => max / (1 + s.draw(64)),
        _ => s.u64(),
    };
    v & max
}

fn get(bytes: &[u8], f: &Field) -> u64 {
    let b = &bytes[f.off..f.off + f.len];
    if f.be { b.iter().fold(0, |a, x| a << 8 | *x as u64) } else { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) }
}

fn put(bytes: &mut [u8], f: &Field, v: u64) {
    for i in 0..f.len {
        let sh = if f.be { 8 * (f.len - 1 - i) } else { 8 * i };
        bytes[f.off + i] = (v >> sh) as u8;
    }
}

/// Numeric header fields.
fn numeric(k: FieldKind) -> bool {
    use FieldKind::*;
    matches!(k, Toc | Version | NextOff | RawOff | ObjCount | PathLen | IdxHeader | TypeCode | Dims | NVals | TotalSize | PropCount | NameLen | PropType)
}

/// Put another text into a path or name field; lengths, addresses and the other fields follow.
fn replace_text(e: &mut Encoded, i: usize, t: &str) {
    let f = e.fields[i];
    let delta = t.len() as i64 - f.len as i64;
    e.bytes.splice(f.off..f.off + f.len, t.bytes());
    let moved = |x: usize| if x > f.off { (x as i64 + delta) as usize } else { x };
    for (k, x) in e.fields.iter_mut().enumerate() { if k != i { x.off = if x.off == f.off && x.len == 0 { x.off } else if x.off >= f.off + f.len { (x.off as i64 + delta) as usize } else { x.off }; } }
    e.fields[i].len = t.len();
    for x in &mut e.segs { x.start = moved(x.start); x.raw_start = moved(x.raw_start); x.end = moved(x.end); }
    let len = e.fields.iter().copied().filter(|x| matches!(x.kind, FieldKind::PathLen | FieldKind::NameLen) && x.off + 4 == f.off).last();
    if let Some(x) = len { put(&mut e.bytes, &x, t.len() as u64); }
    for x in e.fields.clone() {
        if x.seg == f.seg && matches!(x.kind, FieldKind::NextOff | FieldKind::RawOff) {
            let v = get(&e.bytes, &x);
            if v != u64::MAX { put(&mut e.bytes, &x, (v as i64).wrapping_add(delta) as u64); }
        }
    }
}

fn gen_damaged(s: &mut Source, cx: &mut Cx) -> Vec<u8> {
    let kind = s.weighted(&[9, 4, 2, 1]);
    match kind {
        0 | 1 => {
            let (_, mut f) = gen_file(s, &FCfg { big: false, avg_segs: 2, quotes: true, ..FCfg::default() });
            cx.note(|| format!("from {}", describe(&f)));
            if kind == 1 {
                // claims without data: huge counts in an otherwise well-formed file
                cx.label("claims of huge extents");
                for seg in &mut f.segs {
                    if let Some(o) = &mut seg.meta { for x in o { if let FIdx::Raw { n, ty, .. } = &mut x.idx { if *ty == Ty::Str { *ty = Ty::U8; } if s.chance(50) { *n = 0; } } } }
                    seg.raw = seg.raw.map(|r| (1, r.1));
                }
            }
            let mut e = encode_small(&f);
            if kind == 0 && s.chance(20) {
                cx.label("any text for a path or name");
                for _ in 0..1 + s.below(3) {
                    let texts: Vec<usize> = (0..e.fields.len()).filter(|i| matches!(e.fields[*i].kind, FieldKind::Path | FieldKind::Name)).collect();
                    if texts.is_empty() { break; }
                    let t = random_text(s);
                    let i = texts[s.below(texts.len())];
                    cx.note(|| format!("{:?} of segment {} at {} is {t:?}", e.fields[i].kind, e.fields[i].seg, e.fields[i].off));
                    replace_text(&mut e, i, &t);
                }
                if s.chance(70) { return e.bytes; }
            }
            let nums: Vec<usize> = (0..e.fields.len()).filter(|i| numeric(e.fields[*i].kind)).collect();
            let n_edits = 1 + s.weighted(&[6, 4, 2, 1, 1, 1]);
            let file_len = e.bytes.len() as u64;
            for k in 0..n_edits {
                if nums.is_empty() { break; }
                if kind == 1 || s.chance(75) {
                    let i = if kind == 1 && k < 4 {
                        // counts and offsets first
                        let big: Vec<usize> = nums.iter().copied().filter(|i| matches!(e.fields[*i].kind, FieldKind::NVals | FieldKind::NextOff | FieldKind::RawOff)).collect();
                        if big.is_empty() { nums[s.below(nums.len())] } else { big[s.below(big.len())] }
                    } else { nums[s.below(nums.len())] };
                    let f = e.fields[i];
                    let v = interesting(s, get(&e.bytes, &f), f.len, file_len);
                    let v = if f.kind == FieldKind::Toc { v & 0xff } else { v };
                    put(&mut e.bytes, &f, v);
                    cx.note(|| format!("{:?} of segment {} at {} = {v:#x}", f.kind, f.seg, f.off));
                    cx.label("header field changed");
                } else {
                    let i = s.below(e.bytes.len());
                    e.bytes[i] = s.draw(255) as u8;
                    cx.note(|| format!("byte {i} = {:#x}", e.bytes[i]));
                    cx.label("byte changed");
                }
            }
            let mut b = e.bytes;
            match s.weighted(&[12, 2, 1, 1]) {
                1 => { let n = s.below(b.len() + 1); b.truncate(n); cx.label("truncated"); }
                2 => { let seg = &e.segs[s.below(e.segs.len())]; if seg.end <= b.len() { let c = b[seg.start..seg.end].to_vec(); b.extend(c); cx.label("segment repeated"); } }
                3 => { let i = s.below(b.len() + 1); let n = 1 + s.below(8); for k in 0..n { b.insert(i, s.draw(255) as u8 ^ k as u8); } cx.label("bytes inserted"); }
                _ => {}
            }
            b
        }
        2 => {
            cx.label("crafted segment");
            crafted(s)
        }
        _ => {
            cx.label("garbage");
            let mut b = if s.chance(70) { b"TDSm".to_vec() } else { vec![] };
            while s.more(b.len(), 0, 200, 60) { b.push(match s.below(3) { 0 => 0, 1 => 0xff, _ => s.draw(255) as u8 }); }
            b
        }
    }
}

fn encode_small(f: &FFile) -> Encoded { encode(f, false) }

/// One or two segments whose header values are chosen freely, with little data behind them.
fn crafted(s: &mut Source) -> Vec<u8> {
    let u = gen_funi(s, &FCfg::default());
    let mut b = Vec::new();
    for _ in 0..1 + s.below(3) {
        let be = s.chance(50);
        let mut meta = Vec::new();
        let n = 1 + s.below(u.chans.len().min(3));
        foreign::put_u32(&mut meta, n as u32, be);
        for i in 0..n {
            let (g, c) = &u.chans[i];
            foreign::put_str(&mut meta, &path_text(Some(g), Some(c)), be);
            match s.weighted(&[8, 1, 1]) {
                0 => {
                    foreign::put_u32(&mut meta, 20, be);
                    foreign::put_u32(&mut meta, s.pick(&NATIVE).code(), be);
                    foreign::put_u32(&mut meta, 1, be);
                    let v = match s.below(6) { 0 => 0, 1 => 1, 2 => s.draw(5), 3 => 1 << s.draw(63), 4 => u64::MAX / (1 + s.draw(40)), _ => interesting(s, 7, 8, 100) };
                    foreign::put_u64(&mut meta, v, be);
                }
                1 => foreign::put_u32(&mut meta, 0, be),
                _ => foreign::put_u32(&mut meta, u32::MAX, be),
            }
            foreign::put_u32(&mut meta, 0, be);
        }
        let with_meta = s.chance(85);
        if !with_meta { meta.clear(); }
        let raw = s.draw(64) as usize;
        let toc = (with_meta as u32) << 1 | (s.chance(70) as u32) << 2 | 8 | (s.chance(50) as u32) << 5 | (be as u32) << 6;
        b.extend_from_slice(b"TDSm");
        b.extend(toc.to_le_bytes());
        foreign::put_u32(&mut b, 4713, be);
        let real = (meta.len() + raw) as u64;
        let next = match s.weighted(&[5, 2, 2, 1]) { 0 => real, 1 => (1u64 << s.draw(63)).saturating_add(real), 2 => i64::MAX as u64 - s.draw(200), _ => interesting(s, real, 8, real) };
        foreign::put_u64(&mut b, next, be);
        let rawo = match s.weighted(&[8, 1]) { 0 => meta.len() as u64, _ => interesting(s, meta.len() as u64, 8, real) };
        foreign::put_u64(&mut b, rawo, be);
        b.extend_from_slice(&meta);
        b.extend((0..raw).map(|i| mix(i as u64) as u8));
    }
    b
}

/// Everything observable of a file, with a limit on the work allowed; the digest lets two runs be compared.
fn exercise(bytes: &[u8], windows: &[(u64, usize, u64)], log: &mut Vec<String>, cx: &mut Cx) -> Res {
    let len = bytes.len() as u64;
    let d = Disk::new(bytes.to_vec());
    let h = d.handle();
    let arm = |budget: u64| { h.reset_counters(); let mut i = h.inner.borrow_mut(); i.budget = Some(budget); i.over_budget = false; };
    let over = |what: &str| -> Res {
        let i = h.inner.borrow();
        ensure!(!i.over_budget, "{what} used more than {} stream operations on a file of {len} bytes", i.budget.unwrap());
        Ok(())
    };
    arm(200 + 10 * len);
    let r = TdmsFile::new(d);
    over("opening")?;
    let mut f = match r {
        Ok(f) => f,
        Err(e) => { log.push(format!("open: {e:?}")); return Ok(()); }
    };
    log.push("open: ok".into());
    let groups: Vec<String> = f.list_groups().map(str::to_string).collect();
    log.push(format!("{groups:?}"));
    let mut chans: Vec<ChannelPath> = Vec::new();
    for g in &groups {
        let gp = match PropertyPath::try_from(path_text(Some(g), None).as_str()) { Ok(p) => p, Err(_) => PropertyPath::group(g) };
        log.push(format!("{:?}", props_of(&f, &gp)));
        let mut c: Vec<ChannelPath> = f.list_channels_in_group(&gp).collect();
        c.sort_by(|a, b| a.path().cmp(b.path()));
        chans.extend(c);
    }
    log.push(format!("{:?}", props_of(&f, &PropertyPath::file())));
    if chans.len() > 1 { cx.label("several channels listed"); }
    for c in &chans {
        log.push(format!("{c} {:?} {:?}", f.channel_length(c), props_of(&f, c.as_ref())));
    }
    let mut readable = false;
    for (ci, c) in chans.iter().enumerate() {
        let total = f.channel_length(c).unwrap_or(0);
        if total > 0 { readable = true; }
        for (k, (sel, n, t)) in windows.iter().enumerate() {
            let start = match sel % 8 { 0 => 0, 1 => total.saturating_sub(3), 2 => total / 2, 3 => sel >> 3 & 0xff, 4 => u64::MAX - (sel >> 3 & 3), 5 => total, 6 => *sel, _ => (sel >> 3) % total.max(1) };
            let ty = NATIVE[(*t as usize + k) % NATIVE.len()];
            let n = *n;
            let nch = chans.len() as u64;
            arm(1000 + 20 * len + 4 * n as u64 * (nch + 2));
            let what = || format!("reading {n} samples of {c} from {start} as {ty:?} (length {total})");
            with_ty!(ty, T => {
                let mut buf = filled::<T>(n);
                let r = f.read_channel_from(c, start, &mut buf);
                over(&what())?;
                log.push(format!("{} {:?} {}", what(), r, digest(&buf)));
                // several channels at once
                if chans.len() > 1 && k % 2 == 0 {
                    let other = &chans[(ci + 1 + k) % chans.len()];
                    if other != c {
                        let m = if k % 4 == 0 { n } else { n / 2 };
                        let mut b1 = filled::<T>(n);
                        let mut b2 = filled::<T>(m);
                        arm(1000 + 20 * len + 4 * (n + m) as u64 * (nch + 2));
                        let r = f.read_channels_from(&[c.clone(), other.clone()], start, &mut [&mut b1, &mut b2]);
                        over(&format!("{} together with {m} of {other}", what()))?;
                        log.push(format!("{:?} {} {}", r, digest(&b1), digest(&b2)));
                    }
                }
                Ok::<(), String>(())
            })?;
        }
    }
    // the type the channel has, if any type reads it
    for c in &chans {
        if f.channel_length(c).unwrap_or(0) == 0 { continue; }
        for ty in NATIVE {
            arm(1000 + 20 * len + 64);
            let ok = with_ty!(ty, T => {
                let mut buf = filled::<T>(5);
                let r = f.read_channel(c, &mut buf);
                over(&format!("reading 5 samples of {c} as {ty:?}"))?;
                log.push(format!("{r:?} {}", digest(&buf)));
                r.is_ok()
            });
            if ok {
                let total = f.channel_length(c).unwrap_or(0);
                for (sel, n, _) in windows {
                    let start = match sel % 4 { 0 => total.saturating_sub(*n as u64), 1 => total - total / 3, 2 => (sel >> 2) % total, _ => total.saturating_sub(1) };
                    arm(1000 + 20 * len + 4 * *n as u64 * (chans.len() as u64 + 2));
                    with_ty!(ty, T => {
                        let mut buf = filled::<T>(*n);
                        let r = f.read_channel_from(c, start, &mut buf);
                        over(&format!("reading {n} samples of {c} from {start} as {ty:?} (length {total})"))?;
                        log.push(format!("{r:?} {}", digest(&buf)));
                        Ok::<(), String>(())
                    })?;
                }
                break;
            }
        }
    }
    cx.label_if(readable, "usable file with samples");
    cx.nontrivial |= !chans.is_empty();
    Ok(())
}

fn props_of(f: &TdmsFile<Disk>, p: &PropertyPath) -> Option<Vec<String>> {
    f.read_all_properties(p).map(|it| {
        let mut v: Vec<String> = it.map(|(k, v)| format!("{k:?}={v:?}")).collect();
        v.sort();
        v
    })
}

fn digest<T: Smp>(b: &[T]) -> u64 {
    let mut h = 7u64;
    for v in b { for c in v.show().bytes() { h = mix(h ^ c as u64); } }
    h
}

fn check_any(bytes: &[u8], windows: &[(u64, usize, u64)], cx: &mut Cx) -> Res {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    exercise(bytes, windows, &mut a, cx)?;
    exercise(bytes, windows, &mut b, cx)?;
    for (x, y) in a.iter().zip(&b) {
        ensure!(x == y, "two opens of the same bytes answer differently: {x} and {y}");
    }
    ensure!(a.len() == b.len(), "two opens of the same bytes answer differently");
    Ok(())
}

fn gen_windows(s: &mut Source) -> Vec<(u64, usize, u64)> {
    (0..3).map(|_| (s.u64(), match s.below(4) { 0 => 1, 1 => s.draw(8) as usize, 2 => s.draw(70) as usize, _ => s.draw(700) as usize }, s.draw(14))).collect()
}

fn c10(s: &mut Source, cx: &mut Cx) -> Res {
    let bytes = gen_damaged(s, cx);
    let windows = gen_windows(s);
    cx.note(|| format!("{} bytes: {}", bytes.len(), hex(&bytes)));
    check_any(&bytes, &windows, cx)
}

fn hex(b: &[u8]) -> String { b.iter().take(600).map(|x| format!("{x:02x}")).collect() }

fn lead(toc: u32, next: u64, raw: u64) -> Vec<u8> {
    let mut b = b"TDSm".to_vec();
    b.extend(toc.to_le_bytes());
    b.extend(4713u32.to_le_bytes());
    b.extend(next.to_le_bytes());
    b.extend(raw.to_le_bytes());
    b
}

fn meta_of(objs: &[(&str, u32, u64)]) -> Vec<u8> {
    let mut m = Vec::new();
    foreign::put_u32(&mut m, objs.len() as u32, false);
    for (c, code, n) in objs {
        foreign::put_str(&mut m, &path_text(Some("g"), Some(c)), false);
        foreign::put_u32(&mut m, 20, false);
        foreign::put_u32(&mut m, *code, false);
        foreign::put_u32(&mut m, 1, false);
        foreign::put_u64(&mut m, *n, false);
        foreign::put_u32(&mut m, 0, false);
    }
    m
}

fn r10() -> Regress {
    const W: [(u64, usize, u64); 4] = [(0, 4, 0), (1, 5, 1), (2, 70, 2), (4, 3, 3)];
    // every toc value with one or two channels, extreme counts and offsets
    fn extremes(cx: &mut Cx) -> Res {
        for inter in [0, 0x20] {
            for (a, b) in [(0, 0), (0, 1), (1, 0), (u64::MAX, u64::MAX), (u64::MAX / 8, 1), (1 << 61, 1 << 61), (1 << 60, 1), (1, 1), (i64::MAX as u64, 1)] {
                for next in [40u64, 1 << 20, 1 << 40, i64::MAX as u64 - 100, i64::MAX as u64, u64::MAX - 29, u64::MAX - 1, u64::MAX] {
                    for code in [10u32, 5, 0x44, 0x20] {
                        for second in [false, true] {
                            let objs: Vec<(&str, u32, u64)> = if second { vec![("a", code, a), ("b", code, b)] } else { vec![("a", code, a)] };
                            let meta = meta_of(&objs);
                            let mut f = lead(0xE | inter, next.saturating_add(if next < 1 << 50 { meta.len() as u64 } else { 0 }), meta.len() as u64);
                            f.extend_from_slice(&meta);
                            f.extend((0..40u8).map(|i| i + 1));
                            check_any(&f, &W, cx)?;
                            cx.evals += 1;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    // several blocks whose lengths add up beyond the range
    fn sums(cx: &mut Cx) -> Res {
        for (n, code) in [(1u64 << 62, 5u32), (1 << 59, 10), (i64::MAX as u64 / 2, 5)] {
            let size = if code == 5 { 1 } else { 8 };
            let mut f = Vec::new();
            let meta = meta_of(&[("a", code, 1)]);
            f.extend(lead(0xE, meta.len() as u64 + n * size / 2 / size * size, meta.len() as u64));
            f.extend_from_slice(&meta);
            f.extend([1u8; 32]);
            check_any(&f, &W, cx)?;
            // the same claim over and over, each with a tiny real extent
            let mut g = Vec::new();
            for _ in 0..6 {
                g.extend(lead(0xE, meta.len() as u64 + 8, meta.len() as u64));
                let mut m2 = meta.clone();
                let at = m2.len() - 12;
                m2[at..at + 8].copy_from_slice(&n.to_le_bytes());
                g.extend_from_slice(&m2);
                g.extend([1u8; 8]);
            }
            check_any(&g, &W, cx)?;
            cx.evals += 2;
        }
        Ok(())
    }
    fn short_inputs(cx: &mut Cx) -> Res {
        let full = { let m = meta_of(&[("a", 10, 2)]); let mut f = lead(0xE, m.len() as u64 + 16, m.len() as u64); f.extend(m); f.extend([3u8; 16]); f };
        for n in 0..=full.len() { check_any(&full[..n], &W, cx)?; cx.evals += 1; }
        // every value of every byte of the header and metadata
        for i in 0..full.len() - 16 {
            for v in 0..=255u8 {
                let mut f = full.clone();
                f[i] = v;
                check_any(&f, &W, cx)?;
                cx.evals += 1;
            }
        }
        Ok(())
    }
    fn odd_paths(cx: &mut Cx) -> Res {
        for p in ["", "/'", "'", "/''", "/'a'/'", "//", "/'a'/'b'/'c'", "a", "/a", "/'a'b", "/\"a\"", "/'a''", "/'é", "/'a'/"] {
            let mut m = Vec::new();
            foreign::put_u32(&mut m, 1, false);
            foreign::put_str(&mut m, p, false);
            for idx in [u32::MAX, 20] {
                let mut m = m.clone();
                foreign::put_u32(&mut m, idx, false);
                if idx == 20 { foreign::put_u32(&mut m, 10, false); foreign::put_u32(&mut m, 1, false); foreign::put_u64(&mut m, 2, false); }
                foreign::put_u32(&mut m, 0, false);
                let mut f = lead(if idx == 20 { 0xE } else { 6 }, m.len() as u64 + if idx == 20 { 16 } else { 0 }, m.len() as u64);
                f.extend_from_slice(&m);
                if idx == 20 { f.extend([5u8; 16]); }
                check_any(&f, &W, cx)?;
                cx.evals += 1;
            }
        }
        Ok(())
    }
    vec![("extremes", extremes), ("sums", sums), ("short_inputs", short_inputs), ("odd_paths", odd_paths)]
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cut { Boundary, Data, Meta }

struct SegB { start: usize, raw_start: usize, end: usize }

/// Checks the prefix of `bytes` of length `c`; `before` and `after` are the models without and with the cut segment.
#[allow(clippy::too_many_arguments)]
fn check_cut(s: &mut Source, bytes: &[u8], c: usize, kind: Cut, before: &Model, after: &Model, uni: &Universe, append: bool, cx: &mut Cx) -> Res {
    let what = format!("cut at {c} of {} ({kind:?})", bytes.len());
    let cut = bytes[..c].to_vec();
    let d = Disk::new(cut.clone());
    let h = d.handle();
    let mut f = match TdmsFile::new(d) {
        Ok(f) => f,
        Err(e) => {
            ensure!(kind == Cut::Meta, "{what}: refused to open: {e:?}");
            cx.label("cut file refused");
            return Ok(());
        }
    };
    if kind == Cut::Boundary {
        check_view(&mut f, before, uni).map_err(|e| format!("{what}: {e}"))?;
    } else {
        cx.label(if kind == Cut::Data { "opened with a cut in sample data" } else { "opened with a cut in metadata" });
        check_between(s, &mut f, before, after, &what)?;
    }
    if !append { return Ok(()); }
    // appending
    let ops = gen_ops(s, uni, &HCfg { avg_ops: 2, max_ops: 4, reads: false, big: false, ..HCfg::default() });
    cx.note(|| format!("{what}: append {ops:?}"));
    let mut failed = false;
    let mut m = before.clone();
    match f.writer() {
        Err(e) => {
            ensure!(kind != Cut::Boundary, "{what}: appending at a segment boundary is refused: {e:?}");
            failed = true;
        }
        Ok(mut w) => {
            for op in &ops {
                match apply_op!(w, uni, op) {
                    Ok(()) => model_apply(&mut m, uni, op),
                    Err(e) => {
                        ensure!(kind != Cut::Boundary, "{what}: appending at a segment boundary fails: {e:?}");
                        failed = true;
                        break;
                    }
                }
            }
        }
    }
    if failed {
        cx.label("append to a cut file refused");
        ensure!(h.snapshot() == cut, "{what}: a refused append changed the bytes");
        return Ok(());
    }
    cx.label("append to a cut file done");
    let now = h.snapshot();
    let mut g = must_open(now.clone(), &format!("{what}: after appending"))?;
    if kind == Cut::Boundary {
        ensure!(now[..c] == cut[..], "{what}: appending changed earlier bytes");
        check_view(&mut g, &m, uni).map_err(|e| format!("{what}: after appending and reopening: {e}"))?;
    } else {
        // the complete segments' content followed by the new content, or by what the cut segment contributed and then the new content
        check_view(&mut g, &m, uni).map_err(|e| format!("{what}: after appending and reopening: {e}"))?;
    }
    Ok(())
}

/// The view of a file cut inside a segment: everything of `before`, and possibly parts of what `after` adds.
fn check_between(s: &mut Source, f: &mut TdmsFile<Disk>, before: &Model, after: &Model, what: &str) -> Res {
    let groups: Vec<String> = f.list_groups().map(str::to_string).collect();
    for g in before.groups() { ensure!(groups.contains(&g), "{what}: group {g:?} of the complete segments is gone"); }
    for g in &groups { ensure!(after.groups().contains(g), "{what}: group {g:?} is invented"); }
    for (p, o) in &after.objects {
        let pp = object_path(o)?;
        let old = before.objects.get(p);
        match f.read_all_properties(&pp) {
            None => ensure!(old.is_none(), "{what}: object {p} of the complete segments is gone"),
            Some(it) => {
                let got: Vec<(String, tedium::PropertyValue)> = it.map(|(k, v)| (k.clone(), v.clone())).collect();
                for (k, v) in &got {
                    let ok = o.props.get(k).is_some_and(|w| w.is(v)) || old.and_then(|o| o.props.get(k)).is_some_and(|w| w.is(v));
                    ensure!(ok, "{what}: property {k:?} of {p} is {v:?}, the complete file has {:?}", o.props.get(k));
                }
                if let Some(old) = old { for k in old.props.keys() { ensure!(got.iter().any(|x| x.0 == *k), "{what}: property {k:?} of {p} is gone"); } }
            }
        }
        if !o.is_channel() { continue; }
        let cp = channel_path(o)?;
        let lo = old.map_or(0, Obj::len);
        let len = f.channel_length(&cp);
        match len {
            None => ensure!(old.is_none(), "{what}: channel {p} of the complete segments is gone"),
            Some(n) => ensure!(n >= lo && n <= o.len(), "{what}: channel {p} has length {n}, expected between {lo} and {}", o.len()),
        }
        let Some(n) = len else { continue };
        // the complete segments' samples
        if let Some(old) = old {
            let mut start = 0u64;
            for b in &old.blocks {
                let k = b.vals.len() as u64;
                if b.ty != Ty::Str && k > 0 { check_window(f, &cp, o, b.ty.reader(), start, k as usize).map_err(|e| format!("{what}: {e}"))?; }
                start += k;
            }
        }
        // windows that reach the cut segment: an error, or true samples up to the reported length
        let tail: Vec<&Block> = o.blocks.iter().skip(old.map_or(0, |x| x.blocks.len())).collect();
        for b in tail {
            if b.ty == Ty::Str || b.vals.is_empty() { continue; }
            let ty = b.ty.reader();
            for _ in 0..3 {
                let start = match s.below(3) { 0 => lo, 1 => lo + s.draw(o.len() - lo), _ => s.draw(o.len()) };
                let want = match s.below(3) { 0 => 1, 1 => s.draw(o.len() - start.min(o.len()) + 2) as usize, _ => (o.len() - start.min(o.len())) as usize };
                let exp = expect_window(o, ty, start, (want as u64).min(n.saturating_sub(start)));
                with_ty!(ty, T => {
                    let mut buf = filled::<T>(want);
                    match (f.read_channel_from(&cp, start, &mut buf), exp) {
                        (Ok(()), Ok(exp)) => check_buffer(&format!("{what}: read of {cp} from {start} length {want} (reported length {n})"), &buf, &exp)?,
                        (Ok(()), Err(())) => fail!("{what}: read of {cp} from {start} length {want} as {ty:?} reaches incompatible samples but succeeded"),
                        (Err(_), _) => check_partial_cut(what, &buf, o, ty, start)?,
                    }
                    Ok::<(), String>(())
                })?;
            }
        }
    }
    for (p, o) in before.channels() {
        let cp = channel_path(o)?;
        let listed = f.list_channels_in_group(&object_path(&Obj { group: o.group.clone(), ..Obj::default() })?).any(|c| c.path() == p);
        ensure!(listed, "{what}: channel {cp} of the complete segments is not listed");
    }
    Ok(())
}

/// After a failed read, what was delivered before the failure must still be true samples.
fn check_partial_cut<T: Smp>(what: &str, buf: &[T], o: &Obj, ty: Ty, start: u64) -> Res {
    super::reading::check_partial(what, buf, o, ty, start)
}

fn c11(s: &mut Source, cx: &mut Cx) -> Res {
    let own = s.chance(35);
    let (bytes, segs, models, uni): (Vec<u8>, Vec<SegB>, Vec<Model>, Universe) = if own {
        let hist = gen_hist(s, &HCfg { reads: false, avg_ops: 3, max_ops: 6, big: false, ..HCfg::default() });
        cx.note(|| format!("written by the library: {hist:?}"));
        cx.label("written by the library");
        // segment by segment: the stream's length after every operation is a segment boundary
        let (mut f, h) = new_file()?;
        let mut segs = Vec::new();
        let mut models = Vec::new();
        let mut m = Model::default();
        let mut end = 0usize;
        run_on_disk(&mut f, &h, &hist, &mut m, |ev, m| {
            if let Event::Wrote(_) = ev {
                // buffered: the boundaries are recovered below
                models.push(m.clone());
            }
            Ok(())
        })?;
        drop(f);
        let b = h.snapshot();
        let p = crate::parser::parse(&b)?;
        let mut mi = 0;
        let mut out_models = Vec::new();
        for (a, r, e) in &p.bounds {
            segs.push(SegB { start: *a, raw_start: *r, end: *e });
            end = *e;
        }
        // models of prefixes, from an independent parse of the prefix (samples and properties)
        for sg in &segs { out_models.push(crate::parser::parse(&b[..sg.end])?.model); mi += 1; }
        let _ = (mi, end);
        // the last prefix is the file: compare with the history's own model
        if let Some(last) = out_models.last() { super::writing::same_model(last, &m)?; }
        (b, segs, out_models, hist.uni)
    } else {
        let strings = s.chance(30);
        let (u, f) = gen_file(s, &FCfg { big: false, avg_segs: 2, max_segs: 5, strings, ..FCfg::default() });
        cx.note(|| describe(&f));
        label_foreign(cx, &f);
        let e = encode(&f, true);
        (e.bytes, e.segs.iter().map(|g| SegB { start: g.start, raw_start: g.raw_start, end: g.end }).collect(), e.models, u.universe())
    };
    if segs.is_empty() { return Ok(()); }
    cx.nontrivial = true;
    let empty = Model::default();
    let all = bytes.len() <= if cx.thorough { 1200 } else { 500 } && s.chance(30);
    let mut cuts: Vec<usize> = Vec::new();
    if all {
        cx.label("every cut position");
        cuts = (0..=bytes.len()).collect();
    } else {
        for _ in 0..10 {
            let g = &segs[s.below(segs.len())];
            let c = match s.below(8) {
                0 => g.start,
                1 => g.raw_start,
                2 => g.raw_start + s.below(g.end - g.raw_start + 1),
                3 => g.end.saturating_sub(1 + s.below(4)).max(g.start),
                4 => g.start + s.below(28),
                5 => g.start + s.below(g.raw_start - g.start + 1),
                6 => (g.raw_start + 1).min(g.end),
                _ => s.below(bytes.len() + 1),
            };
            cuts.push(c.min(bytes.len()));
        }
    }
    for c in cuts {
        let k = segs.iter().position(|g| c < g.end).unwrap_or(segs.len());
        let before = if k == 0 { &empty } else { &models[k - 1] };
        let after = if k < segs.len() { &models[k] } else { before };
        let kind = if k == segs.len() || c == segs[k].start { Cut::Boundary } else if c >= segs[k].raw_start { Cut::Data } else { Cut::Meta };
        cx.label(match kind { Cut::Boundary => "cut at a boundary", Cut::Data => "cut in sample data", Cut::Meta => "cut in a header or metadata" });
        let append = if all { s.chance(25) } else { s.chance(60) };
        check_cut(s, &bytes, c, kind, before, after, &uni, append, cx)?;
        cx.evals += 1;
    }
    Ok(())
}

fn r11() -> Regress {
    fn uni() -> Universe { Universe { groups: vec!["g".into()], chans: vec![("g".into(), "a".into()), ("g".into(), "b".into())], props: vec!["p".into()] } }
    fn every_cut(cx: &mut Cx) -> Res {
        for inter in [false, true] {
            for be in [false, true] {
                let mk = |c: &str, ty: Ty, n: u64| FObj { group: Some("g".into()), chan: Some(c.into()), idx: FIdx::Raw { ty, n, total: None }, props: vec![("p".into(), Pv::Fix(Ty::I32, n as u128))] };
                let f = FFile { segs: (1..4).map(|n| FSeg { be, inter, new_list: true, meta: Some(vec![mk("a", Ty::F64, n), mk("b", Ty::F64, n)]), raw: Some((2, n)), version: 4713, pad: 0 }).collect() };
                let e = encode(&f, true);
                let empty = Model::default();
                for c in 0..=e.bytes.len() {
                    let k = e.segs.iter().position(|g| c < g.end).unwrap_or(e.segs.len());
                    let before = if k == 0 { &empty } else { &e.models[k - 1] };
                    let after = if k < e.segs.len() { &e.models[k] } else { before };
                    let kind = if k == e.segs.len() || c == e.segs[k].start { Cut::Boundary } else if c >= e.segs[k].raw_start { Cut::Data } else { Cut::Meta };
                    let mut s = Source::rng(c as u64);
                    check_cut(&mut s, &e.bytes, c, kind, before, after, &uni(), true, cx)?;
                    cx.evals += 1;
                }
            }
        }
        Ok(())
    }
    vec![("every_cut", every_cut)]
}

// ---------------------------------------------------------------- C21

/// Inserts bytes at the end of a segment's raw data and adjusts its header.
fn patch_header(bytes: &mut [u8], e: &Encoded, seg: usize, toc: impl Fn(u32) -> u32, next: impl Fn(u64) -> u64) {
    for f in &e.fields {
        if f.seg != seg { continue; }
        match f.kind {
            FieldKind::Toc => {
                let t = u32::from_le_bytes(bytes[f.off..f.off + 4].try_into().unwrap());
                bytes[f.off..f.off + 4].copy_from_slice(&toc(t).to_le_bytes());
            }
            FieldKind::NextOff => { let v = get(bytes, f); put(bytes, f, next(v)); }
            _ => {}
        }
    }
}

fn fields(e: &Encoded, kind: FieldKind) -> Vec<Field> { e.fields.iter().copied().filter(|f| f.kind == kind).collect() }

const BAD_TYPES: &[u32] = &[12, 13, 14, 15, 16, 0x10, 0x18, 0x1C, 0x1F, 0x22, 0x43, 0x45, 0x50, 0x100, 0x8000C - 1, 0x8000D, 0x10000C, 0x10000E, 0x7FFF_FFFF, 0xFFFF_FFFE, 0x0A00_0000, 0x0300_0000];
const DAQMX: &[u32] = &[0x6912_0000, 0x6913_0000, 0x0000_1269, 0x0000_1369, 0x0000_126A];

/// Builds a contradiction; `None` when the file has no place for it.
fn contradiction(s: &mut Source, f: &FFile, kind: usize) -> Option<(Vec<u8>, String)> {
    let e = encode(f, true);
    let mut b = e.bytes.clone();
    let seg = s.below(e.segs.len());
    let pick = |s: &mut Source, v: &[Field]| -> Option<Field> { if v.is_empty() { None } else { Some(v[s.below(v.len())]) } };
    match kind {
        0 => {
            let at = e.segs[seg].start + s.below(4);
            let old = b[at];
            b[at] = match s.below(3) { 0 => old ^ 0x20, 1 => old ^ (1 << s.below(8)), _ => { let v = s.draw(255) as u8; if v == old { v ^ 1 } else { v } } };
            Some((b, format!("tag of segment {seg} changed at byte {at}")))
        }
        1 => {
            // raw data without any data channel, with or without metadata
            let be = s.chance(50);
            let raw = 1 + s.below(40);
            let mut x = b"TDSm".to_vec();
            let with_meta = s.chance(70);
            let mut meta = Vec::new();
            if with_meta {
                foreign::put_u32(&mut meta, 1, be);
                foreign::put_str(&mut meta, match s.below(3) { 0 => "/", 1 => "/'g'", _ => "/'g'/'nodata'" }, be);
                foreign::put_u32(&mut meta, u32::MAX, be);
                foreign::put_u32(&mut meta, 0, be);
            }
            let inter = s.chance(50);
            // a new list is needed to have no data channels, except as the first segment
            let first = !with_meta || s.chance(50);
            x.extend(((with_meta as u32) << 1 | (with_meta as u32) << 2 | 8 | (inter as u32) << 5 | (be as u32) << 6).to_le_bytes());
            foreign::put_u32(&mut x, 4713, be);
            foreign::put_u64(&mut x, (meta.len() + raw) as u64, be);
            foreign::put_u64(&mut x, meta.len() as u64, be);
            x.extend_from_slice(&meta);
            x.extend((0..raw).map(|i| i as u8));
            let at = if first { 0 } else { e.segs[seg].end };
            let mut out = b[..at].to_vec();
            out.extend(x);
            out.extend_from_slice(&b[at..]);
            Some((out, format!("a segment with raw data but no data channels at {at}, metadata {with_meta}")))
        }
        2 => {
            // raw data flag with zero length
            let with: Vec<usize> = (0..e.segs.len()).filter(|i| f.segs[*i].raw.is_some() && e.segs[*i].end > e.segs[*i].raw_start).collect();
            if with.is_empty() { return None; }
            let k = with[s.below(with.len())];
            let n = (e.segs[k].end - e.segs[k].raw_start) as u64;
            patch_header(&mut b, &e, k, |t| t, |v| v - n);
            b.drain(e.segs[k].raw_start..e.segs[k].end);
            Some((b, format!("segment {k} has the raw data flag but no raw data")))
        }
        3 => {
            // a match to a previous description that does not exist
            let mut g = f.clone();
            let k = s.below(g.segs.len());
            g.segs[k].meta.as_ref()?;
            let props = |s: &mut Source| -> Vec<(String, Pv)> { (0..s.below(3)).map(|i| (format!("p{i}"), gen_pv(s, true))).collect() };
            // objects of the file that are known before segment k, but have never had data
            let mut bare: Vec<FObj> = Vec::new();
            for o in g.segs[..k].iter().flat_map(|x| x.meta.iter().flatten()) {
                if o.idx == FIdx::None && !bare.iter().any(|x| x.path() == o.path()) { bare.push(o.clone()); }
            }
            bare.retain(|o| !f.segs.iter().flat_map(|x| x.meta.iter().flatten()).any(|x| x.path() == o.path() && x.idx != FIdx::None));
            let mut o2 = FObj { group: Some("g".into()), chan: Some("never described".into()), idx: FIdx::Match, props: props(s) };
            match s.below(4) {
                0 | 1 => {}
                2 => {
                    // listed in one or several earlier segments
                    if k == 0 { return None; }
                    o2.chan = Some("known without data".into());
                    let earlier: Vec<usize> = (0..k).filter(|i| g.segs[*i].meta.is_some()).collect();
                    if earlier.is_empty() { return None; }
                    for _ in 0..1 + s.below(2) {
                        let at = earlier[s.below(earlier.len())];
                        let o = FObj { idx: FIdx::None, props: props(s), ..o2.clone() };
                        let list = g.segs[at].meta.as_mut().unwrap();
                        if list.iter().any(|x| x.path() == o.path()) { continue; }
                        let i = s.below(list.len() + 1);
                        list.insert(i, o);
                    }
                }
                _ => {
                    if bare.is_empty() { return None; }
                    let o = bare[s.below(bare.len())].clone();
                    o2.group = o.group;
                    o2.chan = o.chan;
                }
            }
            let list = g.segs[k].meta.as_mut().unwrap();
            let path = o2.path();
            list.retain(|x| x.path() != path);
            let at = s.below(list.len() + 1);
            list.insert(at, FObj { idx: FIdx::None, ..o2 });
            // encoded as an object without data, then patched: the encoder would not make a match to nothing
            let e = encode(&g, false);
            let mut b = e.bytes.clone();
            let fl = e.fields.iter().filter(|x| x.seg == k && x.kind == FieldKind::IdxHeader).nth(at)?;
            put(&mut b, fl, 0);
            Some((b, format!("segment {k} matches a previous description of {path:?}")))
        }
        4 => {
            // raw data offset beyond the segment
            let v = fields(&e, FieldKind::RawOff);
            let fl = v[seg];
            let next = get(&b, &fields(&e, FieldKind::NextOff)[seg]);
            let x = match s.below(4) { 0 => next + 1, 1 => next + 1 + s.draw(1000), 2 => u64::MAX, _ => next.saturating_add(1 << s.draw(62)) };
            if x <= next { return None; }
            put(&mut b, &fl, x);
            Some((b, format!("segment {seg}: raw data offset {x} beyond {next}")))
        }
        5 => {
            let fl = pick(s, &fields(&e, FieldKind::TypeCode))?;
            let x = *s.pick(BAD_TYPES);
            put(&mut b, &fl, x as u64);
            Some((b, format!("segment {}: data type code {x:#x}", fl.seg)))
        }
        6 => {
            let fl = pick(s, &fields(&e, FieldKind::PropType))?;
            let mut codes = BAD_TYPES.to_vec();
            codes.extend([0x4F, 0xFFFF_FFFF]);
            let x = *s.pick(&codes);
            put(&mut b, &fl, x as u64);
            Some((b, format!("segment {}: property type code {x:#x}", fl.seg)))
        }
        7 => {
            // invalid text in a path, a property name or a string value
            let mut v: Vec<Field> = e.fields.iter().copied().filter(|f| matches!(f.kind, FieldKind::Path | FieldKind::Name) && f.len > 0).collect();
            for fl in fields(&e, FieldKind::PropVal) {
                let code = get(&b, &Field { off: fl.off - 4, len: 4, ..fl });
                if code == 0x20 && fl.len > 4 { v.push(Field { off: fl.off + 4, len: fl.len - 4, ..fl }); }
            }
            let fl = pick(s, &v)?;
            let at = if s.chance(50) {
                let at = fl.off + s.below(fl.len);
                b[at] = *s.pick(&[0xff, 0xfe, 0xc0, 0xf8]);
                at
            } else {
                let piece = *s.pick(BAD_TEXT);
                if piece.len() > fl.len { return None; }
                let at = fl.off + if s.chance(50) { fl.len - piece.len() } else { s.below(fl.len - piece.len() + 1) };
                b[at..at + piece.len()].copy_from_slice(piece);
                at
            };
            if std::str::from_utf8(&b[fl.off..fl.off + fl.len]).is_ok() { return None; }
            Some((b, format!("segment {}: invalid text in {:?} at byte {at}", fl.seg, fl.kind)))
        }
        8 => {
            let fl = fields(&e, FieldKind::NextOff)[seg];
            let start = e.segs[seg].start as u64;
            // start + 28 + next must exceed the range
            let lo = u64::MAX - 28 - start + 1;
            let x = match s.below(3) { 0 => lo, 1 => u64::MAX - 1, _ => lo + s.draw(u64::MAX - 1 - lo) };
            put(&mut b, &fl, x);
            Some((b, format!("segment {seg} at {start}: next segment offset {x:#x} overflows")))
        }
        9 => {
            let fl = pick(s, &fields(&e, FieldKind::IdxHeader))?;
            let x = *s.pick(DAQMX);
            put(&mut b, &fl, x as u64);
            Some((b, format!("segment {}: DAQmx raw data index {x:#x}", fl.seg)))
        }
        10 => {
            // DAQmx raw data type behind an ordinary index length
            let fl = pick(s, &fields(&e, FieldKind::TypeCode))?;
            put(&mut b, &fl, 0xFFFF_FFFF);
            Some((b, format!("segment {}: DAQmx data type code", fl.seg)))
        }
        _ => None,
    }
}

const KINDS: [&str; 11] = ["wrong tag", "raw data without data channels", "raw data of zero length", "match to a missing description", "data offset beyond the segment", "unknown data type code", "unknown property type code", "invalid text", "address overflow", "DAQmx index", "DAQmx data type"];

fn c21(s: &mut Source, cx: &mut Cx) -> Res {
    let (_, f) = gen_file(s, &FCfg { big: false, avg_segs: 3, quotes: true, ..FCfg::default() });
    let kind = s.below(KINDS.len());
    cx.note(|| describe(&f));
    let Some((bytes, what)) = contradiction(s, &f, kind) else { return Ok(()) };
    cx.note(|| what.clone());
    cx.label(KINDS[kind]);
    label_foreign(cx, &f);
    cx.nontrivial = true;
    match open(bytes) {
        Err(TdmsError::IoError(e)) => Err(format!("{}: {what}: reported as a stream error: {e:?}", KINDS[kind])).or_else(|e| if kind == 3 || kind == 9 || kind == 10 || kind == 5 || kind == 6 || kind == 4 || kind == 7 { Ok(()) } else { Err(e) }),
        Err(_) => Ok(()),
        Ok(f) => {
            let g: Vec<String> = f.list_groups().map(str::to_string).collect();
            Err(format!("{}: {what}: the file opened, with groups {g:?}", KINDS[kind]))
        }
    }
}

fn r21() -> Regress {
    fn each_kind(cx: &mut Cx) -> Res {
        let mk = |c: &str, ty: Ty, n: u64| FObj { group: Some("g".into()), chan: Some(c.into()), idx: FIdx::Raw { ty, n, total: None }, props: vec![("p".into(), Pv::Fix(Ty::I32, 5)), ("s".into(), Pv::Str("text".into()))] };
        for be in [false, true] {
            for inter in [false, true] {
                let segs: Vec<FSeg> = (1..4).map(|n| FSeg { be: be ^ (n == 2), inter, new_list: true, meta: Some(if n == 3 { vec![FObj { idx: FIdx::None, ..mk("m", Ty::F64, 1) }] } else { vec![mk("a", Ty::F64, n), mk("b", Ty::F64, n)] }), raw: if n == 3 { None } else { Some((2, n)) }, version: 4713, pad: 0 }).collect();
                let f = FFile { segs };
                ensure!(open(encode(&f, false).bytes).is_ok(), "the unchanged file does not open");
                for kind in 0..KINDS.len() {
                    for seed in 0..200 {
                        let mut s = Source::rng(mix(seed * 31 + kind as u64));
                        if let Some((b, what)) = contradiction(&mut s, &f, kind) {
                            ensure!(open(b).is_err(), "{}: {what}: the file opened", KINDS[kind]);
                            cx.evals += 1;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    vec![("each_kind", each_kind)]
}

pub fn all() -> Vec<Property> {
    let level = "exploration";
    vec![
        Property { id: "C10", level, rule: "well-formed encoded files with one to six header fields set to boundary, off-by-one, huge or random values or bytes changed, optionally truncated, repeated or with bytes inserted; files whose counts and offsets claim huge extents; crafted segments; garbage. Each input is opened twice on a stream with an operation budget linear in the file's size (open) or in the file's size and the request (reads), then listed, measured and read with various types, starts and lengths, singly and jointly; the two runs' answers are compared. A small file is additionally tried with every value of every metadata byte. Non-trivial: the file opened and lists a channel.", run: c10, quick: 450000, thorough: 11250000, regress: r10, assumptions: &["overflow checks and debug assertions are on, so wrapped arithmetic is a panic", "runaway means more than 200+10*size stream operations for an open, or 1000+20*size+4*samples*(channels+2) for a read, or 60 s of processor time in one case"] },
        Property { id: "C11", level, rule: "encoded foreign files (65%) and files written by the library (35%), cut at every byte (small files) or at chosen bytes of headers, metadata, data and boundaries; views compared with the models before and after the cut segment; appends to the cut file must be refused without changing bytes or reopen to the complete segments' content plus the new data. Every case is non-trivial (it has at least one segment).", run: c11, quick: 180000, thorough: 4500000, regress: r11, assumptions: &[] },
        Property { id: "C21", level, rule: "well-formed encoded files into which one of eleven kinds of contradiction is introduced at a random segment and in its byte order; opening must report an error. Non-trivial: the file had a place for the contradiction.", run: c21, quick: 1800000, thorough: 45000000, regress: r21, assumptions: &["an all-ones next-segment offset (the format's mark of an unfinished segment) is outside this property"] },
    ]
}
