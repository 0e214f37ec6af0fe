//! C23, C24, C25, C26: memory, economy, determinism and size.
use super::common::*;
use super::none;
use super::Regress;
use crate::alloc::limited;
use crate::disk::Disk;
use crate::engine::{mix, Cx, Property, Res, Source};
use crate::foreign::{self, describe, encode, gen_file, FCfg, Field, FieldKind};
use crate::hist::*;
use crate::model::*;
use crate::ty::{Smp, Ty, NATIVE};
use crate::{apply_op, ensure, fail, with_ty};
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsFile};

// ---------------------------------------------------------------- C23

/// What the library may ask for in total for an input of `len` bytes.
fn allowance(len: usize) -> usize { 8 * 1024 * 1024 + 256 * len }

fn c23(s: &mut Source, cx: &mut Cx) -> Res {
    let (u, f) = gen_file(s, &FCfg { avg_segs: 2, big: false, ..FCfg::default() });
    cx.note(|| describe(&f));
    let mut e = encode(&f, false);
    let honest = s.chance(15);
    if honest {
        cx.label("honest file");
        let m = e.model();
        let limit = allowance(e.bytes.len());
        let d = Disk::new(e.bytes);
        let (r, usage) = limited(limit, || TdmsFile::new(d));
        let mut file = r.map_err(|x| format!("opening a well-formed file with {limit} bytes of memory failed: {x:?}"))?;
        ensure!(usage.denied == 0, "opening a well-formed file asked for more than {limit} bytes");
        check_view(&mut file, &m, &u.universe())?;
        cx.nontrivial = m.objects.len() > 1;
        return Ok(());
    }
    // lengths and counts, and the length of string property values
    let mut claims: Vec<Field> = Vec::new();
    let mut extents: Vec<Field> = Vec::new();
    for (i, x) in e.fields.iter().enumerate() {
        use FieldKind::*;
        match x.kind {
            ObjCount | PathLen | PropCount | NameLen => claims.push(*x),
            PropVal if x.len >= 4 && e.fields[i - 1].kind == PropType && e.bytes[e.fields[i - 1].off..][..4].iter().any(|b| *b == 0x20) => {
                let code = &e.bytes[e.fields[i - 1].off..][..4];
                if code.iter().map(|b| *b as u32).sum::<u32>() == 0x20 { claims.push(Field { len: 4, ..*x }); }
            }
            NVals | TotalSize | NextOff | RawOff | Dims => extents.push(*x),
            _ => {}
        }
    }
    let mut edits = 0;
    for _ in 0..1 + s.weighted(&[8, 2, 1]) {
        let from = if s.chance(80) || extents.is_empty() { &claims } else { &extents };
        if from.is_empty() { continue; }
        let x = from[s.below(from.len())];
        let max = if x.len == 8 { u64::MAX } else { u32::MAX as u64 };
        let v = match s.below(5) {
            0 => max - s.draw(8),
            1 => max / 2 + s.draw(2),
            2 => 1 << s.range(20, 8 * x.len as u64 - 1),
            3 => s.range(1 << 20, max),
            _ => max / (1 + s.draw(200)),
        };
        for i in 0..x.len { e.bytes[x.off + i] = (v >> if x.be { 8 * (x.len - 1 - i) } else { 8 * i }) as u8; }
        cx.note(|| format!("{:?} of segment {} at {} = {v:#x}", x.kind, x.seg, x.off));
        cx.label(match x.kind { FieldKind::ObjCount => "claimed object count", FieldKind::PathLen => "claimed path length", FieldKind::PropCount => "claimed property count", FieldKind::NameLen => "claimed name length", FieldKind::PropVal => "claimed value length", _ => "claimed extent" });
        edits += 1;
    }
    let limit = allowance(e.bytes.len());
    let d = Disk::new(e.bytes);
    let (r, usage) = limited(limit, || TdmsFile::new(d));
    cx.label_if(usage.denied > 0, "memory refused");
    let mut file = match r {
        Err(_) => { cx.nontrivial = edits > 0; return Ok(()); }
        Ok(f) => f,
    };
    ensure!(usage.denied == 0, "opening succeeded although memory it asked for was refused");
    cx.label("opened with false claims");
    let universe = u.universe();
    let paths: Vec<ChannelPath> = universe.chans.iter().map(|(g, c)| channel_path(&Obj { group: Some(canon(g)), chan: Some(canon(c)), ..Obj::default() })).collect::<Result<_, _>>()?;
    for p in &paths {
        let total = file.channel_length(p).unwrap_or(0);
        cx.nontrivial |= total > 0;
        for _ in 0..2 {
            let ty = *s.pick(&NATIVE);
            let n = s.draw(40) as usize;
            let start = match s.below(4) { 0 => 0, 1 => total / 2, 2 => total.saturating_sub(20), _ => s.draw(total) };
            with_ty!(ty, T => {
                let mut buf = filled::<T>(n);
                let (r, usage) = limited(limit, || file.read_channel_from(p, start, &mut buf));
                ensure!(usage.denied == 0, "reading {n} samples of {p} from {start} asked for more than {limit} bytes ({r:?})");
                Ok::<(), String>(())
            })?;
        }
    }
    if paths.len() > 1 {
        let mut b1 = filled::<f64>(9);
        let mut b2 = filled::<f64>(20);
        let pair = [paths[0].clone(), paths[1].clone()];
        let start = s.draw(file.channel_length(&paths[0]).unwrap_or(0));
        let (r, usage) = limited(limit, || file.read_channels_from(&pair, start, &mut [&mut b1, &mut b2]));
        ensure!(usage.denied == 0, "reading two channels from {start} asked for more than {limit} bytes ({r:?})");
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn path_of(u: &Universe, c: usize) -> String { path_text(Some(&canon(&u.chans[c].0)), Some(&canon(&u.chans[c].1))) }

fn c24(s: &mut Source, cx: &mut Cx) -> Res {
    let (start, uni) = if s.chance(25) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }, 0)?;
        (st.bytes, st.uni)
    } else {
        (Vec::new(), gen_universe(s))
    };
    let ops = gen_ops(s, &uni, &HCfg { avg_ops: if cx.thorough { 14 } else { 9 }, props: 4, writes: 10, reopen: true, reads: true, ..HCfg::default() });
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    let u = &h.uni;
    let (mut f, d) = open_shared(start, "start")?;
    // the live list: path, type, count
    let mut live: Option<Vec<(String, Ty, usize)>> = None;
    let mut k = 0;
    while k < h.ops.len() {
        // one writer for a run of write operations
        if !is_write_side(&h.ops[k]) {
            match &h.ops[k] {
                Op::Reopen => f = TdmsFile::new(d.handle()).map_err(|e| format!("reopen: {e:?}"))?,
                Op::Read { ch, start, len } => { let mut b = filled::<f64>(*len); let _ = f.read_channel_from(&chan_path(u, *ch), *start, &mut b); }
                _ => {}
            }
            k += 1;
            continue;
        }
        let mut w = f.writer().map_err(|e| format!("writer: {e:?}"))?;
        while k < h.ops.len() && is_write_side(&h.ops[k]) {
            let op = &h.ops[k];
            let before = d.len();
            apply_op!(w, u, op).and_then(|()| w.sync()).map_err(|e| format!("{op:?} failed: {e:?}"))?;
            let grown = d.len() - before;
            match op {
                Op::Write(wr) => {
                    let data = wr.chs.len() * wr.n * wr.ty.size();
                    let description: usize = 4 + wr.chs.iter().map(|c| 4 + path_of(u, *c).len() + 20 + 4).sum::<usize>();
                    let now: Vec<(String, Ty, usize)> = wr.chs.iter().map(|c| (path_of(u, *c), wr.ty, wr.n)).collect();
                    if live.as_ref() == Some(&now) {
                        ensure!(grown == 28 + data, "repeating the previous write of {} samples to {} channels added {grown} bytes instead of {}", wr.n, wr.chs.len(), 28 + data);
                        cx.label("repeated write");
                        cx.nontrivial = true;
                    }
                    ensure!(grown <= 28 + description + data, "writing {} samples to {} channels added {grown} bytes, more than lead-in, description and data ({})", wr.n, wr.chs.len(), 28 + description + data);
                    live = Some(now);
                }
                Op::Props(t, list) => {
                    let path = target_path(u, *t).path().len();
                    let size: usize = list.iter().map(|(k, v)| { let mut b = Vec::new(); v.encode(false, &mut b); 4 + k.len() + b.len() }).sum();
                    let most = 28 + 4 + 4 + path + 4 + 4 + size;
                    ensure!(grown <= most, "writing {} properties added {grown} bytes, more than lead-in and description ({most})", list.len());
                }
                _ => ensure!(grown == 0, "a sync with nothing to write added {grown} bytes"),
            }
            k += 1;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

fn c25(s: &mut Source, cx: &mut Cx) -> Res {
    let (start, model, uni) = if s.chance(30) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }, 0)?;
        (st.bytes, st.model, st.uni)
    } else {
        (Vec::new(), Model::default(), gen_universe(s))
    };
    let mut ops = gen_ops(s, &uni, &HCfg { avg_ops: if cx.thorough { 12 } else { 8 }, reopen: true, reads: true, props: 4, ..HCfg::default() });
    // more interruptions
    if s.chance(60) {
        let mut o = Vec::new();
        for x in ops {
            let w = is_data(&x);
            o.push(x);
            if w && s.chance(45) {
                o.push(match s.below(4) { 0 => Op::Sync, 1 => Op::NewWriter, 2 => Op::Reopen, _ => Op::Read { ch: s.below(uni.chans.len()), start: s.draw(30), len: s.draw(60) as usize } });
            }
        }
        ops = o;
    }
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    let bare = Hist { uni: h.uni.clone(), ops: h.ops.iter().filter(|o| is_data(o)).cloned().collect() };
    cx.nontrivial = bare.ops.len() >= 2 && bare.ops.len() < h.ops.len();
    let run = |h: &Hist, chop: Option<u64>, pos: u64| -> Result<Vec<u8>, String> {
        let mut d = Disk::new(start.clone());
        let hd = d.handle();
        d.set_pos(pos);
        { let mut i = hd.inner.borrow_mut(); i.chop = chop; i.interrupts = chop.is_some_and(|c| c % 2 == 0); }
        let mut f = TdmsFile::new(d).map_err(|e| format!("open: {e:?}"))?;
        let mut m = model.clone();
        run_on_disk(&mut f, &hd, h, &mut m, |_, _| Ok(()))?;
        drop(f);
        Ok(hd.snapshot())
    };
    let plain = run(&bare, None, 0)?;
    let diff = |what: &str, b: Vec<u8>| -> Res {
        ensure!(plain == b, "{what} changed the bytes of the file: {} bytes instead of {}, first difference at {:?}", b.len(), plain.len(), b.iter().zip(&plain).position(|(x, y)| x != y));
        Ok(())
    };
    diff("syncing, reading, new writers or reopening between writes", run(&h, None, 0)?)?;
    diff("running the same writes again", run(&bare, None, 0)?)?;
    let p = s.draw(start.len() as u64 + 20);
    diff("a stream that was not at its start", run(&bare, None, p)?)?;
    let c = s.u64();
    diff("a stream that takes writes in pieces", run(&h, Some(c), 0)?)?;
    cx.evals += 3;
    Ok(())
}

fn is_data(op: &Op) -> bool { matches!(op, Op::Write(_) | Op::Props(..)) }

// ---------------------------------------------------------------- C26

/// A stream far larger than memory: explicit bytes where headers are, computed bytes everywhere else.
struct Vast {
    inner: std::rc::Rc<std::cell::RefCell<VastInner>>,
    pos: u64,
}

#[derive(Default)]
struct VastInner {
    explicit: BTreeMap<u64, Vec<u8>>,
    len: u64,
    ops: u64,
    /// Positions written that are not at the end.
    misplaced: Option<u64>,
}

fn filler(pos: u64) -> u8 { mix(pos / 8 ^ 0x5EED).to_le_bytes()[(pos % 8) as usize] }

impl VastInner {
    fn fill(&self, pos: u64, buf: &mut [u8]) {
        for (i, b) in buf.iter_mut().enumerate() { *b = filler(pos + i as u64); }
        let end = pos + buf.len() as u64;
        let from = self.explicit.range(..=pos).next_back().map_or(pos, |(k, _)| *k);
        for (k, v) in self.explicit.range(from..end) {
            let (lo, hi) = ((*k).max(pos), (k + v.len() as u64).min(end));
            if lo < hi { buf[(lo - pos) as usize..(hi - pos) as usize].copy_from_slice(&v[(lo - k) as usize..(hi - k) as usize]); }
        }
    }
    fn start(&mut self) {
        self.ops += 1;
        if self.ops > 3_000_000 { panic!("RUNAWAY: more than 3000000 operations on one stream"); }
    }
}

impl Read for Vast {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut i = self.inner.borrow_mut();
        i.start();
        let n = (buf.len() as u64).min(i.len.saturating_sub(self.pos)) as usize;
        i.fill(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Vast {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut i = self.inner.borrow_mut();
        i.start();
        let new = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(o) => i.len.checked_add_signed(o),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        match new {
            Some(p) if p <= i64::MAX as u64 => { self.pos = p; Ok(p) }
            _ => Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}

impl Write for Vast {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut i = self.inner.borrow_mut();
        i.start();
        if buf.is_empty() { return Ok(0); }
        if self.pos != i.len { i.misplaced = Some(self.pos); return Err(io::Error::other("write away from the end")); }
        i.explicit.insert(self.pos, buf.to_vec());
        i.len += buf.len() as u64;
        self.pos = i.len;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Where a channel's samples are: equally spaced within a chunk, in equally spaced chunks; or explicit values.
#[derive(Clone, Debug)]
enum Place {
    Far { seg: usize, ty: Ty, be: bool, base: u64, per_chunk: u64, chunks: u64, step: u64, chunk_step: u64 },
    Near { ty: Ty, vals: Vec<u128> },
}

impl Place {
    fn len(&self) -> u64 { match self { Place::Far { per_chunk, chunks, .. } => per_chunk * chunks, Place::Near { vals, .. } => vals.len() as u64 } }
    fn value(&self, v: &VastInner, i: u64) -> u128 {
        match self {
            Place::Near { vals, .. } => vals[i as usize],
            Place::Far { ty, be, base, per_chunk, step, chunk_step, .. } => {
                let at = base + i / per_chunk * chunk_step + i % per_chunk * step;
                let mut b = vec![0; ty.size()];
                v.fill(at, &mut b);
                ty.decode(&b, *be)
            }
        }
    }
    fn ty(&self) -> Ty { match self { Place::Far { ty, .. } | Place::Near { ty, .. } => *ty } }
}

fn expected(v: &VastInner, places: &[Place], start: u64, len: usize) -> Vec<u128> {
    let mut out = Vec::new();
    let mut base = 0u64;
    let end = start.saturating_add(len as u64);
    for p in places {
        let (lo, hi) = (start.max(base), end.min(base + p.len()));
        for i in lo..hi.max(lo) { out.push(p.value(v, i - base)); }
        base += p.len();
    }
    out
}

fn c26(s: &mut Source, cx: &mut Cx) -> Res {
    match s.weighted(&[30, 1]) { 0 => vast(s, cx, true), _ => wide(s, cx) }
}

/// A file far beyond memory; with `economy` the number of stream operations is part of the question.
pub fn vast(s: &mut Source, cx: &mut Cx, economy: bool) -> Res {
    let types: Vec<Ty> = NATIVE.iter().copied().filter(|t| *t != Ty::Bool).collect();
    let ty = *s.pick(&types);
    let nch = 1 + s.below(4);
    let paths: Vec<ChannelPath> = (0..nch).map(|i| ChannelPath::new("g", &format!("c{i}"))).collect();
    let mut v = VastInner::default();
    let mut places: Vec<Vec<Place>> = vec![Vec::new(); nch];
    let mut nseg = 0;
    while s.more(nseg, 1, 5, 2) {
        nseg += 1;
        let be = s.chance(50);
        let inter = s.chance(50);
        let mut chs: Vec<usize> = (0..nch).filter(|_| s.chance(70)).collect();
        if chs.is_empty() { chs.push(s.below(nch)); }
        // other channels of the segment may have other types
        let tys: Vec<Ty> = chs.iter().map(|_| if s.chance(70) { ty } else { *s.pick(&types) }).collect();
        let row: u64 = tys.iter().map(|t| t.size() as u64).sum();
        let (n, chunks) = match s.weighted(&[1, 4, 3, 2]) {
            0 => (s.range(1, 50), s.range(1, 4)),
            // one huge chunk
            1 => (size_near(s, 1 << 44, row), 1),
            // many small chunks
            2 => (s.range(1, 2000), s.range(1 << 20, 1 << 36)),
            // several huge ones
            _ => (size_near(s, 1 << 40, row), s.range(2, 5000)),
        };
        let mut meta = Vec::new();
        foreign::put_u32(&mut meta, chs.len() as u32, be);
        for (c, t) in chs.iter().zip(&tys) {
            foreign::put_str(&mut meta, paths[*c].path(), be);
            foreign::put_u32(&mut meta, 20, be);
            foreign::put_u32(&mut meta, t.code(), be);
            foreign::put_u32(&mut meta, 1, be);
            foreign::put_u64(&mut meta, n, be);
            foreign::put_u32(&mut meta, 0, be);
        }
        let raw = row * n * chunks;
        let mut b = b"TDSm".to_vec();
        b.extend((0x2u32 | 4 | 8 | (inter as u32) << 5 | (be as u32) << 6).to_le_bytes());
        foreign::put_u32(&mut b, 4713, be);
        foreign::put_u64(&mut b, meta.len() as u64 + raw, be);
        foreign::put_u64(&mut b, meta.len() as u64, be);
        b.extend(meta);
        let base = v.len + b.len() as u64;
        let mut before = 0u64;
        for (c, t) in chs.iter().zip(&tys) {
            let size = t.size() as u64;
            places[*c].push(Place::Far { seg: nseg, ty: *t, be, base: base + if inter { before } else { before * n }, per_chunk: n, chunks, step: if inter { row } else { size }, chunk_step: row * n });
            before += size;
        }
        v.explicit.insert(v.len, b);
        v.len = base + raw;
        cx.note(|| format!("segment: {chs:?} {tys:?} n={n} chunks={chunks} inter={inter} be={be} ends at {:#x}", v.len));
    }
    cx.label_if(v.len > 1 << 32, "file beyond 4 GiB");
    cx.label_if(v.len > 1 << 40, "file beyond 1 TiB");
    cx.label_if(places.iter().any(|p| p.iter().map(Place::len).sum::<u64>() > 1 << 32), "channel beyond 2^32 samples");
    cx.nontrivial = v.len > 1 << 32;
    let inner = std::rc::Rc::new(std::cell::RefCell::new(v));
    let open = || TdmsFile::new(Vast { inner: inner.clone(), pos: 0 }).map_err(|e| format!("open failed: {e:?}"));
    let mut file = open()?;
    vast_reads(s, cx, economy, &mut file, &inner, &paths, &places)?;
    if s.chance(60) {
        cx.label("appended at the far end");
        for _ in 0..1 + s.below(2) {
            let mut w = file.writer().map_err(|e| format!("writer: {e:?}"))?;
            let mut chs: Vec<usize> = (0..nch).filter(|_| s.chance(60)).collect();
            if chs.is_empty() { chs.push(s.below(nch)); }
            let n = s.range(1, 60) as usize;
            let inter = s.chance(50);
            let seed = s.u64();
            cx.note(|| format!("append {n} {ty:?} to {chs:?} inter={inter}"));
            let op = W { chs: chs.clone(), ty, n, inter, seed, by_ref: false };
            let p: Vec<ChannelPath> = chs.iter().map(|c| paths[*c].clone()).collect();
            with_ty!(ty, T => {
                let vals: Vec<T> = flat_bits(&op).iter().map(|b| <T as Smp>::of(*b)).collect();
                w.write_channels(&p, &vals, layout(inter))
            }).map_err(|e| format!("append failed: {e:?}"))?;
            w.write_properties(&PropertyPath::file(), &[("p", PropertyValue::U64(seed))]).map_err(|e| format!("append failed: {e:?}"))?;
            w.sync().map_err(|e| format!("sync failed: {e:?}"))?;
            drop(w);
            for (c, vals) in chs.iter().zip(channel_bits(&op)) { places[*c].push(Place::Near { ty, vals }); }
            if let Some(at) = inner.borrow().misplaced { fail!("appending wrote at {at:#x} instead of the end"); }
            vast_reads(s, cx, economy, &mut file, &inner, &paths, &places).map_err(|e| format!("after appending: {e}"))?;
            file = open().map_err(|e| format!("after appending: {e}"))?;
            let got = file.read_property(&PropertyPath::file(), "p").map_err(|e| format!("{e:?}"))?.cloned();
            ensure!(got == Some(PropertyValue::U64(seed)), "property appended behind the data reads as {got:?}");
            vast_reads(s, cx, economy, &mut file, &inner, &paths, &places).map_err(|e| format!("reopened after appending: {e}"))?;
        }
    }
    Ok(())
}

/// Around `limit` bytes in rows of `row` bytes, or close to a power of two.
fn size_near(s: &mut Source, limit: u64, row: u64) -> u64 {
    let max = (limit / row).max(2);
    match s.below(3) {
        0 => s.range(1, max),
        1 => { let k = s.range(10, 63 - max.leading_zeros() as u64); ((1u64 << k) + s.draw(2)).saturating_sub(1).clamp(1, max) }
        // the byte size close to a power of two
        _ => { let k = s.range(20, 63 - limit.leading_zeros() as u64); ((1u64 << k) / row + s.draw(2)).clamp(1, max) }
    }
}

fn vast_reads(s: &mut Source, cx: &mut Cx, economy: bool, file: &mut TdmsFile<Vast>, inner: &std::rc::Rc<std::cell::RefCell<VastInner>>, paths: &[ChannelPath], places: &[Vec<Place>]) -> Res {
    let mut totals = Vec::new();
    for (p, pl) in paths.iter().zip(places) {
        let want: u64 = pl.iter().map(Place::len).sum();
        let got = file.channel_length(p);
        ensure!(got == if pl.is_empty() { None } else { Some(want) }, "channel_length({p}) = {got:?}, expected {want}");
        totals.push(want);
    }
    for _ in 0..4 {
        let c = s.below(paths.len());
        let pl = &places[c];
        if pl.is_empty() { continue; }
        // positions worth a look
        let mut marks = vec![0, totals[c], 1 << 31, 1 << 32, 3 << 31];
        let mut base = 0;
        for p in pl {
            marks.push(base);
            if let Place::Far { per_chunk, chunks, ty, step, .. } = p {
                marks.push(base + per_chunk * s.draw(chunks - 1));
                for at in [1u64 << 31, 1 << 32] { marks.push(base + at / ty.size() as u64); marks.push(base + at / step); }
            }
            base += p.len();
        }
        let len = s.range(1, 120) as usize;
        let start = match s.below(6) {
            0..=2 => { let m = marks[s.below(marks.len())]; m.saturating_sub(s.draw(len as u64)) }
            3 => s.draw(totals[c]),
            4 => totals[c].saturating_sub(s.draw(2 * len as u64)),
            _ => { let m = marks[s.below(marks.len())]; m.saturating_add(s.draw(5)) }
        };
        let v = inner.borrow();
        // the whole window must have one type
        let same = |pl: &[Place]| {
            let mut base = 0u64;
            let mut t = None;
            let mut ok = true;
            for p in pl {
                if start < base + p.len() && start + len as u64 > base { ok &= t.is_none_or(|x: Ty| x == p.ty()); t = Some(p.ty()); }
                base += p.len();
            }
            (ok, t)
        };
        let (ok, t) = same(pl);
        if !ok { continue; }
        let ty = t.unwrap_or(pl[0].ty());
        // with a second channel of the same type there, when there is one
        // Reading channels together walks through the rows between their positions in a segment, so they must be close.
        let local = |pl: &[Place]| {
            let mut base = 0u64;
            let mut out = BTreeMap::new();
            for p in pl {
                if let Place::Far { seg, .. } = p {
                    if start < base + p.len() && start + len as u64 > base { out.insert(*seg, start.saturating_sub(base)); }
                }
                base += p.len();
            }
            out
        };
        let mine = local(pl);
        let close = |o: usize| local(&places[o]).iter().all(|(g, at)| mine.get(g).is_none_or(|m| m.abs_diff(*at) < 2000));
        let other = (0..paths.len()).find(|o| *o != c && !places[*o].is_empty() && close(*o) && { let (ok, t) = same(&places[*o]); ok && t.is_none_or(|t| t == ty) });
        let other = if s.chance(40) { other } else { None };
        let exp = expected(&v, pl, start, len);
        let exp2 = other.map(|o| expected(&v, &places[o], start, len));
        drop(v);
        cx.evals += 1;
        cx.label_if(start > 1 << 32, "window starting beyond 2^32");
        cx.label_if(other.is_some(), "two channels at once");
        with_ty!(ty, T => {
            let mut buf = filled::<T>(len);
            let what = format!("read of {} as {ty:?} from {start} length {len}", paths[c]);
            inner.borrow_mut().ops = 0;
            match (other, exp2) {
                (Some(o), Some(exp2)) => {
                    let mut b2 = filled::<T>(len);
                    file.read_channels_from(&[paths[c].clone(), paths[o].clone()], start, &mut [&mut buf, &mut b2]).map_err(|e| format!("{what} and {} failed: {e:?}", paths[o]))?;
                    check_buffer(&format!("{what}, other channel {}", paths[o]), &b2, &exp2)?;
                }
                _ => file.read_channel_from(&paths[c], start, &mut buf).map_err(|e| format!("{what} failed: {e:?}"))?,
            }
            check_buffer(&what, &buf, &exp)?;
            let ops = inner.borrow().ops;
            ensure!(!economy || ops <= 2000 + 20 * len as u64, "{what} took {ops} stream operations");
            Ok::<(), String>(())
        })?;
    }
    Ok(())
}

/// Many channels, properties or segments, and long names and values.
fn wide(s: &mut Source, cx: &mut Cx) -> Res {
    let mut u = Universe::default();
    let mut ops = Vec::new();
    u.groups.push("g".into());
    u.props.push("p".into());
    let kind = s.below(5);
    cx.nontrivial = true;
    match kind {
        0 => {
            cx.label("many channels");
            let k = s.range(100, 1000) as usize;
            u.chans = (0..k).map(|i| (if i % 3 == 0 { "g".to_string() } else { format!("g{}", i % 7) }, format!("c{i}"))).collect();
            let n = s.range(1, 3) as usize;
            for _ in 0..2 { ops.push(Op::Write(W { chs: (0..k).collect(), ty: *s.pick(&NATIVE), n, inter: s.chance(50), seed: s.u64(), by_ref: false })); }
            ops.push(Op::Write(W { chs: vec![k - 1, k / 2], ty: *s.pick(&NATIVE), n: 2, inter: s.chance(50), seed: s.u64(), by_ref: false }));
        }
        1 => {
            cx.label("many segments");
            let k = s.range(300, 5000);
            u.chans = (0..3).map(|i| ("g".to_string(), format!("c{i}"))).collect();
            let mut last = W { chs: vec![0], ty: Ty::I32, n: 1, inter: false, seed: 0, by_ref: false };
            for i in 0..k {
                if s.chance(10) { last.chs = gen_channels(s, &u, 3); }
                if s.chance(10) { last.n = s.range(1, 9) as usize; }
                if s.chance(5) { last.ty = *s.pick(&[Ty::I32, Ty::F64, Ty::U8]); }
                last.seed = i;
                ops.push(if s.chance(5) { Op::Props(Target::Chan(s.below(3)), vec![("p".into(), Pv::Fix(Ty::U64, i as u128))]) } else { Op::Write(last.clone()) });
            }
        }
        2 => {
            cx.label("many properties");
            u.chans.push(("g".into(), "c".into()));
            let k = s.range(300, 70_000);
            let list = (0..k).map(|i| (format!("p{i}"), Pv::Fix(Ty::I32, i as u128))).collect();
            ops.push(Op::Props(Target::Chan(0), list));
            ops.push(Op::Props(Target::Chan(0), vec![(format!("p{}", k / 2), Pv::Str("last".into()))]));
        }
        3 => {
            cx.label("long names and values");
            let n = 65_520 + s.draw(40) as usize;
            u.chans.push(("g".into(), "c".repeat(n)));
            u.chans.push(("g".repeat(2 * n), "c".into()));
            ops.push(Op::Write(W { chs: vec![0, 1], ty: Ty::I16, n: 3, inter: false, seed: 5, by_ref: false }));
            let big = match s.below(3) { 0 => n, 1 => 1 << 20, _ => (1 << 24) + 3 };
            ops.push(Op::Props(Target::Chan(s.below(2)), vec![("p".repeat(n), Pv::Str("v".repeat(big))), ("p".into(), Pv::Str("é".repeat(n)))]));
        }
        _ => {
            cx.label("many samples in one write");
            u.chans = (0..2).map(|i| ("g".to_string(), format!("c{i}"))).collect();
            let n = 65_530 + s.draw(12) as usize;
            ops.push(Op::Write(W { chs: vec![0], ty: *s.pick(&NATIVE), n, inter: s.chance(50), seed: s.u64(), by_ref: false }));
            ops.push(Op::Write(W { chs: vec![0, 1], ty: *s.pick(&NATIVE), n: n / 2 * 3, inter: s.chance(50), seed: s.u64(), by_ref: false }));
        }
    }
    let h = Hist { uni: u, ops };
    cx.note(|| format!("{} operations, {} channels", h.ops.len(), h.uni.chans.len()));
    let (mut f, d) = new_file()?;
    let mut m = Model::default();
    run_on_disk(&mut f, &d, &h, &mut m, |_, _| Ok(()))?;
    let probe = Universe { chans: Vec::new(), ..h.uni.clone() };
    check_view(&mut f, &m, &probe).map_err(|e| format!("in session: {}", cut(e)))?;
    let mut g = reopen_copy(&d, "fresh open")?;
    check_view(&mut g, &m, &probe).map_err(|e| format!("fresh open: {}", cut(e)))?;
    Ok(())
}

fn cut(e: String) -> String { e.chars().take(600).collect() }

/// Text longer than a length field can say must be refused, not stored with a wrong length: a property's value, its
/// name, the path of an object with properties and that of a channel.
fn too_long(_: &mut Cx) -> Res {
    let n = u32::MAX as usize + 6;
    // zeroed memory that is only mapped, never touched, unless the library copies it
    let text = || unsafe { String::from_utf8_unchecked(vec![0u8; n]) };
    let inner = std::rc::Rc::new(std::cell::RefCell::new(VastInner::default()));
    let mut f = TdmsFile::new(Vast { inner: inner.clone(), pos: 0 }).map_err(|e| format!("{e:?}"))?;
    let ch = ChannelPath::new("g", "c");
    let mut w = f.writer().map_err(|e| format!("{e:?}"))?;
    let mut total = 0;
    let mut data = |w: &mut dyn FnMut(&[i32]) -> Result<(), tedium::TdmsError>, after: &str| -> Res {
        total += 1;
        w(&[total]).map_err(|e| format!("a write after a refused {after} failed: {e:?}"))
    };
    data(&mut |v| w.write_channels(&[&ch], v, layout(false)), "nothing")?;
    let r = w.write_properties(&PropertyPath::file(), &[("p", PropertyValue::I32(1)), ("long", PropertyValue::String(text()))]);
    ensure!(r.is_err(), "a property value of {n} bytes, more than its length field can hold, was accepted");
    data(&mut |v| w.write_channels(&[&ch], v, layout(false)), "property value")?;
    let name = text();
    let r = w.write_properties(&PropertyPath::file(), &[("p", PropertyValue::I32(1)), (&name, PropertyValue::I32(2))]);
    ensure!(r.is_err(), "a property name of {n} bytes, more than its length field can hold, was accepted");
    data(&mut |v| w.write_channels(&[&ch], v, layout(false)), "property name")?;
    let path = ChannelPath::new(&name, "c");
    drop(name);
    let r = w.write_properties(path.as_ref(), &[("p", PropertyValue::I32(1))]);
    ensure!(r.is_err(), "properties of an object with a name of {n} bytes were accepted");
    data(&mut |v| w.write_channels(&[&ch], v, layout(false)), "object path")?;
    let r = w.write_channels(&[&ch, &path], &[7i32, 8], layout(false));
    ensure!(r.is_err(), "data of a channel with a name of {n} bytes was accepted");
    data(&mut |v| w.write_channels(&[&ch], v, layout(false)), "channel path")?;
    drop(w);
    let mut g = TdmsFile::new(Vast { inner: inner.clone(), pos: 0 }).map_err(|e| format!("reopen after refused text: {e:?}"))?;
    for f in [&mut f, &mut g] {
        let mut b = [0i32; 6];
        f.read_channel(&ch, &mut b).map_err(|e| format!("{e:?}"))?;
        ensure!(b == [1, 2, 3, 4, 5, 0] && f.channel_length(&ch) == Some(5), "samples around refused text read as {b:?}");
        let p = f.read_property(&PropertyPath::file(), "p");
        ensure!(!matches!(p, Ok(Some(_))), "part of a refused property write is there: {p:?}");
        ensure!(f.list_groups().eq(["g"]), "groups after refused text");
    }
    Ok(())
}

/// More channels than 16 bits can count, in one write.
fn very_many_channels(_: &mut Cx) -> Res {
    let k = 66_000usize;
    let (mut f, d) = new_file()?;
    let paths: Vec<ChannelPath> = (0..k).map(|i| ChannelPath::new("g", &format!("{i}"))).collect();
    let vals: Vec<u32> = (0..k as u32).collect();
    let mut w = f.writer().map_err(|e| format!("{e:?}"))?;
    w.write_channels(&paths, &vals, layout(true)).map_err(|e| format!("{e:?}"))?;
    drop(w);
    let mut g = reopen_copy(&d, "fresh open")?;
    for f in [&mut f, &mut g] {
        let n = f.list_channels_in_group(&PropertyPath::group("g")).count();
        ensure!(n == k, "{n} of {k} channels are listed");
        for i in [0usize, 1, 463, 464, 465, 32_768, 65_534, 65_535, 65_536, 65_537, k - 1] {
            ensure!(f.channel_length(&paths[i]) == Some(1), "channel {i} has length {:?}", f.channel_length(&paths[i]));
            let mut b = [7u32; 2];
            f.read_channel(&paths[i], &mut b).map_err(|e| format!("{e:?}"))?;
            ensure!(b == [i as u32, 7], "channel {i} of {k} reads as {b:?}");
        }
    }
    Ok(())
}

fn r26() -> Regress { vec![("very_many_channels", very_many_channels), ("text_beyond_its_length_field", too_long)] }

pub fn all() -> Vec<Property> {
    let level = "exploration";
    vec![
        Property { id: "C23", level, rule: "well-formed generated files (both byte orders, strings, properties) of which 85% get one to three false length or count claims (object and property counts, path, name and value lengths, value counts, segment extents); the library's calls run with an allocator that refuses the thread more than 8 MiB + 256 bytes per byte of input, so that an infallible request sized by a claim ends the process. Honest files must open and read fully within the limit. Non-trivial: a false claim was met, or an honest file with at least two objects.", run: c23, quick: 2000000, thorough: 50000000, regress: none, assumptions: &["memory refusals are modelled by a limit on what the thread may hold, not by failing chosen allocations"] },
        Property { id: "C24", level, rule: "generated histories on new (75%) and foreign (25%) files with syncs, reads, new writers and reopenings, growth of the stream measured after every operation: a repeat of the previous write's channels, type and count adds exactly 28 bytes and the samples; other writes at most lead-in, the description of the named channels, and the samples; property writes at most lead-in and the one object. Non-trivial: at least one repeat.", run: c24, quick: 1200000, thorough: 30000000, regress: none, assumptions: &["channels named in one write call are distinct"] },
        Property { id: "C25", level, rule: "metamorphic: the bytes of a generated history of writes are compared with those of the same writes with syncs, reads, new writers and reopenings in between, a second plain run, a run on a stream opened away from its start, and a run on a stream that takes writes in pieces. Non-trivial: two writes and at least one interruption.", run: c25, quick: 350000, thorough: 8750000, regress: none, assumptions: &["channels named in one write call are distinct"] },
        Property { id: "C26", level, rule: "97%: files of one to five segments up to 2^60 bytes on a computed stream (explicit headers, position-dependent filler), mixed types, layouts, byte orders, chunk counts up to 2^36; lengths and windows around chunk, segment, 2^31 and 2^32 boundaries compared with directly computed positions, before and after appending at the far end and reopening, with bounded stream operations. 3%: thousands of channels, segments or properties, names and values beyond 65535 bytes, compared with the model. Non-trivial: a file beyond 4 GiB or one of the latter.", run: c26, quick: 100000, thorough: 2500000, regress: r26, assumptions: &["content beyond memory is generated by position, not stored"] },
    ]
}
