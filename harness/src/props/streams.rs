//! C16, C17, C22: failing, slow and real streams.
use super::common::*;
use super::reading::{gen_window, type_at};
use super::{none, Regress};
use crate::disk::{Disk, Fault};
use crate::engine::{mix, Cx, Property, Res, Source};
use crate::foreign::{self, encode, gen_file, FCfg};
use crate::hist::*;
use crate::model::*;
use crate::ty::Ty;
use crate::{apply_op, ensure, fail, with_ty};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use tedium::{TdmsError, TdmsFile};

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock, ErrorKind::NotConnected, ErrorKind::InvalidData, ErrorKind::OutOfMemory, ErrorKind::NotFound,
    ErrorKind::AlreadyExists, ErrorKind::AddrInUse, ErrorKind::ConnectionAborted, ErrorKind::ConnectionRefused, ErrorKind::Unsupported,
    ErrorKind::StorageFull, ErrorKind::ResourceBusy,
];
/// Reads also end with these, which are ordinary results where a segment could start.
const READ_KINDS: &[ErrorKind] = &[ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::WriteZero];

fn set_fault(d: &Disk, f: Option<Fault>) {
    let mut i = d.inner.borrow_mut();
    i.fault = f;
    i.fault_counter = 0;
    i.faults_hit = 0;
}
fn hits(d: &Disk) -> u64 { d.inner.borrow().faults_hit }

/// Which operations to fail: all of them when there are few, a sample otherwise.
fn points(s: &mut Source, n: u64, limit: u64) -> Vec<u64> {
    if n <= limit { (0..n).collect() } else { (0..limit).map(|_| s.draw(n - 1)).collect() }
}

fn read_fault(s: &mut Source, at: u64, opening: bool) -> Fault {
    let count = *s.pick(&[1, 2, u64::MAX]);
    let kind = if !opening && s.chance(25) { *s.pick(READ_KINDS) } else { *s.pick(KINDS) };
    let seek_kind = if s.chance(25) { if opening { ErrorKind::UnexpectedEof } else { *s.pick(READ_KINDS) } } else { kind };
    let seek_kind = if opening && seek_kind == ErrorKind::InvalidInput { ErrorKind::Other } else { seek_kind };
    Fault { at, count, reads: true, writes: false, kind, seek_kind, flush_kind: kind, torn: 0 }
}

// ---------------------------------------------------------------- C16

enum Call {
    One { ci: usize, ty: Ty, start: u64, len: usize },
    Many { cis: Vec<usize>, ty: Ty, start: u64, len: usize },
}

fn c16(s: &mut Source, cx: &mut Cx) -> Res {
    let st = gen_start(s, cx, &FCfg { avg_segs: 3, one_type: 60, ..FCfg::default() }, 25)?;
    let m = &st.model;
    let objs: Vec<Obj> = m.channels().filter(|(_, o)| o.len() > 0).map(|(_, o)| o.clone()).collect();
    cx.nontrivial = !objs.is_empty();
    let limit = if cx.thorough { 60 } else { 12 };

    // slow and interrupted streams
    {
        let d = Disk::new(st.bytes.clone());
        { let mut i = d.inner.borrow_mut(); i.chop = Some(s.u64()); i.interrupts = s.chance(50); }
        let mut f = TdmsFile::new(d).map_err(|e| format!("open on a stream with short reads: {e:?}"))?;
        check_view(&mut f, m, &st.uni).map_err(|e| format!("stream with short reads: {e}"))?;
        cx.label("short reads");
    }

    // faults while opening
    let d = Disk::new(st.bytes.clone());
    let mut file = TdmsFile::new(d.handle()).map_err(|e| format!("open: {e:?}"))?;
    let ops = d.inner.borrow().ops;
    for at in points(s, ops, limit) {
        let fault = read_fault(s, at, true);
        set_fault(&d, Some(fault));
        let r = TdmsFile::new(d.handle());
        let hit = hits(&d);
        set_fault(&d, None);
        cx.evals += 1;
        match r {
            Err(TdmsError::IoError(_)) | Err(_) if hit > 0 => { cx.label("open failed with the stream"); }
            Ok(_) if hit > 0 => fail!("open reported success although stream operation {at} of {ops} failed ({:?}, {:?} for seeks)", fault.kind, fault.seek_kind),
            Err(e) => fail!("open failed without a stream failure: {e:?}"),
            Ok(mut f) => check_view(&mut f, m, &st.uni)?,
        }
        if s.chance(20) {
            let mut f = TdmsFile::new(d.handle()).map_err(|e| format!("open after the stream recovered: {e:?}"))?;
            check_view(&mut f, m, &st.uni).map_err(|e| format!("opened after the stream recovered: {e}"))?;
        }
    }

    // faults while reading
    if objs.is_empty() { return Ok(()); }
    for _ in 0..if cx.thorough { 5 } else { 3 } {
        let ci = s.below(objs.len());
        let (start, len) = gen_window(s, &objs[ci]);
        let call = if s.chance(50) && objs.len() > 1 {
            let mut cis = vec![ci];
            while s.more(cis.len(), 1, objs.len(), 2) {
                let c = s.below(objs.len());
                if !cis.contains(&c) { cis.push(c); }
            }
            let ty = type_at(&objs[ci], start);
            cis.retain(|c| expect_window(&objs[*c], ty, start, len as u64).is_ok());
            if cis.is_empty() { continue; }
            Call::Many { cis, ty, start, len }
        } else {
            let ty = type_at(&objs[ci], start);
            if expect_window(&objs[ci], ty, start, len as u64).is_err() { continue; }
            Call::One { ci, ty, start, len }
        };
        let run = |file: &mut TdmsFile<Disk>| -> Result<Result<(), TdmsError>, String> {
            match &call {
                Call::One { ci, ty, start, len } => {
                    let cp = channel_path(&objs[*ci])?;
                    with_ty!(*ty, T => {
                        let mut buf = filled::<T>(*len);
                        let r = file.read_channel_from(&cp, *start, &mut buf);
                        if r.is_ok() { check_buffer(&format!("read of {cp} from {start} length {len}"), &buf, &expect_window(&objs[*ci], *ty, *start, *len as u64).unwrap())?; }
                        Ok(r)
                    })
                }
                Call::Many { cis, ty, start, len } => {
                    let cps = cis.iter().map(|c| channel_path(&objs[*c])).collect::<Result<Vec<_>, _>>()?;
                    with_ty!(*ty, T => {
                        let mut bufs: Vec<Vec<T>> = cis.iter().map(|_| filled::<T>(*len)).collect();
                        let mut refs: Vec<&mut [T]> = bufs.iter_mut().map(|b| b.as_mut_slice()).collect();
                        let r = file.read_channels_from(&cps, *start, &mut refs);
                        if r.is_ok() {
                            for (c, b) in cis.iter().zip(&bufs) {
                                check_buffer(&format!("multi-channel read of {} from {start} length {len}", channel_path(&objs[*c])?), b, &expect_window(&objs[*c], *ty, *start, *len as u64).unwrap())?;
                            }
                        }
                        Ok(r)
                    })
                }
            }
        };
        d.reset_counters();
        run(&mut file)?.map_err(|e| format!("read failed without a stream failure: {e:?}"))?;
        let ops = d.inner.borrow().ops;
        for at in points(s, ops, limit) {
            let fault = read_fault(s, at, false);
            set_fault(&d, Some(fault));
            let r = run(&mut file);
            let hit = hits(&d);
            set_fault(&d, None);
            cx.evals += 1;
            match r.map_err(|e| format!("with stream operation {at} of {ops} failing ({:?}): {e}", fault.kind))? {
                Err(_) if hit > 0 => cx.label("read failed with the stream"),
                Ok(()) if hit > 0 => fail!("a read reported success although stream operation {at} of {ops} failed ({:?}, {:?} for seeks)", fault.kind, fault.seek_kind),
                Err(e) => fail!("a read failed without a stream failure: {e:?}"),
                Ok(()) => {}
            }
            match run(&mut file) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => fail!("after a failure at stream operation {at} of {ops} the repeated read still fails: {e:?}"),
                Err(e) => fail!("after a failure at stream operation {at} of {ops} the repeated read is wrong: {e}"),
            }
        }
    }
    check_view(&mut file, m, &st.uni).map_err(|e| format!("after all the failures: {e}"))
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate { Must, May(usize) }

/// The content a file must have: a base model and the write operations since, each required or possible.
struct Expect {
    base: Model,
    ops: Vec<(Op, Fate)>,
}

impl Expect {
    fn check(&self, bytes: &[u8], uni: &Universe, what: &str) -> Res {
        let mut first = String::new();
        // A session writes in order, so of the operations in doubt a file holds a prefix per session.
        let mut sessions: Vec<(usize, usize)> = Vec::new();
        for (_, fate) in &self.ops {
            if let Fate::May(n) = fate {
                match sessions.iter_mut().find(|x| x.0 == *n) { Some(x) => x.1 += 1, None => sessions.push((*n, 1)) }
            }
        }
        let combos: usize = sessions.iter().map(|x| x.1 + 1).product();
        for k in 0..combos {
            let mut left: Vec<(usize, usize)> = Vec::new();
            let mut r = k;
            for (n, c) in &sessions { left.push((*n, r % (c + 1))); r /= c + 1; }
            let mut m = self.base.clone();
            for (op, fate) in &self.ops {
                let take = match fate {
                    Fate::Must => true,
                    Fate::May(n) => { let l = left.iter_mut().find(|x| x.0 == *n).unwrap(); if l.1 > 0 { l.1 -= 1; true } else { false } }
                };
                if take { model_apply(&mut m, uni, op); }
            }
            let r = must_open(bytes.to_vec(), what).and_then(|mut f| check_view(&mut f, &m, uni));
            match r {
                Ok(()) => return Ok(()),
                Err(e) => if first.is_empty() { first = e },
            }
        }
        Err(format!("{what}: {first}"))
    }
}

fn is_data(op: &Op) -> bool { matches!(op, Op::Write(_) | Op::Props(..)) }

fn c17(s: &mut Source, cx: &mut Cx) -> Res {
    let (start, model, uni) = if s.chance(25) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }, 20)?;
        (st.bytes, st.model, st.uni)
    } else {
        (Vec::new(), Model::default(), gen_universe(s))
    };
    let big = s.chance(50);
    let mut ops = gen_ops(s, &uni, &HCfg { avg_ops: 6, max_ops: 14, reads: false, big, ..HCfg::default() });
    if s.chance(70) {
        let mut o = Vec::new();
        for x in ops { let w = is_data(&x); o.push(x); if w && s.chance(45) { o.push(Op::Sync); } }
        ops = o;
    }
    if s.chance(60) { ops.push(Op::Sync); }
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);

    // without failures, to count the stream operations
    let (mut f, d) = open_shared(start.clone(), "start")?;
    d.reset_counters();
    let mut m = model.clone();
    run_on_disk(&mut f, &d, &h, &mut m, |_, _| Ok(()))?;
    drop(f);
    let plain = d.snapshot();
    let (w_ops, s_ops) = { let i = d.inner.borrow(); (i.writes + i.flushes, i.seeks) };

    // a stream that takes the bytes in pieces
    if s.chance(40) {
        let (mut f, d) = open_shared(start.clone(), "start")?;
        { let mut i = d.inner.borrow_mut(); i.chop = Some(s.u64()); i.interrupts = s.chance(50); }
        let mut m = model.clone();
        run_on_disk(&mut f, &d, &h, &mut m, |_, _| Ok(())).map_err(|e| format!("stream with short writes: {e}"))?;
        drop(f);
        ensure!(d.snapshot() == plain, "a stream that takes the bytes in small pieces ends up with other bytes");
        cx.label("short writes");
    }

    let limit = if cx.thorough { 40 } else { 8 };
    for at in points(s, w_ops.max(1), limit) {
        let seek_too = s.chance(15);
        let at = if seek_too { s.draw(w_ops + s_ops) } else { at };
        let fault = Fault {
            at, count: *s.pick(&[1, 2, 3, u64::MAX]), reads: seek_too, writes: true,
            kind: if s.chance(15) { ErrorKind::WriteZero } else { *s.pick(KINDS) },
            seek_kind: *s.pick(KINDS),
            // Nobody repeats a flush that was interrupted.
            flush_kind: if s.chance(25) { ErrorKind::Interrupted } else { *s.pick(KINDS) },
            torn: if s.chance(50) { s.range(1, 300) as usize } else { 0 },
        };
        cx.evals += 1;
        faulty_run(s, cx, &start, &model, &h, fault).map_err(|e| format!("with {fault:?}: {e}"))?;
    }
    Ok(())
}

fn faulty_run(s: &mut Source, cx: &mut Cx, start: &[u8], model: &Model, h: &Hist, fault: Fault) -> Res {
    let u = &h.uni;
    let (mut f, d) = open_shared(start.to_vec(), "start")?;
    // A stream that keeps the bytes to itself until it is flushed.
    if s.chance(50) { d.inner.borrow_mut().flushed = Some(start.to_vec()); cx.label("stream with a buffer"); }
    set_fault(&d, Some(fault));
    let mut exp = Expect { base: model.clone(), ops: Vec::new() };
    // bytes and content at the last successful sync
    let mut synced: Vec<u8> = start.to_vec();
    let mut durable = Expect { base: model.clone(), ops: Vec::new() };
    let mut failed_write = false;
    let mut refused = false;
    let mut i = 0;
    while i < h.ops.len() {
        if !is_write_side(&h.ops[i]) { i += 1; continue; }
        let before = hits(&d);
        let first = exp.ops.len();
        let session = i;
        match f.writer() {
            Err(e) => {
                ensure!(hits(&d) > 0, "writer() failed without a stream failure: {e:?}");
                refused = true;
                while i < h.ops.len() && is_write_side(&h.ops[i]) { i += 1; }
                continue;
            }
            Ok(mut w) => {
                let mut unsynced = false;
                while i < h.ops.len() && is_write_side(&h.ops[i]) {
                    let op = &h.ops[i];
                    let hits_before = hits(&d);
                    let r: Result<(), TdmsError> = apply_op!(w, u, op);
                    match r {
                        Ok(()) if *op == Op::Sync => {
                            let now = d.stored();
                            ensure!(now.len() >= synced.len() && now[..synced.len()] == synced[..], "bytes covered by an earlier sync have changed");
                            exp.check(&now, u, &format!("op {i}, sync reported success{}", if failed_write { " after a failed write" } else { "" }))?;
                            cx.label_if(hits(&d) > 0, "sync succeeded after a failure");
                            synced = now;
                            // what is in the file now is settled only if no operation was in doubt
                            durable = Expect { base: exp.base.clone(), ops: exp.ops.clone() };
                            unsynced = false;
                        }
                        Ok(()) => { exp.ops.push((op.clone(), Fate::Must)); unsynced = true; }
                        Err(e) => {
                            ensure!(hits(&d) > 0, "op {i} failed without a stream failure: {e:?}");
                            cx.label_if(hits(&d) > hits_before, "call failed with the stream");
                            if is_data(op) {
                                cx.label("write failed");
                                failed_write = true;
                                // a call that fails without touching the stream was refused and wrote nothing
                                if hits(&d) > hits_before { exp.ops.push((op.clone(), Fate::May(session))); }
                            }
                        }
                    }
                    i += 1;
                }
                drop(w);
                // without a final sync a failure inside the drop is nobody's report
                if unsynced && hits(&d) > before {
                    let done = durable.ops.len();
                    for o in exp.ops.iter_mut().skip(done.max(first)) { o.1 = Fate::May(session); }
                    cx.label("failure with unsynced data");
                }
            }
        }
        let now = d.snapshot();
        ensure!(now.len() >= synced.len() && now[..synced.len()] == synced[..], "bytes covered by an earlier sync have changed");
    }
    drop(f);
    let any = hits(&d) > 0;
    cx.nontrivial |= any;
    set_fault(&d, None);
    let now = d.snapshot();
    ensure!(now.len() >= synced.len() && now[..synced.len()] == synced[..], "bytes covered by an earlier sync have changed");
    durable.check(&synced, u, "the bytes up to the last successful sync")?;
    if !any {
        exp.check(&now, u, "no failure was hit")?;
        return Ok(());
    }
    cx.label_if(refused, "later writer refused");
    // the stream has recovered: append once more through a fresh open
    if let Ok(mut g) = TdmsFile::new(d.handle()) {
        let ops = gen_ops(s, u, &HCfg { avg_ops: 2, max_ops: 4, reads: false, big: false, ..HCfg::default() });
        let mut all = true;
        {
            match g.writer() {
                Err(_) => { all = false; cx.label("append after a failure refused"); }
                Ok(mut w) => {
                    for op in ops.iter().filter(|o| is_data(o)) {
                        let r: Result<(), TdmsError> = apply_op!(w, u, op);
                        match r { Ok(()) => exp.ops.push((op.clone(), Fate::Must)), Err(_) => { all = false; break; } }
                    }
                    if w.sync().is_err() { all = false; }
                }
            }
        }
        if all {
            cx.label("append after a failure accepted");
            exp.check(&d.snapshot(), u, "append after the stream recovered")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

static DIRS: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed with everything in it.
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Result<Scratch, String> {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        for base in [base, std::env::temp_dir()] {
            let p = base.join(format!("tedium-verif-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
            if std::fs::create_dir(&p).is_ok() { return Ok(Scratch(p)); }
        }
        Err("HARNESS: no scratch directory".into())
    }
    pub fn file(&self, n: &str) -> PathBuf { self.0.join(n) }
}

impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn disk_bytes(p: &Path) -> Result<Vec<u8>, String> {
    std::fs::read(p).map_err(|e| format!("the file on disk is gone: {e}"))
}

fn c22(s: &mut Source, cx: &mut Cx) -> Res {
    let dir = Scratch::new()?;
    let io = |e: std::io::Error| format!("HARNESS: {e}");
    let mut path = dir.file(s.pick(&["f.tdms", "f", "name with space.tdms", "f.tdms_index", "é.tdms", "F.TDMS", ".tdms", "f.tdms~", "f.tmp", "f.tdms.bak", "f."]));
    if s.chance(4) {
        use std::os::unix::ffi::OsStrExt;
        path = dir.0.join(std::ffi::OsStr::from_bytes(b"f\xff\xfe.tdms"));
        cx.label("name that is no text");
    }
    // other files next to it, which are none of the library's business
    let mut others: BTreeMap<std::ffi::OsString, Vec<u8>> = BTreeMap::new();
    if s.chance(15) {
        cx.label("other files next to it");
        for ext in ["tdms_index", "tmp", "bak", "lock", "tdms"] {
            let p = path.with_extension(ext);
            if p == path || p.file_name() == path.file_name() || s.chance(40) { continue; }
            let bytes: Vec<u8> = match s.below(3) {
                0 => vec![],
                1 => b"something else".to_vec(),
                // what an index file of another version of this file could hold
                _ => { let (_, f) = gen_file(s, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }); foreign::encode(&f, false).bytes }
            };
            std::fs::write(&p, &bytes).map_err(io)?;
            others.insert(p.file_name().unwrap().to_os_string(), bytes);
        }
    }
    // through a link
    let mut target = None;
    if s.chance(5) {
        let t = dir.file("link target");
        std::os::unix::fs::symlink(&t, &path).map_err(io)?;
        std::fs::write(&t, b"").map_err(io)?;
        target = Some(t);
        cx.label("through a link");
    }

    // a missing file
    if s.chance(30) && target.is_none() {
        match TdmsFile::load(&path) {
            Ok(_) => fail!("load of a missing file succeeded"),
            Err(TdmsError::IoError(e)) => ensure!(e.kind() == ErrorKind::NotFound, "load of a missing file failed with {e:?}"),
            Err(e) => fail!("load of a missing file failed with {e:?}"),
        }
        ensure!(!path.exists(), "load of a missing file created it");
        let deep = dir.file("no such directory").join("f.tdms");
        ensure!(TdmsFile::create(&deep).is_err(), "create inside a missing directory succeeded");
        ensure!(!deep.parent().unwrap().exists(), "create made a directory");
        cx.label("missing file");
    }
    // something else at the path
    let mode = s.weighted(&[3, 4, 2]);
    let mut start = Vec::new();
    let mut model = Model::default();
    let mut uni = gen_universe(s);
    let mut mutated = false;
    if mode > 0 || s.chance(70) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, ..FCfg::default() }, 30)?;
        start = st.bytes;
        model = st.model;
        uni = st.uni;
        if mode == 2 {
            // damaged content: a cut, or changed bytes
            mutated = true;
            if s.chance(50) && !start.is_empty() { let n = s.below(start.len()); start.truncate(n); }
            for _ in 0..s.below(4) {
                if start.is_empty() { break; }
                // only in the first lead-in's tag and version, so that no huge counts arise
                let at = s.below(start.len().min(12));
                start[at] = s.draw(255) as u8;
            }
        }
        std::fs::write(&path, &start).map_err(io)?;
    }
    let bad = s.chance(30);
    let ops = gen_ops(s, &uni, &HCfg { avg_ops: 6, reopen: true, bad, ..HCfg::default() });
    let h = Hist { uni: uni.clone(), ops };
    cx.note(|| format!("mode {mode} history {:?}", h.ops));
    label_hist(cx, &h);

    if mode == 2 {
        // damaged: the same verdict as in memory, and the bytes stay
        cx.label("damaged file loaded");
        let a = TdmsFile::load(&path);
        let b = TdmsFile::new(std::io::Cursor::new(start.clone()));
        match (&a, &b) {
            (Ok(x), Ok(y)) => {
                let (mut p, mut q): (Vec<_>, Vec<_>) = (x.list_groups().collect(), y.list_groups().collect());
                p.sort(); q.sort();
                ensure!(p == q, "groups on disk {p:?}, in memory {q:?}");
            }
            (Err(_), Err(_)) => {}
            (x, y) => fail!("load gives {:?}, the same bytes in memory give {:?}", x.as_ref().map(|_| ()), y.as_ref().map(|_| ())),
        }
        drop(a);
        ensure!(disk_bytes(&path)? == start, "loading changed the file's bytes");
        let _ = mutated;
    }

    // create (or go on with) the file, next to an in-memory twin
    let create = mode != 1;
    cx.nontrivial = h.ops.iter().any(is_data) && (!create || !start.is_empty());
    let (mut f, mut m, twin_start) = if create {
        let f = TdmsFile::create(&path).map_err(|e| format!("create over {} bytes failed: {e:?}", start.len()))?;
        ensure!(disk_bytes(&path)?.is_empty(), "create left old bytes in the file");
        ensure!(f.list_groups().count() == 0, "a created file has groups");
        cx.label_if(!start.is_empty(), "create over an existing file");
        (f, Model::default(), Vec::new())
    } else {
        let f = TdmsFile::load(&path).map_err(|e| format!("load failed: {e:?}"))?;
        ensure!(disk_bytes(&path)? == start, "loading changed the file's bytes");
        cx.label("loaded and appended");
        (f, model, start)
    };
    let (mut g, d) = open_shared(twin_start, "twin")?;
    let mut m2 = m.clone();
    check_view(&mut f, &m, &uni).map_err(|e| format!("on disk: {e}"))?;
    let mut snaps: Vec<Vec<u8>> = Vec::new();
    run_hist(&mut f, &h, &mut m,
        |f| { *f = TdmsFile::load(&path).map_err(|e| format!("load failed: {e:?}"))?; Ok(()) },
        |ev, m| {
            match ev {
                Event::Synced => snaps.push(disk_bytes(&path)?),
                Event::Closed(f) => {
                    check_view(f, m, &uni)?;
                    snaps.push(disk_bytes(&path)?);
                    if snaps.len() % 3 == 1 {
                        let mut other = TdmsFile::load(&path).map_err(|e| format!("load beside the open file failed: {e:?}"))?;
                        check_view(&mut other, m, &uni).map_err(|e| format!("loaded beside the open file: {e}"))?;
                    }
                }
                Event::Wrote(_) => {}
            }
            Ok(())
        }).map_err(|e| format!("on disk: {e}"))?;
    let mut k = 0;
    run_on_disk(&mut g, &d, &h, &mut m2, |ev, _| {
        if !matches!(ev, Event::Wrote(_)) {
            ensure!(snaps.get(k).is_some_and(|b| *b == d.snapshot()), "after step {k} of the history the bytes on disk differ from those in memory");
            k += 1;
        }
        Ok(())
    }).map_err(|e| format!("in memory: {e}"))?;
    ensure!(k == snaps.len(), "HARNESS: different numbers of steps");
    drop(f);
    let end = disk_bytes(&path)?;
    ensure!(end == d.snapshot(), "the final bytes on disk differ from those in memory");
    // two loads
    let mut a = TdmsFile::load(&path).map_err(|e| format!("load failed: {e:?}"))?;
    let mut b = TdmsFile::load(&path).map_err(|e| format!("second load failed: {e:?}"))?;
    check_view(&mut a, &m, &uni).map_err(|e| format!("first load: {e}"))?;
    check_view(&mut b, &m, &uni).map_err(|e| format!("second load: {e}"))?;
    drop((a, b));
    ensure!(disk_bytes(&path)? == end, "loading and reading changed the file's bytes");
    let mut found: BTreeMap<std::ffi::OsString, Vec<u8>> = BTreeMap::new();
    for e in std::fs::read_dir(&dir.0).map_err(io)? {
        let e = e.map_err(io)?;
        if e.path() == path || Some(e.path()) == target { continue; }
        found.insert(e.file_name(), std::fs::read(e.path()).unwrap_or_default());
    }
    ensure!(found == others, "the other files next to the TDMS file changed: {:?}", found.keys());
    Ok(())
}

// ---------------------------------------------------------------- regressions

fn r16() -> Regress {
    /// A failing seek between segments must not end the index early.
    fn seek_failure(_: &mut Cx) -> Res {
        for seed in 0..40u64 {
            let mut s = Source::rng(mix(seed));
            let (_, f) = gen_file(&mut s, &FCfg { avg_segs: 4, ..FCfg::default() });
            let e = encode(&f, false);
            let d = Disk::new(e.bytes);
            TdmsFile::new(d.handle()).map_err(|e| format!("{e:?}: {}", foreign::describe(&f)))?;
            let n = d.inner.borrow().ops;
            for at in 0..n {
                set_fault(&d, Some(Fault { at, count: 1, reads: true, writes: false, kind: ErrorKind::Other, seek_kind: ErrorKind::Other, flush_kind: ErrorKind::Other, torn: 0 }));
                ensure!(TdmsFile::new(d.handle()).is_err(), "open succeeded although stream operation {at} of {n} failed");
            }
        }
        Ok(())
    }
    vec![("seek_failure", seek_failure)]
}

fn simple(ops: Vec<Op>) -> Hist {
    Hist { uni: Universe { groups: vec!["g".into()], chans: vec![("g".into(), "a".into()), ("g".into(), "b".into())], props: vec!["p".into()] }, ops }
}

fn r17() -> Regress {
    /// A failed write followed by appends.
    fn write_failure(cx: &mut Cx) -> Res {
        let w = |n: usize| Op::Write(W { chs: vec![0, 1], ty: Ty::F64, n, inter: false, seed: 3, by_ref: false });
        for (n, k) in [(2000, 2000), (10, 2000), (2000, 10), (5, 5)] {
            for tail in [vec![Op::Sync], vec![Op::NewWriter, w(3), Op::Sync], vec![w(3), Op::Sync], vec![Op::Sync, w(3), Op::Sync, Op::NewWriter, w(4), Op::Sync]] {
                let mut ops = vec![w(4), Op::Sync, w(n), w(k)];
                ops.extend(tail);
                let h = simple(ops);
                for at in 0..14 {
                    for count in [1, 2, u64::MAX] {
                        for torn in [0, 1, 40] {
                            let mut s = Source::rng(5);
                            let fault = Fault { at, count, reads: false, writes: true, kind: ErrorKind::Other, seek_kind: ErrorKind::Other, flush_kind: ErrorKind::Other, torn };
                            faulty_run(&mut s, cx, &[], &Model::default(), &h, fault).map_err(|e| format!("n={n} k={k} {fault:?}: {e}"))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    vec![("write_failure", write_failure)]
}

pub fn all() -> Vec<Property> {
    let level = "exploration";
    vec![
        Property { id: "C16", level, rule: "generated well-formed files (75% from the independent encoder) are opened and read on an instrumented stream: with reads cut into small pieces and interrupted, and with every (or, for long calls, a sample of) stream operation of an open, a window read and a multi-channel read failing once, twice or for good with one of nine error kinds. A call that hit a failure must return an error, the repeated call must deliver the model's samples. Non-trivial: the file has samples.", run: c16, quick: 300000, thorough: 7500000, regress: r16, assumptions: &["a stream's own UnexpectedEof and InvalidInput errors mean end of data and unreachable position, and are not injected as failures"] },
        Property { id: "C17", level, rule: "generated write histories with syncs and re-acquired writers on new (75%) and existing files; every (or a sample of) stream write, flush or seek fails once, several times or for good, possibly after accepting part of the bytes. At every successful sync a copy of the bytes must open to the acknowledged operations plus a subset of the failed ones, bytes covered by a sync never change, and after recovery an append through a fresh open is refused or keeps all acknowledged content. Non-trivial: at least one injected failure was hit.", run: c17, quick: 90000, thorough: 2250000, regress: r17, assumptions: &["data written without a later successful sync is not acknowledged if a failure occurred"] },
        Property { id: "C22", level, rule: "on various file names, through a link now and then, next to unrelated files that must stay as they are: generated histories on real files in a scratch directory, created over nothing, over TDMS files and over damaged files, or loaded and appended to; after every sync and writer drop the bytes on disk are compared with those of the same history in memory, and views with the model; two loads are compared; missing files must stay missing. Non-trivial: the history writes data and the path already had content or the file is new content being appended.", run: c22, quick: 250000, thorough: 6250000, regress: none, assumptions: &["the file system itself works"] },
    ]
}
