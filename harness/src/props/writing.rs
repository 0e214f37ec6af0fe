//! C01, C02, C03, C07, C12, C14, C15: histories of writes against the model.
use super::common::*;
use super::{none, Regress};
use crate::engine::{Cx, Property, Res, Source};
use crate::foreign::FCfg;
use crate::hist::*;
use crate::model::*;
use crate::parser;
use crate::ty::Ty;
use crate::{ensure, fail};

fn writes(h: &Hist) -> usize { h.ops.iter().filter(|o| matches!(o, Op::Write(_))).count() }
fn props_ops(h: &Hist) -> usize { h.ops.iter().filter(|o| matches!(o, Op::Props(..))).count() }

// ---------------------------------------------------------------- C01

fn c01(s: &mut Source, cx: &mut Cx) -> Res {
    let h = gen_hist(s, &HCfg { avg_ops: if cx.thorough { 12 } else { 8 }, ..HCfg::default() });
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    cx.nontrivial = writes(&h) >= 2;
    session_data(&h)
}

fn session_data(h: &Hist) -> Res {
    let (mut f, d) = new_file()?;
    let mut m = Model::default();
    run_on_disk(&mut f, &d, h, &mut m, |ev, m| {
        if let Event::Closed(f) = ev { check_data(f, m)?; }
        Ok(())
    })?;
    check_data(&mut f, &m)
}

// ---------------------------------------------------------------- C02

fn c02(s: &mut Source, cx: &mut Cx) -> Res {
    let h = gen_hist(s, &HCfg { avg_ops: if cx.thorough { 12 } else { 8 }, reads: false, props: 4, ..HCfg::default() });
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    cx.nontrivial = writes(&h) >= 2;
    reopen_view(&h)
}

fn reopen_view(h: &Hist) -> Res {
    let (mut f, d) = new_file()?;
    let mut m = Model::default();
    run_on_disk(&mut f, &d, h, &mut m, |ev, m| {
        if let Event::Closed(f) = ev {
            check_view(f, m, &h.uni).map_err(|e| format!("writing session: {e}"))?;
            let mut g = reopen_copy(&d, "fresh open")?;
            check_view(&mut g, m, &h.uni).map_err(|e| format!("fresh open: {e}"))?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C03

fn c03(s: &mut Source, cx: &mut Cx) -> Res {
    let st = gen_start(s, cx, &FCfg { avg_segs: 2, ..FCfg::default() }, 30)?;
    let rounds = 1 + s.below(3);
    let (mut f, d) = open_shared(st.bytes, "existing file")?;
    let mut m = st.model;
    check_view(&mut f, &m, &st.uni).map_err(|e| format!("before appending: {e}"))?;
    for r in 0..rounds {
        let ops = gen_ops(s, &st.uni, &HCfg { avg_ops: 3, props: 4, reads: true, ..HCfg::default() });
        let h = Hist { uni: st.uni.clone(), ops };
        cx.note(|| format!("round {r}: {:?}", h.ops));
        label_hist(cx, &h);
        cx.nontrivial |= writes(&h) > 0 && m.total_samples() > 0;
        run_on_disk(&mut f, &d, &h, &mut m, |ev, m| {
            if let Event::Closed(f) = ev { check_view(f, m, &h.uni).map_err(|e| format!("round {r}, in session: {e}"))?; }
            Ok(())
        })?;
        f = reopen_copy(&d, "reopen after append")?;
        check_view(&mut f, &m, &st.uni).map_err(|e| format!("round {r}, reopened: {e}"))?;
        // go on with a handle to the same stream
        f = tedium::TdmsFile::new(d.handle()).map_err(|e| format!("reopen: {e:?}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07(s: &mut Source, cx: &mut Cx) -> Res {
    let (mut f, d, mut m, uni) = if s.chance(35) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }, 0)?;
        let (f, d) = open_shared(st.bytes, "existing file")?;
        (f, d, st.model, st.uni)
    } else {
        let (f, d) = new_file()?;
        (f, d, Model::default(), gen_universe(s))
    };
    let ops = gen_ops(s, &uni, &HCfg { props: 14, writes: 4, avg_ops: if cx.thorough { 14 } else { 9 }, big: false, reopen: true, ..HCfg::default() });
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    cx.nontrivial = props_ops(&h) >= 2;
    check_props(&f, &m, &h.uni)?;
    run_on_disk(&mut f, &d, &h, &mut m, |ev, m| {
        if let Event::Closed(f) = ev {
            check_props(f, m, &h.uni).map_err(|e| format!("in session: {e}"))?;
            check_data(f, m).map_err(|e| format!("in session: {e}"))?;
        }
        Ok(())
    })?;
    let mut g = reopen_copy(&d, "fresh open")?;
    check_props(&g, &m, &h.uni).map_err(|e| format!("fresh open: {e}"))?;
    check_data(&mut g, &m).map_err(|e| format!("fresh open: {e}"))
}

// ---------------------------------------------------------------- C12

/// Merges adjacent blocks of one type and drops empty ones.
pub fn normalised(m: &Model) -> Model {
    let mut out = m.clone();
    for o in out.objects.values_mut() {
        let mut blocks: Vec<Block> = Vec::new();
        for b in std::mem::take(&mut o.blocks) {
            if b.vals.is_empty() { continue; }
            match blocks.last_mut() {
                Some(l) if l.ty == b.ty => l.vals.extend(b.vals),
                _ => blocks.push(b),
            }
        }
        o.blocks = blocks;
    }
    out
}

pub fn same_model(got: &Model, want: &Model) -> Res {
    let (g, w) = (normalised(got), normalised(want));
    let (gk, wk): (Vec<_>, Vec<_>) = (g.objects.keys().collect(), w.objects.keys().collect());
    ensure!(gk == wk, "the emitted file has objects {gk:?}, expected {wk:?}");
    for (p, a) in &g.objects {
        let b = &w.objects[p];
        ensure!(a.props == b.props, "the emitted file gives {p} the properties {:?}, expected {:?}", a.props, b.props);
        let lens = |o: &Obj| o.blocks.iter().map(|b| (b.ty, b.vals.len())).collect::<Vec<_>>();
        ensure!(lens(a) == lens(b), "the emitted file gives {p} the data {:?}, expected {:?}", lens(a), lens(b));
        if let Some((i, x, y)) = a.blocks.iter().zip(&b.blocks).flat_map(|(x, y)| x.vals.iter().zip(&y.vals)).enumerate().map(|(i, (x, y))| (i, x, y)).find(|(_, x, y)| x != y) { fail!("the emitted file gives {p} the value {x:#x} for sample {i} ({:?}), expected {y:#x}", lens(a)); }
    }
    Ok(())
}

fn c12(s: &mut Source, cx: &mut Cx) -> Res {
    let (mut f, d, mut m, uni) = if s.chance(25) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, strings: false, big: false, pad: false, ..FCfg::default() }, 0)?;
        match parser::parse(&st.bytes) {
            Ok(p) => if let Err(e) = same_model(&p.model, &st.model) { fail!("HARNESS: encoder and parser disagree: {e}\n{}", st.desc); },
            Err(e) => fail!("HARNESS: the strict parser refuses the encoder's file: {e}"),
        }
        let (f, d) = open_shared(st.bytes, "existing file")?;
        (f, d, st.model, st.uni)
    } else {
        let (f, d) = new_file()?;
        (f, d, Model::default(), gen_universe(s))
    };
    let ops = gen_ops(s, &uni, &HCfg { props: 5, reads: false, reopen: true, avg_ops: if cx.thorough { 12 } else { 8 }, ..HCfg::default() });
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    cx.nontrivial = writes(&h) >= 1 && writes(&h) + props_ops(&h) >= 2;
    run_on_disk(&mut f, &d, &h, &mut m, |ev, m| {
        if let Event::Closed(_) = ev {
            let p = parser::parse(&d.snapshot())?;
            same_model(&p.model, m)?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C14

fn c14(s: &mut Source, cx: &mut Cx) -> Res {
    let (start, model, uni) = if s.chance(30) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }, 0)?;
        (st.bytes, st.model, st.uni)
    } else {
        (Vec::new(), Model::default(), gen_universe(s))
    };
    let ops = gen_ops(s, &uni, &HCfg { bad: true, avg_ops: 8, big: false, props: 3, ..HCfg::default() });
    let h = Hist { uni, ops };
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    cx.nontrivial = h.ops.iter().any(|o| matches!(o, Op::Bad(_)));
    // The history as generated, with views checked after every writer.
    let (mut f, d) = open_shared(start.clone(), "start")?;
    let mut m = model.clone();
    run_on_disk(&mut f, &d, &h, &mut m, |ev, m| {
        if let Event::Closed(f) = ev { check_view(f, m, &h.uni)?; }
        Ok(())
    })?;
    check_view(&mut f, &m, &h.uni)?;
    drop(f);
    let mut g = reopen_copy(&d, "reopen after refused calls")?;
    check_view(&mut g, &m, &h.uni).map_err(|e| format!("reopened: {e}"))?;
    // The same history without the refused calls.
    let clean = Hist { uni: h.uni.clone(), ops: h.ops.iter().filter(|o| !matches!(o, Op::Bad(_))).cloned().collect() };
    let (mut f2, d2) = open_shared(start, "start")?;
    let mut m2 = model;
    run_on_disk(&mut f2, &d2, &clean, &mut m2, |_, _| Ok(()))?;
    drop(f2);
    let (a, b) = (d.snapshot(), d2.snapshot());
    ensure!(a == b, "the refused calls changed the file's bytes: {} bytes with them, {} without, first difference at {:?}", a.len(), b.len(),
        a.iter().zip(&b).position(|(x, y)| x != y));
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(s: &mut Source, cx: &mut Cx) -> Res {
    let (start, model, uni) = if s.chance(30) {
        let st = gen_start(s, cx, &FCfg { avg_segs: 2, big: false, ..FCfg::default() }, 0)?;
        (st.bytes, st.model, st.uni)
    } else {
        (Vec::new(), Model::default(), gen_universe(s))
    };
    let bad = s.chance(20);
    let ops = gen_ops(s, &uni, &HCfg { avg_ops: 9, reads: true, bad, ..HCfg::default() });
    let mut h = Hist { uni, ops };
    // plenty of syncs
    if s.chance(50) {
        let mut o = Vec::new();
        for x in h.ops { let w = is_write_side(&x) && x != Op::Sync; o.push(x); if w && s.chance(40) { o.push(Op::Sync); } }
        h.ops = o;
    }
    cx.note(|| format!("{h:?}"));
    label_hist(cx, &h);
    cx.nontrivial = writes(&h) + props_ops(&h) >= 2;
    let (mut f, d) = open_shared(start.clone(), "start")?;
    let mut m = model;
    let check_untouched = |d: &crate::disk::Disk, what: &str| -> Res {
        let i = d.inner.borrow();
        ensure!(i.writes == 0, "{what} wrote to the stream ({} writes)", i.writes);
        Ok(())
    };
    check_untouched(&d, "opening")?;
    let _ = f.list_groups().count();
    check_view(&mut f, &m, &h.uni)?;
    check_untouched(&d, "listing and reading")?;
    let mut last = start;
    let mut before_reads = 0u64;
    run_on_disk(&mut f, &d, &h, &mut m, |ev, m| {
        let what = match &ev { Event::Wrote(_) => return Ok(()), Event::Synced => "after sync", Event::Closed(_) => "after the writer was dropped" };
        let now = d.snapshot();
        ensure!(now.len() >= last.len() && now[..last.len()] == last[..], "{what}: bytes that were in the stream before have changed");
        ensure!(!d.inner.borrow().modified_existing, "{what}: existing bytes were overwritten in place");
        if let Event::Synced = ev { ensure!(d.inner.borrow().flushes > 0, "sync did not reach the stream's flush"); d.inner.borrow_mut().flushes = 0; }
        let mut g = must_open(now.clone(), what)?;
        check_view(&mut g, m, &h.uni).map_err(|e| format!("{what}, a copy of the bytes: {e}"))?;
        last = now;
        if let Event::Closed(f) = ev {
            let w = d.inner.borrow().writes;
            check_view(f, m, &h.uni)?;
            ensure!(d.inner.borrow().writes == w, "reading wrote to the stream");
            before_reads = w;
        }
        Ok(())
    })?;
    ensure!(d.snapshot() == last, "the bytes changed without a write");
    ensure!(d.inner.borrow().writes == before_reads, "reading wrote to the stream");
    Ok(())
}

// ---------------------------------------------------------------- regressions

fn uni() -> Universe {
    Universe { groups: vec!["g".into()], chans: vec![("g".into(), "a".into()), ("g".into(), "b".into()), ("g".into(), "c".into())], props: vec!["p".into()] }
}
fn w(chs: &[usize], ty: Ty, n: usize, inter: bool) -> Op {
    Op::Write(W { chs: chs.to_vec(), ty, n, inter, seed: 7 + n as u64, by_ref: false })
}
fn hist(ops: Vec<Op>) -> Hist { Hist { uni: uni(), ops } }

fn h_repeat() -> Hist { hist(vec![w(&[0], Ty::F64, 3, false), w(&[0], Ty::F64, 3, false)]) }
fn h_new_count() -> Hist { hist(vec![w(&[0, 1], Ty::I32, 3, false), w(&[0, 1], Ty::I32, 5, false), w(&[0, 1], Ty::I32, 2, true)]) }
fn h_new_type() -> Hist { hist(vec![w(&[0], Ty::F64, 4, false), w(&[0], Ty::I16, 4, false)]) }
fn h_prefix() -> Hist { hist(vec![w(&[0, 1, 2], Ty::F32, 2, true), w(&[0, 1], Ty::F32, 2, true), w(&[0, 1, 2], Ty::F32, 2, true)]) }
fn h_longer() -> Hist { hist(vec![w(&[0], Ty::F32, 2, true), w(&[0, 1], Ty::F32, 2, true)]) }
fn h_wide() -> Hist { hist(vec![w(&[0, 1], Ty::Ext, 3, false), w(&[0, 1], Ty::Time, 3, true), w(&[2], Ty::Ext, 2, false), w(&[2], Ty::Time, 2, false)]) }
fn h_props_live() -> Hist {
    hist(vec![w(&[0, 1], Ty::F64, 2, false), Op::Props(Target::Chan(0), vec![("p".into(), Pv::Fix(Ty::I32, 5))]), w(&[0, 1], Ty::F64, 2, false)])
}

macro_rules! reg {
    ($f:ident, $h:ident) => { (stringify!($h), |_: &mut Cx| $f(&$h())) };
}

fn parse_hist(h: &Hist) -> Res {
    let (bytes, m) = bytes_of_hist(h)?;
    same_model(&parser::parse(&bytes)?.model, &m)
}

fn r01() -> Regress {
    vec![reg!(session_data, h_repeat), reg!(session_data, h_new_count), reg!(session_data, h_new_type), reg!(session_data, h_prefix),
        reg!(session_data, h_longer), reg!(session_data, h_wide), reg!(session_data, h_props_live)]
}
fn r02() -> Regress {
    vec![reg!(reopen_view, h_repeat), reg!(reopen_view, h_new_count), reg!(reopen_view, h_new_type), reg!(reopen_view, h_prefix),
        reg!(reopen_view, h_longer), reg!(reopen_view, h_wide), reg!(reopen_view, h_props_live)]
}
fn r12() -> Regress {
    vec![reg!(parse_hist, h_repeat), reg!(parse_hist, h_new_count), reg!(parse_hist, h_new_type), reg!(parse_hist, h_prefix),
        reg!(parse_hist, h_longer), reg!(parse_hist, h_wide), reg!(parse_hist, h_props_live)]
}
fn r14() -> Regress {
    fn empty_write(_: &mut Cx) -> Res {
        for inter in [false, true] {
            let h = hist(vec![w(&[0, 1], Ty::F64, 2, inter), Op::Bad(Bad::Empty { chs: vec![0, 1], ty: Ty::F64, inter }), w(&[0, 1], Ty::F64, 2, inter)]);
            reopen_view(&h)?;
        }
        Ok(())
    }
    fn string_write(_: &mut Cx) -> Res {
        reopen_view(&hist(vec![w(&[0], Ty::F64, 2, false), Op::Bad(Bad::Strings { chs: vec![0], n: 2, inter: false }), w(&[0], Ty::F64, 2, false)]))
    }
    vec![("empty_write", empty_write), ("string_write", string_write)]
}


pub fn all() -> Vec<Property> {
    let level = "exploration";
    let assumptions: &[&str] = &["channels named in one write call are distinct", "samples are compared by bit pattern against an independent in-memory model"];
    vec![
        Property { id: "C01", level, rule: "cases are generated histories of channel writes (15 types, both layouts, repeated/prefix/rotated/extended channel lists, new counts and types), property writes, syncs, re-acquired writers and reads on a new in-memory file; after each writer is dropped every channel's length and samples are compared with the model. Non-trivial: at least two data writes.", run: c01, quick: 700000, thorough: 17500000, regress: r01, assumptions },
        Property { id: "C02", level, rule: "as C01, with more property writes; after each writer is dropped the complete view (listings, properties, lengths, samples, absence probes) of the session and of a fresh open of the bytes are both compared with the model. Non-trivial: at least two data writes.", run: c02, quick: 450000, thorough: 11250000, regress: r02, assumptions },
        Property { id: "C03", level, rule: "a generated well-formed file (70% from the independent encoder: both byte orders, layouts, chunks, inherited lists; 30% written by the library) followed by one to three open-append-close rounds of generated writes over the same names; complete views compared before, in session and after each reopen. Non-trivial: at least one data write onto a file that already has samples.", run: c03, quick: 250000, thorough: 6250000, regress: none, assumptions },
        Property { id: "C07", level, rule: "property-heavy generated histories on new files (65%) and on encoded foreign files (35%), 17 value types, overlapping names on file, groups and channels; all properties of all objects, absence of unwritten names, and all channel data compared with the model in session and after a fresh open. Non-trivial: at least two property writes.", run: c07, quick: 800000, thorough: 20000000, regress: none, assumptions },
        Property { id: "C12", level, rule: "generated histories on new files (75%) and on encoded foreign files (25%); after every writer is dropped the stream's bytes must be accepted by an independent strict parser whose objects, properties and samples equal the model. Non-trivial: at least two writes of which one carries data.", run: c12, quick: 650000, thorough: 16250000, regress: r12, assumptions },
        Property { id: "C14", level, rule: "generated histories with refused calls mixed in (no channels, a channel named twice, indivisible counts, no samples, string samples, unknown channels and objects, incompatible types); every refused call must return an error, all views are compared with the model, and the final bytes with those of the same history without the refused calls. Non-trivial: at least one refused call.", run: c14, quick: 600000, thorough: 15000000, regress: r14, assumptions },
        Property { id: "C15", level, rule: "generated histories with frequent syncs on an instrumented stream; at every successful sync and writer drop a copy of the bytes must open to the model's view, earlier bytes must be unchanged and never written in place, and opening, listing and reading must issue no writes. Non-trivial: at least two writes.", run: c15, quick: 300000, thorough: 7500000, regress: none, assumptions },
    ]
}

