//! Helpers shared by the properties.
use crate::disk::Disk;
use crate::engine::{Cx, Res, Source};
use crate::foreign::{self, encode, gen_file, Encoded, FCfg};
use crate::hist::*;
use crate::model::*;
use tedium::{TdmsError, TdmsFile};

pub fn open(bytes: Vec<u8>) -> Result<TdmsFile<Disk>, TdmsError> {
    TdmsFile::new(Disk::new(bytes))
}

pub fn must_open(bytes: Vec<u8>, what: &str) -> Result<TdmsFile<Disk>, String> {
    let n = bytes.len();
    open(bytes).map_err(|e| format!("{what}: opening {n} bytes failed: {e:?}"))
}

/// A new file and a handle to its bytes.
pub fn new_file() -> Result<(TdmsFile<Disk>, Disk), String> {
    open_shared(Vec::new(), "empty file")
}

pub fn open_shared(bytes: Vec<u8>, what: &str) -> Result<(TdmsFile<Disk>, Disk), String> {
    let d = Disk::new(bytes);
    let h = d.handle();
    let f = TdmsFile::new(d).map_err(|e| format!("{what}: open failed: {e:?}"))?;
    Ok((f, h))
}

/// Opens the current bytes behind `h` as a new stream.
pub fn reopen_copy(h: &Disk, what: &str) -> Result<TdmsFile<Disk>, String> {
    must_open(h.snapshot(), what)
}

/// Runs a history on the file of `h`, replacing the file by a fresh open of its bytes at every `Reopen`.
pub fn run_on_disk(
    file: &mut TdmsFile<Disk>,
    h: &Disk,
    hist: &Hist,
    m: &mut Model,
    obs: impl FnMut(Event<'_, Disk>, &Model) -> Res,
) -> Res {
    let h2 = h.handle();
    run_hist(file, hist, m, move |f| {
        *f = TdmsFile::new(h2.handle()).map_err(|e| format!("reopen failed: {e:?}"))?;
        Ok(())
    }, obs)
}

/// Builds the bytes of a history with the library.
pub fn bytes_of_hist(hist: &Hist) -> Result<(Vec<u8>, Model), String> {
    let (mut f, h) = new_file()?;
    let mut m = Model::default();
    run_on_disk(&mut f, &h, hist, &mut m, |_, _| Ok(()))?;
    drop(f);
    Ok((h.snapshot(), m))
}

/// A file to start from: mostly foreign, sometimes written by this library.
pub struct Start {
    pub bytes: Vec<u8>,
    pub model: Model,
    pub uni: Universe,
    pub foreign: Option<Encoded>,
    pub desc: String,
}

pub fn gen_start(s: &mut Source, cx: &mut Cx, cfg: &FCfg, own_percent: u64) -> Result<Start, String> {
    if s.chance(own_percent) {
        let hist = gen_hist(s, &HCfg { reads: false, avg_ops: 5, big: cfg.big, ..HCfg::default() });
        cx.note(|| format!("start: written by the library: {hist:?}"));
        cx.label("starts from a file this library wrote");
        let (bytes, model) = bytes_of_hist(&hist)?;
        Ok(Start { bytes, model, uni: hist.uni, foreign: None, desc: String::new() })
    } else {
        let (u, f) = gen_file(s, cfg);
        cx.note(|| format!("start: foreign file {}", foreign::describe(&f)));
        let e = encode(&f, true);
        label_foreign(cx, &f);
        Ok(Start { bytes: e.bytes.clone(), model: e.model(), uni: u.universe(), foreign: Some(e), desc: foreign::describe(&f) })
    }
}

pub fn label_foreign(cx: &mut Cx, f: &foreign::FFile) {
    for s in &f.segs {
        cx.label_if(s.be, "big-endian segment");
        cx.label_if(!s.be, "little-endian segment");
        cx.label_if(s.inter && s.raw.is_some(), "interleaved data");
        cx.label_if(!s.inter && s.raw.is_some(), "contiguous data");
        cx.label_if(s.meta.is_none(), "segment without metadata");
        cx.label_if(s.meta.is_some() && !s.new_list, "object list carried over");
        cx.label_if(s.raw.is_some_and(|r| r.0 > 1), "several chunks in a segment");
        if let Some(o) = &s.meta {
            cx.label_if(o.iter().any(|x| x.idx == foreign::FIdx::Match), "description matched to previous");
            cx.label_if(o.iter().any(|x| matches!(x.idx, foreign::FIdx::Raw { ty: crate::ty::Ty::Str, .. })), "string channel");
        }
    }
    cx.label_if(f.segs.len() > 1, "two or more segments");
}

pub fn short(v: &[u64]) -> String { format!("{v:?}") }

/// Does KNOWN_FINDINGS.txt list this defect?
pub fn known_finding(property: &str, name: &str) -> bool {
    let list = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/../KNOWN_FINDINGS.txt")).unwrap_or_default();
    let start = format!("known: property={property} {name}:");
    list.lines().any(|l| l.starts_with(&start))
}
