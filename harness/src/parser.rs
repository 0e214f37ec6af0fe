//! An independent strict TDMS parser used as the oracle for emitted bytes. It accepts only what the format description
//! allows without ambiguity and rebuilds the model from the bytes alone.

use crate::model::*;
use crate::ty::Ty;
use std::collections::BTreeMap;

struct Cur<'a> { b: &'a [u8], p: usize, be: bool }

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        if self.b.len() - self.p < n { return Err(format!("{what}: {n} bytes needed at {}, {} left", self.p, self.b.len() - self.p)); }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u32(&mut self, what: &str) -> Result<u32, String> {
        let a: [u8; 4] = self.take(4, what)?.try_into().unwrap();
        Ok(if self.be { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) })
    }
    fn u64(&mut self, what: &str) -> Result<u64, String> {
        let a: [u8; 8] = self.take(8, what)?.try_into().unwrap();
        Ok(if self.be { u64::from_be_bytes(a) } else { u64::from_le_bytes(a) })
    }
    fn str(&mut self, what: &str) -> Result<String, String> {
        let n = self.u32(what)? as usize;
        let b = self.take(n, what)?;
        String::from_utf8(b.to_vec()).map_err(|e| format!("{what}: {e}"))
    }
}

/// Splits a path text into names as stored (quotes inside a name are doubled).
pub fn split_path(t: &str) -> Option<(Option<String>, Option<String>)> {
    let b: Vec<char> = t.chars().collect();
    if b == ['/'] { return Some((None, None)); }
    let mut names = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != '/' || b.get(i + 1) != Some(&'\'') { return None; }
        i += 2;
        let mut name = String::new();
        loop {
            match b.get(i)? {
                '\'' if b.get(i + 1) == Some(&'\'') => { name.push_str("''"); i += 2; }
                '\'' => { i += 1; break; }
                c => { name.push(*c); i += 1; }
            }
        }
        names.push(name);
    }
    match names.len() {
        1 => Some((Some(names.remove(0)), None)),
        2 => { let g = names.remove(0); Some((Some(g), Some(names.remove(0)))) }
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
struct Live { ty: Ty, n: u64 }

#[derive(Debug, Default)]
pub struct Parsed { pub model: Model, pub segments: usize, pub no_meta: usize, pub bounds: Vec<(usize, usize, usize)> }

pub fn parse(bytes: &[u8]) -> Result<Parsed, String> {
    let mut out = Parsed::default();
    let mut formats: BTreeMap<String, Live> = BTreeMap::new();
    // (path, has data in the current segment)
    let mut list: Vec<(String, bool)> = Vec::new();
    let mut pos = 0usize;
    while pos < bytes.len() {
        let at = format!("segment {} at byte {pos}", out.segments);
        let mut c = Cur { b: bytes, p: pos, be: false };
        let tag = c.take(4, &at)?;
        if tag != b"TDSm" { return Err(format!("{at}: tag is {tag:02x?}")); }
        let toc = c.u32(&at)?;
        if toc & !0b0110_1110 != 0 { return Err(format!("{at}: undefined or unsupported contents flags {toc:#x}")); }
        let (has_meta, new_list, has_raw, inter) = (toc & 2 != 0, toc & 4 != 0, toc & 8 != 0, toc & 32 != 0);
        c.be = toc & 64 != 0;
        let version = c.u32(&at)?;
        if version != 4712 && version != 4713 { return Err(format!("{at}: version {version}")); }
        let next = c.u64(&at)?;
        let rawo = c.u64(&at)?;
        if rawo > next { return Err(format!("{at}: raw data offset {rawo} beyond the segment end {next}")); }
        let body = c.p;
        if (bytes.len() - body) as u64 != next && ((bytes.len() - body) as u64) < next { return Err(format!("{at}: next segment offset {next} but only {} bytes follow", bytes.len() - body)); }
        let (rawo, next) = (rawo as usize, next as usize);
        if new_list && !has_meta { return Err(format!("{at}: a new object list without metadata")); }
        if has_meta {
            if new_list { list.clear(); }
            let count = c.u32(&at)?;
            let mut seen: Vec<String> = Vec::new();
            for i in 0..count {
                let what = format!("{at} object {i}");
                let path = c.str(&what)?;
                let (g, ch) = split_path(&path).ok_or_else(|| format!("{what}: malformed path {path:?}"))?;
                if seen.contains(&path) { return Err(format!("{what}: {path:?} listed twice")); }
                seen.push(path.clone());
                let idx = c.u32(&what)?;
                let has_data = match idx {
                    0xFFFF_FFFF => false,
                    0 => {
                        if !formats.contains_key(&path) { return Err(format!("{what}: {path:?} matches a previous description that does not exist")); }
                        true
                    }
                    len => {
                        let start = c.p;
                        let code = c.u32(&what)?;
                        let ty = Ty::from_code(code).ok_or_else(|| format!("{what}: data type code {code:#x}"))?;
                        let dims = c.u32(&what)?;
                        if dims != 1 { return Err(format!("{what}: array dimension {dims}")); }
                        let n = c.u64(&what)?;
                        if ty == Ty::Str { return Err(format!("{what}: string channel data")); }
                        if len as usize != c.p - start + 4 { return Err(format!("{what}: index length {len}, actual {}", c.p - start + 4)); }
                        formats.insert(path.clone(), Live { ty, n });
                        true
                    }
                };
                if has_data && ch.is_none() { return Err(format!("{what}: data on {path:?}, which is not a channel")); }
                match list.iter_mut().find(|(p, _)| *p == path) {
                    Some(l) => l.1 = has_data,
                    None => list.push((path.clone(), has_data)),
                }
                let o = out.model.obj(g.as_deref(), ch.as_deref());
                let np = c.u32(&what)?;
                for k in 0..np {
                    let what = format!("{what} property {k}");
                    let name = c.str(&what)?;
                    let code = c.u32(&what)?;
                    let v = match code {
                        0 => Pv::Void,
                        0x20 => Pv::Str(c.str(&what)?),
                        code => {
                            let ty = Ty::from_code(code).ok_or_else(|| format!("{what}: property type code {code:#x}"))?;
                            let be = c.be;
                            Pv::Fix(ty, ty.decode(c.take(ty.size(), &what)?, be))
                        }
                    };
                    o.props.insert(name, v);
                }
            }
            if c.p != body + rawo { return Err(format!("{at}: metadata ends at {} but the raw data offset says {}", c.p - body, rawo)); }
        } else {
            if rawo != 0 { return Err(format!("{at}: no metadata but raw data offset {rawo}")); }
            out.no_meta += 1;
        }
        let raw_len = next - rawo;
        if has_raw != (raw_len > 0) { return Err(format!("{at}: raw data flag {has_raw} but {raw_len} bytes of raw data")); }
        if has_raw {
            let chans: Vec<(String, Live)> = list.iter().filter(|l| l.1).map(|l| (l.0.clone(), formats[&l.0])).collect();
            if chans.is_empty() { return Err(format!("{at}: raw data without data objects")); }
            let chunk: u64 = chans.iter().map(|(_, l)| l.n * l.ty.size() as u64).sum();
            if chunk == 0 || raw_len as u64 % chunk != 0 { return Err(format!("{at}: {raw_len} bytes of raw data do not make whole chunks of {chunk} bytes")); }
            let chunks = raw_len as u64 / chunk;
            if inter && chans.iter().any(|x| x.1.n != chans[0].1.n) { return Err(format!("{at}: interleaved channels of different lengths")); }
            let mut vals: Vec<Vec<u128>> = vec![Vec::new(); chans.len()];
            let be = c.be;
            for _ in 0..chunks {
                if inter {
                    for _ in 0..chans[0].1.n {
                        for (i, (_, l)) in chans.iter().enumerate() { vals[i].push(l.ty.decode(c.take(l.ty.size(), &at)?, be)); }
                    }
                } else {
                    for (i, (_, l)) in chans.iter().enumerate() {
                        for _ in 0..l.n { vals[i].push(l.ty.decode(c.take(l.ty.size(), &at)?, be)); }
                    }
                }
            }
            for ((p, l), v) in chans.into_iter().zip(vals) {
                out.model.objects.get_mut(&p).unwrap().blocks.push(Block { ty: l.ty, vals: v });
            }
        }
        out.bounds.push((pos, body + rawo, body + next));
        pos = body + next;
        out.segments += 1;
    }
    Ok(out)
}
