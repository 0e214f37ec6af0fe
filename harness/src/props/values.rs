//! C18, C19: value encodings and conversions.
use super::common::*;
use super::{none, Regress};
use crate::disk::Disk;
use crate::engine::{mix, Cx, Property, Res, Source};
use crate::foreign::{encode, FFile, FIdx, FObj, FSeg};
use crate::hist::{gen_bits, gen_pv, gen_string};
use crate::model::*;
use crate::parser;
use crate::ty::{Smp, Ty, FOREIGN, NATIVE};
use crate::{ensure, fail, with_ty};
use chrono::{DateTime, Utc};
use labview_interop::types::LVTime;
use std::io::{Cursor, Read};
use tedium::types::{Complex, DataType, ExtendedRaw, TdmsStorageType};
use tedium::{PropertyPath, PropertyValue, TdmsError};

// ---------------------------------------------------------------- C18

/// Delivers one byte at a time, with interruptions.
struct Drip<'a>(&'a [u8], usize, bool);
impl Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.2 = !self.2 || self.1 % 3 == 1;
        if self.2 && self.1 % 3 != 1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        if buf.is_empty() || self.1 >= self.0.len() { return Ok(0); }
        buf[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}

/// Accepts one to three bytes at a time, with interruptions.
#[derive(Default)]
struct Sip(Vec<u8>, bool);
impl std::io::Write for Sip {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 && self.0.len() % 2 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = buf.len().min(1 + self.0.len() % 3);
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Takes so many bytes, and then fails.
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.0);
        if n == 0 && !buf.is_empty() { return Err(std::io::ErrorKind::StorageFull.into()); }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn check_codec<T: TdmsStorageType>(what: &str, v: &T, want: [Vec<u8>; 2], same: impl Fn(&T) -> bool, tail: usize) -> Res {
    for be in [false, true] {
        let want = &want[be as usize];
        let order = if be { "big" } else { "little" };
        let (mut out, mut out2) = (Vec::new(), Sip::default());
        let r = if be { v.write_be(&mut out).and(v.write_be(&mut out2)) } else { v.write_le(&mut out).and(v.write_le(&mut out2)) };
        ensure!(r.is_ok(), "{what}: {order}-endian encoding failed: {r:?}");
        ensure!(out == *want && out2.0 == *want, "{what}: {order}-endian encoding is {out:02x?} ({:02x?} in pieces), expected {want:02x?}", out2.0);
        ensure!(v.size() == out.len(), "{what}: declared size {} but encoded to {} bytes", v.size(), out.len());
        // decoding consumes exactly the encoded bytes
        let mut long = out.clone();
        long.extend((0..tail).map(|i| mix(i as u64) as u8));
        let mut c = Cursor::new(&long);
        let r = if be { T::read_be(&mut c) } else { T::read_le(&mut c) };
        match r {
            Ok(x) => ensure!(same(&x), "{what}: {order}-endian decoding gives another value"),
            Err(e) => fail!("{what}: {order}-endian decoding failed: {e:?}"),
        }
        ensure!(c.position() == out.len() as u64, "{what}: {order}-endian decoding consumed {} of {} bytes", c.position(), out.len());
        let mut d = Drip(&long, 0, false);
        match if be { T::read_be(&mut d) } else { T::read_le(&mut d) } {
            Ok(x) => ensure!(same(&x) && d.1 == out.len(), "{what}: {order}-endian decoding from single bytes gives another value or length {}", d.1),
            Err(e) => fail!("{what}: {order}-endian decoding from single bytes failed: {e:?}"),
        }
        // too few bytes
        let step = (out.len() / 40).max(1);
        for n in (0..out.len()).step_by(step).chain([out.len() - 1]) {
            let mut c = Cursor::new(&out[..n]);
            ensure!(if be { T::read_be(&mut c) } else { T::read_le(&mut c) }.is_err(), "{what}: {order}-endian decoding from {n} of {} bytes succeeded", out.len());
            let mut w = Full(n);
            ensure!(if be { v.write_be(&mut w) } else { v.write_le(&mut w) }.is_err(), "{what}: {order}-endian encoding into {n} of {} bytes succeeded", out.len());
        }
    }
    Ok(())
}

fn check_fixed(ty: Ty, bits: u128, tail: usize) -> Res {
    let mut want = [Vec::new(), Vec::new()];
    ty.encode(bits, false, &mut want[0]);
    ty.encode(bits, true, &mut want[1]);
    with_ty!(ty, T => {
        let v = <T as Smp>::of(bits);
        ensure!(v.is(bits), "HARNESS: conversion of {ty:?} {bits:#x}");
        check_codec(&format!("{ty:?} {bits:#x}"), &v, want, |x: &T| x.is(bits), tail)
    })
}

fn check_string(t: &str, tail: usize) -> Res {
    let mut want = [(t.len() as u32).to_le_bytes().to_vec(), (t.len() as u32).to_be_bytes().to_vec()];
    for w in &mut want { w.extend_from_slice(t.as_bytes()); }
    let shown: String = t.chars().take(40).collect();
    check_codec(&format!("string {shown:?}"), &t.to_string(), want, |x| x == t, tail)
}

/// Pieces that are no text: characters cut short, continuations of nothing, overlong forms, surrogates, codes beyond the last.
pub const BAD_TEXT: &[&[u8]] = &[&[0xc3], &[0xe2, 0x82], &[0xe6], &[0xf0, 0x9f, 0x98], &[0xf0, 0x9f], &[0xf0], &[0x80], &[0xbf, 0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xed, 0xb0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xff, 0xfe]];

fn c18(s: &mut Source, cx: &mut Cx) -> Res {
    let tail = s.below(20);
    cx.nontrivial = true;
    if s.chance(15) {
        let t = gen_string(s);
        cx.label("string");
        cx.note(|| format!("string {t:?}"));
        check_string(&t, tail)?;
        // invalid text
        let mut b = (t.len() as u32 + 1).to_le_bytes().to_vec();
        b.extend_from_slice(t.as_bytes());
        if s.chance(50) { b.insert(4 + s.below(t.len() + 1), *s.pick(&[0xff, 0xc0, 0xf8, 0x80])); } else {
            let piece = *s.pick(BAD_TEXT);
            let at = 4 + if s.chance(50) { t.len() } else { s.below(t.len() + 1) };
            for x in piece.iter().rev() { b.insert(at, *x); }
            let n = (b.len() as u32 - 4).to_le_bytes();
            b[..4].copy_from_slice(&n);
        }
        if std::str::from_utf8(&b[4..]).is_err() {
            ensure!(String::read_le(&mut Cursor::new(&b)).is_err(), "bytes that are not UTF-8 were decoded: {b:02x?}");
        }
        // a length beyond the data
        let n = s.draw(u32::MAX as u64) as u32 >> s.draw(16);
        if n as usize > t.len() && n < 1 << 26 {
            let mut b = n.to_be_bytes().to_vec();
            b.extend_from_slice(t.as_bytes());
            ensure!(String::read_be(&mut Cursor::new(&b)).is_err(), "a string of {n} bytes was decoded from {} bytes", t.len());
        }
        return Ok(());
    }
    let ty = *s.pick(&NATIVE);
    let bits = match s.below(4) {
        0 => gen_bits(s, ty),
        1 => ty.sample(s.u64(), s.u64()),
        2 => {
            // a single byte or bit set
            let v = (1 + s.draw(254) as u128) << (8 * s.below(ty.size()));
            if ty == Ty::Bool { v & 1 } else { v }
        }
        _ => {
            let v = (s.u64() as u128) << 64 | s.u64() as u128;
            let n = ty.size();
            if ty == Ty::Bool { v & 1 } else if n == 16 { v } else { v & ((1 << (8 * n)) - 1) }
        }
    };
    cx.label(match ty.size() { 1 => "1-byte type", 2 => "2-byte type", 4 => "4-byte type", 8 => "8-byte type", 10 => "10-byte type", _ => "16-byte type" });
    cx.note(|| format!("{ty:?} {bits:#x}"));
    check_fixed(ty, bits, tail)
}

fn r18() -> Regress {
    fn codes_and_sizes(cx: &mut Cx) -> Res {
        for ty in FOREIGN.iter().chain([&Ty::Str]) {
            let d = ty.data_type();
            ensure!(d as u32 == ty.code(), "{d:?} has the code {:#x}, the format defines {:#x}", d as u32, ty.code());
            if *ty != Ty::Str { ensure!(d.size() as usize == ty.size(), "{d:?} has the size {}, the format defines {}", d.size(), ty.size()); }
            cx.evals += 2;
        }
        ensure!(DataType::Void.size() == 0, "a value of type Void has the size {}", DataType::Void.size());
        ensure!(DataType::Void as u32 == 0, "the code of Void is {}", DataType::Void as u32);
        ensure!(DataType::FixedPoint as u32 == 0x4F && DataType::DAQmxRawData as u32 == 0xFFFF_FFFF, "codes of FixedPoint or DAQmxRawData");
        for ty in NATIVE {
            with_ty!(ty, T => {
                ensure!(<T as TdmsStorageType>::SIZE_BYTES == ty.size(), "{ty:?}: SIZE_BYTES is {}, the format defines {}", <T as TdmsStorageType>::SIZE_BYTES, ty.size());
                ensure!(<T as TdmsStorageType>::NATURAL_TYPE == ty.data_type(), "{ty:?}: the natural type is {:?}", <T as TdmsStorageType>::NATURAL_TYPE);
                for stored in FOREIGN.iter().chain([&Ty::Str]) {
                    ensure!(<T as TdmsStorageType>::supports_data_type(&stored.data_type()) == stored.readable_as(ty), "{ty:?}: supports_data_type({stored:?})");
                    cx.evals += 1;
                }
            });
        }
        ensure!(String::NATURAL_TYPE == DataType::TdmsString, "natural type of strings");
        Ok(())
    }
    // every value of the small types
    fn small_values(cx: &mut Cx) -> Res {
        for ty in [Ty::I8, Ty::U8] { for v in 0..256u128 { check_fixed(ty, v, 3)?; cx.evals += 1; } }
        for ty in [Ty::I16, Ty::U16] { for v in 0..65536u128 { check_fixed(ty, v, 1)?; cx.evals += 1; } }
        for v in 0..2 { check_fixed(Ty::Bool, v, 3)?; }
        for v in 0..=255u8 {
            for be in [false, true] {
                let r = if be { bool::read_be(&mut Cursor::new([v])) } else { bool::read_le(&mut Cursor::new([v])) };
                ensure!(matches!(r, Ok(b) if b == (v != 0)), "the byte {v} as a boolean is {r:?}");
            }
        }
        for ty in NATIVE {
            for i in 0..ty.size() {
                for b in [1u128, 0x80, 0xff] {
                    if ty == Ty::Bool { continue; }
                    check_fixed(ty, b << (8 * i), 2)?;
                    cx.evals += 1;
                }
            }
        }
        check_string("", 3)?;
        check_string("日本\0", 3)
    }
    vec![("codes_and_sizes", codes_and_sizes), ("small_values", small_values)]
}

// ---------------------------------------------------------------- C19

/// The native types property values convert to.

fn lib_type(v: &Pv) -> DataType {
    match v {
        Pv::Void => DataType::Void,
        Pv::Str(_) => DataType::TdmsString,
        Pv::Fix(t, _) => t.reader().data_type(),
    }
}

macro_rules! conv {
    ($T:ty, $v:expr, $pv:expr, $want:expr, $natural:expr) => {{
        let lib: &PropertyValue = $v;
        let want: Option<u128> = $want;
        let by_ref = <$T>::try_from(lib);
        let by_val = <$T>::try_from(lib.clone());
        for (how, r) in [("by reference", by_ref), ("by value", by_val)] {
            match (r, want) {
                (Ok(x), Some(b)) => ensure!(x.is(b), "{lib:?} {how} as {} is {}", stringify!($T), x.show()),
                (Err(TdmsError::DataTypeMismatch(a, b)), None) => ensure!(a == lib_type($pv) && b == $natural, "{lib:?} {how} as {}: the mismatch names {a} and {b}", stringify!($T)),
                (r, w) => fail!("{lib:?} {how} as {} gives {:?}, expected {}", stringify!($T), r.map(|x| x.show()), if w.is_some() { "success" } else { "a type mismatch" }),
            }
        }
        // the native value becomes this property value
        if let Some(b) = want {
            let p = PropertyValue::from(<$T as Smp>::of(b));
            ensure!($pv.is(&p), "{} {b:#x} becomes {p:?}", stringify!($T));
            ensure!(p.datatype() == $natural, "{} {b:#x} becomes a {}", stringify!($T), p.datatype());
        }
    }};
}

fn check_conversions(pv: &Pv) -> Res {
    let lib = pv.to_lib();
    ensure!(pv.is(&lib), "HARNESS: {pv:?} -> {lib:?}");
    ensure!(lib.datatype() == lib_type(pv), "{lib:?} reports the type {}", lib.datatype());
    let want = |t: Ty| match pv { Pv::Fix(x, b) if x.reader() == t => Some(*b), _ => None };
    conv!(i8, &lib, pv, want(Ty::I8), DataType::I8);
    conv!(i16, &lib, pv, want(Ty::I16), DataType::I16);
    conv!(i32, &lib, pv, want(Ty::I32), DataType::I32);
    conv!(i64, &lib, pv, want(Ty::I64), DataType::I64);
    conv!(u8, &lib, pv, want(Ty::U8), DataType::U8);
    conv!(u16, &lib, pv, want(Ty::U16), DataType::U16);
    conv!(u32, &lib, pv, want(Ty::U32), DataType::U32);
    conv!(u64, &lib, pv, want(Ty::U64), DataType::U64);
    conv!(f32, &lib, pv, want(Ty::F32), DataType::SingleFloat);
    conv!(f64, &lib, pv, want(Ty::F64), DataType::DoubleFloat);
    conv!(bool, &lib, pv, want(Ty::Bool), DataType::Boolean);
    conv!(LVTime, &lib, pv, want(Ty::Time), DataType::Timestamp);
    conv!(Complex<f32>, &lib, pv, want(Ty::C32), DataType::ComplexSingleFloat);
    conv!(Complex<f64>, &lib, pv, want(Ty::C64), DataType::ComplexDoubleFloat);
    let text = match pv { Pv::Str(s) => Some(s.as_str()), _ => None };
    let a: Result<String, TdmsError> = lib.clone().try_into();
    let b: Result<&str, TdmsError> = (&lib).try_into();
    match (a, b, text) {
        (Ok(a), Ok(b), Some(t)) => {
            ensure!(a == t && b == t, "{lib:?} as a string is {a:?} / {b:?}");
            ensure!(pv.is(&PropertyValue::from(t)) && pv.is(&PropertyValue::from(t.to_string())), "string {t:?} becomes another property value");
        }
        (Err(TdmsError::DataTypeMismatch(x, y)), Err(TdmsError::DataTypeMismatch(z, w)), None) =>
            ensure!(x == lib_type(pv) && z == x && y == DataType::TdmsString && w == y, "{lib:?} as a string: the mismatch names {x}, {y} and {z}, {w}"),
        (a, b, t) => fail!("{lib:?} as a string gives {a:?} / {b:?}, expected {t:?}"),
    }
    // calendar times
    let a: Result<DateTime<Utc>, TdmsError> = lib.clone().try_into();
    let b: Result<DateTime<Utc>, TdmsError> = (&lib).try_into();
    if let Pv::Fix(Ty::Time, bits) = pv {
        let (secs, frac) = ((*bits >> 64) as u64 as i64, *bits as u64);
        let nanos = ((frac as u128 * 1_000_000_000) >> 64) as i64;
        // whether the calendar has such a time is for the calendar to say
        let exists = secs.checked_sub(LV_UNIX).is_some_and(|s| DateTime::<Utc>::from_timestamp(s, 0).is_some());
        for r in [a, b] {
            match r {
                Ok(d) => {
                    ensure!(exists, "{lib:?} is beyond any calendar time but becomes {d}");
                    let off = (d.timestamp() as i128 + LV_UNIX as i128 - secs as i128) * 1_000_000_000 + d.timestamp_subsec_nanos() as i128 - nanos as i128;
                    ensure!(off.abs() <= 1000, "{lib:?} as a calendar time is {d}, which is {off} ns away");
                }
                Err(TdmsError::ChronoDateTimeConversionFailed(_)) if !exists => {}
                Err(e) => fail!("{lib:?} as a calendar time fails: {e:?}"),
            }
        }
    } else {
        match (a, b) {
            (Err(TdmsError::DataTypeMismatch(x, y)), Err(TdmsError::DataTypeMismatch(z, w))) =>
                ensure!(x == lib_type(pv) && z == x && y == DataType::Timestamp && w == y, "{lib:?} as a calendar time: the mismatch names {x}, {y} and {z}, {w}"),
            (a, b) => fail!("{lib:?} as a calendar time gives {a:?} / {b:?}"),
        }
    }
    Ok(())
}

const LV_UNIX: i64 = 2_082_844_800;
const LV_2100: i64 = 4_102_444_800 + LV_UNIX;

fn check_date(secs: i64, nanos: u32) -> Res {
    let d: DateTime<Utc> = match DateTime::from_timestamp(secs - LV_UNIX, nanos) { Some(d) => d, None => fail!("HARNESS: date") };
    let pv = PropertyValue::from(d);
    ensure!(pv.datatype() == DataType::Timestamp, "{d} becomes a {}", pv.datatype());
    let a: Result<DateTime<Utc>, TdmsError> = (&pv).try_into();
    let b: Result<DateTime<Utc>, TdmsError> = pv.clone().try_into();
    for r in [a, b] {
        match r {
            Ok(x) => {
                let off = (x.timestamp() - d.timestamp()) as i128 * 1_000_000_000 + x.timestamp_subsec_nanos() as i128 - nanos as i128;
                ensure!(off.abs() <= 1000, "{d:?} became {pv:?} and back {x:?}, {off} ns away");
            }
            Err(e) => fail!("{d:?} became {pv:?}, which does not convert back: {e:?}"),
        }
    }
    Ok(())
}

fn check_stored(list: &[(String, Pv)]) -> Res {
    // written by the library
    let (mut f, d) = new_file()?;
    let vals: Vec<(&str, PropertyValue)> = list.iter().map(|(k, v)| (k.as_str(), v.to_lib())).collect();
    let path = PropertyPath::channel("g", "c");
    {
        let mut w = f.writer().map_err(|e| format!("writer: {e:?}"))?;
        w.write_properties(&path, &vals).map_err(|e| format!("write_properties failed: {e:?}"))?;
    }
    let check = |f: &tedium::TdmsFile<Disk>, how: &str| -> Res {
        for (i, (k, v)) in list.iter().enumerate() {
            if list[i + 1..].iter().any(|(x, _)| x == k) { continue; }
            match f.read_property(&path, k) {
                Ok(Some(x)) => ensure!(v.is(x), "{how}: {v:?} reads back as {x:?}"),
                r => fail!("{how}: {v:?} reads back as {r:?}"),
            }
        }
        Ok(())
    };
    check(&f, "in the writing session")?;
    check(&must_open(d.snapshot(), "file with properties")?, "written by the library")?;
    let p = parser::parse(&d.snapshot())?;
    let o = &p.model.objects["/'g'/'c'"];
    for (i, (k, v)) in list.iter().enumerate() {
        if list[i + 1..].iter().any(|(x, _)| x == k) { continue; }
        let want = match v { Pv::Fix(t, b) => Pv::Fix(t.reader(), *b), v => v.clone() };
        ensure!(o.props.get(k) == Some(&want), "{v:?} was stored as {:?}", o.props.get(k));
    }
    // encoded independently, both orders
    for be in [false, true] {
        let mut props: Vec<(String, Pv)> = Vec::new();
        for (k, v) in list { props.retain(|x| x.0 != *k); props.push((k.clone(), v.clone())); }
        let f = FFile { segs: vec![FSeg { be, inter: false, new_list: true, meta: Some(vec![FObj { group: Some("g".into()), chan: Some("c".into()), idx: FIdx::None, props }]), raw: None, version: 4713, pad: 0 }] };
        check(&must_open(encode(&f, false).bytes, "encoded file")?, if be { "encoded big-endian" } else { "encoded little-endian" })?;
    }
    Ok(())
}

fn c19(s: &mut Source, cx: &mut Cx) -> Res {
    let mut list: Vec<(String, Pv)> = Vec::new();
    while s.more(list.len(), 1, 20, 6) {
        let v = gen_pv(s, true);
        list.push((crate::hist::gen_prop_name(s), v));
    }
    let (secs, nanos) = (s.draw(LV_2100 as u64 - 1) as i64, s.draw(999_999_999) as u32);
    let nanos = match s.below(4) { 0 => 0, 1 => 999_999_999, _ => nanos };
    // any calendar time: years around 1904 more often than those far away
    let (first, last) = (DateTime::<Utc>::MIN_UTC.timestamp(), DateTime::<Utc>::MAX_UTC.timestamp());
    let far = match s.below(4) {
        0 => s.draw(LV_2100 as u64) as i64 - LV_2100,
        1 => (1i64 << s.below(43)) * if s.chance(50) { -1 } else { 1 } + s.below(3) as i64,
        2 => *s.pick(&[first, last, -62_135_596_800, 0, -LV_UNIX, 253_402_300_800]) + s.draw(100) as i64 - 50,
        _ => first + s.draw((last - first) as u64) as i64,
    }.clamp(first, last) + LV_UNIX;
    cx.note(|| format!("{list:?}; dates {secs} and {far} +{nanos} ns"));
    cx.nontrivial = list.iter().any(|(_, v)| *v != Pv::Void);
    for (_, v) in &list {
        cx.label(match v { Pv::Void => "void", Pv::Str(_) => "string", Pv::Fix(t, _) if t.reader() != *t => "unit-carrying float", Pv::Fix(Ty::Time, _) => "timestamp", Pv::Fix(Ty::Ext, _) => "extended", Pv::Fix(..) => "other value" });
        let plain = match v { Pv::Fix(t, b) => Pv::Fix(t.reader(), *b), v => v.clone() };
        check_conversions(&plain)?;
        cx.evals += 1;
    }
    // timestamps at the edges of their parts
    let whole: i64 = match s.below(5) { 0 => i64::MIN, 1 => i64::MAX, 2 => LV_UNIX + i64::MIN, 3 => -8_334_601_228_800 + LV_UNIX, _ => secs };
    let whole = whole.wrapping_add(s.below(5) as i64 - 2);
    let frac = match s.below(4) { 0 => s.u64(), 1 => s.below(5000) as u64, 2 => u64::MAX - s.below(5000) as u64, _ => 1u64 << s.below(64) };
    check_conversions(&Pv::Fix(Ty::Time, (whole as u64 as u128) << 64 | frac as u128))?;
    // timestamps in the calendar range
    check_conversions(&Pv::Fix(Ty::Time, (secs as u128) << 64 | (nanos as u128) << 32))?;
    check_date(secs, nanos)?;
    cx.label_if(far < 0, "calendar time before 1904");
    check_date(far, nanos)?;
    check_stored(&list)?;
    cx.evals += 4;
    Ok(())
}

fn r19() -> Regress {
    fn units_and_wide(_: &mut Cx) -> Res {
        for t in FOREIGN {
            for seed in 0..20 {
                let v = Pv::Fix(t, t.sample(seed, 1));
                check_stored(&[("p".into(), v.clone()), ("q".into(), Pv::Str("x".into()))])?;
                if t.reader() == t { check_conversions(&v)?; }
            }
        }
        let e = PropertyValue::Extended(ExtendedRaw::new(5));
        ensure!(e.datatype() == DataType::ExtendedFloat, "type of extended values");
        Ok(())
    }
    fn dates(_: &mut Cx) -> Res {
        for secs in [i64::MIN, i64::MIN + LV_UNIX - 1, i64::MIN + LV_UNIX, -1, 0, 59, 60, LV_UNIX, i64::MAX] {
            for frac in [0, 1, 1 << 63, u64::MAX - 1024, u64::MAX - 1023, u64::MAX] { check_conversions(&Pv::Fix(Ty::Time, (secs as u64 as u128) << 64 | frac as u128))?; }
        }
        for secs in [DateTime::<Utc>::MIN_UTC.timestamp() + LV_UNIX, -1 << 36, -1 << 32, -86_400, -2, -1, 1 << 36, DateTime::<Utc>::MAX_UTC.timestamp() + LV_UNIX, 0, 1, LV_UNIX - 1, LV_UNIX, LV_UNIX + 1, 1 << 31, 1 << 32, LV_2100 - 1] {
            for nanos in [0, 1, 999, 1000, 500_000_000, 999_999_000, 999_999_999] { check_date(secs, nanos)?; }
        }
        Ok(())
    }
    vec![("units_and_wide", units_and_wide), ("dates", dates)]
}

pub fn all() -> Vec<Property> {
    let level = "exploration";
    let _ = none;
    vec![
        Property { id: "C18", level, rule: "values of the 15 fixed-size types (random bits, special patterns, single bytes) and strings (empty to 12 kB, unicode) encoded in both orders, whole and in pieces, compared with an independent encoder of the NI layouts; sizes, exact consumption, every truncation, invalid text; all 8- and 16-bit values, all type codes, sizes and supported-type relations are enumerated. Every case is non-trivial.", run: c18, quick: 6000000, thorough: 150000000, regress: r18, assumptions: &["the type codes and layouts of the NI TDMS format description are transcribed in the harness (ty.rs)"] },
        Property { id: "C19", level, rule: "lists of 1 to 20 named values of all 18 stored types, strings and Void: each is converted to all 16 native types by value and reference, written and read back through the library, parsed from the emitted bytes, and read from independently encoded little- and big-endian files; calendar times between 1904 and 2100, and any other the calendar type has, round-trip within 1 microsecond. Non-trivial: at least one non-void value.", run: c19, quick: 2000000, thorough: 50000000, regress: r19, assumptions: &[] },
    ]
}
