//! The reference model of a TDMS file and the comparison of a library file with it.

use crate::ty::{Smp, Ty};
use crate::{ensure, fail, with_ty};
use crate::engine::Res;
use labview_interop::types::LVTime;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Seek};
use tedium::types::{Complex, ExtendedRaw};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsError, TdmsFile};

// ---------------------------------------------------------------- property values

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Pv {
    Void,
    Str(String),
    /// A fixed-size value; unit-carrying floats only in foreign files.
    Fix(Ty, u128),
}

impl Pv {
    pub fn to_lib(&self) -> PropertyValue {
        match self {
            Pv::Void => PropertyValue::Void,
            Pv::Str(s) => PropertyValue::String(s.clone()),
            Pv::Fix(t, b) => match t {
                Ty::Bool => PropertyValue::Boolean(*b != 0),
                Ty::I8 => PropertyValue::I8(*b as u8 as i8),
                Ty::I16 => PropertyValue::I16(*b as u16 as i16),
                Ty::I32 => PropertyValue::I32(*b as u32 as i32),
                Ty::I64 => PropertyValue::I64(*b as u64 as i64),
                Ty::U8 => PropertyValue::U8(*b as u8),
                Ty::U16 => PropertyValue::U16(*b as u16),
                Ty::U32 => PropertyValue::U32(*b as u32),
                Ty::U64 => PropertyValue::U64(*b as u64),
                Ty::F32 | Ty::F32U => PropertyValue::SingleFloat(f32::from_bits(*b as u32)),
                Ty::F64 | Ty::F64U => PropertyValue::DoubleFloat(f64::from_bits(*b as u64)),
                Ty::Ext | Ty::ExtU => PropertyValue::Extended(ExtendedRaw::new(*b)),
                Ty::C32 => PropertyValue::ComplexSingleFloat(Complex::<f32>::of(*b)),
                Ty::C64 => PropertyValue::ComplexDoubleFloat(Complex::<f64>::of(*b)),
                Ty::Time => PropertyValue::Timestamp(LVTime::of(*b)),
                Ty::Str => unreachable!(),
            },
        }
    }
    /// Does a library value carry exactly this type and these bits?
    pub fn is(&self, v: &PropertyValue) -> bool {
        match (self, v) {
            (Pv::Void, PropertyValue::Void) => true,
            (Pv::Str(s), PropertyValue::String(v)) => s == v,
            (Pv::Fix(t, b), v) => match (t, v) {
                (Ty::Bool, PropertyValue::Boolean(x)) => *x == (*b != 0),
                (Ty::I8, PropertyValue::I8(x)) => x.is(*b),
                (Ty::I16, PropertyValue::I16(x)) => x.is(*b),
                (Ty::I32, PropertyValue::I32(x)) => x.is(*b),
                (Ty::I64, PropertyValue::I64(x)) => x.is(*b),
                (Ty::U8, PropertyValue::U8(x)) => x.is(*b),
                (Ty::U16, PropertyValue::U16(x)) => x.is(*b),
                (Ty::U32, PropertyValue::U32(x)) => x.is(*b),
                (Ty::U64, PropertyValue::U64(x)) => x.is(*b),
                (Ty::F32 | Ty::F32U, PropertyValue::SingleFloat(x)) => x.is(*b),
                (Ty::F64 | Ty::F64U, PropertyValue::DoubleFloat(x)) => x.is(*b),
                (Ty::Ext | Ty::ExtU, PropertyValue::Extended(x)) => x.is(*b),
                (Ty::C32, PropertyValue::ComplexSingleFloat(x)) => x.is(*b),
                (Ty::C64, PropertyValue::ComplexDoubleFloat(x)) => x.is(*b),
                (Ty::Time, PropertyValue::Timestamp(x)) => x.is(*b),
                _ => false,
            },
            _ => false,
        }
    }
    pub fn code(&self) -> u32 {
        match self { Pv::Void => 0, Pv::Str(_) => 0x20, Pv::Fix(t, _) => t.code() }
    }
    pub fn encode(&self, be: bool, out: &mut Vec<u8>) {
        crate::foreign::put_u32(out, self.code(), be);
        match self {
            Pv::Void => {}
            Pv::Str(s) => crate::foreign::put_str(out, s, be),
            Pv::Fix(t, b) => t.encode(*b, be, out),
        }
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block {
    pub ty: Ty,
    pub vals: Vec<u128>,
}

/// An object of the file. Names are as stored in the path text (already escaped).
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Obj {
    pub group: Option<String>,
    pub chan: Option<String>,
    pub props: BTreeMap<String, Pv>,
    pub blocks: Vec<Block>,
}

impl Obj {
    pub fn len(&self) -> u64 { self.blocks.iter().map(|b| b.vals.len() as u64).sum() }
    pub fn is_channel(&self) -> bool { self.chan.is_some() }
}

pub fn path_text(group: Option<&str>, chan: Option<&str>) -> String {
    match (group, chan) {
        (None, _) => "/".to_string(),
        (Some(g), None) => format!("/'{g}'"),
        (Some(g), Some(c)) => format!("/'{g}'/'{c}'"),
    }
}

/// The documented substitution applied to names given by the user.
pub fn canon(name: &str) -> String { name.replace('\'', "\"") }

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    pub objects: BTreeMap<String, Obj>,
}

impl Model {
    pub fn obj(&mut self, group: Option<&str>, chan: Option<&str>) -> &mut Obj {
        let path = path_text(group, chan);
        self.objects.entry(path).or_insert_with(|| Obj { group: group.map(str::to_string), chan: chan.map(str::to_string), ..Obj::default() })
    }
    pub fn groups(&self) -> BTreeSet<String> {
        self.objects.values().filter_map(|o| o.group.clone()).collect()
    }
    pub fn channels(&self) -> impl Iterator<Item = (&String, &Obj)> {
        self.objects.iter().filter(|(_, o)| o.is_channel())
    }
    pub fn data_channels(&self) -> Vec<(&String, &Obj)> {
        self.channels().filter(|(_, o)| o.len() > 0 && o.blocks.iter().all(|b| b.ty != Ty::Str)).collect()
    }
    pub fn total_samples(&self) -> u64 { self.objects.values().map(Obj::len).sum() }
}

pub fn channel_path(o: &Obj) -> Result<ChannelPath, String> {
    let (g, c) = (o.group.as_deref().unwrap(), o.chan.as_deref().unwrap());
    if g.contains('\'') || c.contains('\'') {
        let t = path_text(Some(g), Some(c));
        ChannelPath::try_from(t.as_str()).map_err(|e| format!("well-formed channel path {t:?} refused: {e}"))
    } else {
        Ok(ChannelPath::new(g, c))
    }
}

pub fn object_path(o: &Obj) -> Result<PropertyPath, String> {
    match (o.group.as_deref(), o.chan.as_deref()) {
        (None, _) => Ok(PropertyPath::file()),
        (Some(g), c) if g.contains('\'') || c.is_some_and(|c| c.contains('\'')) => {
            let t = path_text(Some(g), c);
            PropertyPath::try_from(t.as_str()).map_err(|e| format!("well-formed path {t:?} refused: {e}"))
        }
        (Some(g), None) => Ok(PropertyPath::group(g)),
        (Some(g), Some(c)) => Ok(PropertyPath::channel(g, c)),
    }
}

// ---------------------------------------------------------------- windows

/// What a read of `len` samples from `start` as type `as_ty` must deliver: `Ok(values)` (possibly fewer than `len`),
/// or `Err(())` when the window touches samples of an incompatible type.
pub fn expect_window(o: &Obj, as_ty: Ty, start: u64, len: u64) -> Result<Vec<u128>, ()> {
    let mut out = Vec::new();
    let mut base = 0u64;
    let end = start.saturating_add(len);
    for b in &o.blocks {
        let n = b.vals.len() as u64;
        let lo = start.max(base);
        let hi = end.min(base + n);
        if lo < hi {
            if !b.ty.readable_as(as_ty) { return Err(()); }
            for v in &b.vals[(lo - base) as usize..(hi - base) as usize] {
                out.push(b.ty.view(*v, as_ty));
            }
        }
        base += n;
    }
    Ok(out)
}

/// The prefill pattern of output buffers.
pub fn sentinel(i: usize) -> u128 {
    let a = crate::engine::mix(0xABCD ^ i as u64);
    (a as u128) << 64 | a.rotate_left(17) as u128
}

fn sentinel_of(ty: Ty, i: usize) -> u128 {
    let s = sentinel(i);
    let n = ty.size();
    if ty == Ty::Bool { s & 1 } else if n == 16 { s } else { s & ((1u128 << (8 * n)) - 1) }
}

pub fn filled<T: Smp>(len: usize) -> Vec<T> {
    (0..len).map(|i| T::of(sentinel_of(T::TY, i))).collect()
}

pub fn check_buffer<T: Smp>(what: &str, buf: &[T], exp: &[u128]) -> Res {
    for (i, v) in buf.iter().enumerate() {
        if i < exp.len() {
            ensure!(v.is(exp[i]), "{what}: sample {i} is {} but {:#x} was stored ({} samples expected)", v.show(), exp[i], exp.len());
        } else {
            ensure!(v.is(sentinel_of(T::TY, i)), "{what}: buffer position {i} beyond the {} available samples was changed to {}", exp.len(), v.show());
        }
    }
    Ok(())
}

/// Reads one window and compares it with the model.
pub fn check_window<F: Read + Seek>(file: &mut TdmsFile<F>, path: &ChannelPath, o: &Obj, as_ty: Ty, start: u64, len: usize) -> Res {
    let exp = expect_window(o, as_ty, start, len as u64);
    with_ty!(as_ty, T => {
        let mut buf = filled::<T>(len);
        let r = if start == 0 { file.read_channel(path, &mut buf) } else { file.read_channel_from(path, start, &mut buf) };
        match (r, exp) {
            (Ok(()), Ok(exp)) => check_buffer(&format!("read of {path} as {as_ty:?} from {start} length {len}"), &buf, &exp),
            (Err(e), Ok(_)) => Err(format!("read of {path} as {as_ty:?} from {start} length {len} failed: {e} ({e:?})")),
            (Ok(()), Err(())) => Err(format!("read of {path} as {as_ty:?} from {start} length {len} reaches incompatible samples but succeeded")),
            (Err(TdmsError::DataTypeMismatch(..)), Err(())) => Ok(()),
            (Err(e), Err(())) => Err(format!("read of {path} as {as_ty:?} over incompatible samples failed with {e:?} instead of a type mismatch")),
        }
    })
}

/// Reads all of a channel in runs of one native type, exactly and with a longer buffer.
pub fn check_channel_data<F: Read + Seek>(file: &mut TdmsFile<F>, path: &ChannelPath, o: &Obj) -> Res {
    let len = file.channel_length(path);
    ensure!(len == Some(o.len()), "channel_length({path}) = {len:?}, expected {}", o.len());
    let mut start = 0u64;
    let mut i = 0;
    while i < o.blocks.len() {
        let ty = o.blocks[i].ty.reader();
        let mut n = 0u64;
        while i < o.blocks.len() && o.blocks[i].ty.reader() == ty {
            n += o.blocks[i].vals.len() as u64;
            i += 1;
        }
        let extra = if i == o.blocks.len() { 3 } else { 0 };
        if n > 0 && ty == Ty::Str {
            // string samples are not readable as anything
            check_window(file, path, o, Ty::F64, start, n as usize)?;
        } else if n > 0 {
            check_window(file, path, o, ty, start, n as usize + extra)?;
        }
        start += n;
    }
    Ok(())
}

// ---------------------------------------------------------------- whole view

/// Names that tests probe for absence, besides the model's own.
#[derive(Clone, Debug, Default)]
pub struct Universe {
    pub groups: Vec<String>,
    pub chans: Vec<(String, String)>,
    pub props: Vec<String>,
}

pub fn check_listing<F: Read + Seek>(file: &TdmsFile<F>, m: &Model, u: &Universe) -> Res {
    let mut got: Vec<String> = file.list_groups().map(str::to_string).collect();
    got.sort();
    let want: Vec<String> = m.groups().into_iter().collect();
    ensure!(got == want, "list_groups gives {got:?}, expected {want:?}");
    let mut groups: BTreeSet<String> = m.groups();
    groups.extend(u.groups.iter().map(|g| canon(g)));
    for g in groups {
        let gp = object_path(&Obj { group: Some(g.clone()), ..Obj::default() })?;
        let mut got: Vec<String> = file.list_channels_in_group(&gp).map(|p| p.path().to_string()).collect();
        got.sort();
        let mut want: Vec<String> = m.channels().filter(|(_, o)| o.group.as_deref() == Some(&g)).map(|(p, _)| p.clone()).collect();
        want.sort();
        ensure!(got == want, "list_channels_in_group({g:?}) gives {got:?}, expected {want:?}");
    }
    Ok(())
}

pub fn check_props<F: Read + Seek>(file: &TdmsFile<F>, m: &Model, u: &Universe) -> Res {
    for (path, o) in &m.objects {
        let pp = object_path(o)?;
        ensure!(pp.path() == path, "path of {:?}/{:?} is {:?}, expected {path:?}", o.group, o.chan, pp.path());
        let mut got: Vec<(String, PropertyValue)> = match file.read_all_properties(&pp) {
            Some(it) => it.map(|(k, v)| (k.clone(), v.clone())).collect(),
            None => fail!("object {path} is reported as missing"),
        };
        got.sort_by(|a, b| a.0.cmp(&b.0));
        let names: Vec<&String> = got.iter().map(|(k, _)| k).collect();
        let want: Vec<&String> = o.props.keys().collect();
        ensure!(names == want, "properties of {path} are {names:?}, expected {want:?}");
        for (k, v) in &got {
            ensure!(o.props[k].is(v), "property {k:?} of {path} is {v:?}, expected {:?}", o.props[k]);
        }
        for k in o.props.keys().chain(u.props.iter()) {
            match (file.read_property(&pp, k), o.props.get(k)) {
                (Ok(Some(v)), Some(w)) => ensure!(w.is(v), "read_property({path}, {k:?}) = {v:?}, expected {w:?}"),
                (Ok(None), None) => {}
                (r, w) => fail!("read_property({path}, {k:?}) = {r:?}, expected {w:?}"),
            }
        }
    }
    // objects that were never written
    let mut absent: Vec<Obj> = vec![Obj::default()];
    absent.extend(u.groups.iter().map(|g| Obj { group: Some(canon(g)), ..Obj::default() }));
    absent.extend(u.chans.iter().map(|(g, c)| Obj { group: Some(canon(g)), chan: Some(canon(c)), ..Obj::default() }));
    for o in absent {
        let text = path_text(o.group.as_deref(), o.chan.as_deref());
        if m.objects.contains_key(&text) { continue; }
        let pp = object_path(&o)?;
        if let Some(mut it) = file.read_all_properties(&pp) {
            if let Some((k, v)) = it.next() { fail!("object {text} was never written but has property {k:?} = {v:?}"); }
        }
        for k in &u.props {
            match file.read_property(&pp, k) {
                Ok(None) | Err(TdmsError::MissingObject(_)) => {}
                r => fail!("object {text} was never written but read_property({k:?}) = {r:?}"),
            }
        }
        if o.is_channel() {
            let cp = channel_path(&o)?;
            let len = file.channel_length(&cp);
            ensure!(len.is_none(), "channel {text} was never written but has length {len:?}");
        }
    }
    Ok(())
}

pub fn check_data<F: Read + Seek>(file: &mut TdmsFile<F>, m: &Model) -> Res {
    for (_, o) in m.channels() {
        let cp = channel_path(o)?;
        check_channel_data(file, &cp, o)?;
    }
    Ok(())
}

/// Reads every channel through the paths the listing hands out.
pub fn check_listed_usable<F: Read + Seek>(file: &mut TdmsFile<F>, m: &Model) -> Res {
    let groups: Vec<String> = file.list_groups().map(str::to_string).collect();
    let mut seen = 0;
    for g in groups {
        // A name with a single quote is reported as stored (doubled); such a group is addressed by its path text.
        let gp = object_path(&Obj { group: Some(g.clone()), ..Obj::default() })?;
        if m.objects.contains_key(gp.path()) || g.contains('\'') {
            ensure!(gp.path() == path_text(Some(&g), None), "listed group {g:?} leads to {gp}");
        }
        let n = file.read_all_properties(&gp).map_or(0, |i| i.count());
        let want = m.objects.get(gp.path()).map_or(0, |o| o.props.len());
        ensure!(n == want, "listed group {g:?}: {n} properties, expected {want}");
        let chans: Vec<ChannelPath> = file.list_channels_in_group(&gp).collect();
        for cp in chans {
            let o = match m.objects.get(cp.path()) { Some(o) => o, None => fail!("listed channel {cp} does not exist") };
            ensure!(cp.group_name() == o.group.as_deref().unwrap() && cp.channel_name() == o.chan.as_deref().unwrap(),
                "listed path {cp} reports names {:?}/{:?}, expected {:?}/{:?}", cp.group_name(), cp.channel_name(), o.group, o.chan);
            check_channel_data(file, &cp, o)?;
            let n = file.read_all_properties(cp.as_ref()).map(|i| i.count());
            ensure!(n == Some(o.props.len()), "listed channel {cp}: {n:?} properties, expected {}", o.props.len());
            seen += 1;
        }
    }
    let want = m.channels().count();
    ensure!(seen == want, "{seen} channels reachable through listings, expected {want}");
    Ok(())
}

pub fn check_view<F: Read + Seek>(file: &mut TdmsFile<F>, m: &Model, u: &Universe) -> Res {
    check_listing(file, m, u)?;
    check_props(file, m, u)?;
    check_data(file, m)
}
