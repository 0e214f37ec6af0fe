//! One module per family of properties; `all` lists every check.
pub mod common;
pub mod names;
pub mod reading;
pub mod robust;
pub mod scale;
pub mod streams;
pub mod values;
pub mod writing;

use crate::engine::{Cx, Property, Res};

pub type Regress = Vec<(&'static str, fn(&mut Cx) -> Res)>;

pub fn none() -> Regress { Vec::new() }

pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(writing::all());
    v.extend(reading::all());
    v.extend(robust::all());
    v.extend(names::all());
    v.extend(values::all());
    v.extend(streams::all());
    v.extend(scale::all());
    v.sort_by_key(|p| p.id);
    v
}
