//! Sample types: canonical bit patterns, byte layouts (independent of the library) and conversion to library types.

use labview_interop::types::LVTime;
use tedium::types::{Complex, DataType, ExtendedRaw, TdmsStorageType};

/// Stored types, including ones only foreign files contain.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Ty {
    F64, I8, I16, I32, I64, U8, U16, U32, U64, F32, Bool, C32, C64, Time, Ext,
    // only in foreign files
    F32U, F64U, ExtU, Str,
}

/// The types this library can write.
pub const NATIVE: [Ty; 15] = [Ty::F64, Ty::I32, Ty::I8, Ty::I16, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::F32, Ty::Bool, Ty::C32, Ty::C64, Ty::Time, Ty::Ext];
/// The fixed-size types of foreign files.
pub const FOREIGN: [Ty; 18] = [Ty::F64, Ty::I32, Ty::I8, Ty::I16, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::F32, Ty::Bool, Ty::C32, Ty::C64, Ty::Time, Ty::Ext, Ty::F32U, Ty::F64U, Ty::ExtU];

impl Ty {
    /// Bytes per sample in the TDMS format.
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 | Ty::Bool => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I32 | Ty::U32 | Ty::F32 | Ty::F32U => 4,
            Ty::I64 | Ty::U64 | Ty::F64 | Ty::F64U | Ty::C32 => 8,
            Ty::C64 | Ty::Time => 16,
            Ty::Ext | Ty::ExtU => 10,
            Ty::Str => 0,
        }
    }
    /// Type codes of the TDMS specification.
    pub fn code(self) -> u32 {
        match self {
            Ty::I8 => 1, Ty::I16 => 2, Ty::I32 => 3, Ty::I64 => 4,
            Ty::U8 => 5, Ty::U16 => 6, Ty::U32 => 7, Ty::U64 => 8,
            Ty::F32 => 9, Ty::F64 => 10, Ty::Ext => 11,
            Ty::F32U => 0x19, Ty::F64U => 0x1A, Ty::ExtU => 0x1B,
            Ty::Str => 0x20, Ty::Bool => 0x21, Ty::Time => 0x44,
            Ty::C32 => 0x0008_000c, Ty::C64 => 0x0010_000d,
        }
    }
    pub fn from_code(c: u32) -> Option<Ty> {
        FOREIGN.iter().copied().chain([Ty::Str]).find(|t| t.code() == c)
    }
    pub fn data_type(self) -> DataType {
        match self {
            Ty::I8 => DataType::I8, Ty::I16 => DataType::I16, Ty::I32 => DataType::I32, Ty::I64 => DataType::I64,
            Ty::U8 => DataType::U8, Ty::U16 => DataType::U16, Ty::U32 => DataType::U32, Ty::U64 => DataType::U64,
            Ty::F32 => DataType::SingleFloat, Ty::F64 => DataType::DoubleFloat, Ty::Ext => DataType::ExtendedFloat,
            Ty::F32U => DataType::SingleFloatWithUnit, Ty::F64U => DataType::DoubleFloatWithUnit, Ty::ExtU => DataType::ExtendedFloatWithUnit,
            Ty::Str => DataType::TdmsString, Ty::Bool => DataType::Boolean, Ty::Time => DataType::Timestamp,
            Ty::C32 => DataType::ComplexSingleFloat, Ty::C64 => DataType::ComplexDoubleFloat,
        }
    }
    /// The native type used to read samples stored as this type.
    pub fn reader(self) -> Ty {
        match self { Ty::F32U => Ty::F32, Ty::F64U => Ty::F64, Ty::ExtU => Ty::Ext, t => t }
    }
    /// Can samples stored as `self` be read into buffers of native type `as_ty`?
    pub fn readable_as(self, as_ty: Ty) -> bool {
        self.reader() == as_ty || (self == Ty::U8 && as_ty == Ty::Bool)
    }
    fn mask(self) -> u128 {
        let s = self.size();
        if s == 16 { u128::MAX } else { (1u128 << (8 * s)) - 1 }
    }
    /// The value a reader of type `as_ty` sees for stored bits.
    pub fn view(self, bits: u128, as_ty: Ty) -> u128 {
        if as_ty == Ty::Bool { (bits != 0) as u128 } else { bits }
    }
    /// Component sizes in byte-order-swap units, in stored order.
    fn parts(self) -> &'static [usize] {
        match self {
            Ty::C32 => &[4, 4],
            Ty::C64 => &[8, 8],
            _ => &[],
        }
    }
    /// The NI byte layout of a sample.
    pub fn encode(self, bits: u128, be: bool, out: &mut Vec<u8>) {
        let le = bits.to_le_bytes();
        let n = self.size();
        if !be {
            out.extend_from_slice(&le[..n]);
        } else if self.parts().is_empty() {
            out.extend(le[..n].iter().rev());
        } else {
            let mut p = 0;
            for s in self.parts() {
                out.extend(le[p..p + s].iter().rev());
                p += s;
            }
        }
    }
    pub fn decode(self, bytes: &[u8], be: bool) -> u128 {
        let n = self.size();
        let mut le = [0u8; 16];
        if !be {
            le[..n].copy_from_slice(&bytes[..n]);
        } else if self.parts().is_empty() {
            for i in 0..n { le[i] = bytes[n - 1 - i]; }
        } else {
            let mut p = 0;
            for &s in self.parts() {
                for i in 0..s { le[p + i] = bytes[p + s - 1 - i]; }
                p += s;
            }
        }
        u128::from_le_bytes(le)
    }
    /// The `i`-th sample of the data stream identified by `seed`.
    pub fn sample(self, seed: u64, i: u64) -> u128 {
        let a = crate::engine::mix(seed ^ i.wrapping_mul(0xD6E8FEB86659FD93));
        let b = crate::engine::mix(a ^ 0x5851F42D4C957F2D);
        let raw = (a as u128) | ((b as u128) << 64);
        // Mix in special patterns (zeros, all ones, NaNs, infinities, sign bit only).
        let v = match a >> 60 {
            0 => match (a >> 8) & 7 {
                0 => 0,
                1 => u128::MAX,
                2 => 0x7ff0_0000_0000_0000_7ff0_0000_0000_0000,
                3 => 0x7f80_0001_7f80_0001_7ff0_0000_0000_0001,
                4 => 0x8000_0000_8000_0000_8000_0000_8000_0000 | 0x80,
                5 => 1,
                6 => 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10,
                _ => raw,
            },
            _ => raw,
        };
        let v = v & self.mask();
        if self == Ty::Bool { v & 1 } else { v }
    }
}

/// A library sample type with its canonical bits.
pub trait Smp: TdmsStorageType + Clone {
    const TY: Ty;
    fn of(bits: u128) -> Self;
    /// Does the value have exactly these bits?
    fn is(&self, bits: u128) -> bool;
    fn show(&self) -> String;
}

macro_rules! smp_int {
    ($t:ty, $u:ty, $ty:expr) => {
        impl Smp for $t {
            const TY: Ty = $ty;
            fn of(bits: u128) -> Self { bits as $u as $t }
            fn is(&self, bits: u128) -> bool { (*self as $u) as u128 == bits }
            fn show(&self) -> String { format!("{self}") }
        }
    };
}
smp_int!(i8, u8, Ty::I8);
smp_int!(i16, u16, Ty::I16);
smp_int!(i32, u32, Ty::I32);
smp_int!(i64, u64, Ty::I64);
smp_int!(u8, u8, Ty::U8);
smp_int!(u16, u16, Ty::U16);
smp_int!(u32, u32, Ty::U32);
smp_int!(u64, u64, Ty::U64);
impl Smp for f32 {
    const TY: Ty = Ty::F32;
    fn of(bits: u128) -> Self { f32::from_bits(bits as u32) }
    fn is(&self, bits: u128) -> bool { self.to_bits() as u128 == bits }
    fn show(&self) -> String { format!("{:#x}", self.to_bits()) }
}
impl Smp for f64 {
    const TY: Ty = Ty::F64;
    fn of(bits: u128) -> Self { f64::from_bits(bits as u64) }
    fn is(&self, bits: u128) -> bool { self.to_bits() as u128 == bits }
    fn show(&self) -> String { format!("{:#x}", self.to_bits()) }
}
impl Smp for bool {
    const TY: Ty = Ty::Bool;
    fn of(bits: u128) -> Self { bits & 1 == 1 }
    fn is(&self, bits: u128) -> bool { *self as u128 == bits }
    fn show(&self) -> String { format!("{self}") }
}
impl Smp for Complex<f32> {
    const TY: Ty = Ty::C32;
    fn of(bits: u128) -> Self { Complex::new(f32::from_bits(bits as u32), f32::from_bits((bits >> 32) as u32)) }
    fn is(&self, bits: u128) -> bool { (self.real.to_bits() as u128 | (self.imaginary.to_bits() as u128) << 32) == bits }
    fn show(&self) -> String { format!("{:#x}:{:#x}", self.real.to_bits(), self.imaginary.to_bits()) }
}
impl Smp for Complex<f64> {
    const TY: Ty = Ty::C64;
    fn of(bits: u128) -> Self { Complex::new(f64::from_bits(bits as u64), f64::from_bits((bits >> 64) as u64)) }
    fn is(&self, bits: u128) -> bool { (self.real.to_bits() as u128 | (self.imaginary.to_bits() as u128) << 64) == bits }
    fn show(&self) -> String { format!("{:#x}:{:#x}", self.real.to_bits(), self.imaginary.to_bits()) }
}
impl Smp for LVTime {
    const TY: Ty = Ty::Time;
    // low 64 bits: fractions, high 64 bits: seconds
    fn of(bits: u128) -> Self { LVTime::from_le_bytes(bits.to_le_bytes()) }
    fn is(&self, bits: u128) -> bool { u128::from_le_bytes(self.to_le_bytes()) == bits }
    fn show(&self) -> String { format!("{:#x}", u128::from_le_bytes(self.to_le_bytes())) }
}
impl Smp for ExtendedRaw {
    const TY: Ty = Ty::Ext;
    fn of(bits: u128) -> Self { ExtendedRaw::new(bits) }
    fn is(&self, bits: u128) -> bool { *self == ExtendedRaw::new(bits) }
    fn show(&self) -> String { format!("{self:?}") }
}

/// Runs `$body` with `$T` bound to the library type that reads/writes `$ty`.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $body:expr) => {
        match $ty.reader() {
            $crate::ty::Ty::I8 => { type $T = i8; $body }
            $crate::ty::Ty::I16 => { type $T = i16; $body }
            $crate::ty::Ty::I32 => { type $T = i32; $body }
            $crate::ty::Ty::I64 => { type $T = i64; $body }
            $crate::ty::Ty::U8 => { type $T = u8; $body }
            $crate::ty::Ty::U16 => { type $T = u16; $body }
            $crate::ty::Ty::U32 => { type $T = u32; $body }
            $crate::ty::Ty::U64 => { type $T = u64; $body }
            $crate::ty::Ty::F32 => { type $T = f32; $body }
            $crate::ty::Ty::F64 => { type $T = f64; $body }
            $crate::ty::Ty::Bool => { type $T = bool; $body }
            $crate::ty::Ty::C32 => { type $T = tedium::types::Complex<f32>; $body }
            $crate::ty::Ty::C64 => { type $T = tedium::types::Complex<f64>; $body }
            $crate::ty::Ty::Time => { type $T = labview_interop::types::LVTime; $body }
            $crate::ty::Ty::Ext => { type $T = tedium::types::ExtendedRaw; $body }
            other => panic!("no library type for {other:?}"),
        }
    };
}
