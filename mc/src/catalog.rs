// @generated by tools/gen_catalog.py; do not edit.
#![allow(non_camel_case_types, dead_code, clippy::all)]
use crate::{Cat, CatOps, CatRepr};
use enumset::*;

macro_rules! odd_order { ($n:ident) => { impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } } impl Ord for $n { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::odd(self.disc()).cmp(&crate::odd(o.disc())) } } }; ($n:ident =) => { impl PartialEq for $n { fn eq(&self, _: &Self) -> bool { true } } impl Eq for $n {} impl PartialOrd for $n { fn partial_cmp(&self, _: &Self) -> Option<core::cmp::Ordering> { Some(core::cmp::Ordering::Equal) } } impl Ord for $n { fn cmp(&self, _: &Self) -> core::cmp::Ordering { core::cmp::Ordering::Equal } } } }

#[derive(EnumSetType, Debug)] pub enum D0 {  }
impl Cat for D0 {
    const NAME: &'static str = "D0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D0 {  }"####;
    const DISCR: &'static [u32] = &[];
    const VARS: &'static [Self] = &[];
    const VNAMES: &'static [&'static str] = &[];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { match self {} }
}
odd_order! { D0 }
impl core::fmt::Display for D0 { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl CatOps for D0 {}

#[derive(EnumSetType, Debug)] pub enum D1 { V0 }
impl Cat for D1 {
    const NAME: &'static str = "D1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D1 { V0 }"####;
    const DISCR: &'static [u32] = &[0];
    const VARS: &'static [Self] = &[D1::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D1 }
impl core::fmt::Display for D1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D1 {}

#[derive(EnumSetType, Debug)] pub enum D2 { V0, V1 }
impl Cat for D2 {
    const NAME: &'static str = "D2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D2 { V0, V1 }"####;
    const DISCR: &'static [u32] = &[0, 1];
    const VARS: &'static [Self] = &[D2::V0, D2::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D2 }
impl core::fmt::Display for D2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D2 {}

#[derive(EnumSetType, Debug)] pub enum D3 { V0, V1, V2 }
impl Cat for D3 {
    const NAME: &'static str = "D3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D3 { V0, V1, V2 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2];
    const VARS: &'static [Self] = &[D3::V0, D3::V1, D3::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D3 }
impl core::fmt::Display for D3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D3 {}

#[derive(EnumSetType, Debug)] pub enum D5 { V0, V1, V2, V3, V4 }
impl Cat for D5 {
    const NAME: &'static str = "D5";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D5 { V0, V1, V2, V3, V4 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4];
    const VARS: &'static [Self] = &[D5::V0, D5::V1, D5::V2, D5::V3, D5::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D5 }
impl core::fmt::Display for D5 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D5 {}

#[derive(EnumSetType, Debug)] pub enum D7 { V0, V1, V2, V3, V4, V5, V6 }
impl Cat for D7 {
    const NAME: &'static str = "D7";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D7 { V0, V1, V2, V3, V4, V5, V6 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6];
    const VARS: &'static [Self] = &[D7::V0, D7::V1, D7::V2, D7::V3, D7::V4, D7::V5, D7::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D7 }
impl core::fmt::Display for D7 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D7 {}

#[derive(EnumSetType, Debug)] pub enum D8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Cat for D8 {
    const NAME: &'static str = "D8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D8 { V0, V1, V2, V3, V4, V5, V6, V7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[D8::V0, D8::V1, D8::V2, D8::V3, D8::V4, D8::V5, D8::V6, D8::V7];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D8 }
impl core::fmt::Display for D8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D8 {}

#[derive(EnumSetType, Debug)] pub enum D9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Cat for D9 {
    const NAME: &'static str = "D9";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D9 { V0, V1, V2, V3, V4, V5, V6, V7, V8 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const VARS: &'static [Self] = &[D9::V0, D9::V1, D9::V2, D9::V3, D9::V4, D9::V5, D9::V6, D9::V7, D9::V8];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D9 }
impl core::fmt::Display for D9 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D9 {}

#[derive(EnumSetType, Debug)] pub enum D15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }
impl Cat for D15 {
    const NAME: &'static str = "D15";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D15 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
    const VARS: &'static [Self] = &[D15::V0, D15::V1, D15::V2, D15::V3, D15::V4, D15::V5, D15::V6, D15::V7, D15::V8, D15::V9, D15::V10, D15::V11, D15::V12, D15::V13, D15::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D15 }
impl core::fmt::Display for D15 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D15 {}

#[derive(EnumSetType, Debug)] pub enum D16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Cat for D16 {
    const NAME: &'static str = "D16";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[D16::V0, D16::V1, D16::V2, D16::V3, D16::V4, D16::V5, D16::V6, D16::V7, D16::V8, D16::V9, D16::V10, D16::V11, D16::V12, D16::V13, D16::V14, D16::V15];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D16 }
impl core::fmt::Display for D16 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D16 {}

#[derive(EnumSetType, Debug)] pub enum D17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }
impl Cat for D17 {
    const NAME: &'static str = "D17";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D17 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
    const VARS: &'static [Self] = &[D17::V0, D17::V1, D17::V2, D17::V3, D17::V4, D17::V5, D17::V6, D17::V7, D17::V8, D17::V9, D17::V10, D17::V11, D17::V12, D17::V13, D17::V14, D17::V15, D17::V16];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D17 }
impl core::fmt::Display for D17 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D17 {}

#[derive(EnumSetType, Debug)] pub enum D31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }
impl Cat for D31 {
    const NAME: &'static str = "D31";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D31 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30];
    const VARS: &'static [Self] = &[D31::V0, D31::V1, D31::V2, D31::V3, D31::V4, D31::V5, D31::V6, D31::V7, D31::V8, D31::V9, D31::V10, D31::V11, D31::V12, D31::V13, D31::V14, D31::V15, D31::V16, D31::V17, D31::V18, D31::V19, D31::V20, D31::V21, D31::V22, D31::V23, D31::V24, D31::V25, D31::V26, D31::V27, D31::V28, D31::V29, D31::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D31 }
impl core::fmt::Display for D31 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D31 {}

#[derive(EnumSetType, Debug)] pub enum D32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }
impl Cat for D32 {
    const NAME: &'static str = "D32";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D32 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
    const VARS: &'static [Self] = &[D32::V0, D32::V1, D32::V2, D32::V3, D32::V4, D32::V5, D32::V6, D32::V7, D32::V8, D32::V9, D32::V10, D32::V11, D32::V12, D32::V13, D32::V14, D32::V15, D32::V16, D32::V17, D32::V18, D32::V19, D32::V20, D32::V21, D32::V22, D32::V23, D32::V24, D32::V25, D32::V26, D32::V27, D32::V28, D32::V29, D32::V30, D32::V31];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D32 }
impl core::fmt::Display for D32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D32 {}

#[derive(EnumSetType, Debug)] pub enum D33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }
impl Cat for D33 {
    const NAME: &'static str = "D33";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D33 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32];
    const VARS: &'static [Self] = &[D33::V0, D33::V1, D33::V2, D33::V3, D33::V4, D33::V5, D33::V6, D33::V7, D33::V8, D33::V9, D33::V10, D33::V11, D33::V12, D33::V13, D33::V14, D33::V15, D33::V16, D33::V17, D33::V18, D33::V19, D33::V20, D33::V21, D33::V22, D33::V23, D33::V24, D33::V25, D33::V26, D33::V27, D33::V28, D33::V29, D33::V30, D33::V31, D33::V32];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D33 }
impl core::fmt::Display for D33 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D33 {}

#[derive(EnumSetType, Debug)] pub enum D63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }
impl Cat for D63 {
    const NAME: &'static str = "D63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D63 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62];
    const VARS: &'static [Self] = &[D63::V0, D63::V1, D63::V2, D63::V3, D63::V4, D63::V5, D63::V6, D63::V7, D63::V8, D63::V9, D63::V10, D63::V11, D63::V12, D63::V13, D63::V14, D63::V15, D63::V16, D63::V17, D63::V18, D63::V19, D63::V20, D63::V21, D63::V22, D63::V23, D63::V24, D63::V25, D63::V26, D63::V27, D63::V28, D63::V29, D63::V30, D63::V31, D63::V32, D63::V33, D63::V34, D63::V35, D63::V36, D63::V37, D63::V38, D63::V39, D63::V40, D63::V41, D63::V42, D63::V43, D63::V44, D63::V45, D63::V46, D63::V47, D63::V48, D63::V49, D63::V50, D63::V51, D63::V52, D63::V53, D63::V54, D63::V55, D63::V56, D63::V57, D63::V58, D63::V59, D63::V60, D63::V61, D63::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D63 }
impl core::fmt::Display for D63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D63 {}

#[derive(EnumSetType, Debug)] pub enum D64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Cat for D64 {
    const NAME: &'static str = "D64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[D64::V0, D64::V1, D64::V2, D64::V3, D64::V4, D64::V5, D64::V6, D64::V7, D64::V8, D64::V9, D64::V10, D64::V11, D64::V12, D64::V13, D64::V14, D64::V15, D64::V16, D64::V17, D64::V18, D64::V19, D64::V20, D64::V21, D64::V22, D64::V23, D64::V24, D64::V25, D64::V26, D64::V27, D64::V28, D64::V29, D64::V30, D64::V31, D64::V32, D64::V33, D64::V34, D64::V35, D64::V36, D64::V37, D64::V38, D64::V39, D64::V40, D64::V41, D64::V42, D64::V43, D64::V44, D64::V45, D64::V46, D64::V47, D64::V48, D64::V49, D64::V50, D64::V51, D64::V52, D64::V53, D64::V54, D64::V55, D64::V56, D64::V57, D64::V58, D64::V59, D64::V60, D64::V61, D64::V62, D64::V63];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D64 }
impl core::fmt::Display for D64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D64 {}

#[derive(EnumSetType, Debug)] pub enum D65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }
impl Cat for D65 {
    const NAME: &'static str = "D65";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D65 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64];
    const VARS: &'static [Self] = &[D65::V0, D65::V1, D65::V2, D65::V3, D65::V4, D65::V5, D65::V6, D65::V7, D65::V8, D65::V9, D65::V10, D65::V11, D65::V12, D65::V13, D65::V14, D65::V15, D65::V16, D65::V17, D65::V18, D65::V19, D65::V20, D65::V21, D65::V22, D65::V23, D65::V24, D65::V25, D65::V26, D65::V27, D65::V28, D65::V29, D65::V30, D65::V31, D65::V32, D65::V33, D65::V34, D65::V35, D65::V36, D65::V37, D65::V38, D65::V39, D65::V40, D65::V41, D65::V42, D65::V43, D65::V44, D65::V45, D65::V46, D65::V47, D65::V48, D65::V49, D65::V50, D65::V51, D65::V52, D65::V53, D65::V54, D65::V55, D65::V56, D65::V57, D65::V58, D65::V59, D65::V60, D65::V61, D65::V62, D65::V63, D65::V64];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D65 }
impl core::fmt::Display for D65 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D65 {}

#[derive(EnumSetType, Debug)] pub enum D100 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99 }
impl Cat for D100 {
    const NAME: &'static str = "D100";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D100 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99];
    const VARS: &'static [Self] = &[D100::V0, D100::V1, D100::V2, D100::V3, D100::V4, D100::V5, D100::V6, D100::V7, D100::V8, D100::V9, D100::V10, D100::V11, D100::V12, D100::V13, D100::V14, D100::V15, D100::V16, D100::V17, D100::V18, D100::V19, D100::V20, D100::V21, D100::V22, D100::V23, D100::V24, D100::V25, D100::V26, D100::V27, D100::V28, D100::V29, D100::V30, D100::V31, D100::V32, D100::V33, D100::V34, D100::V35, D100::V36, D100::V37, D100::V38, D100::V39, D100::V40, D100::V41, D100::V42, D100::V43, D100::V44, D100::V45, D100::V46, D100::V47, D100::V48, D100::V49, D100::V50, D100::V51, D100::V52, D100::V53, D100::V54, D100::V55, D100::V56, D100::V57, D100::V58, D100::V59, D100::V60, D100::V61, D100::V62, D100::V63, D100::V64, D100::V65, D100::V66, D100::V67, D100::V68, D100::V69, D100::V70, D100::V71, D100::V72, D100::V73, D100::V74, D100::V75, D100::V76, D100::V77, D100::V78, D100::V79, D100::V80, D100::V81, D100::V82, D100::V83, D100::V84, D100::V85, D100::V86, D100::V87, D100::V88, D100::V89, D100::V90, D100::V91, D100::V92, D100::V93, D100::V94, D100::V95, D100::V96, D100::V97, D100::V98, D100::V99];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D100 }
impl core::fmt::Display for D100 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D100 {}

#[derive(EnumSetType, Debug)] pub enum D127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126 }
impl Cat for D127 {
    const NAME: &'static str = "D127";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D127 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126];
    const VARS: &'static [Self] = &[D127::V0, D127::V1, D127::V2, D127::V3, D127::V4, D127::V5, D127::V6, D127::V7, D127::V8, D127::V9, D127::V10, D127::V11, D127::V12, D127::V13, D127::V14, D127::V15, D127::V16, D127::V17, D127::V18, D127::V19, D127::V20, D127::V21, D127::V22, D127::V23, D127::V24, D127::V25, D127::V26, D127::V27, D127::V28, D127::V29, D127::V30, D127::V31, D127::V32, D127::V33, D127::V34, D127::V35, D127::V36, D127::V37, D127::V38, D127::V39, D127::V40, D127::V41, D127::V42, D127::V43, D127::V44, D127::V45, D127::V46, D127::V47, D127::V48, D127::V49, D127::V50, D127::V51, D127::V52, D127::V53, D127::V54, D127::V55, D127::V56, D127::V57, D127::V58, D127::V59, D127::V60, D127::V61, D127::V62, D127::V63, D127::V64, D127::V65, D127::V66, D127::V67, D127::V68, D127::V69, D127::V70, D127::V71, D127::V72, D127::V73, D127::V74, D127::V75, D127::V76, D127::V77, D127::V78, D127::V79, D127::V80, D127::V81, D127::V82, D127::V83, D127::V84, D127::V85, D127::V86, D127::V87, D127::V88, D127::V89, D127::V90, D127::V91, D127::V92, D127::V93, D127::V94, D127::V95, D127::V96, D127::V97, D127::V98, D127::V99, D127::V100, D127::V101, D127::V102, D127::V103, D127::V104, D127::V105, D127::V106, D127::V107, D127::V108, D127::V109, D127::V110, D127::V111, D127::V112, D127::V113, D127::V114, D127::V115, D127::V116, D127::V117, D127::V118, D127::V119, D127::V120, D127::V121, D127::V122, D127::V123, D127::V124, D127::V125, D127::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D127 }
impl core::fmt::Display for D127 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D127 {}

#[derive(EnumSetType, Debug)] pub enum D128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Cat for D128 {
    const NAME: &'static str = "D128";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[D128::V0, D128::V1, D128::V2, D128::V3, D128::V4, D128::V5, D128::V6, D128::V7, D128::V8, D128::V9, D128::V10, D128::V11, D128::V12, D128::V13, D128::V14, D128::V15, D128::V16, D128::V17, D128::V18, D128::V19, D128::V20, D128::V21, D128::V22, D128::V23, D128::V24, D128::V25, D128::V26, D128::V27, D128::V28, D128::V29, D128::V30, D128::V31, D128::V32, D128::V33, D128::V34, D128::V35, D128::V36, D128::V37, D128::V38, D128::V39, D128::V40, D128::V41, D128::V42, D128::V43, D128::V44, D128::V45, D128::V46, D128::V47, D128::V48, D128::V49, D128::V50, D128::V51, D128::V52, D128::V53, D128::V54, D128::V55, D128::V56, D128::V57, D128::V58, D128::V59, D128::V60, D128::V61, D128::V62, D128::V63, D128::V64, D128::V65, D128::V66, D128::V67, D128::V68, D128::V69, D128::V70, D128::V71, D128::V72, D128::V73, D128::V74, D128::V75, D128::V76, D128::V77, D128::V78, D128::V79, D128::V80, D128::V81, D128::V82, D128::V83, D128::V84, D128::V85, D128::V86, D128::V87, D128::V88, D128::V89, D128::V90, D128::V91, D128::V92, D128::V93, D128::V94, D128::V95, D128::V96, D128::V97, D128::V98, D128::V99, D128::V100, D128::V101, D128::V102, D128::V103, D128::V104, D128::V105, D128::V106, D128::V107, D128::V108, D128::V109, D128::V110, D128::V111, D128::V112, D128::V113, D128::V114, D128::V115, D128::V116, D128::V117, D128::V118, D128::V119, D128::V120, D128::V121, D128::V122, D128::V123, D128::V124, D128::V125, D128::V126, D128::V127];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D128 }
impl core::fmt::Display for D128 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D128 {}

#[derive(EnumSetType, Debug)] pub enum D129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128 }
impl Cat for D129 {
    const NAME: &'static str = "D129";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D129 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128];
    const VARS: &'static [Self] = &[D129::V0, D129::V1, D129::V2, D129::V3, D129::V4, D129::V5, D129::V6, D129::V7, D129::V8, D129::V9, D129::V10, D129::V11, D129::V12, D129::V13, D129::V14, D129::V15, D129::V16, D129::V17, D129::V18, D129::V19, D129::V20, D129::V21, D129::V22, D129::V23, D129::V24, D129::V25, D129::V26, D129::V27, D129::V28, D129::V29, D129::V30, D129::V31, D129::V32, D129::V33, D129::V34, D129::V35, D129::V36, D129::V37, D129::V38, D129::V39, D129::V40, D129::V41, D129::V42, D129::V43, D129::V44, D129::V45, D129::V46, D129::V47, D129::V48, D129::V49, D129::V50, D129::V51, D129::V52, D129::V53, D129::V54, D129::V55, D129::V56, D129::V57, D129::V58, D129::V59, D129::V60, D129::V61, D129::V62, D129::V63, D129::V64, D129::V65, D129::V66, D129::V67, D129::V68, D129::V69, D129::V70, D129::V71, D129::V72, D129::V73, D129::V74, D129::V75, D129::V76, D129::V77, D129::V78, D129::V79, D129::V80, D129::V81, D129::V82, D129::V83, D129::V84, D129::V85, D129::V86, D129::V87, D129::V88, D129::V89, D129::V90, D129::V91, D129::V92, D129::V93, D129::V94, D129::V95, D129::V96, D129::V97, D129::V98, D129::V99, D129::V100, D129::V101, D129::V102, D129::V103, D129::V104, D129::V105, D129::V106, D129::V107, D129::V108, D129::V109, D129::V110, D129::V111, D129::V112, D129::V113, D129::V114, D129::V115, D129::V116, D129::V117, D129::V118, D129::V119, D129::V120, D129::V121, D129::V122, D129::V123, D129::V124, D129::V125, D129::V126, D129::V127, D129::V128];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D129 }
impl core::fmt::Display for D129 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D129 {}

#[derive(EnumSetType, Debug)] pub enum D191 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190 }
impl Cat for D191 {
    const NAME: &'static str = "D191";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D191 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190];
    const VARS: &'static [Self] = &[D191::V0, D191::V1, D191::V2, D191::V3, D191::V4, D191::V5, D191::V6, D191::V7, D191::V8, D191::V9, D191::V10, D191::V11, D191::V12, D191::V13, D191::V14, D191::V15, D191::V16, D191::V17, D191::V18, D191::V19, D191::V20, D191::V21, D191::V22, D191::V23, D191::V24, D191::V25, D191::V26, D191::V27, D191::V28, D191::V29, D191::V30, D191::V31, D191::V32, D191::V33, D191::V34, D191::V35, D191::V36, D191::V37, D191::V38, D191::V39, D191::V40, D191::V41, D191::V42, D191::V43, D191::V44, D191::V45, D191::V46, D191::V47, D191::V48, D191::V49, D191::V50, D191::V51, D191::V52, D191::V53, D191::V54, D191::V55, D191::V56, D191::V57, D191::V58, D191::V59, D191::V60, D191::V61, D191::V62, D191::V63, D191::V64, D191::V65, D191::V66, D191::V67, D191::V68, D191::V69, D191::V70, D191::V71, D191::V72, D191::V73, D191::V74, D191::V75, D191::V76, D191::V77, D191::V78, D191::V79, D191::V80, D191::V81, D191::V82, D191::V83, D191::V84, D191::V85, D191::V86, D191::V87, D191::V88, D191::V89, D191::V90, D191::V91, D191::V92, D191::V93, D191::V94, D191::V95, D191::V96, D191::V97, D191::V98, D191::V99, D191::V100, D191::V101, D191::V102, D191::V103, D191::V104, D191::V105, D191::V106, D191::V107, D191::V108, D191::V109, D191::V110, D191::V111, D191::V112, D191::V113, D191::V114, D191::V115, D191::V116, D191::V117, D191::V118, D191::V119, D191::V120, D191::V121, D191::V122, D191::V123, D191::V124, D191::V125, D191::V126, D191::V127, D191::V128, D191::V129, D191::V130, D191::V131, D191::V132, D191::V133, D191::V134, D191::V135, D191::V136, D191::V137, D191::V138, D191::V139, D191::V140, D191::V141, D191::V142, D191::V143, D191::V144, D191::V145, D191::V146, D191::V147, D191::V148, D191::V149, D191::V150, D191::V151, D191::V152, D191::V153, D191::V154, D191::V155, D191::V156, D191::V157, D191::V158, D191::V159, D191::V160, D191::V161, D191::V162, D191::V163, D191::V164, D191::V165, D191::V166, D191::V167, D191::V168, D191::V169, D191::V170, D191::V171, D191::V172, D191::V173, D191::V174, D191::V175, D191::V176, D191::V177, D191::V178, D191::V179, D191::V180, D191::V181, D191::V182, D191::V183, D191::V184, D191::V185, D191::V186, D191::V187, D191::V188, D191::V189, D191::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D191 }
impl core::fmt::Display for D191 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D191 {}

#[derive(EnumSetType, Debug)] pub enum D192 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191 }
impl Cat for D192 {
    const NAME: &'static str = "D192";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D192 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191];
    const VARS: &'static [Self] = &[D192::V0, D192::V1, D192::V2, D192::V3, D192::V4, D192::V5, D192::V6, D192::V7, D192::V8, D192::V9, D192::V10, D192::V11, D192::V12, D192::V13, D192::V14, D192::V15, D192::V16, D192::V17, D192::V18, D192::V19, D192::V20, D192::V21, D192::V22, D192::V23, D192::V24, D192::V25, D192::V26, D192::V27, D192::V28, D192::V29, D192::V30, D192::V31, D192::V32, D192::V33, D192::V34, D192::V35, D192::V36, D192::V37, D192::V38, D192::V39, D192::V40, D192::V41, D192::V42, D192::V43, D192::V44, D192::V45, D192::V46, D192::V47, D192::V48, D192::V49, D192::V50, D192::V51, D192::V52, D192::V53, D192::V54, D192::V55, D192::V56, D192::V57, D192::V58, D192::V59, D192::V60, D192::V61, D192::V62, D192::V63, D192::V64, D192::V65, D192::V66, D192::V67, D192::V68, D192::V69, D192::V70, D192::V71, D192::V72, D192::V73, D192::V74, D192::V75, D192::V76, D192::V77, D192::V78, D192::V79, D192::V80, D192::V81, D192::V82, D192::V83, D192::V84, D192::V85, D192::V86, D192::V87, D192::V88, D192::V89, D192::V90, D192::V91, D192::V92, D192::V93, D192::V94, D192::V95, D192::V96, D192::V97, D192::V98, D192::V99, D192::V100, D192::V101, D192::V102, D192::V103, D192::V104, D192::V105, D192::V106, D192::V107, D192::V108, D192::V109, D192::V110, D192::V111, D192::V112, D192::V113, D192::V114, D192::V115, D192::V116, D192::V117, D192::V118, D192::V119, D192::V120, D192::V121, D192::V122, D192::V123, D192::V124, D192::V125, D192::V126, D192::V127, D192::V128, D192::V129, D192::V130, D192::V131, D192::V132, D192::V133, D192::V134, D192::V135, D192::V136, D192::V137, D192::V138, D192::V139, D192::V140, D192::V141, D192::V142, D192::V143, D192::V144, D192::V145, D192::V146, D192::V147, D192::V148, D192::V149, D192::V150, D192::V151, D192::V152, D192::V153, D192::V154, D192::V155, D192::V156, D192::V157, D192::V158, D192::V159, D192::V160, D192::V161, D192::V162, D192::V163, D192::V164, D192::V165, D192::V166, D192::V167, D192::V168, D192::V169, D192::V170, D192::V171, D192::V172, D192::V173, D192::V174, D192::V175, D192::V176, D192::V177, D192::V178, D192::V179, D192::V180, D192::V181, D192::V182, D192::V183, D192::V184, D192::V185, D192::V186, D192::V187, D192::V188, D192::V189, D192::V190, D192::V191];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D192 }
impl core::fmt::Display for D192 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D192 {}

#[derive(EnumSetType, Debug)] pub enum D193 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192 }
impl Cat for D193 {
    const NAME: &'static str = "D193";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D193 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192];
    const VARS: &'static [Self] = &[D193::V0, D193::V1, D193::V2, D193::V3, D193::V4, D193::V5, D193::V6, D193::V7, D193::V8, D193::V9, D193::V10, D193::V11, D193::V12, D193::V13, D193::V14, D193::V15, D193::V16, D193::V17, D193::V18, D193::V19, D193::V20, D193::V21, D193::V22, D193::V23, D193::V24, D193::V25, D193::V26, D193::V27, D193::V28, D193::V29, D193::V30, D193::V31, D193::V32, D193::V33, D193::V34, D193::V35, D193::V36, D193::V37, D193::V38, D193::V39, D193::V40, D193::V41, D193::V42, D193::V43, D193::V44, D193::V45, D193::V46, D193::V47, D193::V48, D193::V49, D193::V50, D193::V51, D193::V52, D193::V53, D193::V54, D193::V55, D193::V56, D193::V57, D193::V58, D193::V59, D193::V60, D193::V61, D193::V62, D193::V63, D193::V64, D193::V65, D193::V66, D193::V67, D193::V68, D193::V69, D193::V70, D193::V71, D193::V72, D193::V73, D193::V74, D193::V75, D193::V76, D193::V77, D193::V78, D193::V79, D193::V80, D193::V81, D193::V82, D193::V83, D193::V84, D193::V85, D193::V86, D193::V87, D193::V88, D193::V89, D193::V90, D193::V91, D193::V92, D193::V93, D193::V94, D193::V95, D193::V96, D193::V97, D193::V98, D193::V99, D193::V100, D193::V101, D193::V102, D193::V103, D193::V104, D193::V105, D193::V106, D193::V107, D193::V108, D193::V109, D193::V110, D193::V111, D193::V112, D193::V113, D193::V114, D193::V115, D193::V116, D193::V117, D193::V118, D193::V119, D193::V120, D193::V121, D193::V122, D193::V123, D193::V124, D193::V125, D193::V126, D193::V127, D193::V128, D193::V129, D193::V130, D193::V131, D193::V132, D193::V133, D193::V134, D193::V135, D193::V136, D193::V137, D193::V138, D193::V139, D193::V140, D193::V141, D193::V142, D193::V143, D193::V144, D193::V145, D193::V146, D193::V147, D193::V148, D193::V149, D193::V150, D193::V151, D193::V152, D193::V153, D193::V154, D193::V155, D193::V156, D193::V157, D193::V158, D193::V159, D193::V160, D193::V161, D193::V162, D193::V163, D193::V164, D193::V165, D193::V166, D193::V167, D193::V168, D193::V169, D193::V170, D193::V171, D193::V172, D193::V173, D193::V174, D193::V175, D193::V176, D193::V177, D193::V178, D193::V179, D193::V180, D193::V181, D193::V182, D193::V183, D193::V184, D193::V185, D193::V186, D193::V187, D193::V188, D193::V189, D193::V190, D193::V191, D193::V192];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D193 }
impl core::fmt::Display for D193 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D193 {}

#[derive(EnumSetType, Debug)] pub enum D256 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
impl Cat for D256 {
    const NAME: &'static str = "D256";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D256 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];
    const VARS: &'static [Self] = &[D256::V0, D256::V1, D256::V2, D256::V3, D256::V4, D256::V5, D256::V6, D256::V7, D256::V8, D256::V9, D256::V10, D256::V11, D256::V12, D256::V13, D256::V14, D256::V15, D256::V16, D256::V17, D256::V18, D256::V19, D256::V20, D256::V21, D256::V22, D256::V23, D256::V24, D256::V25, D256::V26, D256::V27, D256::V28, D256::V29, D256::V30, D256::V31, D256::V32, D256::V33, D256::V34, D256::V35, D256::V36, D256::V37, D256::V38, D256::V39, D256::V40, D256::V41, D256::V42, D256::V43, D256::V44, D256::V45, D256::V46, D256::V47, D256::V48, D256::V49, D256::V50, D256::V51, D256::V52, D256::V53, D256::V54, D256::V55, D256::V56, D256::V57, D256::V58, D256::V59, D256::V60, D256::V61, D256::V62, D256::V63, D256::V64, D256::V65, D256::V66, D256::V67, D256::V68, D256::V69, D256::V70, D256::V71, D256::V72, D256::V73, D256::V74, D256::V75, D256::V76, D256::V77, D256::V78, D256::V79, D256::V80, D256::V81, D256::V82, D256::V83, D256::V84, D256::V85, D256::V86, D256::V87, D256::V88, D256::V89, D256::V90, D256::V91, D256::V92, D256::V93, D256::V94, D256::V95, D256::V96, D256::V97, D256::V98, D256::V99, D256::V100, D256::V101, D256::V102, D256::V103, D256::V104, D256::V105, D256::V106, D256::V107, D256::V108, D256::V109, D256::V110, D256::V111, D256::V112, D256::V113, D256::V114, D256::V115, D256::V116, D256::V117, D256::V118, D256::V119, D256::V120, D256::V121, D256::V122, D256::V123, D256::V124, D256::V125, D256::V126, D256::V127, D256::V128, D256::V129, D256::V130, D256::V131, D256::V132, D256::V133, D256::V134, D256::V135, D256::V136, D256::V137, D256::V138, D256::V139, D256::V140, D256::V141, D256::V142, D256::V143, D256::V144, D256::V145, D256::V146, D256::V147, D256::V148, D256::V149, D256::V150, D256::V151, D256::V152, D256::V153, D256::V154, D256::V155, D256::V156, D256::V157, D256::V158, D256::V159, D256::V160, D256::V161, D256::V162, D256::V163, D256::V164, D256::V165, D256::V166, D256::V167, D256::V168, D256::V169, D256::V170, D256::V171, D256::V172, D256::V173, D256::V174, D256::V175, D256::V176, D256::V177, D256::V178, D256::V179, D256::V180, D256::V181, D256::V182, D256::V183, D256::V184, D256::V185, D256::V186, D256::V187, D256::V188, D256::V189, D256::V190, D256::V191, D256::V192, D256::V193, D256::V194, D256::V195, D256::V196, D256::V197, D256::V198, D256::V199, D256::V200, D256::V201, D256::V202, D256::V203, D256::V204, D256::V205, D256::V206, D256::V207, D256::V208, D256::V209, D256::V210, D256::V211, D256::V212, D256::V213, D256::V214, D256::V215, D256::V216, D256::V217, D256::V218, D256::V219, D256::V220, D256::V221, D256::V222, D256::V223, D256::V224, D256::V225, D256::V226, D256::V227, D256::V228, D256::V229, D256::V230, D256::V231, D256::V232, D256::V233, D256::V234, D256::V235, D256::V236, D256::V237, D256::V238, D256::V239, D256::V240, D256::V241, D256::V242, D256::V243, D256::V244, D256::V245, D256::V246, D256::V247, D256::V248, D256::V249, D256::V250, D256::V251, D256::V252, D256::V253, D256::V254, D256::V255];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192", "V193", "V194", "V195", "V196", "V197", "V198", "V199", "V200", "V201", "V202", "V203", "V204", "V205", "V206", "V207", "V208", "V209", "V210", "V211", "V212", "V213", "V214", "V215", "V216", "V217", "V218", "V219", "V220", "V221", "V222", "V223", "V224", "V225", "V226", "V227", "V228", "V229", "V230", "V231", "V232", "V233", "V234", "V235", "V236", "V237", "V238", "V239", "V240", "V241", "V242", "V243", "V244", "V245", "V246", "V247", "V248", "V249", "V250", "V251", "V252", "V253", "V254", "V255"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D256 }
impl core::fmt::Display for D256 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D256 {}

#[derive(EnumSetType, Debug)] pub enum D257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256 }
impl Cat for D257 {
    const NAME: &'static str = "D257";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D257 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256];
    const VARS: &'static [Self] = &[D257::V0, D257::V1, D257::V2, D257::V3, D257::V4, D257::V5, D257::V6, D257::V7, D257::V8, D257::V9, D257::V10, D257::V11, D257::V12, D257::V13, D257::V14, D257::V15, D257::V16, D257::V17, D257::V18, D257::V19, D257::V20, D257::V21, D257::V22, D257::V23, D257::V24, D257::V25, D257::V26, D257::V27, D257::V28, D257::V29, D257::V30, D257::V31, D257::V32, D257::V33, D257::V34, D257::V35, D257::V36, D257::V37, D257::V38, D257::V39, D257::V40, D257::V41, D257::V42, D257::V43, D257::V44, D257::V45, D257::V46, D257::V47, D257::V48, D257::V49, D257::V50, D257::V51, D257::V52, D257::V53, D257::V54, D257::V55, D257::V56, D257::V57, D257::V58, D257::V59, D257::V60, D257::V61, D257::V62, D257::V63, D257::V64, D257::V65, D257::V66, D257::V67, D257::V68, D257::V69, D257::V70, D257::V71, D257::V72, D257::V73, D257::V74, D257::V75, D257::V76, D257::V77, D257::V78, D257::V79, D257::V80, D257::V81, D257::V82, D257::V83, D257::V84, D257::V85, D257::V86, D257::V87, D257::V88, D257::V89, D257::V90, D257::V91, D257::V92, D257::V93, D257::V94, D257::V95, D257::V96, D257::V97, D257::V98, D257::V99, D257::V100, D257::V101, D257::V102, D257::V103, D257::V104, D257::V105, D257::V106, D257::V107, D257::V108, D257::V109, D257::V110, D257::V111, D257::V112, D257::V113, D257::V114, D257::V115, D257::V116, D257::V117, D257::V118, D257::V119, D257::V120, D257::V121, D257::V122, D257::V123, D257::V124, D257::V125, D257::V126, D257::V127, D257::V128, D257::V129, D257::V130, D257::V131, D257::V132, D257::V133, D257::V134, D257::V135, D257::V136, D257::V137, D257::V138, D257::V139, D257::V140, D257::V141, D257::V142, D257::V143, D257::V144, D257::V145, D257::V146, D257::V147, D257::V148, D257::V149, D257::V150, D257::V151, D257::V152, D257::V153, D257::V154, D257::V155, D257::V156, D257::V157, D257::V158, D257::V159, D257::V160, D257::V161, D257::V162, D257::V163, D257::V164, D257::V165, D257::V166, D257::V167, D257::V168, D257::V169, D257::V170, D257::V171, D257::V172, D257::V173, D257::V174, D257::V175, D257::V176, D257::V177, D257::V178, D257::V179, D257::V180, D257::V181, D257::V182, D257::V183, D257::V184, D257::V185, D257::V186, D257::V187, D257::V188, D257::V189, D257::V190, D257::V191, D257::V192, D257::V193, D257::V194, D257::V195, D257::V196, D257::V197, D257::V198, D257::V199, D257::V200, D257::V201, D257::V202, D257::V203, D257::V204, D257::V205, D257::V206, D257::V207, D257::V208, D257::V209, D257::V210, D257::V211, D257::V212, D257::V213, D257::V214, D257::V215, D257::V216, D257::V217, D257::V218, D257::V219, D257::V220, D257::V221, D257::V222, D257::V223, D257::V224, D257::V225, D257::V226, D257::V227, D257::V228, D257::V229, D257::V230, D257::V231, D257::V232, D257::V233, D257::V234, D257::V235, D257::V236, D257::V237, D257::V238, D257::V239, D257::V240, D257::V241, D257::V242, D257::V243, D257::V244, D257::V245, D257::V246, D257::V247, D257::V248, D257::V249, D257::V250, D257::V251, D257::V252, D257::V253, D257::V254, D257::V255, D257::V256];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192", "V193", "V194", "V195", "V196", "V197", "V198", "V199", "V200", "V201", "V202", "V203", "V204", "V205", "V206", "V207", "V208", "V209", "V210", "V211", "V212", "V213", "V214", "V215", "V216", "V217", "V218", "V219", "V220", "V221", "V222", "V223", "V224", "V225", "V226", "V227", "V228", "V229", "V230", "V231", "V232", "V233", "V234", "V235", "V236", "V237", "V238", "V239", "V240", "V241", "V242", "V243", "V244", "V245", "V246", "V247", "V248", "V249", "V250", "V251", "V252", "V253", "V254", "V255", "V256"];
    const WORDS: usize = 5;
    const SIZE: usize = 40;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D257 }
impl core::fmt::Display for D257 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D257 {}

#[derive(EnumSetType, Debug)] pub enum D300 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
impl Cat for D300 {
    const NAME: &'static str = "D300";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D300 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299];
    const VARS: &'static [Self] = &[D300::V0, D300::V1, D300::V2, D300::V3, D300::V4, D300::V5, D300::V6, D300::V7, D300::V8, D300::V9, D300::V10, D300::V11, D300::V12, D300::V13, D300::V14, D300::V15, D300::V16, D300::V17, D300::V18, D300::V19, D300::V20, D300::V21, D300::V22, D300::V23, D300::V24, D300::V25, D300::V26, D300::V27, D300::V28, D300::V29, D300::V30, D300::V31, D300::V32, D300::V33, D300::V34, D300::V35, D300::V36, D300::V37, D300::V38, D300::V39, D300::V40, D300::V41, D300::V42, D300::V43, D300::V44, D300::V45, D300::V46, D300::V47, D300::V48, D300::V49, D300::V50, D300::V51, D300::V52, D300::V53, D300::V54, D300::V55, D300::V56, D300::V57, D300::V58, D300::V59, D300::V60, D300::V61, D300::V62, D300::V63, D300::V64, D300::V65, D300::V66, D300::V67, D300::V68, D300::V69, D300::V70, D300::V71, D300::V72, D300::V73, D300::V74, D300::V75, D300::V76, D300::V77, D300::V78, D300::V79, D300::V80, D300::V81, D300::V82, D300::V83, D300::V84, D300::V85, D300::V86, D300::V87, D300::V88, D300::V89, D300::V90, D300::V91, D300::V92, D300::V93, D300::V94, D300::V95, D300::V96, D300::V97, D300::V98, D300::V99, D300::V100, D300::V101, D300::V102, D300::V103, D300::V104, D300::V105, D300::V106, D300::V107, D300::V108, D300::V109, D300::V110, D300::V111, D300::V112, D300::V113, D300::V114, D300::V115, D300::V116, D300::V117, D300::V118, D300::V119, D300::V120, D300::V121, D300::V122, D300::V123, D300::V124, D300::V125, D300::V126, D300::V127, D300::V128, D300::V129, D300::V130, D300::V131, D300::V132, D300::V133, D300::V134, D300::V135, D300::V136, D300::V137, D300::V138, D300::V139, D300::V140, D300::V141, D300::V142, D300::V143, D300::V144, D300::V145, D300::V146, D300::V147, D300::V148, D300::V149, D300::V150, D300::V151, D300::V152, D300::V153, D300::V154, D300::V155, D300::V156, D300::V157, D300::V158, D300::V159, D300::V160, D300::V161, D300::V162, D300::V163, D300::V164, D300::V165, D300::V166, D300::V167, D300::V168, D300::V169, D300::V170, D300::V171, D300::V172, D300::V173, D300::V174, D300::V175, D300::V176, D300::V177, D300::V178, D300::V179, D300::V180, D300::V181, D300::V182, D300::V183, D300::V184, D300::V185, D300::V186, D300::V187, D300::V188, D300::V189, D300::V190, D300::V191, D300::V192, D300::V193, D300::V194, D300::V195, D300::V196, D300::V197, D300::V198, D300::V199, D300::V200, D300::V201, D300::V202, D300::V203, D300::V204, D300::V205, D300::V206, D300::V207, D300::V208, D300::V209, D300::V210, D300::V211, D300::V212, D300::V213, D300::V214, D300::V215, D300::V216, D300::V217, D300::V218, D300::V219, D300::V220, D300::V221, D300::V222, D300::V223, D300::V224, D300::V225, D300::V226, D300::V227, D300::V228, D300::V229, D300::V230, D300::V231, D300::V232, D300::V233, D300::V234, D300::V235, D300::V236, D300::V237, D300::V238, D300::V239, D300::V240, D300::V241, D300::V242, D300::V243, D300::V244, D300::V245, D300::V246, D300::V247, D300::V248, D300::V249, D300::V250, D300::V251, D300::V252, D300::V253, D300::V254, D300::V255, D300::V256, D300::V257, D300::V258, D300::V259, D300::V260, D300::V261, D300::V262, D300::V263, D300::V264, D300::V265, D300::V266, D300::V267, D300::V268, D300::V269, D300::V270, D300::V271, D300::V272, D300::V273, D300::V274, D300::V275, D300::V276, D300::V277, D300::V278, D300::V279, D300::V280, D300::V281, D300::V282, D300::V283, D300::V284, D300::V285, D300::V286, D300::V287, D300::V288, D300::V289, D300::V290, D300::V291, D300::V292, D300::V293, D300::V294, D300::V295, D300::V296, D300::V297, D300::V298, D300::V299];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192", "V193", "V194", "V195", "V196", "V197", "V198", "V199", "V200", "V201", "V202", "V203", "V204", "V205", "V206", "V207", "V208", "V209", "V210", "V211", "V212", "V213", "V214", "V215", "V216", "V217", "V218", "V219", "V220", "V221", "V222", "V223", "V224", "V225", "V226", "V227", "V228", "V229", "V230", "V231", "V232", "V233", "V234", "V235", "V236", "V237", "V238", "V239", "V240", "V241", "V242", "V243", "V244", "V245", "V246", "V247", "V248", "V249", "V250", "V251", "V252", "V253", "V254", "V255", "V256", "V257", "V258", "V259", "V260", "V261", "V262", "V263", "V264", "V265", "V266", "V267", "V268", "V269", "V270", "V271", "V272", "V273", "V274", "V275", "V276", "V277", "V278", "V279", "V280", "V281", "V282", "V283", "V284", "V285", "V286", "V287", "V288", "V289", "V290", "V291", "V292", "V293", "V294", "V295", "V296", "V297", "V298", "V299"];
    const WORDS: usize = 5;
    const SIZE: usize = 40;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D300 }
impl core::fmt::Display for D300 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D300 {}

#[derive(EnumSetType, Debug)] pub enum D4 { V0, V1, V2, V3 }
impl Cat for D4 {
    const NAME: &'static str = "D4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D4 { V0, V1, V2, V3 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3];
    const VARS: &'static [Self] = &[D4::V0, D4::V1, D4::V2, D4::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D4 }
impl core::fmt::Display for D4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D4 {}

#[derive(EnumSetType, Debug)] pub enum D6 { V0, V1, V2, V3, V4, V5 }
impl Cat for D6 {
    const NAME: &'static str = "D6";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D6 { V0, V1, V2, V3, V4, V5 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5];
    const VARS: &'static [Self] = &[D6::V0, D6::V1, D6::V2, D6::V3, D6::V4, D6::V5];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D6 }
impl core::fmt::Display for D6 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D6 {}

#[derive(EnumSetType, Debug)] pub enum D10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }
impl Cat for D10 {
    const NAME: &'static str = "D10";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D10 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const VARS: &'static [Self] = &[D10::V0, D10::V1, D10::V2, D10::V3, D10::V4, D10::V5, D10::V6, D10::V7, D10::V8, D10::V9];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D10 }
impl core::fmt::Display for D10 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D10 {}

#[derive(EnumSetType, Debug)] pub enum D11 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10 }
impl Cat for D11 {
    const NAME: &'static str = "D11";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D11 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    const VARS: &'static [Self] = &[D11::V0, D11::V1, D11::V2, D11::V3, D11::V4, D11::V5, D11::V6, D11::V7, D11::V8, D11::V9, D11::V10];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D11 }
impl core::fmt::Display for D11 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D11 {}

#[derive(EnumSetType, Debug)] pub enum D12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Cat for D12 {
    const NAME: &'static str = "D12";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    const VARS: &'static [Self] = &[D12::V0, D12::V1, D12::V2, D12::V3, D12::V4, D12::V5, D12::V6, D12::V7, D12::V8, D12::V9, D12::V10, D12::V11];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D12 }
impl core::fmt::Display for D12 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D12 {}

#[derive(EnumSetType, Debug)] pub enum D13 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12 }
impl Cat for D13 {
    const NAME: &'static str = "D13";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D13 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
    const VARS: &'static [Self] = &[D13::V0, D13::V1, D13::V2, D13::V3, D13::V4, D13::V5, D13::V6, D13::V7, D13::V8, D13::V9, D13::V10, D13::V11, D13::V12];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D13 }
impl core::fmt::Display for D13 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D13 {}

#[derive(EnumSetType, Debug)] pub enum D14 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13 }
impl Cat for D14 {
    const NAME: &'static str = "D14";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D14 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    const VARS: &'static [Self] = &[D14::V0, D14::V1, D14::V2, D14::V3, D14::V4, D14::V5, D14::V6, D14::V7, D14::V8, D14::V9, D14::V10, D14::V11, D14::V12, D14::V13];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D14 }
impl core::fmt::Display for D14 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D14 {}

#[derive(EnumSetType, Debug)] pub enum D18 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17 }
impl Cat for D18 {
    const NAME: &'static str = "D18";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D18 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17];
    const VARS: &'static [Self] = &[D18::V0, D18::V1, D18::V2, D18::V3, D18::V4, D18::V5, D18::V6, D18::V7, D18::V8, D18::V9, D18::V10, D18::V11, D18::V12, D18::V13, D18::V14, D18::V15, D18::V16, D18::V17];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D18 }
impl core::fmt::Display for D18 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D18 {}

#[derive(EnumSetType, Debug)] pub enum D19 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18 }
impl Cat for D19 {
    const NAME: &'static str = "D19";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D19 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];
    const VARS: &'static [Self] = &[D19::V0, D19::V1, D19::V2, D19::V3, D19::V4, D19::V5, D19::V6, D19::V7, D19::V8, D19::V9, D19::V10, D19::V11, D19::V12, D19::V13, D19::V14, D19::V15, D19::V16, D19::V17, D19::V18];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D19 }
impl core::fmt::Display for D19 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D19 {}

#[derive(EnumSetType, Debug)] pub enum D20 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }
impl Cat for D20 {
    const NAME: &'static str = "D20";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D20 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
    const VARS: &'static [Self] = &[D20::V0, D20::V1, D20::V2, D20::V3, D20::V4, D20::V5, D20::V6, D20::V7, D20::V8, D20::V9, D20::V10, D20::V11, D20::V12, D20::V13, D20::V14, D20::V15, D20::V16, D20::V17, D20::V18, D20::V19];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D20 }
impl core::fmt::Display for D20 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D20 {}

#[derive(EnumSetType, Debug)] pub enum D21 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20 }
impl Cat for D21 {
    const NAME: &'static str = "D21";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D21 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
    const VARS: &'static [Self] = &[D21::V0, D21::V1, D21::V2, D21::V3, D21::V4, D21::V5, D21::V6, D21::V7, D21::V8, D21::V9, D21::V10, D21::V11, D21::V12, D21::V13, D21::V14, D21::V15, D21::V16, D21::V17, D21::V18, D21::V19, D21::V20];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D21 }
impl core::fmt::Display for D21 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D21 {}

#[derive(EnumSetType, Debug)] pub enum D22 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21 }
impl Cat for D22 {
    const NAME: &'static str = "D22";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D22 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];
    const VARS: &'static [Self] = &[D22::V0, D22::V1, D22::V2, D22::V3, D22::V4, D22::V5, D22::V6, D22::V7, D22::V8, D22::V9, D22::V10, D22::V11, D22::V12, D22::V13, D22::V14, D22::V15, D22::V16, D22::V17, D22::V18, D22::V19, D22::V20, D22::V21];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D22 }
impl core::fmt::Display for D22 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D22 {}

#[derive(EnumSetType, Debug)] pub enum D23 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22 }
impl Cat for D23 {
    const NAME: &'static str = "D23";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D23 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];
    const VARS: &'static [Self] = &[D23::V0, D23::V1, D23::V2, D23::V3, D23::V4, D23::V5, D23::V6, D23::V7, D23::V8, D23::V9, D23::V10, D23::V11, D23::V12, D23::V13, D23::V14, D23::V15, D23::V16, D23::V17, D23::V18, D23::V19, D23::V20, D23::V21, D23::V22];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D23 }
impl core::fmt::Display for D23 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D23 {}

#[derive(EnumSetType, Debug)] pub enum D24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }
impl Cat for D24 {
    const NAME: &'static str = "D24";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D24 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];
    const VARS: &'static [Self] = &[D24::V0, D24::V1, D24::V2, D24::V3, D24::V4, D24::V5, D24::V6, D24::V7, D24::V8, D24::V9, D24::V10, D24::V11, D24::V12, D24::V13, D24::V14, D24::V15, D24::V16, D24::V17, D24::V18, D24::V19, D24::V20, D24::V21, D24::V22, D24::V23];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D24 }
impl core::fmt::Display for D24 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D24 {}

#[derive(EnumSetType, Debug)] pub enum D25 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24 }
impl Cat for D25 {
    const NAME: &'static str = "D25";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D25 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24];
    const VARS: &'static [Self] = &[D25::V0, D25::V1, D25::V2, D25::V3, D25::V4, D25::V5, D25::V6, D25::V7, D25::V8, D25::V9, D25::V10, D25::V11, D25::V12, D25::V13, D25::V14, D25::V15, D25::V16, D25::V17, D25::V18, D25::V19, D25::V20, D25::V21, D25::V22, D25::V23, D25::V24];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D25 }
impl core::fmt::Display for D25 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D25 {}

#[derive(EnumSetType, Debug)] pub enum D26 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25 }
impl Cat for D26 {
    const NAME: &'static str = "D26";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D26 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25];
    const VARS: &'static [Self] = &[D26::V0, D26::V1, D26::V2, D26::V3, D26::V4, D26::V5, D26::V6, D26::V7, D26::V8, D26::V9, D26::V10, D26::V11, D26::V12, D26::V13, D26::V14, D26::V15, D26::V16, D26::V17, D26::V18, D26::V19, D26::V20, D26::V21, D26::V22, D26::V23, D26::V24, D26::V25];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D26 }
impl core::fmt::Display for D26 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D26 {}

#[derive(EnumSetType, Debug)] pub enum D27 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26 }
impl Cat for D27 {
    const NAME: &'static str = "D27";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D27 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26];
    const VARS: &'static [Self] = &[D27::V0, D27::V1, D27::V2, D27::V3, D27::V4, D27::V5, D27::V6, D27::V7, D27::V8, D27::V9, D27::V10, D27::V11, D27::V12, D27::V13, D27::V14, D27::V15, D27::V16, D27::V17, D27::V18, D27::V19, D27::V20, D27::V21, D27::V22, D27::V23, D27::V24, D27::V25, D27::V26];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D27 }
impl core::fmt::Display for D27 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D27 {}

#[derive(EnumSetType, Debug)] pub enum D28 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27 }
impl Cat for D28 {
    const NAME: &'static str = "D28";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D28 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27];
    const VARS: &'static [Self] = &[D28::V0, D28::V1, D28::V2, D28::V3, D28::V4, D28::V5, D28::V6, D28::V7, D28::V8, D28::V9, D28::V10, D28::V11, D28::V12, D28::V13, D28::V14, D28::V15, D28::V16, D28::V17, D28::V18, D28::V19, D28::V20, D28::V21, D28::V22, D28::V23, D28::V24, D28::V25, D28::V26, D28::V27];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D28 }
impl core::fmt::Display for D28 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D28 {}

#[derive(EnumSetType, Debug)] pub enum D29 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28 }
impl Cat for D29 {
    const NAME: &'static str = "D29";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D29 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28];
    const VARS: &'static [Self] = &[D29::V0, D29::V1, D29::V2, D29::V3, D29::V4, D29::V5, D29::V6, D29::V7, D29::V8, D29::V9, D29::V10, D29::V11, D29::V12, D29::V13, D29::V14, D29::V15, D29::V16, D29::V17, D29::V18, D29::V19, D29::V20, D29::V21, D29::V22, D29::V23, D29::V24, D29::V25, D29::V26, D29::V27, D29::V28];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D29 }
impl core::fmt::Display for D29 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D29 {}

#[derive(EnumSetType, Debug)] pub enum D30 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29 }
impl Cat for D30 {
    const NAME: &'static str = "D30";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D30 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29];
    const VARS: &'static [Self] = &[D30::V0, D30::V1, D30::V2, D30::V3, D30::V4, D30::V5, D30::V6, D30::V7, D30::V8, D30::V9, D30::V10, D30::V11, D30::V12, D30::V13, D30::V14, D30::V15, D30::V16, D30::V17, D30::V18, D30::V19, D30::V20, D30::V21, D30::V22, D30::V23, D30::V24, D30::V25, D30::V26, D30::V27, D30::V28, D30::V29];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D30 }
impl core::fmt::Display for D30 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D30 {}

#[derive(EnumSetType, Debug)] pub enum D34 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33 }
impl Cat for D34 {
    const NAME: &'static str = "D34";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D34 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33];
    const VARS: &'static [Self] = &[D34::V0, D34::V1, D34::V2, D34::V3, D34::V4, D34::V5, D34::V6, D34::V7, D34::V8, D34::V9, D34::V10, D34::V11, D34::V12, D34::V13, D34::V14, D34::V15, D34::V16, D34::V17, D34::V18, D34::V19, D34::V20, D34::V21, D34::V22, D34::V23, D34::V24, D34::V25, D34::V26, D34::V27, D34::V28, D34::V29, D34::V30, D34::V31, D34::V32, D34::V33];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D34 }
impl core::fmt::Display for D34 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D34 {}

#[derive(EnumSetType, Debug)] pub enum D35 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34 }
impl Cat for D35 {
    const NAME: &'static str = "D35";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D35 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34];
    const VARS: &'static [Self] = &[D35::V0, D35::V1, D35::V2, D35::V3, D35::V4, D35::V5, D35::V6, D35::V7, D35::V8, D35::V9, D35::V10, D35::V11, D35::V12, D35::V13, D35::V14, D35::V15, D35::V16, D35::V17, D35::V18, D35::V19, D35::V20, D35::V21, D35::V22, D35::V23, D35::V24, D35::V25, D35::V26, D35::V27, D35::V28, D35::V29, D35::V30, D35::V31, D35::V32, D35::V33, D35::V34];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D35 }
impl core::fmt::Display for D35 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D35 {}

#[derive(EnumSetType, Debug)] pub enum D36 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35 }
impl Cat for D36 {
    const NAME: &'static str = "D36";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D36 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35];
    const VARS: &'static [Self] = &[D36::V0, D36::V1, D36::V2, D36::V3, D36::V4, D36::V5, D36::V6, D36::V7, D36::V8, D36::V9, D36::V10, D36::V11, D36::V12, D36::V13, D36::V14, D36::V15, D36::V16, D36::V17, D36::V18, D36::V19, D36::V20, D36::V21, D36::V22, D36::V23, D36::V24, D36::V25, D36::V26, D36::V27, D36::V28, D36::V29, D36::V30, D36::V31, D36::V32, D36::V33, D36::V34, D36::V35];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D36 }
impl core::fmt::Display for D36 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D36 {}

#[derive(EnumSetType, Debug)] pub enum D37 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36 }
impl Cat for D37 {
    const NAME: &'static str = "D37";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D37 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36];
    const VARS: &'static [Self] = &[D37::V0, D37::V1, D37::V2, D37::V3, D37::V4, D37::V5, D37::V6, D37::V7, D37::V8, D37::V9, D37::V10, D37::V11, D37::V12, D37::V13, D37::V14, D37::V15, D37::V16, D37::V17, D37::V18, D37::V19, D37::V20, D37::V21, D37::V22, D37::V23, D37::V24, D37::V25, D37::V26, D37::V27, D37::V28, D37::V29, D37::V30, D37::V31, D37::V32, D37::V33, D37::V34, D37::V35, D37::V36];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D37 }
impl core::fmt::Display for D37 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D37 {}

#[derive(EnumSetType, Debug)] pub enum D38 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37 }
impl Cat for D38 {
    const NAME: &'static str = "D38";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D38 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37];
    const VARS: &'static [Self] = &[D38::V0, D38::V1, D38::V2, D38::V3, D38::V4, D38::V5, D38::V6, D38::V7, D38::V8, D38::V9, D38::V10, D38::V11, D38::V12, D38::V13, D38::V14, D38::V15, D38::V16, D38::V17, D38::V18, D38::V19, D38::V20, D38::V21, D38::V22, D38::V23, D38::V24, D38::V25, D38::V26, D38::V27, D38::V28, D38::V29, D38::V30, D38::V31, D38::V32, D38::V33, D38::V34, D38::V35, D38::V36, D38::V37];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D38 }
impl core::fmt::Display for D38 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D38 {}

#[derive(EnumSetType, Debug)] pub enum D39 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38 }
impl Cat for D39 {
    const NAME: &'static str = "D39";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D39 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38];
    const VARS: &'static [Self] = &[D39::V0, D39::V1, D39::V2, D39::V3, D39::V4, D39::V5, D39::V6, D39::V7, D39::V8, D39::V9, D39::V10, D39::V11, D39::V12, D39::V13, D39::V14, D39::V15, D39::V16, D39::V17, D39::V18, D39::V19, D39::V20, D39::V21, D39::V22, D39::V23, D39::V24, D39::V25, D39::V26, D39::V27, D39::V28, D39::V29, D39::V30, D39::V31, D39::V32, D39::V33, D39::V34, D39::V35, D39::V36, D39::V37, D39::V38];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D39 }
impl core::fmt::Display for D39 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D39 {}

#[derive(EnumSetType, Debug)] pub enum D40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
impl Cat for D40 {
    const NAME: &'static str = "D40";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39];
    const VARS: &'static [Self] = &[D40::V0, D40::V1, D40::V2, D40::V3, D40::V4, D40::V5, D40::V6, D40::V7, D40::V8, D40::V9, D40::V10, D40::V11, D40::V12, D40::V13, D40::V14, D40::V15, D40::V16, D40::V17, D40::V18, D40::V19, D40::V20, D40::V21, D40::V22, D40::V23, D40::V24, D40::V25, D40::V26, D40::V27, D40::V28, D40::V29, D40::V30, D40::V31, D40::V32, D40::V33, D40::V34, D40::V35, D40::V36, D40::V37, D40::V38, D40::V39];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D40 }
impl core::fmt::Display for D40 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D40 {}

#[derive(EnumSetType, Debug)] pub enum D41 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40 }
impl Cat for D41 {
    const NAME: &'static str = "D41";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D41 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40];
    const VARS: &'static [Self] = &[D41::V0, D41::V1, D41::V2, D41::V3, D41::V4, D41::V5, D41::V6, D41::V7, D41::V8, D41::V9, D41::V10, D41::V11, D41::V12, D41::V13, D41::V14, D41::V15, D41::V16, D41::V17, D41::V18, D41::V19, D41::V20, D41::V21, D41::V22, D41::V23, D41::V24, D41::V25, D41::V26, D41::V27, D41::V28, D41::V29, D41::V30, D41::V31, D41::V32, D41::V33, D41::V34, D41::V35, D41::V36, D41::V37, D41::V38, D41::V39, D41::V40];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D41 }
impl core::fmt::Display for D41 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D41 {}

#[derive(EnumSetType, Debug)] pub enum D42 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41 }
impl Cat for D42 {
    const NAME: &'static str = "D42";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D42 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41];
    const VARS: &'static [Self] = &[D42::V0, D42::V1, D42::V2, D42::V3, D42::V4, D42::V5, D42::V6, D42::V7, D42::V8, D42::V9, D42::V10, D42::V11, D42::V12, D42::V13, D42::V14, D42::V15, D42::V16, D42::V17, D42::V18, D42::V19, D42::V20, D42::V21, D42::V22, D42::V23, D42::V24, D42::V25, D42::V26, D42::V27, D42::V28, D42::V29, D42::V30, D42::V31, D42::V32, D42::V33, D42::V34, D42::V35, D42::V36, D42::V37, D42::V38, D42::V39, D42::V40, D42::V41];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D42 }
impl core::fmt::Display for D42 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D42 {}

#[derive(EnumSetType, Debug)] pub enum D43 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42 }
impl Cat for D43 {
    const NAME: &'static str = "D43";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D43 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42];
    const VARS: &'static [Self] = &[D43::V0, D43::V1, D43::V2, D43::V3, D43::V4, D43::V5, D43::V6, D43::V7, D43::V8, D43::V9, D43::V10, D43::V11, D43::V12, D43::V13, D43::V14, D43::V15, D43::V16, D43::V17, D43::V18, D43::V19, D43::V20, D43::V21, D43::V22, D43::V23, D43::V24, D43::V25, D43::V26, D43::V27, D43::V28, D43::V29, D43::V30, D43::V31, D43::V32, D43::V33, D43::V34, D43::V35, D43::V36, D43::V37, D43::V38, D43::V39, D43::V40, D43::V41, D43::V42];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D43 }
impl core::fmt::Display for D43 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D43 {}

#[derive(EnumSetType, Debug)] pub enum D44 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43 }
impl Cat for D44 {
    const NAME: &'static str = "D44";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D44 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43];
    const VARS: &'static [Self] = &[D44::V0, D44::V1, D44::V2, D44::V3, D44::V4, D44::V5, D44::V6, D44::V7, D44::V8, D44::V9, D44::V10, D44::V11, D44::V12, D44::V13, D44::V14, D44::V15, D44::V16, D44::V17, D44::V18, D44::V19, D44::V20, D44::V21, D44::V22, D44::V23, D44::V24, D44::V25, D44::V26, D44::V27, D44::V28, D44::V29, D44::V30, D44::V31, D44::V32, D44::V33, D44::V34, D44::V35, D44::V36, D44::V37, D44::V38, D44::V39, D44::V40, D44::V41, D44::V42, D44::V43];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D44 }
impl core::fmt::Display for D44 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D44 {}

#[derive(EnumSetType, Debug)] pub enum D45 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44 }
impl Cat for D45 {
    const NAME: &'static str = "D45";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D45 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44];
    const VARS: &'static [Self] = &[D45::V0, D45::V1, D45::V2, D45::V3, D45::V4, D45::V5, D45::V6, D45::V7, D45::V8, D45::V9, D45::V10, D45::V11, D45::V12, D45::V13, D45::V14, D45::V15, D45::V16, D45::V17, D45::V18, D45::V19, D45::V20, D45::V21, D45::V22, D45::V23, D45::V24, D45::V25, D45::V26, D45::V27, D45::V28, D45::V29, D45::V30, D45::V31, D45::V32, D45::V33, D45::V34, D45::V35, D45::V36, D45::V37, D45::V38, D45::V39, D45::V40, D45::V41, D45::V42, D45::V43, D45::V44];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D45 }
impl core::fmt::Display for D45 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D45 {}

#[derive(EnumSetType, Debug)] pub enum D46 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45 }
impl Cat for D46 {
    const NAME: &'static str = "D46";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D46 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45];
    const VARS: &'static [Self] = &[D46::V0, D46::V1, D46::V2, D46::V3, D46::V4, D46::V5, D46::V6, D46::V7, D46::V8, D46::V9, D46::V10, D46::V11, D46::V12, D46::V13, D46::V14, D46::V15, D46::V16, D46::V17, D46::V18, D46::V19, D46::V20, D46::V21, D46::V22, D46::V23, D46::V24, D46::V25, D46::V26, D46::V27, D46::V28, D46::V29, D46::V30, D46::V31, D46::V32, D46::V33, D46::V34, D46::V35, D46::V36, D46::V37, D46::V38, D46::V39, D46::V40, D46::V41, D46::V42, D46::V43, D46::V44, D46::V45];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D46 }
impl core::fmt::Display for D46 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D46 {}

#[derive(EnumSetType, Debug)] pub enum D47 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46 }
impl Cat for D47 {
    const NAME: &'static str = "D47";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D47 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46];
    const VARS: &'static [Self] = &[D47::V0, D47::V1, D47::V2, D47::V3, D47::V4, D47::V5, D47::V6, D47::V7, D47::V8, D47::V9, D47::V10, D47::V11, D47::V12, D47::V13, D47::V14, D47::V15, D47::V16, D47::V17, D47::V18, D47::V19, D47::V20, D47::V21, D47::V22, D47::V23, D47::V24, D47::V25, D47::V26, D47::V27, D47::V28, D47::V29, D47::V30, D47::V31, D47::V32, D47::V33, D47::V34, D47::V35, D47::V36, D47::V37, D47::V38, D47::V39, D47::V40, D47::V41, D47::V42, D47::V43, D47::V44, D47::V45, D47::V46];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D47 }
impl core::fmt::Display for D47 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D47 {}

#[derive(EnumSetType, Debug)] pub enum D48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }
impl Cat for D48 {
    const NAME: &'static str = "D48";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D48 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47];
    const VARS: &'static [Self] = &[D48::V0, D48::V1, D48::V2, D48::V3, D48::V4, D48::V5, D48::V6, D48::V7, D48::V8, D48::V9, D48::V10, D48::V11, D48::V12, D48::V13, D48::V14, D48::V15, D48::V16, D48::V17, D48::V18, D48::V19, D48::V20, D48::V21, D48::V22, D48::V23, D48::V24, D48::V25, D48::V26, D48::V27, D48::V28, D48::V29, D48::V30, D48::V31, D48::V32, D48::V33, D48::V34, D48::V35, D48::V36, D48::V37, D48::V38, D48::V39, D48::V40, D48::V41, D48::V42, D48::V43, D48::V44, D48::V45, D48::V46, D48::V47];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D48 }
impl core::fmt::Display for D48 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D48 {}

#[derive(EnumSetType, Debug)] pub enum D49 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48 }
impl Cat for D49 {
    const NAME: &'static str = "D49";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D49 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48];
    const VARS: &'static [Self] = &[D49::V0, D49::V1, D49::V2, D49::V3, D49::V4, D49::V5, D49::V6, D49::V7, D49::V8, D49::V9, D49::V10, D49::V11, D49::V12, D49::V13, D49::V14, D49::V15, D49::V16, D49::V17, D49::V18, D49::V19, D49::V20, D49::V21, D49::V22, D49::V23, D49::V24, D49::V25, D49::V26, D49::V27, D49::V28, D49::V29, D49::V30, D49::V31, D49::V32, D49::V33, D49::V34, D49::V35, D49::V36, D49::V37, D49::V38, D49::V39, D49::V40, D49::V41, D49::V42, D49::V43, D49::V44, D49::V45, D49::V46, D49::V47, D49::V48];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D49 }
impl core::fmt::Display for D49 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D49 {}

#[derive(EnumSetType, Debug)] pub enum D50 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49 }
impl Cat for D50 {
    const NAME: &'static str = "D50";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D50 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49];
    const VARS: &'static [Self] = &[D50::V0, D50::V1, D50::V2, D50::V3, D50::V4, D50::V5, D50::V6, D50::V7, D50::V8, D50::V9, D50::V10, D50::V11, D50::V12, D50::V13, D50::V14, D50::V15, D50::V16, D50::V17, D50::V18, D50::V19, D50::V20, D50::V21, D50::V22, D50::V23, D50::V24, D50::V25, D50::V26, D50::V27, D50::V28, D50::V29, D50::V30, D50::V31, D50::V32, D50::V33, D50::V34, D50::V35, D50::V36, D50::V37, D50::V38, D50::V39, D50::V40, D50::V41, D50::V42, D50::V43, D50::V44, D50::V45, D50::V46, D50::V47, D50::V48, D50::V49];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D50 }
impl core::fmt::Display for D50 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D50 {}

#[derive(EnumSetType, Debug)] pub enum D51 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50 }
impl Cat for D51 {
    const NAME: &'static str = "D51";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D51 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50];
    const VARS: &'static [Self] = &[D51::V0, D51::V1, D51::V2, D51::V3, D51::V4, D51::V5, D51::V6, D51::V7, D51::V8, D51::V9, D51::V10, D51::V11, D51::V12, D51::V13, D51::V14, D51::V15, D51::V16, D51::V17, D51::V18, D51::V19, D51::V20, D51::V21, D51::V22, D51::V23, D51::V24, D51::V25, D51::V26, D51::V27, D51::V28, D51::V29, D51::V30, D51::V31, D51::V32, D51::V33, D51::V34, D51::V35, D51::V36, D51::V37, D51::V38, D51::V39, D51::V40, D51::V41, D51::V42, D51::V43, D51::V44, D51::V45, D51::V46, D51::V47, D51::V48, D51::V49, D51::V50];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D51 }
impl core::fmt::Display for D51 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D51 {}

#[derive(EnumSetType, Debug)] pub enum D52 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51 }
impl Cat for D52 {
    const NAME: &'static str = "D52";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D52 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51];
    const VARS: &'static [Self] = &[D52::V0, D52::V1, D52::V2, D52::V3, D52::V4, D52::V5, D52::V6, D52::V7, D52::V8, D52::V9, D52::V10, D52::V11, D52::V12, D52::V13, D52::V14, D52::V15, D52::V16, D52::V17, D52::V18, D52::V19, D52::V20, D52::V21, D52::V22, D52::V23, D52::V24, D52::V25, D52::V26, D52::V27, D52::V28, D52::V29, D52::V30, D52::V31, D52::V32, D52::V33, D52::V34, D52::V35, D52::V36, D52::V37, D52::V38, D52::V39, D52::V40, D52::V41, D52::V42, D52::V43, D52::V44, D52::V45, D52::V46, D52::V47, D52::V48, D52::V49, D52::V50, D52::V51];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D52 }
impl core::fmt::Display for D52 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D52 {}

#[derive(EnumSetType, Debug)] pub enum D53 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52 }
impl Cat for D53 {
    const NAME: &'static str = "D53";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D53 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52];
    const VARS: &'static [Self] = &[D53::V0, D53::V1, D53::V2, D53::V3, D53::V4, D53::V5, D53::V6, D53::V7, D53::V8, D53::V9, D53::V10, D53::V11, D53::V12, D53::V13, D53::V14, D53::V15, D53::V16, D53::V17, D53::V18, D53::V19, D53::V20, D53::V21, D53::V22, D53::V23, D53::V24, D53::V25, D53::V26, D53::V27, D53::V28, D53::V29, D53::V30, D53::V31, D53::V32, D53::V33, D53::V34, D53::V35, D53::V36, D53::V37, D53::V38, D53::V39, D53::V40, D53::V41, D53::V42, D53::V43, D53::V44, D53::V45, D53::V46, D53::V47, D53::V48, D53::V49, D53::V50, D53::V51, D53::V52];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D53 }
impl core::fmt::Display for D53 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D53 {}

#[derive(EnumSetType, Debug)] pub enum D54 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53 }
impl Cat for D54 {
    const NAME: &'static str = "D54";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D54 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53];
    const VARS: &'static [Self] = &[D54::V0, D54::V1, D54::V2, D54::V3, D54::V4, D54::V5, D54::V6, D54::V7, D54::V8, D54::V9, D54::V10, D54::V11, D54::V12, D54::V13, D54::V14, D54::V15, D54::V16, D54::V17, D54::V18, D54::V19, D54::V20, D54::V21, D54::V22, D54::V23, D54::V24, D54::V25, D54::V26, D54::V27, D54::V28, D54::V29, D54::V30, D54::V31, D54::V32, D54::V33, D54::V34, D54::V35, D54::V36, D54::V37, D54::V38, D54::V39, D54::V40, D54::V41, D54::V42, D54::V43, D54::V44, D54::V45, D54::V46, D54::V47, D54::V48, D54::V49, D54::V50, D54::V51, D54::V52, D54::V53];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D54 }
impl core::fmt::Display for D54 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D54 {}

#[derive(EnumSetType, Debug)] pub enum D55 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54 }
impl Cat for D55 {
    const NAME: &'static str = "D55";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D55 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54];
    const VARS: &'static [Self] = &[D55::V0, D55::V1, D55::V2, D55::V3, D55::V4, D55::V5, D55::V6, D55::V7, D55::V8, D55::V9, D55::V10, D55::V11, D55::V12, D55::V13, D55::V14, D55::V15, D55::V16, D55::V17, D55::V18, D55::V19, D55::V20, D55::V21, D55::V22, D55::V23, D55::V24, D55::V25, D55::V26, D55::V27, D55::V28, D55::V29, D55::V30, D55::V31, D55::V32, D55::V33, D55::V34, D55::V35, D55::V36, D55::V37, D55::V38, D55::V39, D55::V40, D55::V41, D55::V42, D55::V43, D55::V44, D55::V45, D55::V46, D55::V47, D55::V48, D55::V49, D55::V50, D55::V51, D55::V52, D55::V53, D55::V54];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D55 }
impl core::fmt::Display for D55 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D55 {}

#[derive(EnumSetType, Debug)] pub enum D56 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55 }
impl Cat for D56 {
    const NAME: &'static str = "D56";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D56 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55];
    const VARS: &'static [Self] = &[D56::V0, D56::V1, D56::V2, D56::V3, D56::V4, D56::V5, D56::V6, D56::V7, D56::V8, D56::V9, D56::V10, D56::V11, D56::V12, D56::V13, D56::V14, D56::V15, D56::V16, D56::V17, D56::V18, D56::V19, D56::V20, D56::V21, D56::V22, D56::V23, D56::V24, D56::V25, D56::V26, D56::V27, D56::V28, D56::V29, D56::V30, D56::V31, D56::V32, D56::V33, D56::V34, D56::V35, D56::V36, D56::V37, D56::V38, D56::V39, D56::V40, D56::V41, D56::V42, D56::V43, D56::V44, D56::V45, D56::V46, D56::V47, D56::V48, D56::V49, D56::V50, D56::V51, D56::V52, D56::V53, D56::V54, D56::V55];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D56 }
impl core::fmt::Display for D56 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D56 {}

#[derive(EnumSetType, Debug)] pub enum D57 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56 }
impl Cat for D57 {
    const NAME: &'static str = "D57";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D57 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56];
    const VARS: &'static [Self] = &[D57::V0, D57::V1, D57::V2, D57::V3, D57::V4, D57::V5, D57::V6, D57::V7, D57::V8, D57::V9, D57::V10, D57::V11, D57::V12, D57::V13, D57::V14, D57::V15, D57::V16, D57::V17, D57::V18, D57::V19, D57::V20, D57::V21, D57::V22, D57::V23, D57::V24, D57::V25, D57::V26, D57::V27, D57::V28, D57::V29, D57::V30, D57::V31, D57::V32, D57::V33, D57::V34, D57::V35, D57::V36, D57::V37, D57::V38, D57::V39, D57::V40, D57::V41, D57::V42, D57::V43, D57::V44, D57::V45, D57::V46, D57::V47, D57::V48, D57::V49, D57::V50, D57::V51, D57::V52, D57::V53, D57::V54, D57::V55, D57::V56];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D57 }
impl core::fmt::Display for D57 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D57 {}

#[derive(EnumSetType, Debug)] pub enum D58 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57 }
impl Cat for D58 {
    const NAME: &'static str = "D58";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D58 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57];
    const VARS: &'static [Self] = &[D58::V0, D58::V1, D58::V2, D58::V3, D58::V4, D58::V5, D58::V6, D58::V7, D58::V8, D58::V9, D58::V10, D58::V11, D58::V12, D58::V13, D58::V14, D58::V15, D58::V16, D58::V17, D58::V18, D58::V19, D58::V20, D58::V21, D58::V22, D58::V23, D58::V24, D58::V25, D58::V26, D58::V27, D58::V28, D58::V29, D58::V30, D58::V31, D58::V32, D58::V33, D58::V34, D58::V35, D58::V36, D58::V37, D58::V38, D58::V39, D58::V40, D58::V41, D58::V42, D58::V43, D58::V44, D58::V45, D58::V46, D58::V47, D58::V48, D58::V49, D58::V50, D58::V51, D58::V52, D58::V53, D58::V54, D58::V55, D58::V56, D58::V57];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D58 }
impl core::fmt::Display for D58 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D58 {}

#[derive(EnumSetType, Debug)] pub enum D59 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58 }
impl Cat for D59 {
    const NAME: &'static str = "D59";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D59 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58];
    const VARS: &'static [Self] = &[D59::V0, D59::V1, D59::V2, D59::V3, D59::V4, D59::V5, D59::V6, D59::V7, D59::V8, D59::V9, D59::V10, D59::V11, D59::V12, D59::V13, D59::V14, D59::V15, D59::V16, D59::V17, D59::V18, D59::V19, D59::V20, D59::V21, D59::V22, D59::V23, D59::V24, D59::V25, D59::V26, D59::V27, D59::V28, D59::V29, D59::V30, D59::V31, D59::V32, D59::V33, D59::V34, D59::V35, D59::V36, D59::V37, D59::V38, D59::V39, D59::V40, D59::V41, D59::V42, D59::V43, D59::V44, D59::V45, D59::V46, D59::V47, D59::V48, D59::V49, D59::V50, D59::V51, D59::V52, D59::V53, D59::V54, D59::V55, D59::V56, D59::V57, D59::V58];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D59 }
impl core::fmt::Display for D59 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D59 {}

#[derive(EnumSetType, Debug)] pub enum D60 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59 }
impl Cat for D60 {
    const NAME: &'static str = "D60";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D60 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59];
    const VARS: &'static [Self] = &[D60::V0, D60::V1, D60::V2, D60::V3, D60::V4, D60::V5, D60::V6, D60::V7, D60::V8, D60::V9, D60::V10, D60::V11, D60::V12, D60::V13, D60::V14, D60::V15, D60::V16, D60::V17, D60::V18, D60::V19, D60::V20, D60::V21, D60::V22, D60::V23, D60::V24, D60::V25, D60::V26, D60::V27, D60::V28, D60::V29, D60::V30, D60::V31, D60::V32, D60::V33, D60::V34, D60::V35, D60::V36, D60::V37, D60::V38, D60::V39, D60::V40, D60::V41, D60::V42, D60::V43, D60::V44, D60::V45, D60::V46, D60::V47, D60::V48, D60::V49, D60::V50, D60::V51, D60::V52, D60::V53, D60::V54, D60::V55, D60::V56, D60::V57, D60::V58, D60::V59];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D60 }
impl core::fmt::Display for D60 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D60 {}

#[derive(EnumSetType, Debug)] pub enum D61 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60 }
impl Cat for D61 {
    const NAME: &'static str = "D61";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D61 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60];
    const VARS: &'static [Self] = &[D61::V0, D61::V1, D61::V2, D61::V3, D61::V4, D61::V5, D61::V6, D61::V7, D61::V8, D61::V9, D61::V10, D61::V11, D61::V12, D61::V13, D61::V14, D61::V15, D61::V16, D61::V17, D61::V18, D61::V19, D61::V20, D61::V21, D61::V22, D61::V23, D61::V24, D61::V25, D61::V26, D61::V27, D61::V28, D61::V29, D61::V30, D61::V31, D61::V32, D61::V33, D61::V34, D61::V35, D61::V36, D61::V37, D61::V38, D61::V39, D61::V40, D61::V41, D61::V42, D61::V43, D61::V44, D61::V45, D61::V46, D61::V47, D61::V48, D61::V49, D61::V50, D61::V51, D61::V52, D61::V53, D61::V54, D61::V55, D61::V56, D61::V57, D61::V58, D61::V59, D61::V60];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D61 }
impl core::fmt::Display for D61 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D61 {}

#[derive(EnumSetType, Debug)] pub enum D62 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61 }
impl Cat for D62 {
    const NAME: &'static str = "D62";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D62 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61];
    const VARS: &'static [Self] = &[D62::V0, D62::V1, D62::V2, D62::V3, D62::V4, D62::V5, D62::V6, D62::V7, D62::V8, D62::V9, D62::V10, D62::V11, D62::V12, D62::V13, D62::V14, D62::V15, D62::V16, D62::V17, D62::V18, D62::V19, D62::V20, D62::V21, D62::V22, D62::V23, D62::V24, D62::V25, D62::V26, D62::V27, D62::V28, D62::V29, D62::V30, D62::V31, D62::V32, D62::V33, D62::V34, D62::V35, D62::V36, D62::V37, D62::V38, D62::V39, D62::V40, D62::V41, D62::V42, D62::V43, D62::V44, D62::V45, D62::V46, D62::V47, D62::V48, D62::V49, D62::V50, D62::V51, D62::V52, D62::V53, D62::V54, D62::V55, D62::V56, D62::V57, D62::V58, D62::V59, D62::V60, D62::V61];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D62 }
impl core::fmt::Display for D62 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D62 {}

#[derive(EnumSetType, Debug)] pub enum D66 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65 }
impl Cat for D66 {
    const NAME: &'static str = "D66";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D66 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65];
    const VARS: &'static [Self] = &[D66::V0, D66::V1, D66::V2, D66::V3, D66::V4, D66::V5, D66::V6, D66::V7, D66::V8, D66::V9, D66::V10, D66::V11, D66::V12, D66::V13, D66::V14, D66::V15, D66::V16, D66::V17, D66::V18, D66::V19, D66::V20, D66::V21, D66::V22, D66::V23, D66::V24, D66::V25, D66::V26, D66::V27, D66::V28, D66::V29, D66::V30, D66::V31, D66::V32, D66::V33, D66::V34, D66::V35, D66::V36, D66::V37, D66::V38, D66::V39, D66::V40, D66::V41, D66::V42, D66::V43, D66::V44, D66::V45, D66::V46, D66::V47, D66::V48, D66::V49, D66::V50, D66::V51, D66::V52, D66::V53, D66::V54, D66::V55, D66::V56, D66::V57, D66::V58, D66::V59, D66::V60, D66::V61, D66::V62, D66::V63, D66::V64, D66::V65];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D66 }
impl core::fmt::Display for D66 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D66 {}

#[derive(EnumSetType, Debug)] pub enum D72 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71 }
impl Cat for D72 {
    const NAME: &'static str = "D72";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D72 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71];
    const VARS: &'static [Self] = &[D72::V0, D72::V1, D72::V2, D72::V3, D72::V4, D72::V5, D72::V6, D72::V7, D72::V8, D72::V9, D72::V10, D72::V11, D72::V12, D72::V13, D72::V14, D72::V15, D72::V16, D72::V17, D72::V18, D72::V19, D72::V20, D72::V21, D72::V22, D72::V23, D72::V24, D72::V25, D72::V26, D72::V27, D72::V28, D72::V29, D72::V30, D72::V31, D72::V32, D72::V33, D72::V34, D72::V35, D72::V36, D72::V37, D72::V38, D72::V39, D72::V40, D72::V41, D72::V42, D72::V43, D72::V44, D72::V45, D72::V46, D72::V47, D72::V48, D72::V49, D72::V50, D72::V51, D72::V52, D72::V53, D72::V54, D72::V55, D72::V56, D72::V57, D72::V58, D72::V59, D72::V60, D72::V61, D72::V62, D72::V63, D72::V64, D72::V65, D72::V66, D72::V67, D72::V68, D72::V69, D72::V70, D72::V71];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D72 }
impl core::fmt::Display for D72 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D72 {}

#[derive(EnumSetType, Debug)] pub enum D80 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79 }
impl Cat for D80 {
    const NAME: &'static str = "D80";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D80 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68,  ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79];
    const VARS: &'static [Self] = &[D80::V0, D80::V1, D80::V2, D80::V3, D80::V4, D80::V5, D80::V6, D80::V7, D80::V8, D80::V9, D80::V10, D80::V11, D80::V12, D80::V13, D80::V14, D80::V15, D80::V16, D80::V17, D80::V18, D80::V19, D80::V20, D80::V21, D80::V22, D80::V23, D80::V24, D80::V25, D80::V26, D80::V27, D80::V28, D80::V29, D80::V30, D80::V31, D80::V32, D80::V33, D80::V34, D80::V35, D80::V36, D80::V37, D80::V38, D80::V39, D80::V40, D80::V41, D80::V42, D80::V43, D80::V44, D80::V45, D80::V46, D80::V47, D80::V48, D80::V49, D80::V50, D80::V51, D80::V52, D80::V53, D80::V54, D80::V55, D80::V56, D80::V57, D80::V58, D80::V59, D80::V60, D80::V61, D80::V62, D80::V63, D80::V64, D80::V65, D80::V66, D80::V67, D80::V68, D80::V69, D80::V70, D80::V71, D80::V72, D80::V73, D80::V74, D80::V75, D80::V76, D80::V77, D80::V78, D80::V79];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D80 }
impl core::fmt::Display for D80 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D80 {}

#[derive(EnumSetType, Debug)] pub enum D88 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87 }
impl Cat for D88 {
    const NAME: &'static str = "D88";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D88 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68,  ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87];
    const VARS: &'static [Self] = &[D88::V0, D88::V1, D88::V2, D88::V3, D88::V4, D88::V5, D88::V6, D88::V7, D88::V8, D88::V9, D88::V10, D88::V11, D88::V12, D88::V13, D88::V14, D88::V15, D88::V16, D88::V17, D88::V18, D88::V19, D88::V20, D88::V21, D88::V22, D88::V23, D88::V24, D88::V25, D88::V26, D88::V27, D88::V28, D88::V29, D88::V30, D88::V31, D88::V32, D88::V33, D88::V34, D88::V35, D88::V36, D88::V37, D88::V38, D88::V39, D88::V40, D88::V41, D88::V42, D88::V43, D88::V44, D88::V45, D88::V46, D88::V47, D88::V48, D88::V49, D88::V50, D88::V51, D88::V52, D88::V53, D88::V54, D88::V55, D88::V56, D88::V57, D88::V58, D88::V59, D88::V60, D88::V61, D88::V62, D88::V63, D88::V64, D88::V65, D88::V66, D88::V67, D88::V68, D88::V69, D88::V70, D88::V71, D88::V72, D88::V73, D88::V74, D88::V75, D88::V76, D88::V77, D88::V78, D88::V79, D88::V80, D88::V81, D88::V82, D88::V83, D88::V84, D88::V85, D88::V86, D88::V87];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D88 }
impl core::fmt::Display for D88 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D88 {}

#[derive(EnumSetType, Debug)] pub enum D96 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95 }
impl Cat for D96 {
    const NAME: &'static str = "D96";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D96 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68,  ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95];
    const VARS: &'static [Self] = &[D96::V0, D96::V1, D96::V2, D96::V3, D96::V4, D96::V5, D96::V6, D96::V7, D96::V8, D96::V9, D96::V10, D96::V11, D96::V12, D96::V13, D96::V14, D96::V15, D96::V16, D96::V17, D96::V18, D96::V19, D96::V20, D96::V21, D96::V22, D96::V23, D96::V24, D96::V25, D96::V26, D96::V27, D96::V28, D96::V29, D96::V30, D96::V31, D96::V32, D96::V33, D96::V34, D96::V35, D96::V36, D96::V37, D96::V38, D96::V39, D96::V40, D96::V41, D96::V42, D96::V43, D96::V44, D96::V45, D96::V46, D96::V47, D96::V48, D96::V49, D96::V50, D96::V51, D96::V52, D96::V53, D96::V54, D96::V55, D96::V56, D96::V57, D96::V58, D96::V59, D96::V60, D96::V61, D96::V62, D96::V63, D96::V64, D96::V65, D96::V66, D96::V67, D96::V68, D96::V69, D96::V70, D96::V71, D96::V72, D96::V73, D96::V74, D96::V75, D96::V76, D96::V77, D96::V78, D96::V79, D96::V80, D96::V81, D96::V82, D96::V83, D96::V84, D96::V85, D96::V86, D96::V87, D96::V88, D96::V89, D96::V90, D96::V91, D96::V92, D96::V93, D96::V94, D96::V95];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D96 }
impl core::fmt::Display for D96 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D96 {}

#[derive(EnumSetType, Debug)] pub enum D104 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103 }
impl Cat for D104 {
    const NAME: &'static str = "D104";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D104 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103];
    const VARS: &'static [Self] = &[D104::V0, D104::V1, D104::V2, D104::V3, D104::V4, D104::V5, D104::V6, D104::V7, D104::V8, D104::V9, D104::V10, D104::V11, D104::V12, D104::V13, D104::V14, D104::V15, D104::V16, D104::V17, D104::V18, D104::V19, D104::V20, D104::V21, D104::V22, D104::V23, D104::V24, D104::V25, D104::V26, D104::V27, D104::V28, D104::V29, D104::V30, D104::V31, D104::V32, D104::V33, D104::V34, D104::V35, D104::V36, D104::V37, D104::V38, D104::V39, D104::V40, D104::V41, D104::V42, D104::V43, D104::V44, D104::V45, D104::V46, D104::V47, D104::V48, D104::V49, D104::V50, D104::V51, D104::V52, D104::V53, D104::V54, D104::V55, D104::V56, D104::V57, D104::V58, D104::V59, D104::V60, D104::V61, D104::V62, D104::V63, D104::V64, D104::V65, D104::V66, D104::V67, D104::V68, D104::V69, D104::V70, D104::V71, D104::V72, D104::V73, D104::V74, D104::V75, D104::V76, D104::V77, D104::V78, D104::V79, D104::V80, D104::V81, D104::V82, D104::V83, D104::V84, D104::V85, D104::V86, D104::V87, D104::V88, D104::V89, D104::V90, D104::V91, D104::V92, D104::V93, D104::V94, D104::V95, D104::V96, D104::V97, D104::V98, D104::V99, D104::V100, D104::V101, D104::V102, D104::V103];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D104 }
impl core::fmt::Display for D104 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D104 {}

#[derive(EnumSetType, Debug)] pub enum D112 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111 }
impl Cat for D112 {
    const NAME: &'static str = "D112";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D112 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111];
    const VARS: &'static [Self] = &[D112::V0, D112::V1, D112::V2, D112::V3, D112::V4, D112::V5, D112::V6, D112::V7, D112::V8, D112::V9, D112::V10, D112::V11, D112::V12, D112::V13, D112::V14, D112::V15, D112::V16, D112::V17, D112::V18, D112::V19, D112::V20, D112::V21, D112::V22, D112::V23, D112::V24, D112::V25, D112::V26, D112::V27, D112::V28, D112::V29, D112::V30, D112::V31, D112::V32, D112::V33, D112::V34, D112::V35, D112::V36, D112::V37, D112::V38, D112::V39, D112::V40, D112::V41, D112::V42, D112::V43, D112::V44, D112::V45, D112::V46, D112::V47, D112::V48, D112::V49, D112::V50, D112::V51, D112::V52, D112::V53, D112::V54, D112::V55, D112::V56, D112::V57, D112::V58, D112::V59, D112::V60, D112::V61, D112::V62, D112::V63, D112::V64, D112::V65, D112::V66, D112::V67, D112::V68, D112::V69, D112::V70, D112::V71, D112::V72, D112::V73, D112::V74, D112::V75, D112::V76, D112::V77, D112::V78, D112::V79, D112::V80, D112::V81, D112::V82, D112::V83, D112::V84, D112::V85, D112::V86, D112::V87, D112::V88, D112::V89, D112::V90, D112::V91, D112::V92, D112::V93, D112::V94, D112::V95, D112::V96, D112::V97, D112::V98, D112::V99, D112::V100, D112::V101, D112::V102, D112::V103, D112::V104, D112::V105, D112::V106, D112::V107, D112::V108, D112::V109, D112::V110, D112::V111];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D112 }
impl core::fmt::Display for D112 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D112 {}

#[derive(EnumSetType, Debug)] pub enum D120 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119 }
impl Cat for D120 {
    const NAME: &'static str = "D120";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D120 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119];
    const VARS: &'static [Self] = &[D120::V0, D120::V1, D120::V2, D120::V3, D120::V4, D120::V5, D120::V6, D120::V7, D120::V8, D120::V9, D120::V10, D120::V11, D120::V12, D120::V13, D120::V14, D120::V15, D120::V16, D120::V17, D120::V18, D120::V19, D120::V20, D120::V21, D120::V22, D120::V23, D120::V24, D120::V25, D120::V26, D120::V27, D120::V28, D120::V29, D120::V30, D120::V31, D120::V32, D120::V33, D120::V34, D120::V35, D120::V36, D120::V37, D120::V38, D120::V39, D120::V40, D120::V41, D120::V42, D120::V43, D120::V44, D120::V45, D120::V46, D120::V47, D120::V48, D120::V49, D120::V50, D120::V51, D120::V52, D120::V53, D120::V54, D120::V55, D120::V56, D120::V57, D120::V58, D120::V59, D120::V60, D120::V61, D120::V62, D120::V63, D120::V64, D120::V65, D120::V66, D120::V67, D120::V68, D120::V69, D120::V70, D120::V71, D120::V72, D120::V73, D120::V74, D120::V75, D120::V76, D120::V77, D120::V78, D120::V79, D120::V80, D120::V81, D120::V82, D120::V83, D120::V84, D120::V85, D120::V86, D120::V87, D120::V88, D120::V89, D120::V90, D120::V91, D120::V92, D120::V93, D120::V94, D120::V95, D120::V96, D120::V97, D120::V98, D120::V99, D120::V100, D120::V101, D120::V102, D120::V103, D120::V104, D120::V105, D120::V106, D120::V107, D120::V108, D120::V109, D120::V110, D120::V111, D120::V112, D120::V113, D120::V114, D120::V115, D120::V116, D120::V117, D120::V118, D120::V119];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D120 }
impl core::fmt::Display for D120 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D120 {}

#[derive(EnumSetType, Debug)] pub enum D126 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125 }
impl Cat for D126 {
    const NAME: &'static str = "D126";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D126 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125];
    const VARS: &'static [Self] = &[D126::V0, D126::V1, D126::V2, D126::V3, D126::V4, D126::V5, D126::V6, D126::V7, D126::V8, D126::V9, D126::V10, D126::V11, D126::V12, D126::V13, D126::V14, D126::V15, D126::V16, D126::V17, D126::V18, D126::V19, D126::V20, D126::V21, D126::V22, D126::V23, D126::V24, D126::V25, D126::V26, D126::V27, D126::V28, D126::V29, D126::V30, D126::V31, D126::V32, D126::V33, D126::V34, D126::V35, D126::V36, D126::V37, D126::V38, D126::V39, D126::V40, D126::V41, D126::V42, D126::V43, D126::V44, D126::V45, D126::V46, D126::V47, D126::V48, D126::V49, D126::V50, D126::V51, D126::V52, D126::V53, D126::V54, D126::V55, D126::V56, D126::V57, D126::V58, D126::V59, D126::V60, D126::V61, D126::V62, D126::V63, D126::V64, D126::V65, D126::V66, D126::V67, D126::V68, D126::V69, D126::V70, D126::V71, D126::V72, D126::V73, D126::V74, D126::V75, D126::V76, D126::V77, D126::V78, D126::V79, D126::V80, D126::V81, D126::V82, D126::V83, D126::V84, D126::V85, D126::V86, D126::V87, D126::V88, D126::V89, D126::V90, D126::V91, D126::V92, D126::V93, D126::V94, D126::V95, D126::V96, D126::V97, D126::V98, D126::V99, D126::V100, D126::V101, D126::V102, D126::V103, D126::V104, D126::V105, D126::V106, D126::V107, D126::V108, D126::V109, D126::V110, D126::V111, D126::V112, D126::V113, D126::V114, D126::V115, D126::V116, D126::V117, D126::V118, D126::V119, D126::V120, D126::V121, D126::V122, D126::V123, D126::V124, D126::V125];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D126 }
impl core::fmt::Display for D126 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D126 {}

#[derive(EnumSetType, Debug)] pub enum D136 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135 }
impl Cat for D136 {
    const NAME: &'static str = "D136";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D136 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135];
    const VARS: &'static [Self] = &[D136::V0, D136::V1, D136::V2, D136::V3, D136::V4, D136::V5, D136::V6, D136::V7, D136::V8, D136::V9, D136::V10, D136::V11, D136::V12, D136::V13, D136::V14, D136::V15, D136::V16, D136::V17, D136::V18, D136::V19, D136::V20, D136::V21, D136::V22, D136::V23, D136::V24, D136::V25, D136::V26, D136::V27, D136::V28, D136::V29, D136::V30, D136::V31, D136::V32, D136::V33, D136::V34, D136::V35, D136::V36, D136::V37, D136::V38, D136::V39, D136::V40, D136::V41, D136::V42, D136::V43, D136::V44, D136::V45, D136::V46, D136::V47, D136::V48, D136::V49, D136::V50, D136::V51, D136::V52, D136::V53, D136::V54, D136::V55, D136::V56, D136::V57, D136::V58, D136::V59, D136::V60, D136::V61, D136::V62, D136::V63, D136::V64, D136::V65, D136::V66, D136::V67, D136::V68, D136::V69, D136::V70, D136::V71, D136::V72, D136::V73, D136::V74, D136::V75, D136::V76, D136::V77, D136::V78, D136::V79, D136::V80, D136::V81, D136::V82, D136::V83, D136::V84, D136::V85, D136::V86, D136::V87, D136::V88, D136::V89, D136::V90, D136::V91, D136::V92, D136::V93, D136::V94, D136::V95, D136::V96, D136::V97, D136::V98, D136::V99, D136::V100, D136::V101, D136::V102, D136::V103, D136::V104, D136::V105, D136::V106, D136::V107, D136::V108, D136::V109, D136::V110, D136::V111, D136::V112, D136::V113, D136::V114, D136::V115, D136::V116, D136::V117, D136::V118, D136::V119, D136::V120, D136::V121, D136::V122, D136::V123, D136::V124, D136::V125, D136::V126, D136::V127, D136::V128, D136::V129, D136::V130, D136::V131, D136::V132, D136::V133, D136::V134, D136::V135];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D136 }
impl core::fmt::Display for D136 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D136 {}

#[derive(EnumSetType, Debug)] pub enum D144 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143 }
impl Cat for D144 {
    const NAME: &'static str = "D144";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D144 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143];
    const VARS: &'static [Self] = &[D144::V0, D144::V1, D144::V2, D144::V3, D144::V4, D144::V5, D144::V6, D144::V7, D144::V8, D144::V9, D144::V10, D144::V11, D144::V12, D144::V13, D144::V14, D144::V15, D144::V16, D144::V17, D144::V18, D144::V19, D144::V20, D144::V21, D144::V22, D144::V23, D144::V24, D144::V25, D144::V26, D144::V27, D144::V28, D144::V29, D144::V30, D144::V31, D144::V32, D144::V33, D144::V34, D144::V35, D144::V36, D144::V37, D144::V38, D144::V39, D144::V40, D144::V41, D144::V42, D144::V43, D144::V44, D144::V45, D144::V46, D144::V47, D144::V48, D144::V49, D144::V50, D144::V51, D144::V52, D144::V53, D144::V54, D144::V55, D144::V56, D144::V57, D144::V58, D144::V59, D144::V60, D144::V61, D144::V62, D144::V63, D144::V64, D144::V65, D144::V66, D144::V67, D144::V68, D144::V69, D144::V70, D144::V71, D144::V72, D144::V73, D144::V74, D144::V75, D144::V76, D144::V77, D144::V78, D144::V79, D144::V80, D144::V81, D144::V82, D144::V83, D144::V84, D144::V85, D144::V86, D144::V87, D144::V88, D144::V89, D144::V90, D144::V91, D144::V92, D144::V93, D144::V94, D144::V95, D144::V96, D144::V97, D144::V98, D144::V99, D144::V100, D144::V101, D144::V102, D144::V103, D144::V104, D144::V105, D144::V106, D144::V107, D144::V108, D144::V109, D144::V110, D144::V111, D144::V112, D144::V113, D144::V114, D144::V115, D144::V116, D144::V117, D144::V118, D144::V119, D144::V120, D144::V121, D144::V122, D144::V123, D144::V124, D144::V125, D144::V126, D144::V127, D144::V128, D144::V129, D144::V130, D144::V131, D144::V132, D144::V133, D144::V134, D144::V135, D144::V136, D144::V137, D144::V138, D144::V139, D144::V140, D144::V141, D144::V142, D144::V143];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D144 }
impl core::fmt::Display for D144 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D144 {}

#[derive(EnumSetType, Debug)] pub enum D160 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159 }
impl Cat for D160 {
    const NAME: &'static str = "D160";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D160 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159];
    const VARS: &'static [Self] = &[D160::V0, D160::V1, D160::V2, D160::V3, D160::V4, D160::V5, D160::V6, D160::V7, D160::V8, D160::V9, D160::V10, D160::V11, D160::V12, D160::V13, D160::V14, D160::V15, D160::V16, D160::V17, D160::V18, D160::V19, D160::V20, D160::V21, D160::V22, D160::V23, D160::V24, D160::V25, D160::V26, D160::V27, D160::V28, D160::V29, D160::V30, D160::V31, D160::V32, D160::V33, D160::V34, D160::V35, D160::V36, D160::V37, D160::V38, D160::V39, D160::V40, D160::V41, D160::V42, D160::V43, D160::V44, D160::V45, D160::V46, D160::V47, D160::V48, D160::V49, D160::V50, D160::V51, D160::V52, D160::V53, D160::V54, D160::V55, D160::V56, D160::V57, D160::V58, D160::V59, D160::V60, D160::V61, D160::V62, D160::V63, D160::V64, D160::V65, D160::V66, D160::V67, D160::V68, D160::V69, D160::V70, D160::V71, D160::V72, D160::V73, D160::V74, D160::V75, D160::V76, D160::V77, D160::V78, D160::V79, D160::V80, D160::V81, D160::V82, D160::V83, D160::V84, D160::V85, D160::V86, D160::V87, D160::V88, D160::V89, D160::V90, D160::V91, D160::V92, D160::V93, D160::V94, D160::V95, D160::V96, D160::V97, D160::V98, D160::V99, D160::V100, D160::V101, D160::V102, D160::V103, D160::V104, D160::V105, D160::V106, D160::V107, D160::V108, D160::V109, D160::V110, D160::V111, D160::V112, D160::V113, D160::V114, D160::V115, D160::V116, D160::V117, D160::V118, D160::V119, D160::V120, D160::V121, D160::V122, D160::V123, D160::V124, D160::V125, D160::V126, D160::V127, D160::V128, D160::V129, D160::V130, D160::V131, D160::V132, D160::V133, D160::V134, D160::V135, D160::V136, D160::V137, D160::V138, D160::V139, D160::V140, D160::V141, D160::V142, D160::V143, D160::V144, D160::V145, D160::V146, D160::V147, D160::V148, D160::V149, D160::V150, D160::V151, D160::V152, D160::V153, D160::V154, D160::V155, D160::V156, D160::V157, D160::V158, D160::V159];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { D160 }
impl core::fmt::Display for D160 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for D160 {}

#[derive(EnumSetType, Debug)] pub enum S7 { V0 = 7 }
impl Cat for S7 {
    const NAME: &'static str = "S7";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S7 { V0 = 7 }"####;
    const DISCR: &'static [u32] = &[7];
    const VARS: &'static [Self] = &[S7::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S7 }
impl core::fmt::Display for S7 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S7 {}

#[derive(EnumSetType, Debug)] pub enum S8 { V0 = 8 }
impl Cat for S8 {
    const NAME: &'static str = "S8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S8 { V0 = 8 }"####;
    const DISCR: &'static [u32] = &[8];
    const VARS: &'static [Self] = &[S8::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S8 }
impl core::fmt::Display for S8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S8 {}

#[derive(EnumSetType, Debug)] pub enum S0_7 { V0 = 0, V1 = 7 }
impl Cat for S0_7 {
    const NAME: &'static str = "S0_7";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_7 { V0 = 0, V1 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 7];
    const VARS: &'static [Self] = &[S0_7::V0, S0_7::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_7 }
impl core::fmt::Display for S0_7 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_7 {}

#[derive(EnumSetType, Debug)] pub enum S7_8 { V0 = 7, V1 = 8 }
impl Cat for S7_8 {
    const NAME: &'static str = "S7_8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S7_8 { V0 = 7, V1 = 8 }"####;
    const DISCR: &'static [u32] = &[7, 8];
    const VARS: &'static [Self] = &[S7_8::V0, S7_8::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S7_8 }
impl core::fmt::Display for S7_8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S7_8 {}

#[derive(EnumSetType, Debug)] pub enum S15 { V0 = 15 }
impl Cat for S15 {
    const NAME: &'static str = "S15";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S15 { V0 = 15 }"####;
    const DISCR: &'static [u32] = &[15];
    const VARS: &'static [Self] = &[S15::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S15 }
impl core::fmt::Display for S15 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S15 {}

#[derive(EnumSetType, Debug)] pub enum S16 { V0 = 16 }
impl Cat for S16 {
    const NAME: &'static str = "S16";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S16 { V0 = 16 }"####;
    const DISCR: &'static [u32] = &[16];
    const VARS: &'static [Self] = &[S16::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S16 }
impl core::fmt::Display for S16 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S16 {}

#[derive(EnumSetType, Debug)] pub enum S0_15 { V0 = 0, V1 = 15 }
impl Cat for S0_15 {
    const NAME: &'static str = "S0_15";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_15 { V0 = 0, V1 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 15];
    const VARS: &'static [Self] = &[S0_15::V0, S0_15::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_15 }
impl core::fmt::Display for S0_15 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_15 {}

#[derive(EnumSetType, Debug)] pub enum S31 { V0 = 31 }
impl Cat for S31 {
    const NAME: &'static str = "S31";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S31 { V0 = 31 }"####;
    const DISCR: &'static [u32] = &[31];
    const VARS: &'static [Self] = &[S31::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S31 }
impl core::fmt::Display for S31 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S31 {}

#[derive(EnumSetType, Debug)] pub enum S32 { V0 = 32 }
impl Cat for S32 {
    const NAME: &'static str = "S32";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S32 { V0 = 32 }"####;
    const DISCR: &'static [u32] = &[32];
    const VARS: &'static [Self] = &[S32::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S32 }
impl core::fmt::Display for S32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S32 {}

#[derive(EnumSetType, Debug)] pub enum S0_1_31 { V0 = 0, V1 = 1, V2 = 31 }
impl Cat for S0_1_31 {
    const NAME: &'static str = "S0_1_31";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_1_31 { V0 = 0, V1 = 1, V2 = 31 }"####;
    const DISCR: &'static [u32] = &[0, 1, 31];
    const VARS: &'static [Self] = &[S0_1_31::V0, S0_1_31::V1, S0_1_31::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_1_31 }
impl core::fmt::Display for S0_1_31 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_1_31 {}

#[derive(EnumSetType, Debug)] pub enum S63 { V0 = 63 }
impl Cat for S63 {
    const NAME: &'static str = "S63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S63 { V0 = 63 }"####;
    const DISCR: &'static [u32] = &[63];
    const VARS: &'static [Self] = &[S63::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S63 }
impl core::fmt::Display for S63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S63 {}

#[derive(EnumSetType, Debug)] pub enum S0_31_32_63 { V0 = 0, V1 = 31, V2 = 32, V3 = 63 }
impl Cat for S0_31_32_63 {
    const NAME: &'static str = "S0_31_32_63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_31_32_63 { V0 = 0, V1 = 31, V2 = 32, V3 = 63 }"####;
    const DISCR: &'static [u32] = &[0, 31, 32, 63];
    const VARS: &'static [Self] = &[S0_31_32_63::V0, S0_31_32_63::V1, S0_31_32_63::V2, S0_31_32_63::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_31_32_63 }
impl core::fmt::Display for S0_31_32_63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_31_32_63 {}

#[derive(EnumSetType, Debug)] pub enum S0_63 { V0 = 0, V1 = 63 }
impl Cat for S0_63 {
    const NAME: &'static str = "S0_63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_63 { V0 = 0, V1 = 63 }"####;
    const DISCR: &'static [u32] = &[0, 63];
    const VARS: &'static [Self] = &[S0_63::V0, S0_63::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_63 }
impl core::fmt::Display for S0_63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_63 {}

#[derive(EnumSetType, Debug)] pub enum S64 { V0 = 64 }
impl Cat for S64 {
    const NAME: &'static str = "S64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S64 { V0 = 64 }"####;
    const DISCR: &'static [u32] = &[64];
    const VARS: &'static [Self] = &[S64::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S64 }
impl core::fmt::Display for S64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S64 {}

#[derive(EnumSetType, Debug)] pub enum S63_64 { V0 = 63, V1 = 64 }
impl Cat for S63_64 {
    const NAME: &'static str = "S63_64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S63_64 { V0 = 63, V1 = 64 }"####;
    const DISCR: &'static [u32] = &[63, 64];
    const VARS: &'static [Self] = &[S63_64::V0, S63_64::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S63_64 }
impl core::fmt::Display for S63_64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S63_64 {}

#[derive(EnumSetType, Debug)] pub enum S0_63_64_127 { V0 = 0, V1 = 63, V2 = 64, V3 = 127 }
impl Cat for S0_63_64_127 {
    const NAME: &'static str = "S0_63_64_127";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_63_64_127 { V0 = 0, V1 = 63, V2 = 64, V3 = 127 }"####;
    const DISCR: &'static [u32] = &[0, 63, 64, 127];
    const VARS: &'static [Self] = &[S0_63_64_127::V0, S0_63_64_127::V1, S0_63_64_127::V2, S0_63_64_127::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_63_64_127 }
impl core::fmt::Display for S0_63_64_127 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_63_64_127 {}

#[derive(EnumSetType, Debug)] pub enum S127 { V0 = 127 }
impl Cat for S127 {
    const NAME: &'static str = "S127";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S127 { V0 = 127 }"####;
    const DISCR: &'static [u32] = &[127];
    const VARS: &'static [Self] = &[S127::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S127 }
impl core::fmt::Display for S127 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S127 {}

#[derive(EnumSetType, Debug)] pub enum S128 { V0 = 128 }
impl Cat for S128 {
    const NAME: &'static str = "S128";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S128 { V0 = 128 }"####;
    const DISCR: &'static [u32] = &[128];
    const VARS: &'static [Self] = &[S128::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S128 }
impl core::fmt::Display for S128 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S128 {}

#[derive(EnumSetType, Debug)] pub enum S62_65_127_128 { V0 = 62, V1 = 65, V2 = 127, V3 = 128 }
impl Cat for S62_65_127_128 {
    const NAME: &'static str = "S62_65_127_128";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S62_65_127_128 { V0 = 62, V1 = 65, V2 = 127, V3 = 128 }"####;
    const DISCR: &'static [u32] = &[62, 65, 127, 128];
    const VARS: &'static [Self] = &[S62_65_127_128::V0, S62_65_127_128::V1, S62_65_127_128::V2, S62_65_127_128::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S62_65_127_128 }
impl core::fmt::Display for S62_65_127_128 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S62_65_127_128 {}

#[derive(EnumSetType, Debug)] pub enum S0_63_64_127_128_191 { V0 = 0, V1 = 63, V2 = 64, V3 = 127, V4 = 128, V5 = 191 }
impl Cat for S0_63_64_127_128_191 {
    const NAME: &'static str = "S0_63_64_127_128_191";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_63_64_127_128_191 { V0 = 0, V1 = 63, V2 = 64, V3 = 127, V4 = 128, V5 = 191 }"####;
    const DISCR: &'static [u32] = &[0, 63, 64, 127, 128, 191];
    const VARS: &'static [Self] = &[S0_63_64_127_128_191::V0, S0_63_64_127_128_191::V1, S0_63_64_127_128_191::V2, S0_63_64_127_128_191::V3, S0_63_64_127_128_191::V4, S0_63_64_127_128_191::V5];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_63_64_127_128_191 }
impl core::fmt::Display for S0_63_64_127_128_191 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_63_64_127_128_191 {}

#[derive(EnumSetType, Debug)] pub enum S191 { V0 = 191 }
impl Cat for S191 {
    const NAME: &'static str = "S191";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S191 { V0 = 191 }"####;
    const DISCR: &'static [u32] = &[191];
    const VARS: &'static [Self] = &[S191::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S191 }
impl core::fmt::Display for S191 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S191 {}

#[derive(EnumSetType, Debug)] pub enum S192 { V0 = 192 }
impl Cat for S192 {
    const NAME: &'static str = "S192";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S192 { V0 = 192 }"####;
    const DISCR: &'static [u32] = &[192];
    const VARS: &'static [Self] = &[S192::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S192 }
impl core::fmt::Display for S192 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S192 {}

#[derive(EnumSetType, Debug)] pub enum S0_200 { V0 = 0, V1 = 200 }
impl Cat for S0_200 {
    const NAME: &'static str = "S0_200";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_200 { V0 = 0, V1 = 200 }"####;
    const DISCR: &'static [u32] = &[0, 200];
    const VARS: &'static [Self] = &[S0_200::V0, S0_200::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_200 }
impl core::fmt::Display for S0_200 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_200 {}

#[derive(EnumSetType, Debug)] pub enum S200 { V0 = 200 }
impl Cat for S200 {
    const NAME: &'static str = "S200";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S200 { V0 = 200 }"####;
    const DISCR: &'static [u32] = &[200];
    const VARS: &'static [Self] = &[S200::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S200 }
impl core::fmt::Display for S200 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S200 {}

#[derive(EnumSetType, Debug)] pub enum S5_330 { V0 = 5, V1 = 330 }
impl Cat for S5_330 {
    const NAME: &'static str = "S5_330";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S5_330 { V0 = 5, V1 = 330 }"####;
    const DISCR: &'static [u32] = &[5, 330];
    const VARS: &'static [Self] = &[S5_330::V0, S5_330::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 6;
    const SIZE: usize = 48;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S5_330 }
impl core::fmt::Display for S5_330 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S5_330 {}

#[derive(EnumSetType, Debug)] pub enum S64_65 { V0 = 64, V1 = 65 }
impl Cat for S64_65 {
    const NAME: &'static str = "S64_65";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S64_65 { V0 = 64, V1 = 65 }"####;
    const DISCR: &'static [u32] = &[64, 65];
    const VARS: &'static [Self] = &[S64_65::V0, S64_65::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S64_65 }
impl core::fmt::Display for S64_65 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S64_65 {}

#[derive(EnumSetType, Debug)] pub enum S130_131_140 { V0 = 130, V1 = 131, V2 = 140 }
impl Cat for S130_131_140 {
    const NAME: &'static str = "S130_131_140";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S130_131_140 { V0 = 130, V1 = 131, V2 = 140 }"####;
    const DISCR: &'static [u32] = &[130, 131, 140];
    const VARS: &'static [Self] = &[S130_131_140::V0, S130_131_140::V1, S130_131_140::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S130_131_140 }
impl core::fmt::Display for S130_131_140 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S130_131_140 {}

#[derive(EnumSetType, Debug)] pub enum S100_200_300_400_500_600_700_800 { V0 = 100, V1 = 200, V2 = 300, V3 = 400, V4 = 500, V5 = 600, V6 = 700, V7 = 800 }
impl Cat for S100_200_300_400_500_600_700_800 {
    const NAME: &'static str = "S100_200_300_400_500_600_700_800";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S100_200_300_400_500_600_700_800 { V0 = 100, V1 = 200, V2 = 300, V3 = 400, V4 = 500, V5 = 600, V6 = 700, V7 = 800 }"####;
    const DISCR: &'static [u32] = &[100, 200, 300, 400, 500, 600, 700, 800];
    const VARS: &'static [Self] = &[S100_200_300_400_500_600_700_800::V0, S100_200_300_400_500_600_700_800::V1, S100_200_300_400_500_600_700_800::V2, S100_200_300_400_500_600_700_800::V3, S100_200_300_400_500_600_700_800::V4, S100_200_300_400_500_600_700_800::V5, S100_200_300_400_500_600_700_800::V6, S100_200_300_400_500_600_700_800::V7];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"];
    const WORDS: usize = 13;
    const SIZE: usize = 104;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S100_200_300_400_500_600_700_800 }
impl core::fmt::Display for S100_200_300_400_500_600_700_800 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S100_200_300_400_500_600_700_800 {}

#[derive(EnumSetType, Debug)] pub enum S1_60_190_191_320_321 { V0 = 1, V1 = 60, V2 = 190, V3 = 191, V4 = 320, V5 = 321 }
impl Cat for S1_60_190_191_320_321 {
    const NAME: &'static str = "S1_60_190_191_320_321";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S1_60_190_191_320_321 { V0 = 1, V1 = 60, V2 = 190, V3 = 191, V4 = 320, V5 = 321 }"####;
    const DISCR: &'static [u32] = &[1, 60, 190, 191, 320, 321];
    const VARS: &'static [Self] = &[S1_60_190_191_320_321::V0, S1_60_190_191_320_321::V1, S1_60_190_191_320_321::V2, S1_60_190_191_320_321::V3, S1_60_190_191_320_321::V4, S1_60_190_191_320_321::V5];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5"];
    const WORDS: usize = 6;
    const SIZE: usize = 48;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S1_60_190_191_320_321 }
impl core::fmt::Display for S1_60_190_191_320_321 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S1_60_190_191_320_321 {}

#[derive(EnumSetType, Debug)] pub enum S0_1000 { V0 = 0, V1 = 1000 }
impl Cat for S0_1000 {
    const NAME: &'static str = "S0_1000";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_1000 { V0 = 0, V1 = 1000 }"####;
    const DISCR: &'static [u32] = &[0, 1000];
    const VARS: &'static [Self] = &[S0_1000::V0, S0_1000::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 16;
    const SIZE: usize = 128;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_1000 }
impl core::fmt::Display for S0_1000 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_1000 {}

#[derive(EnumSetType, Debug)] pub enum S255 { V0 = 255 }
impl Cat for S255 {
    const NAME: &'static str = "S255";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S255 { V0 = 255 }"####;
    const DISCR: &'static [u32] = &[255];
    const VARS: &'static [Self] = &[S255::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S255 }
impl core::fmt::Display for S255 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S255 {}

#[derive(EnumSetType, Debug)] pub enum S256 { V0 = 256 }
impl Cat for S256 {
    const NAME: &'static str = "S256";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S256 { V0 = 256 }"####;
    const DISCR: &'static [u32] = &[256];
    const VARS: &'static [Self] = &[S256::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 5;
    const SIZE: usize = 40;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S256 }
impl core::fmt::Display for S256 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S256 {}

#[derive(EnumSetType, Debug)] pub enum S0_255_256_511_512_1023_1024 { V0 = 0, V1 = 255, V2 = 256, V3 = 511, V4 = 512, V5 = 1023, V6 = 1024 }
impl Cat for S0_255_256_511_512_1023_1024 {
    const NAME: &'static str = "S0_255_256_511_512_1023_1024";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_255_256_511_512_1023_1024 { V0 = 0, V1 = 255, V2 = 256, V3 = 511, V4 = 512, V5 = 1023, V6 = 1024 }"####;
    const DISCR: &'static [u32] = &[0, 255, 256, 511, 512, 1023, 1024];
    const VARS: &'static [Self] = &[S0_255_256_511_512_1023_1024::V0, S0_255_256_511_512_1023_1024::V1, S0_255_256_511_512_1023_1024::V2, S0_255_256_511_512_1023_1024::V3, S0_255_256_511_512_1023_1024::V4, S0_255_256_511_512_1023_1024::V5, S0_255_256_511_512_1023_1024::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 17;
    const SIZE: usize = 136;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_255_256_511_512_1023_1024 }
impl core::fmt::Display for S0_255_256_511_512_1023_1024 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_255_256_511_512_1023_1024 {}

#[derive(EnumSetType, Debug)] pub enum S0_63_64_383_384_447 { V0 = 0, V1 = 63, V2 = 64, V3 = 383, V4 = 384, V5 = 447 }
impl Cat for S0_63_64_383_384_447 {
    const NAME: &'static str = "S0_63_64_383_384_447";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_63_64_383_384_447 { V0 = 0, V1 = 63, V2 = 64, V3 = 383, V4 = 384, V5 = 447 }"####;
    const DISCR: &'static [u32] = &[0, 63, 64, 383, 384, 447];
    const VARS: &'static [Self] = &[S0_63_64_383_384_447::V0, S0_63_64_383_384_447::V1, S0_63_64_383_384_447::V2, S0_63_64_383_384_447::V3, S0_63_64_383_384_447::V4, S0_63_64_383_384_447::V5];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5"];
    const WORDS: usize = 7;
    const SIZE: usize = 56;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_63_64_383_384_447 }
impl core::fmt::Display for S0_63_64_383_384_447 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_63_64_383_384_447 {}

#[derive(EnumSetType, Debug)] pub enum S0_447_448_511 { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl Cat for S0_447_448_511 {
    const NAME: &'static str = "S0_447_448_511";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_447_448_511 { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####;
    const DISCR: &'static [u32] = &[0, 447, 448, 511];
    const VARS: &'static [Self] = &[S0_447_448_511::V0, S0_447_448_511::V1, S0_447_448_511::V2, S0_447_448_511::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 8;
    const SIZE: usize = 64;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_447_448_511 }
impl core::fmt::Display for S0_447_448_511 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_447_448_511 {}

#[derive(EnumSetType, Debug)] pub enum S1_511_512_575 { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl Cat for S1_511_512_575 {
    const NAME: &'static str = "S1_511_512_575";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S1_511_512_575 { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####;
    const DISCR: &'static [u32] = &[1, 511, 512, 575];
    const VARS: &'static [Self] = &[S1_511_512_575::V0, S1_511_512_575::V1, S1_511_512_575::V2, S1_511_512_575::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 9;
    const SIZE: usize = 72;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S1_511_512_575 }
impl core::fmt::Display for S1_511_512_575 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S1_511_512_575 {}

#[derive(EnumSetType, Debug)] pub enum S63_320_640_767 { V0 = 63, V1 = 320, V2 = 640, V3 = 767 }
impl Cat for S63_320_640_767 {
    const NAME: &'static str = "S63_320_640_767";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S63_320_640_767 { V0 = 63, V1 = 320, V2 = 640, V3 = 767 }"####;
    const DISCR: &'static [u32] = &[63, 320, 640, 767];
    const VARS: &'static [Self] = &[S63_320_640_767::V0, S63_320_640_767::V1, S63_320_640_767::V2, S63_320_640_767::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 12;
    const SIZE: usize = 96;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S63_320_640_767 }
impl core::fmt::Display for S63_320_640_767 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S63_320_640_767 {}

#[derive(EnumSetType, Debug)] pub enum S0_767_768_831 { V0 = 0, V1 = 767, V2 = 768, V3 = 831 }
impl Cat for S0_767_768_831 {
    const NAME: &'static str = "S0_767_768_831";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_767_768_831 { V0 = 0, V1 = 767, V2 = 768, V3 = 831 }"####;
    const DISCR: &'static [u32] = &[0, 767, 768, 831];
    const VARS: &'static [Self] = &[S0_767_768_831::V0, S0_767_768_831::V1, S0_767_768_831::V2, S0_767_768_831::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 13;
    const SIZE: usize = 104;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_767_768_831 }
impl core::fmt::Display for S0_767_768_831 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_767_768_831 {}

#[derive(EnumSetType, Debug)] pub enum S0_2047_2048_2111 { V0 = 0, V1 = 2047, V2 = 2048, V3 = 2111 }
impl Cat for S0_2047_2048_2111 {
    const NAME: &'static str = "S0_2047_2048_2111";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum S0_2047_2048_2111 { V0 = 0, V1 = 2047, V2 = 2048, V3 = 2111 }"####;
    const DISCR: &'static [u32] = &[0, 2047, 2048, 2111];
    const VARS: &'static [Self] = &[S0_2047_2048_2111::V0, S0_2047_2048_2111::V1, S0_2047_2048_2111::V2, S0_2047_2048_2111::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 33;
    const SIZE: usize = 264;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { S0_2047_2048_2111 }
impl core::fmt::Display for S0_2047_2048_2111 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for S0_2047_2048_2111 {}

#[derive(EnumSetType, Debug)] pub enum Alt128 { V0 = 1, V1 = 3, V2 = 5, V3 = 7, V4 = 9, V5 = 11, V6 = 13, V7 = 15, V8 = 17, V9 = 19, V10 = 21, V11 = 23, V12 = 25, V13 = 27, V14 = 29, V15 = 31, V16 = 33, V17 = 35, V18 = 37, V19 = 39, V20 = 41, V21 = 43, V22 = 45, V23 = 47, V24 = 49, V25 = 51, V26 = 53, V27 = 55, V28 = 57, V29 = 59, V30 = 61, V31 = 63, V32 = 65, V33 = 67, V34 = 69, V35 = 71, V36 = 73, V37 = 75, V38 = 77, V39 = 79, V40 = 81, V41 = 83, V42 = 85, V43 = 87, V44 = 89, V45 = 91, V46 = 93, V47 = 95, V48 = 97, V49 = 99, V50 = 101, V51 = 103, V52 = 105, V53 = 107, V54 = 109, V55 = 111, V56 = 113, V57 = 115, V58 = 117, V59 = 119, V60 = 121, V61 = 123, V62 = 125, V63 = 127 }
impl Cat for Alt128 {
    const NAME: &'static str = "Alt128";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Alt128 { V0 = 1, V1 = 3, V2 = 5, V3 = 7, V4 = 9, V5 = 11, V6 = 13, V7 = 15, V8 = 17, V9 = 19, V10 = 21, V11 = 23, V12 = 25, V13 = 27, V14 = 29, V15 = 31, V16 = 33, V17 = 35, V18 = 37, V19 = 39, V20 = 41, V21 = 43, V22 = 45, V23 = 47, V24 = 49, V25 = 51, V26 = 53, V27 = 55, V28 = 57, V29 = 59, V30 = 61, V31 = 63, V32 = 65, V33 = 67, V34 = 6 ... }"####;
    const DISCR: &'static [u32] = &[1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33, 35, 37, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 63, 65, 67, 69, 71, 73, 75, 77, 79, 81, 83, 85, 87, 89, 91, 93, 95, 97, 99, 101, 103, 105, 107, 109, 111, 113, 115, 117, 119, 121, 123, 125, 127];
    const VARS: &'static [Self] = &[Alt128::V0, Alt128::V1, Alt128::V2, Alt128::V3, Alt128::V4, Alt128::V5, Alt128::V6, Alt128::V7, Alt128::V8, Alt128::V9, Alt128::V10, Alt128::V11, Alt128::V12, Alt128::V13, Alt128::V14, Alt128::V15, Alt128::V16, Alt128::V17, Alt128::V18, Alt128::V19, Alt128::V20, Alt128::V21, Alt128::V22, Alt128::V23, Alt128::V24, Alt128::V25, Alt128::V26, Alt128::V27, Alt128::V28, Alt128::V29, Alt128::V30, Alt128::V31, Alt128::V32, Alt128::V33, Alt128::V34, Alt128::V35, Alt128::V36, Alt128::V37, Alt128::V38, Alt128::V39, Alt128::V40, Alt128::V41, Alt128::V42, Alt128::V43, Alt128::V44, Alt128::V45, Alt128::V46, Alt128::V47, Alt128::V48, Alt128::V49, Alt128::V50, Alt128::V51, Alt128::V52, Alt128::V53, Alt128::V54, Alt128::V55, Alt128::V56, Alt128::V57, Alt128::V58, Alt128::V59, Alt128::V60, Alt128::V61, Alt128::V62, Alt128::V63];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Alt128 }
impl core::fmt::Display for Alt128 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Alt128 {}

#[derive(EnumSetType, Debug)] pub enum Alt8 { V0 = 1, V1 = 3, V2 = 4, V3 = 6 }
impl Cat for Alt8 {
    const NAME: &'static str = "Alt8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Alt8 { V0 = 1, V1 = 3, V2 = 4, V3 = 6 }"####;
    const DISCR: &'static [u32] = &[1, 3, 4, 6];
    const VARS: &'static [Self] = &[Alt8::V0, Alt8::V1, Alt8::V2, Alt8::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Alt8 }
impl core::fmt::Display for Alt8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Alt8 {}

#[derive(EnumSetType, Debug)] pub enum Tri200 { V0 = 0, V1 = 3, V2 = 6, V3 = 9, V4 = 12, V5 = 15, V6 = 18, V7 = 21, V8 = 24, V9 = 27, V10 = 30, V11 = 33, V12 = 36, V13 = 39, V14 = 42, V15 = 45, V16 = 48, V17 = 51, V18 = 54, V19 = 57, V20 = 60, V21 = 63, V22 = 66, V23 = 69, V24 = 72, V25 = 75, V26 = 78, V27 = 81, V28 = 84, V29 = 87, V30 = 90, V31 = 93, V32 = 96, V33 = 99, V34 = 102, V35 = 105, V36 = 108, V37 = 111, V38 = 114, V39 = 117, V40 = 120, V41 = 123, V42 = 126, V43 = 129, V44 = 132, V45 = 135, V46 = 138, V47 = 141, V48 = 144, V49 = 147, V50 = 150, V51 = 153, V52 = 156, V53 = 159, V54 = 162, V55 = 165, V56 = 168, V57 = 171, V58 = 174, V59 = 177, V60 = 180, V61 = 183, V62 = 186, V63 = 189, V64 = 192, V65 = 195, V66 = 198 }
impl Cat for Tri200 {
    const NAME: &'static str = "Tri200";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Tri200 { V0 = 0, V1 = 3, V2 = 6, V3 = 9, V4 = 12, V5 = 15, V6 = 18, V7 = 21, V8 = 24, V9 = 27, V10 = 30, V11 = 33, V12 = 36, V13 = 39, V14 = 42, V15 = 45, V16 = 48, V17 = 51, V18 = 54, V19 = 57, V20 = 60, V21 = 63, V22 = 66, V23 = 69, V24 = 72, V25 = 75, V26 = 78, V27 = 81, V28 = 84, V29 = 87, V30 = 90, V31 = 93, V32 = 96, V33 = 99, V34 =  ... }"####;
    const DISCR: &'static [u32] = &[0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36, 39, 42, 45, 48, 51, 54, 57, 60, 63, 66, 69, 72, 75, 78, 81, 84, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 135, 138, 141, 144, 147, 150, 153, 156, 159, 162, 165, 168, 171, 174, 177, 180, 183, 186, 189, 192, 195, 198];
    const VARS: &'static [Self] = &[Tri200::V0, Tri200::V1, Tri200::V2, Tri200::V3, Tri200::V4, Tri200::V5, Tri200::V6, Tri200::V7, Tri200::V8, Tri200::V9, Tri200::V10, Tri200::V11, Tri200::V12, Tri200::V13, Tri200::V14, Tri200::V15, Tri200::V16, Tri200::V17, Tri200::V18, Tri200::V19, Tri200::V20, Tri200::V21, Tri200::V22, Tri200::V23, Tri200::V24, Tri200::V25, Tri200::V26, Tri200::V27, Tri200::V28, Tri200::V29, Tri200::V30, Tri200::V31, Tri200::V32, Tri200::V33, Tri200::V34, Tri200::V35, Tri200::V36, Tri200::V37, Tri200::V38, Tri200::V39, Tri200::V40, Tri200::V41, Tri200::V42, Tri200::V43, Tri200::V44, Tri200::V45, Tri200::V46, Tri200::V47, Tri200::V48, Tri200::V49, Tri200::V50, Tri200::V51, Tri200::V52, Tri200::V53, Tri200::V54, Tri200::V55, Tri200::V56, Tri200::V57, Tri200::V58, Tri200::V59, Tri200::V60, Tri200::V61, Tri200::V62, Tri200::V63, Tri200::V64, Tri200::V65, Tri200::V66];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Tri200 }
impl core::fmt::Display for Tri200 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Tri200 {}

#[derive(EnumSetType, Debug)] pub enum H8_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }
impl Cat for H8_0 {
    const NAME: &'static str = "H8_0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H8_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[H8_0::V0, H8_0::V1, H8_0::V2, H8_0::V3, H8_0::V4, H8_0::V5, H8_0::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H8_0 }
impl core::fmt::Display for H8_0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H8_0 {}

#[derive(EnumSetType, Debug)] pub enum H8_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }
impl Cat for H8_1 {
    const NAME: &'static str = "H8_1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H8_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[H8_1::V0, H8_1::V1, H8_1::V2, H8_1::V3, H8_1::V4, H8_1::V5, H8_1::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H8_1 }
impl core::fmt::Display for H8_1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H8_1 {}

#[derive(EnumSetType, Debug)] pub enum H8_4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }
impl Cat for H8_4 {
    const NAME: &'static str = "H8_4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H8_4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 5, 6, 7];
    const VARS: &'static [Self] = &[H8_4::V0, H8_4::V1, H8_4::V2, H8_4::V3, H8_4::V4, H8_4::V5, H8_4::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H8_4 }
impl core::fmt::Display for H8_4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H8_4 {}

#[derive(EnumSetType, Debug)] pub enum H8_6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }
impl Cat for H8_6 {
    const NAME: &'static str = "H8_6";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H8_6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 7];
    const VARS: &'static [Self] = &[H8_6::V0, H8_6::V1, H8_6::V2, H8_6::V3, H8_6::V4, H8_6::V5, H8_6::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H8_6 }
impl core::fmt::Display for H8_6 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H8_6 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum RH8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 6, V6 = 7 }
impl Cat for RH8 {
    const NAME: &'static str = "RH8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum RH8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 6, V6 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 6, 7];
    const VARS: &'static [Self] = &[RH8::V0, RH8::V1, RH8::V2, RH8::V3, RH8::V4, RH8::V5, RH8::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RH8 }
impl core::fmt::Display for RH8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RH8 {}
impl CatRepr for RH8 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum RT8 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }
impl Cat for RT8 {
    const NAME: &'static str = "RT8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum RT8 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[RT8::V0, RT8::V1, RT8::V2, RT8::V3, RT8::V4, RT8::V5, RT8::V6];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RT8 }
impl core::fmt::Display for RT8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RT8 {}
impl CatRepr for RT8 { type R = u8; }

#[derive(EnumSetType, Debug)] pub enum H16_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl Cat for H16_0 {
    const NAME: &'static str = "H16_0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H16_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[H16_0::V0, H16_0::V1, H16_0::V2, H16_0::V3, H16_0::V4, H16_0::V5, H16_0::V6, H16_0::V7, H16_0::V8, H16_0::V9, H16_0::V10, H16_0::V11, H16_0::V12, H16_0::V13, H16_0::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H16_0 }
impl core::fmt::Display for H16_0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H16_0 {}

#[derive(EnumSetType, Debug)] pub enum H16_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl Cat for H16_1 {
    const NAME: &'static str = "H16_1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H16_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[H16_1::V0, H16_1::V1, H16_1::V2, H16_1::V3, H16_1::V4, H16_1::V5, H16_1::V6, H16_1::V7, H16_1::V8, H16_1::V9, H16_1::V10, H16_1::V11, H16_1::V12, H16_1::V13, H16_1::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H16_1 }
impl core::fmt::Display for H16_1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H16_1 {}

#[derive(EnumSetType, Debug)] pub enum H16_8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl Cat for H16_8 {
    const NAME: &'static str = "H16_8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H16_8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[H16_8::V0, H16_8::V1, H16_8::V2, H16_8::V3, H16_8::V4, H16_8::V5, H16_8::V6, H16_8::V7, H16_8::V8, H16_8::V9, H16_8::V10, H16_8::V11, H16_8::V12, H16_8::V13, H16_8::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H16_8 }
impl core::fmt::Display for H16_8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H16_8 {}

#[derive(EnumSetType, Debug)] pub enum H16_14 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }
impl Cat for H16_14 {
    const NAME: &'static str = "H16_14";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H16_14 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15];
    const VARS: &'static [Self] = &[H16_14::V0, H16_14::V1, H16_14::V2, H16_14::V3, H16_14::V4, H16_14::V5, H16_14::V6, H16_14::V7, H16_14::V8, H16_14::V9, H16_14::V10, H16_14::V11, H16_14::V12, H16_14::V13, H16_14::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H16_14 }
impl core::fmt::Display for H16_14 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H16_14 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum RH16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl Cat for RH16 {
    const NAME: &'static str = "RH16";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum RH16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[RH16::V0, RH16::V1, RH16::V2, RH16::V3, RH16::V4, RH16::V5, RH16::V6, RH16::V7, RH16::V8, RH16::V9, RH16::V10, RH16::V11, RH16::V12, RH16::V13, RH16::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RH16 }
impl core::fmt::Display for RH16 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RH16 {}
impl CatRepr for RH16 { type R = u16; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum RT16 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl Cat for RT16 {
    const NAME: &'static str = "RT16";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum RT16 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[RT16::V0, RT16::V1, RT16::V2, RT16::V3, RT16::V4, RT16::V5, RT16::V6, RT16::V7, RT16::V8, RT16::V9, RT16::V10, RT16::V11, RT16::V12, RT16::V13, RT16::V14];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RT16 }
impl core::fmt::Display for RT16 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RT16 {}
impl CatRepr for RT16 { type R = u16; }

#[derive(EnumSetType, Debug)] pub enum H32_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl Cat for H32_0 {
    const NAME: &'static str = "H32_0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H32_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
    const VARS: &'static [Self] = &[H32_0::V0, H32_0::V1, H32_0::V2, H32_0::V3, H32_0::V4, H32_0::V5, H32_0::V6, H32_0::V7, H32_0::V8, H32_0::V9, H32_0::V10, H32_0::V11, H32_0::V12, H32_0::V13, H32_0::V14, H32_0::V15, H32_0::V16, H32_0::V17, H32_0::V18, H32_0::V19, H32_0::V20, H32_0::V21, H32_0::V22, H32_0::V23, H32_0::V24, H32_0::V25, H32_0::V26, H32_0::V27, H32_0::V28, H32_0::V29, H32_0::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H32_0 }
impl core::fmt::Display for H32_0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H32_0 {}

#[derive(EnumSetType, Debug)] pub enum H32_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl Cat for H32_1 {
    const NAME: &'static str = "H32_1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H32_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
    const VARS: &'static [Self] = &[H32_1::V0, H32_1::V1, H32_1::V2, H32_1::V3, H32_1::V4, H32_1::V5, H32_1::V6, H32_1::V7, H32_1::V8, H32_1::V9, H32_1::V10, H32_1::V11, H32_1::V12, H32_1::V13, H32_1::V14, H32_1::V15, H32_1::V16, H32_1::V17, H32_1::V18, H32_1::V19, H32_1::V20, H32_1::V21, H32_1::V22, H32_1::V23, H32_1::V24, H32_1::V25, H32_1::V26, H32_1::V27, H32_1::V28, H32_1::V29, H32_1::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H32_1 }
impl core::fmt::Display for H32_1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H32_1 {}

#[derive(EnumSetType, Debug)] pub enum H32_16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl Cat for H32_16 {
    const NAME: &'static str = "H32_16";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H32_16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
    const VARS: &'static [Self] = &[H32_16::V0, H32_16::V1, H32_16::V2, H32_16::V3, H32_16::V4, H32_16::V5, H32_16::V6, H32_16::V7, H32_16::V8, H32_16::V9, H32_16::V10, H32_16::V11, H32_16::V12, H32_16::V13, H32_16::V14, H32_16::V15, H32_16::V16, H32_16::V17, H32_16::V18, H32_16::V19, H32_16::V20, H32_16::V21, H32_16::V22, H32_16::V23, H32_16::V24, H32_16::V25, H32_16::V26, H32_16::V27, H32_16::V28, H32_16::V29, H32_16::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H32_16 }
impl core::fmt::Display for H32_16 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H32_16 {}

#[derive(EnumSetType, Debug)] pub enum H32_30 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }
impl Cat for H32_30 {
    const NAME: &'static str = "H32_30";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H32_30 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 31];
    const VARS: &'static [Self] = &[H32_30::V0, H32_30::V1, H32_30::V2, H32_30::V3, H32_30::V4, H32_30::V5, H32_30::V6, H32_30::V7, H32_30::V8, H32_30::V9, H32_30::V10, H32_30::V11, H32_30::V12, H32_30::V13, H32_30::V14, H32_30::V15, H32_30::V16, H32_30::V17, H32_30::V18, H32_30::V19, H32_30::V20, H32_30::V21, H32_30::V22, H32_30::V23, H32_30::V24, H32_30::V25, H32_30::V26, H32_30::V27, H32_30::V28, H32_30::V29, H32_30::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H32_30 }
impl core::fmt::Display for H32_30 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H32_30 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum RH32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl Cat for RH32 {
    const NAME: &'static str = "RH32";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum RH32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
    const VARS: &'static [Self] = &[RH32::V0, RH32::V1, RH32::V2, RH32::V3, RH32::V4, RH32::V5, RH32::V6, RH32::V7, RH32::V8, RH32::V9, RH32::V10, RH32::V11, RH32::V12, RH32::V13, RH32::V14, RH32::V15, RH32::V16, RH32::V17, RH32::V18, RH32::V19, RH32::V20, RH32::V21, RH32::V22, RH32::V23, RH32::V24, RH32::V25, RH32::V26, RH32::V27, RH32::V28, RH32::V29, RH32::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RH32 }
impl core::fmt::Display for RH32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RH32 {}
impl CatRepr for RH32 { type R = u32; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum RT32 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl Cat for RT32 {
    const NAME: &'static str = "RT32";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum RT32 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
    const VARS: &'static [Self] = &[RT32::V0, RT32::V1, RT32::V2, RT32::V3, RT32::V4, RT32::V5, RT32::V6, RT32::V7, RT32::V8, RT32::V9, RT32::V10, RT32::V11, RT32::V12, RT32::V13, RT32::V14, RT32::V15, RT32::V16, RT32::V17, RT32::V18, RT32::V19, RT32::V20, RT32::V21, RT32::V22, RT32::V23, RT32::V24, RT32::V25, RT32::V26, RT32::V27, RT32::V28, RT32::V29, RT32::V30];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RT32 }
impl core::fmt::Display for RT32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RT32 {}
impl CatRepr for RT32 { type R = u32; }

#[derive(EnumSetType, Debug)] pub enum H64_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl Cat for H64_0 {
    const NAME: &'static str = "H64_0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H64_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V3 ... }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[H64_0::V0, H64_0::V1, H64_0::V2, H64_0::V3, H64_0::V4, H64_0::V5, H64_0::V6, H64_0::V7, H64_0::V8, H64_0::V9, H64_0::V10, H64_0::V11, H64_0::V12, H64_0::V13, H64_0::V14, H64_0::V15, H64_0::V16, H64_0::V17, H64_0::V18, H64_0::V19, H64_0::V20, H64_0::V21, H64_0::V22, H64_0::V23, H64_0::V24, H64_0::V25, H64_0::V26, H64_0::V27, H64_0::V28, H64_0::V29, H64_0::V30, H64_0::V31, H64_0::V32, H64_0::V33, H64_0::V34, H64_0::V35, H64_0::V36, H64_0::V37, H64_0::V38, H64_0::V39, H64_0::V40, H64_0::V41, H64_0::V42, H64_0::V43, H64_0::V44, H64_0::V45, H64_0::V46, H64_0::V47, H64_0::V48, H64_0::V49, H64_0::V50, H64_0::V51, H64_0::V52, H64_0::V53, H64_0::V54, H64_0::V55, H64_0::V56, H64_0::V57, H64_0::V58, H64_0::V59, H64_0::V60, H64_0::V61, H64_0::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H64_0 }
impl core::fmt::Display for H64_0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H64_0 {}

#[derive(EnumSetType, Debug)] pub enum H64_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl Cat for H64_1 {
    const NAME: &'static str = "H64_1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H64_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V3 ... }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[H64_1::V0, H64_1::V1, H64_1::V2, H64_1::V3, H64_1::V4, H64_1::V5, H64_1::V6, H64_1::V7, H64_1::V8, H64_1::V9, H64_1::V10, H64_1::V11, H64_1::V12, H64_1::V13, H64_1::V14, H64_1::V15, H64_1::V16, H64_1::V17, H64_1::V18, H64_1::V19, H64_1::V20, H64_1::V21, H64_1::V22, H64_1::V23, H64_1::V24, H64_1::V25, H64_1::V26, H64_1::V27, H64_1::V28, H64_1::V29, H64_1::V30, H64_1::V31, H64_1::V32, H64_1::V33, H64_1::V34, H64_1::V35, H64_1::V36, H64_1::V37, H64_1::V38, H64_1::V39, H64_1::V40, H64_1::V41, H64_1::V42, H64_1::V43, H64_1::V44, H64_1::V45, H64_1::V46, H64_1::V47, H64_1::V48, H64_1::V49, H64_1::V50, H64_1::V51, H64_1::V52, H64_1::V53, H64_1::V54, H64_1::V55, H64_1::V56, H64_1::V57, H64_1::V58, H64_1::V59, H64_1::V60, H64_1::V61, H64_1::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H64_1 }
impl core::fmt::Display for H64_1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H64_1 {}

#[derive(EnumSetType, Debug)] pub enum H64_32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl Cat for H64_32 {
    const NAME: &'static str = "H64_32";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H64_32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 33, V33 = 34, V34 = 35, V3 ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[H64_32::V0, H64_32::V1, H64_32::V2, H64_32::V3, H64_32::V4, H64_32::V5, H64_32::V6, H64_32::V7, H64_32::V8, H64_32::V9, H64_32::V10, H64_32::V11, H64_32::V12, H64_32::V13, H64_32::V14, H64_32::V15, H64_32::V16, H64_32::V17, H64_32::V18, H64_32::V19, H64_32::V20, H64_32::V21, H64_32::V22, H64_32::V23, H64_32::V24, H64_32::V25, H64_32::V26, H64_32::V27, H64_32::V28, H64_32::V29, H64_32::V30, H64_32::V31, H64_32::V32, H64_32::V33, H64_32::V34, H64_32::V35, H64_32::V36, H64_32::V37, H64_32::V38, H64_32::V39, H64_32::V40, H64_32::V41, H64_32::V42, H64_32::V43, H64_32::V44, H64_32::V45, H64_32::V46, H64_32::V47, H64_32::V48, H64_32::V49, H64_32::V50, H64_32::V51, H64_32::V52, H64_32::V53, H64_32::V54, H64_32::V55, H64_32::V56, H64_32::V57, H64_32::V58, H64_32::V59, H64_32::V60, H64_32::V61, H64_32::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H64_32 }
impl core::fmt::Display for H64_32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H64_32 {}

#[derive(EnumSetType, Debug)] pub enum H64_62 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 63 }
impl Cat for H64_62 {
    const NAME: &'static str = "H64_62";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H64_62 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V3 ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 63];
    const VARS: &'static [Self] = &[H64_62::V0, H64_62::V1, H64_62::V2, H64_62::V3, H64_62::V4, H64_62::V5, H64_62::V6, H64_62::V7, H64_62::V8, H64_62::V9, H64_62::V10, H64_62::V11, H64_62::V12, H64_62::V13, H64_62::V14, H64_62::V15, H64_62::V16, H64_62::V17, H64_62::V18, H64_62::V19, H64_62::V20, H64_62::V21, H64_62::V22, H64_62::V23, H64_62::V24, H64_62::V25, H64_62::V26, H64_62::V27, H64_62::V28, H64_62::V29, H64_62::V30, H64_62::V31, H64_62::V32, H64_62::V33, H64_62::V34, H64_62::V35, H64_62::V36, H64_62::V37, H64_62::V38, H64_62::V39, H64_62::V40, H64_62::V41, H64_62::V42, H64_62::V43, H64_62::V44, H64_62::V45, H64_62::V46, H64_62::V47, H64_62::V48, H64_62::V49, H64_62::V50, H64_62::V51, H64_62::V52, H64_62::V53, H64_62::V54, H64_62::V55, H64_62::V56, H64_62::V57, H64_62::V58, H64_62::V59, H64_62::V60, H64_62::V61, H64_62::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H64_62 }
impl core::fmt::Display for H64_62 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H64_62 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum RH64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl Cat for RH64 {
    const NAME: &'static str = "RH64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum RH64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[RH64::V0, RH64::V1, RH64::V2, RH64::V3, RH64::V4, RH64::V5, RH64::V6, RH64::V7, RH64::V8, RH64::V9, RH64::V10, RH64::V11, RH64::V12, RH64::V13, RH64::V14, RH64::V15, RH64::V16, RH64::V17, RH64::V18, RH64::V19, RH64::V20, RH64::V21, RH64::V22, RH64::V23, RH64::V24, RH64::V25, RH64::V26, RH64::V27, RH64::V28, RH64::V29, RH64::V30, RH64::V31, RH64::V32, RH64::V33, RH64::V34, RH64::V35, RH64::V36, RH64::V37, RH64::V38, RH64::V39, RH64::V40, RH64::V41, RH64::V42, RH64::V43, RH64::V44, RH64::V45, RH64::V46, RH64::V47, RH64::V48, RH64::V49, RH64::V50, RH64::V51, RH64::V52, RH64::V53, RH64::V54, RH64::V55, RH64::V56, RH64::V57, RH64::V58, RH64::V59, RH64::V60, RH64::V61, RH64::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RH64 }
impl core::fmt::Display for RH64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RH64 {}
impl CatRepr for RH64 { type R = u64; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum RT64 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl Cat for RT64 {
    const NAME: &'static str = "RT64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum RT64 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33 ... }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[RT64::V0, RT64::V1, RT64::V2, RT64::V3, RT64::V4, RT64::V5, RT64::V6, RT64::V7, RT64::V8, RT64::V9, RT64::V10, RT64::V11, RT64::V12, RT64::V13, RT64::V14, RT64::V15, RT64::V16, RT64::V17, RT64::V18, RT64::V19, RT64::V20, RT64::V21, RT64::V22, RT64::V23, RT64::V24, RT64::V25, RT64::V26, RT64::V27, RT64::V28, RT64::V29, RT64::V30, RT64::V31, RT64::V32, RT64::V33, RT64::V34, RT64::V35, RT64::V36, RT64::V37, RT64::V38, RT64::V39, RT64::V40, RT64::V41, RT64::V42, RT64::V43, RT64::V44, RT64::V45, RT64::V46, RT64::V47, RT64::V48, RT64::V49, RT64::V50, RT64::V51, RT64::V52, RT64::V53, RT64::V54, RT64::V55, RT64::V56, RT64::V57, RT64::V58, RT64::V59, RT64::V60, RT64::V61, RT64::V62];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RT64 }
impl core::fmt::Display for RT64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RT64 {}
impl CatRepr for RT64 { type R = u64; }

#[derive(EnumSetType, Debug)] pub enum H128_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl Cat for H128_0 {
    const NAME: &'static str = "H128_0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V ... }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[H128_0::V0, H128_0::V1, H128_0::V2, H128_0::V3, H128_0::V4, H128_0::V5, H128_0::V6, H128_0::V7, H128_0::V8, H128_0::V9, H128_0::V10, H128_0::V11, H128_0::V12, H128_0::V13, H128_0::V14, H128_0::V15, H128_0::V16, H128_0::V17, H128_0::V18, H128_0::V19, H128_0::V20, H128_0::V21, H128_0::V22, H128_0::V23, H128_0::V24, H128_0::V25, H128_0::V26, H128_0::V27, H128_0::V28, H128_0::V29, H128_0::V30, H128_0::V31, H128_0::V32, H128_0::V33, H128_0::V34, H128_0::V35, H128_0::V36, H128_0::V37, H128_0::V38, H128_0::V39, H128_0::V40, H128_0::V41, H128_0::V42, H128_0::V43, H128_0::V44, H128_0::V45, H128_0::V46, H128_0::V47, H128_0::V48, H128_0::V49, H128_0::V50, H128_0::V51, H128_0::V52, H128_0::V53, H128_0::V54, H128_0::V55, H128_0::V56, H128_0::V57, H128_0::V58, H128_0::V59, H128_0::V60, H128_0::V61, H128_0::V62, H128_0::V63, H128_0::V64, H128_0::V65, H128_0::V66, H128_0::V67, H128_0::V68, H128_0::V69, H128_0::V70, H128_0::V71, H128_0::V72, H128_0::V73, H128_0::V74, H128_0::V75, H128_0::V76, H128_0::V77, H128_0::V78, H128_0::V79, H128_0::V80, H128_0::V81, H128_0::V82, H128_0::V83, H128_0::V84, H128_0::V85, H128_0::V86, H128_0::V87, H128_0::V88, H128_0::V89, H128_0::V90, H128_0::V91, H128_0::V92, H128_0::V93, H128_0::V94, H128_0::V95, H128_0::V96, H128_0::V97, H128_0::V98, H128_0::V99, H128_0::V100, H128_0::V101, H128_0::V102, H128_0::V103, H128_0::V104, H128_0::V105, H128_0::V106, H128_0::V107, H128_0::V108, H128_0::V109, H128_0::V110, H128_0::V111, H128_0::V112, H128_0::V113, H128_0::V114, H128_0::V115, H128_0::V116, H128_0::V117, H128_0::V118, H128_0::V119, H128_0::V120, H128_0::V121, H128_0::V122, H128_0::V123, H128_0::V124, H128_0::V125, H128_0::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H128_0 }
impl core::fmt::Display for H128_0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H128_0 {}

#[derive(EnumSetType, Debug)] pub enum H128_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl Cat for H128_1 {
    const NAME: &'static str = "H128_1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V ... }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[H128_1::V0, H128_1::V1, H128_1::V2, H128_1::V3, H128_1::V4, H128_1::V5, H128_1::V6, H128_1::V7, H128_1::V8, H128_1::V9, H128_1::V10, H128_1::V11, H128_1::V12, H128_1::V13, H128_1::V14, H128_1::V15, H128_1::V16, H128_1::V17, H128_1::V18, H128_1::V19, H128_1::V20, H128_1::V21, H128_1::V22, H128_1::V23, H128_1::V24, H128_1::V25, H128_1::V26, H128_1::V27, H128_1::V28, H128_1::V29, H128_1::V30, H128_1::V31, H128_1::V32, H128_1::V33, H128_1::V34, H128_1::V35, H128_1::V36, H128_1::V37, H128_1::V38, H128_1::V39, H128_1::V40, H128_1::V41, H128_1::V42, H128_1::V43, H128_1::V44, H128_1::V45, H128_1::V46, H128_1::V47, H128_1::V48, H128_1::V49, H128_1::V50, H128_1::V51, H128_1::V52, H128_1::V53, H128_1::V54, H128_1::V55, H128_1::V56, H128_1::V57, H128_1::V58, H128_1::V59, H128_1::V60, H128_1::V61, H128_1::V62, H128_1::V63, H128_1::V64, H128_1::V65, H128_1::V66, H128_1::V67, H128_1::V68, H128_1::V69, H128_1::V70, H128_1::V71, H128_1::V72, H128_1::V73, H128_1::V74, H128_1::V75, H128_1::V76, H128_1::V77, H128_1::V78, H128_1::V79, H128_1::V80, H128_1::V81, H128_1::V82, H128_1::V83, H128_1::V84, H128_1::V85, H128_1::V86, H128_1::V87, H128_1::V88, H128_1::V89, H128_1::V90, H128_1::V91, H128_1::V92, H128_1::V93, H128_1::V94, H128_1::V95, H128_1::V96, H128_1::V97, H128_1::V98, H128_1::V99, H128_1::V100, H128_1::V101, H128_1::V102, H128_1::V103, H128_1::V104, H128_1::V105, H128_1::V106, H128_1::V107, H128_1::V108, H128_1::V109, H128_1::V110, H128_1::V111, H128_1::V112, H128_1::V113, H128_1::V114, H128_1::V115, H128_1::V116, H128_1::V117, H128_1::V118, H128_1::V119, H128_1::V120, H128_1::V121, H128_1::V122, H128_1::V123, H128_1::V124, H128_1::V125, H128_1::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H128_1 }
impl core::fmt::Display for H128_1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H128_1 {}

#[derive(EnumSetType, Debug)] pub enum H128_63 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl Cat for H128_63 {
    const NAME: &'static str = "H128_63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_63 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[H128_63::V0, H128_63::V1, H128_63::V2, H128_63::V3, H128_63::V4, H128_63::V5, H128_63::V6, H128_63::V7, H128_63::V8, H128_63::V9, H128_63::V10, H128_63::V11, H128_63::V12, H128_63::V13, H128_63::V14, H128_63::V15, H128_63::V16, H128_63::V17, H128_63::V18, H128_63::V19, H128_63::V20, H128_63::V21, H128_63::V22, H128_63::V23, H128_63::V24, H128_63::V25, H128_63::V26, H128_63::V27, H128_63::V28, H128_63::V29, H128_63::V30, H128_63::V31, H128_63::V32, H128_63::V33, H128_63::V34, H128_63::V35, H128_63::V36, H128_63::V37, H128_63::V38, H128_63::V39, H128_63::V40, H128_63::V41, H128_63::V42, H128_63::V43, H128_63::V44, H128_63::V45, H128_63::V46, H128_63::V47, H128_63::V48, H128_63::V49, H128_63::V50, H128_63::V51, H128_63::V52, H128_63::V53, H128_63::V54, H128_63::V55, H128_63::V56, H128_63::V57, H128_63::V58, H128_63::V59, H128_63::V60, H128_63::V61, H128_63::V62, H128_63::V63, H128_63::V64, H128_63::V65, H128_63::V66, H128_63::V67, H128_63::V68, H128_63::V69, H128_63::V70, H128_63::V71, H128_63::V72, H128_63::V73, H128_63::V74, H128_63::V75, H128_63::V76, H128_63::V77, H128_63::V78, H128_63::V79, H128_63::V80, H128_63::V81, H128_63::V82, H128_63::V83, H128_63::V84, H128_63::V85, H128_63::V86, H128_63::V87, H128_63::V88, H128_63::V89, H128_63::V90, H128_63::V91, H128_63::V92, H128_63::V93, H128_63::V94, H128_63::V95, H128_63::V96, H128_63::V97, H128_63::V98, H128_63::V99, H128_63::V100, H128_63::V101, H128_63::V102, H128_63::V103, H128_63::V104, H128_63::V105, H128_63::V106, H128_63::V107, H128_63::V108, H128_63::V109, H128_63::V110, H128_63::V111, H128_63::V112, H128_63::V113, H128_63::V114, H128_63::V115, H128_63::V116, H128_63::V117, H128_63::V118, H128_63::V119, H128_63::V120, H128_63::V121, H128_63::V122, H128_63::V123, H128_63::V124, H128_63::V125, H128_63::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H128_63 }
impl core::fmt::Display for H128_63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H128_63 {}

#[derive(EnumSetType, Debug)] pub enum H128_64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl Cat for H128_64 {
    const NAME: &'static str = "H128_64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[H128_64::V0, H128_64::V1, H128_64::V2, H128_64::V3, H128_64::V4, H128_64::V5, H128_64::V6, H128_64::V7, H128_64::V8, H128_64::V9, H128_64::V10, H128_64::V11, H128_64::V12, H128_64::V13, H128_64::V14, H128_64::V15, H128_64::V16, H128_64::V17, H128_64::V18, H128_64::V19, H128_64::V20, H128_64::V21, H128_64::V22, H128_64::V23, H128_64::V24, H128_64::V25, H128_64::V26, H128_64::V27, H128_64::V28, H128_64::V29, H128_64::V30, H128_64::V31, H128_64::V32, H128_64::V33, H128_64::V34, H128_64::V35, H128_64::V36, H128_64::V37, H128_64::V38, H128_64::V39, H128_64::V40, H128_64::V41, H128_64::V42, H128_64::V43, H128_64::V44, H128_64::V45, H128_64::V46, H128_64::V47, H128_64::V48, H128_64::V49, H128_64::V50, H128_64::V51, H128_64::V52, H128_64::V53, H128_64::V54, H128_64::V55, H128_64::V56, H128_64::V57, H128_64::V58, H128_64::V59, H128_64::V60, H128_64::V61, H128_64::V62, H128_64::V63, H128_64::V64, H128_64::V65, H128_64::V66, H128_64::V67, H128_64::V68, H128_64::V69, H128_64::V70, H128_64::V71, H128_64::V72, H128_64::V73, H128_64::V74, H128_64::V75, H128_64::V76, H128_64::V77, H128_64::V78, H128_64::V79, H128_64::V80, H128_64::V81, H128_64::V82, H128_64::V83, H128_64::V84, H128_64::V85, H128_64::V86, H128_64::V87, H128_64::V88, H128_64::V89, H128_64::V90, H128_64::V91, H128_64::V92, H128_64::V93, H128_64::V94, H128_64::V95, H128_64::V96, H128_64::V97, H128_64::V98, H128_64::V99, H128_64::V100, H128_64::V101, H128_64::V102, H128_64::V103, H128_64::V104, H128_64::V105, H128_64::V106, H128_64::V107, H128_64::V108, H128_64::V109, H128_64::V110, H128_64::V111, H128_64::V112, H128_64::V113, H128_64::V114, H128_64::V115, H128_64::V116, H128_64::V117, H128_64::V118, H128_64::V119, H128_64::V120, H128_64::V121, H128_64::V122, H128_64::V123, H128_64::V124, H128_64::V125, H128_64::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H128_64 }
impl core::fmt::Display for H128_64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H128_64 {}

#[derive(EnumSetType, Debug)] pub enum H128_126 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 127 }
impl Cat for H128_126 {
    const NAME: &'static str = "H128_126";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_126 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34,  ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 127];
    const VARS: &'static [Self] = &[H128_126::V0, H128_126::V1, H128_126::V2, H128_126::V3, H128_126::V4, H128_126::V5, H128_126::V6, H128_126::V7, H128_126::V8, H128_126::V9, H128_126::V10, H128_126::V11, H128_126::V12, H128_126::V13, H128_126::V14, H128_126::V15, H128_126::V16, H128_126::V17, H128_126::V18, H128_126::V19, H128_126::V20, H128_126::V21, H128_126::V22, H128_126::V23, H128_126::V24, H128_126::V25, H128_126::V26, H128_126::V27, H128_126::V28, H128_126::V29, H128_126::V30, H128_126::V31, H128_126::V32, H128_126::V33, H128_126::V34, H128_126::V35, H128_126::V36, H128_126::V37, H128_126::V38, H128_126::V39, H128_126::V40, H128_126::V41, H128_126::V42, H128_126::V43, H128_126::V44, H128_126::V45, H128_126::V46, H128_126::V47, H128_126::V48, H128_126::V49, H128_126::V50, H128_126::V51, H128_126::V52, H128_126::V53, H128_126::V54, H128_126::V55, H128_126::V56, H128_126::V57, H128_126::V58, H128_126::V59, H128_126::V60, H128_126::V61, H128_126::V62, H128_126::V63, H128_126::V64, H128_126::V65, H128_126::V66, H128_126::V67, H128_126::V68, H128_126::V69, H128_126::V70, H128_126::V71, H128_126::V72, H128_126::V73, H128_126::V74, H128_126::V75, H128_126::V76, H128_126::V77, H128_126::V78, H128_126::V79, H128_126::V80, H128_126::V81, H128_126::V82, H128_126::V83, H128_126::V84, H128_126::V85, H128_126::V86, H128_126::V87, H128_126::V88, H128_126::V89, H128_126::V90, H128_126::V91, H128_126::V92, H128_126::V93, H128_126::V94, H128_126::V95, H128_126::V96, H128_126::V97, H128_126::V98, H128_126::V99, H128_126::V100, H128_126::V101, H128_126::V102, H128_126::V103, H128_126::V104, H128_126::V105, H128_126::V106, H128_126::V107, H128_126::V108, H128_126::V109, H128_126::V110, H128_126::V111, H128_126::V112, H128_126::V113, H128_126::V114, H128_126::V115, H128_126::V116, H128_126::V117, H128_126::V118, H128_126::V119, H128_126::V120, H128_126::V121, H128_126::V122, H128_126::V123, H128_126::V124, H128_126::V125, H128_126::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H128_126 }
impl core::fmt::Display for H128_126 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H128_126 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum RH128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl Cat for RH128 {
    const NAME: &'static str = "RH128";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum RH128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 3 ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[RH128::V0, RH128::V1, RH128::V2, RH128::V3, RH128::V4, RH128::V5, RH128::V6, RH128::V7, RH128::V8, RH128::V9, RH128::V10, RH128::V11, RH128::V12, RH128::V13, RH128::V14, RH128::V15, RH128::V16, RH128::V17, RH128::V18, RH128::V19, RH128::V20, RH128::V21, RH128::V22, RH128::V23, RH128::V24, RH128::V25, RH128::V26, RH128::V27, RH128::V28, RH128::V29, RH128::V30, RH128::V31, RH128::V32, RH128::V33, RH128::V34, RH128::V35, RH128::V36, RH128::V37, RH128::V38, RH128::V39, RH128::V40, RH128::V41, RH128::V42, RH128::V43, RH128::V44, RH128::V45, RH128::V46, RH128::V47, RH128::V48, RH128::V49, RH128::V50, RH128::V51, RH128::V52, RH128::V53, RH128::V54, RH128::V55, RH128::V56, RH128::V57, RH128::V58, RH128::V59, RH128::V60, RH128::V61, RH128::V62, RH128::V63, RH128::V64, RH128::V65, RH128::V66, RH128::V67, RH128::V68, RH128::V69, RH128::V70, RH128::V71, RH128::V72, RH128::V73, RH128::V74, RH128::V75, RH128::V76, RH128::V77, RH128::V78, RH128::V79, RH128::V80, RH128::V81, RH128::V82, RH128::V83, RH128::V84, RH128::V85, RH128::V86, RH128::V87, RH128::V88, RH128::V89, RH128::V90, RH128::V91, RH128::V92, RH128::V93, RH128::V94, RH128::V95, RH128::V96, RH128::V97, RH128::V98, RH128::V99, RH128::V100, RH128::V101, RH128::V102, RH128::V103, RH128::V104, RH128::V105, RH128::V106, RH128::V107, RH128::V108, RH128::V109, RH128::V110, RH128::V111, RH128::V112, RH128::V113, RH128::V114, RH128::V115, RH128::V116, RH128::V117, RH128::V118, RH128::V119, RH128::V120, RH128::V121, RH128::V122, RH128::V123, RH128::V124, RH128::V125, RH128::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RH128 }
impl core::fmt::Display for RH128 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RH128 {}
impl CatRepr for RH128 { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum RT128 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl Cat for RT128 {
    const NAME: &'static str = "RT128";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum RT128 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 =  ... }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[RT128::V0, RT128::V1, RT128::V2, RT128::V3, RT128::V4, RT128::V5, RT128::V6, RT128::V7, RT128::V8, RT128::V9, RT128::V10, RT128::V11, RT128::V12, RT128::V13, RT128::V14, RT128::V15, RT128::V16, RT128::V17, RT128::V18, RT128::V19, RT128::V20, RT128::V21, RT128::V22, RT128::V23, RT128::V24, RT128::V25, RT128::V26, RT128::V27, RT128::V28, RT128::V29, RT128::V30, RT128::V31, RT128::V32, RT128::V33, RT128::V34, RT128::V35, RT128::V36, RT128::V37, RT128::V38, RT128::V39, RT128::V40, RT128::V41, RT128::V42, RT128::V43, RT128::V44, RT128::V45, RT128::V46, RT128::V47, RT128::V48, RT128::V49, RT128::V50, RT128::V51, RT128::V52, RT128::V53, RT128::V54, RT128::V55, RT128::V56, RT128::V57, RT128::V58, RT128::V59, RT128::V60, RT128::V61, RT128::V62, RT128::V63, RT128::V64, RT128::V65, RT128::V66, RT128::V67, RT128::V68, RT128::V69, RT128::V70, RT128::V71, RT128::V72, RT128::V73, RT128::V74, RT128::V75, RT128::V76, RT128::V77, RT128::V78, RT128::V79, RT128::V80, RT128::V81, RT128::V82, RT128::V83, RT128::V84, RT128::V85, RT128::V86, RT128::V87, RT128::V88, RT128::V89, RT128::V90, RT128::V91, RT128::V92, RT128::V93, RT128::V94, RT128::V95, RT128::V96, RT128::V97, RT128::V98, RT128::V99, RT128::V100, RT128::V101, RT128::V102, RT128::V103, RT128::V104, RT128::V105, RT128::V106, RT128::V107, RT128::V108, RT128::V109, RT128::V110, RT128::V111, RT128::V112, RT128::V113, RT128::V114, RT128::V115, RT128::V116, RT128::V117, RT128::V118, RT128::V119, RT128::V120, RT128::V121, RT128::V122, RT128::V123, RT128::V124, RT128::V125, RT128::V126];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { RT128 }
impl core::fmt::Display for RT128 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for RT128 {}
impl CatRepr for RT128 { type R = u128; }

#[derive(EnumSetType, Debug)] pub enum H192_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl Cat for H192_0 {
    const NAME: &'static str = "H192_0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_0 { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V ... }"####;
    const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191];
    const VARS: &'static [Self] = &[H192_0::V0, H192_0::V1, H192_0::V2, H192_0::V3, H192_0::V4, H192_0::V5, H192_0::V6, H192_0::V7, H192_0::V8, H192_0::V9, H192_0::V10, H192_0::V11, H192_0::V12, H192_0::V13, H192_0::V14, H192_0::V15, H192_0::V16, H192_0::V17, H192_0::V18, H192_0::V19, H192_0::V20, H192_0::V21, H192_0::V22, H192_0::V23, H192_0::V24, H192_0::V25, H192_0::V26, H192_0::V27, H192_0::V28, H192_0::V29, H192_0::V30, H192_0::V31, H192_0::V32, H192_0::V33, H192_0::V34, H192_0::V35, H192_0::V36, H192_0::V37, H192_0::V38, H192_0::V39, H192_0::V40, H192_0::V41, H192_0::V42, H192_0::V43, H192_0::V44, H192_0::V45, H192_0::V46, H192_0::V47, H192_0::V48, H192_0::V49, H192_0::V50, H192_0::V51, H192_0::V52, H192_0::V53, H192_0::V54, H192_0::V55, H192_0::V56, H192_0::V57, H192_0::V58, H192_0::V59, H192_0::V60, H192_0::V61, H192_0::V62, H192_0::V63, H192_0::V64, H192_0::V65, H192_0::V66, H192_0::V67, H192_0::V68, H192_0::V69, H192_0::V70, H192_0::V71, H192_0::V72, H192_0::V73, H192_0::V74, H192_0::V75, H192_0::V76, H192_0::V77, H192_0::V78, H192_0::V79, H192_0::V80, H192_0::V81, H192_0::V82, H192_0::V83, H192_0::V84, H192_0::V85, H192_0::V86, H192_0::V87, H192_0::V88, H192_0::V89, H192_0::V90, H192_0::V91, H192_0::V92, H192_0::V93, H192_0::V94, H192_0::V95, H192_0::V96, H192_0::V97, H192_0::V98, H192_0::V99, H192_0::V100, H192_0::V101, H192_0::V102, H192_0::V103, H192_0::V104, H192_0::V105, H192_0::V106, H192_0::V107, H192_0::V108, H192_0::V109, H192_0::V110, H192_0::V111, H192_0::V112, H192_0::V113, H192_0::V114, H192_0::V115, H192_0::V116, H192_0::V117, H192_0::V118, H192_0::V119, H192_0::V120, H192_0::V121, H192_0::V122, H192_0::V123, H192_0::V124, H192_0::V125, H192_0::V126, H192_0::V127, H192_0::V128, H192_0::V129, H192_0::V130, H192_0::V131, H192_0::V132, H192_0::V133, H192_0::V134, H192_0::V135, H192_0::V136, H192_0::V137, H192_0::V138, H192_0::V139, H192_0::V140, H192_0::V141, H192_0::V142, H192_0::V143, H192_0::V144, H192_0::V145, H192_0::V146, H192_0::V147, H192_0::V148, H192_0::V149, H192_0::V150, H192_0::V151, H192_0::V152, H192_0::V153, H192_0::V154, H192_0::V155, H192_0::V156, H192_0::V157, H192_0::V158, H192_0::V159, H192_0::V160, H192_0::V161, H192_0::V162, H192_0::V163, H192_0::V164, H192_0::V165, H192_0::V166, H192_0::V167, H192_0::V168, H192_0::V169, H192_0::V170, H192_0::V171, H192_0::V172, H192_0::V173, H192_0::V174, H192_0::V175, H192_0::V176, H192_0::V177, H192_0::V178, H192_0::V179, H192_0::V180, H192_0::V181, H192_0::V182, H192_0::V183, H192_0::V184, H192_0::V185, H192_0::V186, H192_0::V187, H192_0::V188, H192_0::V189, H192_0::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H192_0 }
impl core::fmt::Display for H192_0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H192_0 {}

#[derive(EnumSetType, Debug)] pub enum H192_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl Cat for H192_1 {
    const NAME: &'static str = "H192_1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_1 { V0 = 0, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V ... }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191];
    const VARS: &'static [Self] = &[H192_1::V0, H192_1::V1, H192_1::V2, H192_1::V3, H192_1::V4, H192_1::V5, H192_1::V6, H192_1::V7, H192_1::V8, H192_1::V9, H192_1::V10, H192_1::V11, H192_1::V12, H192_1::V13, H192_1::V14, H192_1::V15, H192_1::V16, H192_1::V17, H192_1::V18, H192_1::V19, H192_1::V20, H192_1::V21, H192_1::V22, H192_1::V23, H192_1::V24, H192_1::V25, H192_1::V26, H192_1::V27, H192_1::V28, H192_1::V29, H192_1::V30, H192_1::V31, H192_1::V32, H192_1::V33, H192_1::V34, H192_1::V35, H192_1::V36, H192_1::V37, H192_1::V38, H192_1::V39, H192_1::V40, H192_1::V41, H192_1::V42, H192_1::V43, H192_1::V44, H192_1::V45, H192_1::V46, H192_1::V47, H192_1::V48, H192_1::V49, H192_1::V50, H192_1::V51, H192_1::V52, H192_1::V53, H192_1::V54, H192_1::V55, H192_1::V56, H192_1::V57, H192_1::V58, H192_1::V59, H192_1::V60, H192_1::V61, H192_1::V62, H192_1::V63, H192_1::V64, H192_1::V65, H192_1::V66, H192_1::V67, H192_1::V68, H192_1::V69, H192_1::V70, H192_1::V71, H192_1::V72, H192_1::V73, H192_1::V74, H192_1::V75, H192_1::V76, H192_1::V77, H192_1::V78, H192_1::V79, H192_1::V80, H192_1::V81, H192_1::V82, H192_1::V83, H192_1::V84, H192_1::V85, H192_1::V86, H192_1::V87, H192_1::V88, H192_1::V89, H192_1::V90, H192_1::V91, H192_1::V92, H192_1::V93, H192_1::V94, H192_1::V95, H192_1::V96, H192_1::V97, H192_1::V98, H192_1::V99, H192_1::V100, H192_1::V101, H192_1::V102, H192_1::V103, H192_1::V104, H192_1::V105, H192_1::V106, H192_1::V107, H192_1::V108, H192_1::V109, H192_1::V110, H192_1::V111, H192_1::V112, H192_1::V113, H192_1::V114, H192_1::V115, H192_1::V116, H192_1::V117, H192_1::V118, H192_1::V119, H192_1::V120, H192_1::V121, H192_1::V122, H192_1::V123, H192_1::V124, H192_1::V125, H192_1::V126, H192_1::V127, H192_1::V128, H192_1::V129, H192_1::V130, H192_1::V131, H192_1::V132, H192_1::V133, H192_1::V134, H192_1::V135, H192_1::V136, H192_1::V137, H192_1::V138, H192_1::V139, H192_1::V140, H192_1::V141, H192_1::V142, H192_1::V143, H192_1::V144, H192_1::V145, H192_1::V146, H192_1::V147, H192_1::V148, H192_1::V149, H192_1::V150, H192_1::V151, H192_1::V152, H192_1::V153, H192_1::V154, H192_1::V155, H192_1::V156, H192_1::V157, H192_1::V158, H192_1::V159, H192_1::V160, H192_1::V161, H192_1::V162, H192_1::V163, H192_1::V164, H192_1::V165, H192_1::V166, H192_1::V167, H192_1::V168, H192_1::V169, H192_1::V170, H192_1::V171, H192_1::V172, H192_1::V173, H192_1::V174, H192_1::V175, H192_1::V176, H192_1::V177, H192_1::V178, H192_1::V179, H192_1::V180, H192_1::V181, H192_1::V182, H192_1::V183, H192_1::V184, H192_1::V185, H192_1::V186, H192_1::V187, H192_1::V188, H192_1::V189, H192_1::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H192_1 }
impl core::fmt::Display for H192_1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H192_1 {}

#[derive(EnumSetType, Debug)] pub enum H192_63 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl Cat for H192_63 {
    const NAME: &'static str = "H192_63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_63 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191];
    const VARS: &'static [Self] = &[H192_63::V0, H192_63::V1, H192_63::V2, H192_63::V3, H192_63::V4, H192_63::V5, H192_63::V6, H192_63::V7, H192_63::V8, H192_63::V9, H192_63::V10, H192_63::V11, H192_63::V12, H192_63::V13, H192_63::V14, H192_63::V15, H192_63::V16, H192_63::V17, H192_63::V18, H192_63::V19, H192_63::V20, H192_63::V21, H192_63::V22, H192_63::V23, H192_63::V24, H192_63::V25, H192_63::V26, H192_63::V27, H192_63::V28, H192_63::V29, H192_63::V30, H192_63::V31, H192_63::V32, H192_63::V33, H192_63::V34, H192_63::V35, H192_63::V36, H192_63::V37, H192_63::V38, H192_63::V39, H192_63::V40, H192_63::V41, H192_63::V42, H192_63::V43, H192_63::V44, H192_63::V45, H192_63::V46, H192_63::V47, H192_63::V48, H192_63::V49, H192_63::V50, H192_63::V51, H192_63::V52, H192_63::V53, H192_63::V54, H192_63::V55, H192_63::V56, H192_63::V57, H192_63::V58, H192_63::V59, H192_63::V60, H192_63::V61, H192_63::V62, H192_63::V63, H192_63::V64, H192_63::V65, H192_63::V66, H192_63::V67, H192_63::V68, H192_63::V69, H192_63::V70, H192_63::V71, H192_63::V72, H192_63::V73, H192_63::V74, H192_63::V75, H192_63::V76, H192_63::V77, H192_63::V78, H192_63::V79, H192_63::V80, H192_63::V81, H192_63::V82, H192_63::V83, H192_63::V84, H192_63::V85, H192_63::V86, H192_63::V87, H192_63::V88, H192_63::V89, H192_63::V90, H192_63::V91, H192_63::V92, H192_63::V93, H192_63::V94, H192_63::V95, H192_63::V96, H192_63::V97, H192_63::V98, H192_63::V99, H192_63::V100, H192_63::V101, H192_63::V102, H192_63::V103, H192_63::V104, H192_63::V105, H192_63::V106, H192_63::V107, H192_63::V108, H192_63::V109, H192_63::V110, H192_63::V111, H192_63::V112, H192_63::V113, H192_63::V114, H192_63::V115, H192_63::V116, H192_63::V117, H192_63::V118, H192_63::V119, H192_63::V120, H192_63::V121, H192_63::V122, H192_63::V123, H192_63::V124, H192_63::V125, H192_63::V126, H192_63::V127, H192_63::V128, H192_63::V129, H192_63::V130, H192_63::V131, H192_63::V132, H192_63::V133, H192_63::V134, H192_63::V135, H192_63::V136, H192_63::V137, H192_63::V138, H192_63::V139, H192_63::V140, H192_63::V141, H192_63::V142, H192_63::V143, H192_63::V144, H192_63::V145, H192_63::V146, H192_63::V147, H192_63::V148, H192_63::V149, H192_63::V150, H192_63::V151, H192_63::V152, H192_63::V153, H192_63::V154, H192_63::V155, H192_63::V156, H192_63::V157, H192_63::V158, H192_63::V159, H192_63::V160, H192_63::V161, H192_63::V162, H192_63::V163, H192_63::V164, H192_63::V165, H192_63::V166, H192_63::V167, H192_63::V168, H192_63::V169, H192_63::V170, H192_63::V171, H192_63::V172, H192_63::V173, H192_63::V174, H192_63::V175, H192_63::V176, H192_63::V177, H192_63::V178, H192_63::V179, H192_63::V180, H192_63::V181, H192_63::V182, H192_63::V183, H192_63::V184, H192_63::V185, H192_63::V186, H192_63::V187, H192_63::V188, H192_63::V189, H192_63::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H192_63 }
impl core::fmt::Display for H192_63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H192_63 {}

#[derive(EnumSetType, Debug)] pub enum H192_64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl Cat for H192_64 {
    const NAME: &'static str = "H192_64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191];
    const VARS: &'static [Self] = &[H192_64::V0, H192_64::V1, H192_64::V2, H192_64::V3, H192_64::V4, H192_64::V5, H192_64::V6, H192_64::V7, H192_64::V8, H192_64::V9, H192_64::V10, H192_64::V11, H192_64::V12, H192_64::V13, H192_64::V14, H192_64::V15, H192_64::V16, H192_64::V17, H192_64::V18, H192_64::V19, H192_64::V20, H192_64::V21, H192_64::V22, H192_64::V23, H192_64::V24, H192_64::V25, H192_64::V26, H192_64::V27, H192_64::V28, H192_64::V29, H192_64::V30, H192_64::V31, H192_64::V32, H192_64::V33, H192_64::V34, H192_64::V35, H192_64::V36, H192_64::V37, H192_64::V38, H192_64::V39, H192_64::V40, H192_64::V41, H192_64::V42, H192_64::V43, H192_64::V44, H192_64::V45, H192_64::V46, H192_64::V47, H192_64::V48, H192_64::V49, H192_64::V50, H192_64::V51, H192_64::V52, H192_64::V53, H192_64::V54, H192_64::V55, H192_64::V56, H192_64::V57, H192_64::V58, H192_64::V59, H192_64::V60, H192_64::V61, H192_64::V62, H192_64::V63, H192_64::V64, H192_64::V65, H192_64::V66, H192_64::V67, H192_64::V68, H192_64::V69, H192_64::V70, H192_64::V71, H192_64::V72, H192_64::V73, H192_64::V74, H192_64::V75, H192_64::V76, H192_64::V77, H192_64::V78, H192_64::V79, H192_64::V80, H192_64::V81, H192_64::V82, H192_64::V83, H192_64::V84, H192_64::V85, H192_64::V86, H192_64::V87, H192_64::V88, H192_64::V89, H192_64::V90, H192_64::V91, H192_64::V92, H192_64::V93, H192_64::V94, H192_64::V95, H192_64::V96, H192_64::V97, H192_64::V98, H192_64::V99, H192_64::V100, H192_64::V101, H192_64::V102, H192_64::V103, H192_64::V104, H192_64::V105, H192_64::V106, H192_64::V107, H192_64::V108, H192_64::V109, H192_64::V110, H192_64::V111, H192_64::V112, H192_64::V113, H192_64::V114, H192_64::V115, H192_64::V116, H192_64::V117, H192_64::V118, H192_64::V119, H192_64::V120, H192_64::V121, H192_64::V122, H192_64::V123, H192_64::V124, H192_64::V125, H192_64::V126, H192_64::V127, H192_64::V128, H192_64::V129, H192_64::V130, H192_64::V131, H192_64::V132, H192_64::V133, H192_64::V134, H192_64::V135, H192_64::V136, H192_64::V137, H192_64::V138, H192_64::V139, H192_64::V140, H192_64::V141, H192_64::V142, H192_64::V143, H192_64::V144, H192_64::V145, H192_64::V146, H192_64::V147, H192_64::V148, H192_64::V149, H192_64::V150, H192_64::V151, H192_64::V152, H192_64::V153, H192_64::V154, H192_64::V155, H192_64::V156, H192_64::V157, H192_64::V158, H192_64::V159, H192_64::V160, H192_64::V161, H192_64::V162, H192_64::V163, H192_64::V164, H192_64::V165, H192_64::V166, H192_64::V167, H192_64::V168, H192_64::V169, H192_64::V170, H192_64::V171, H192_64::V172, H192_64::V173, H192_64::V174, H192_64::V175, H192_64::V176, H192_64::V177, H192_64::V178, H192_64::V179, H192_64::V180, H192_64::V181, H192_64::V182, H192_64::V183, H192_64::V184, H192_64::V185, H192_64::V186, H192_64::V187, H192_64::V188, H192_64::V189, H192_64::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H192_64 }
impl core::fmt::Display for H192_64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H192_64 {}

#[derive(EnumSetType, Debug)] pub enum H192_96 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl Cat for H192_96 {
    const NAME: &'static str = "H192_96";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_96 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191];
    const VARS: &'static [Self] = &[H192_96::V0, H192_96::V1, H192_96::V2, H192_96::V3, H192_96::V4, H192_96::V5, H192_96::V6, H192_96::V7, H192_96::V8, H192_96::V9, H192_96::V10, H192_96::V11, H192_96::V12, H192_96::V13, H192_96::V14, H192_96::V15, H192_96::V16, H192_96::V17, H192_96::V18, H192_96::V19, H192_96::V20, H192_96::V21, H192_96::V22, H192_96::V23, H192_96::V24, H192_96::V25, H192_96::V26, H192_96::V27, H192_96::V28, H192_96::V29, H192_96::V30, H192_96::V31, H192_96::V32, H192_96::V33, H192_96::V34, H192_96::V35, H192_96::V36, H192_96::V37, H192_96::V38, H192_96::V39, H192_96::V40, H192_96::V41, H192_96::V42, H192_96::V43, H192_96::V44, H192_96::V45, H192_96::V46, H192_96::V47, H192_96::V48, H192_96::V49, H192_96::V50, H192_96::V51, H192_96::V52, H192_96::V53, H192_96::V54, H192_96::V55, H192_96::V56, H192_96::V57, H192_96::V58, H192_96::V59, H192_96::V60, H192_96::V61, H192_96::V62, H192_96::V63, H192_96::V64, H192_96::V65, H192_96::V66, H192_96::V67, H192_96::V68, H192_96::V69, H192_96::V70, H192_96::V71, H192_96::V72, H192_96::V73, H192_96::V74, H192_96::V75, H192_96::V76, H192_96::V77, H192_96::V78, H192_96::V79, H192_96::V80, H192_96::V81, H192_96::V82, H192_96::V83, H192_96::V84, H192_96::V85, H192_96::V86, H192_96::V87, H192_96::V88, H192_96::V89, H192_96::V90, H192_96::V91, H192_96::V92, H192_96::V93, H192_96::V94, H192_96::V95, H192_96::V96, H192_96::V97, H192_96::V98, H192_96::V99, H192_96::V100, H192_96::V101, H192_96::V102, H192_96::V103, H192_96::V104, H192_96::V105, H192_96::V106, H192_96::V107, H192_96::V108, H192_96::V109, H192_96::V110, H192_96::V111, H192_96::V112, H192_96::V113, H192_96::V114, H192_96::V115, H192_96::V116, H192_96::V117, H192_96::V118, H192_96::V119, H192_96::V120, H192_96::V121, H192_96::V122, H192_96::V123, H192_96::V124, H192_96::V125, H192_96::V126, H192_96::V127, H192_96::V128, H192_96::V129, H192_96::V130, H192_96::V131, H192_96::V132, H192_96::V133, H192_96::V134, H192_96::V135, H192_96::V136, H192_96::V137, H192_96::V138, H192_96::V139, H192_96::V140, H192_96::V141, H192_96::V142, H192_96::V143, H192_96::V144, H192_96::V145, H192_96::V146, H192_96::V147, H192_96::V148, H192_96::V149, H192_96::V150, H192_96::V151, H192_96::V152, H192_96::V153, H192_96::V154, H192_96::V155, H192_96::V156, H192_96::V157, H192_96::V158, H192_96::V159, H192_96::V160, H192_96::V161, H192_96::V162, H192_96::V163, H192_96::V164, H192_96::V165, H192_96::V166, H192_96::V167, H192_96::V168, H192_96::V169, H192_96::V170, H192_96::V171, H192_96::V172, H192_96::V173, H192_96::V174, H192_96::V175, H192_96::V176, H192_96::V177, H192_96::V178, H192_96::V179, H192_96::V180, H192_96::V181, H192_96::V182, H192_96::V183, H192_96::V184, H192_96::V185, H192_96::V186, H192_96::V187, H192_96::V188, H192_96::V189, H192_96::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H192_96 }
impl core::fmt::Display for H192_96 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H192_96 {}

#[derive(EnumSetType, Debug)] pub enum H192_190 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 191 }
impl Cat for H192_190 {
    const NAME: &'static str = "H192_190";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_190 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34,  ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 191];
    const VARS: &'static [Self] = &[H192_190::V0, H192_190::V1, H192_190::V2, H192_190::V3, H192_190::V4, H192_190::V5, H192_190::V6, H192_190::V7, H192_190::V8, H192_190::V9, H192_190::V10, H192_190::V11, H192_190::V12, H192_190::V13, H192_190::V14, H192_190::V15, H192_190::V16, H192_190::V17, H192_190::V18, H192_190::V19, H192_190::V20, H192_190::V21, H192_190::V22, H192_190::V23, H192_190::V24, H192_190::V25, H192_190::V26, H192_190::V27, H192_190::V28, H192_190::V29, H192_190::V30, H192_190::V31, H192_190::V32, H192_190::V33, H192_190::V34, H192_190::V35, H192_190::V36, H192_190::V37, H192_190::V38, H192_190::V39, H192_190::V40, H192_190::V41, H192_190::V42, H192_190::V43, H192_190::V44, H192_190::V45, H192_190::V46, H192_190::V47, H192_190::V48, H192_190::V49, H192_190::V50, H192_190::V51, H192_190::V52, H192_190::V53, H192_190::V54, H192_190::V55, H192_190::V56, H192_190::V57, H192_190::V58, H192_190::V59, H192_190::V60, H192_190::V61, H192_190::V62, H192_190::V63, H192_190::V64, H192_190::V65, H192_190::V66, H192_190::V67, H192_190::V68, H192_190::V69, H192_190::V70, H192_190::V71, H192_190::V72, H192_190::V73, H192_190::V74, H192_190::V75, H192_190::V76, H192_190::V77, H192_190::V78, H192_190::V79, H192_190::V80, H192_190::V81, H192_190::V82, H192_190::V83, H192_190::V84, H192_190::V85, H192_190::V86, H192_190::V87, H192_190::V88, H192_190::V89, H192_190::V90, H192_190::V91, H192_190::V92, H192_190::V93, H192_190::V94, H192_190::V95, H192_190::V96, H192_190::V97, H192_190::V98, H192_190::V99, H192_190::V100, H192_190::V101, H192_190::V102, H192_190::V103, H192_190::V104, H192_190::V105, H192_190::V106, H192_190::V107, H192_190::V108, H192_190::V109, H192_190::V110, H192_190::V111, H192_190::V112, H192_190::V113, H192_190::V114, H192_190::V115, H192_190::V116, H192_190::V117, H192_190::V118, H192_190::V119, H192_190::V120, H192_190::V121, H192_190::V122, H192_190::V123, H192_190::V124, H192_190::V125, H192_190::V126, H192_190::V127, H192_190::V128, H192_190::V129, H192_190::V130, H192_190::V131, H192_190::V132, H192_190::V133, H192_190::V134, H192_190::V135, H192_190::V136, H192_190::V137, H192_190::V138, H192_190::V139, H192_190::V140, H192_190::V141, H192_190::V142, H192_190::V143, H192_190::V144, H192_190::V145, H192_190::V146, H192_190::V147, H192_190::V148, H192_190::V149, H192_190::V150, H192_190::V151, H192_190::V152, H192_190::V153, H192_190::V154, H192_190::V155, H192_190::V156, H192_190::V157, H192_190::V158, H192_190::V159, H192_190::V160, H192_190::V161, H192_190::V162, H192_190::V163, H192_190::V164, H192_190::V165, H192_190::V166, H192_190::V167, H192_190::V168, H192_190::V169, H192_190::V170, H192_190::V171, H192_190::V172, H192_190::V173, H192_190::V174, H192_190::V175, H192_190::V176, H192_190::V177, H192_190::V178, H192_190::V179, H192_190::V180, H192_190::V181, H192_190::V182, H192_190::V183, H192_190::V184, H192_190::V185, H192_190::V186, H192_190::V187, H192_190::V188, H192_190::V189, H192_190::V190];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { H192_190 }
impl core::fmt::Display for H192_190 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for H192_190 {}

#[derive(EnumSetType, Debug)] pub enum M3 { V0 = 1, V1 = 3, V2 = 9, V3 = 11, V4 = 19 }
impl Cat for M3 {
    const NAME: &'static str = "M3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M3 { V0 = 1, V1 = 3, V2 = 9, V3 = 11, V4 = 19 }"####;
    const DISCR: &'static [u32] = &[1, 3, 9, 11, 19];
    const VARS: &'static [Self] = &[M3::V0, M3::V1, M3::V2, M3::V3, M3::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M3 }
impl core::fmt::Display for M3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M3 {}

#[derive(EnumSetType, Debug)] pub enum M4 { V0 = 1, V1 = 3, V2 = 17, V3 = 19, V4 = 35 }
impl Cat for M4 {
    const NAME: &'static str = "M4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M4 { V0 = 1, V1 = 3, V2 = 17, V3 = 19, V4 = 35 }"####;
    const DISCR: &'static [u32] = &[1, 3, 17, 19, 35];
    const VARS: &'static [Self] = &[M4::V0, M4::V1, M4::V2, M4::V3, M4::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M4 }
impl core::fmt::Display for M4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M4 {}

#[derive(EnumSetType, Debug)] pub enum M5 { V0 = 1, V1 = 3, V2 = 33, V3 = 35, V4 = 67 }
impl Cat for M5 {
    const NAME: &'static str = "M5";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M5 { V0 = 1, V1 = 3, V2 = 33, V3 = 35, V4 = 67 }"####;
    const DISCR: &'static [u32] = &[1, 3, 33, 35, 67];
    const VARS: &'static [Self] = &[M5::V0, M5::V1, M5::V2, M5::V3, M5::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M5 }
impl core::fmt::Display for M5 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M5 {}

#[derive(EnumSetType, Debug)] pub enum M6 { V0 = 1, V1 = 3, V2 = 65, V3 = 67, V4 = 131 }
impl Cat for M6 {
    const NAME: &'static str = "M6";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M6 { V0 = 1, V1 = 3, V2 = 65, V3 = 67, V4 = 131 }"####;
    const DISCR: &'static [u32] = &[1, 3, 65, 67, 131];
    const VARS: &'static [Self] = &[M6::V0, M6::V1, M6::V2, M6::V3, M6::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M6 }
impl core::fmt::Display for M6 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M6 {}

#[derive(EnumSetType, Debug)] pub enum M7 { V0 = 1, V1 = 3, V2 = 129, V3 = 131, V4 = 259 }
impl Cat for M7 {
    const NAME: &'static str = "M7";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M7 { V0 = 1, V1 = 3, V2 = 129, V3 = 131, V4 = 259 }"####;
    const DISCR: &'static [u32] = &[1, 3, 129, 131, 259];
    const VARS: &'static [Self] = &[M7::V0, M7::V1, M7::V2, M7::V3, M7::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 5;
    const SIZE: usize = 40;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M7 }
impl core::fmt::Display for M7 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M7 {}

#[derive(EnumSetType, Debug)] pub enum M8 { V0 = 1, V1 = 3, V2 = 257, V3 = 259, V4 = 515 }
impl Cat for M8 {
    const NAME: &'static str = "M8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M8 { V0 = 1, V1 = 3, V2 = 257, V3 = 259, V4 = 515 }"####;
    const DISCR: &'static [u32] = &[1, 3, 257, 259, 515];
    const VARS: &'static [Self] = &[M8::V0, M8::V1, M8::V2, M8::V3, M8::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 9;
    const SIZE: usize = 72;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M8 }
impl core::fmt::Display for M8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M8 {}

#[derive(EnumSetType, Debug)] pub enum M9 { V0 = 1, V1 = 3, V2 = 513, V3 = 515, V4 = 1027 }
impl Cat for M9 {
    const NAME: &'static str = "M9";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M9 { V0 = 1, V1 = 3, V2 = 513, V3 = 515, V4 = 1027 }"####;
    const DISCR: &'static [u32] = &[1, 3, 513, 515, 1027];
    const VARS: &'static [Self] = &[M9::V0, M9::V1, M9::V2, M9::V3, M9::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 17;
    const SIZE: usize = 136;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M9 }
impl core::fmt::Display for M9 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M9 {}

#[derive(EnumSetType, Debug)] pub enum M10 { V0 = 1, V1 = 3, V2 = 1025, V3 = 1027, V4 = 2051 }
impl Cat for M10 {
    const NAME: &'static str = "M10";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M10 { V0 = 1, V1 = 3, V2 = 1025, V3 = 1027, V4 = 2051 }"####;
    const DISCR: &'static [u32] = &[1, 3, 1025, 1027, 2051];
    const VARS: &'static [Self] = &[M10::V0, M10::V1, M10::V2, M10::V3, M10::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 33;
    const SIZE: usize = 264;
    const INTEGER: bool = false;
    const HEAVY: bool = true;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M10 }
impl core::fmt::Display for M10 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M10 {}

#[derive(EnumSetType, Debug)] pub enum M12 { V0 = 1, V1 = 3, V2 = 4097, V3 = 4099, V4 = 8195 }
impl Cat for M12 {
    const NAME: &'static str = "M12";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M12 { V0 = 1, V1 = 3, V2 = 4097, V3 = 4099, V4 = 8195 }"####;
    const DISCR: &'static [u32] = &[1, 3, 4097, 4099, 8195];
    const VARS: &'static [Self] = &[M12::V0, M12::V1, M12::V2, M12::V3, M12::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 129;
    const SIZE: usize = 1032;
    const INTEGER: bool = false;
    const HEAVY: bool = true;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { M12 }
impl core::fmt::Display for M12 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for M12 {}

#[derive(EnumSetType, Debug)] pub enum Big65539 { V0 = 3, V1 = 65539 }
impl Cat for Big65539 {
    const NAME: &'static str = "Big65539";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Big65539 { V0 = 3, V1 = 65539 }"####;
    const DISCR: &'static [u32] = &[3, 65539];
    const VARS: &'static [Self] = &[Big65539::V0, Big65539::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1025;
    const SIZE: usize = 8200;
    const INTEGER: bool = false;
    const HEAVY: bool = true;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Big65539 }
impl core::fmt::Display for Big65539 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Big65539 {}

#[derive(EnumSetType, Debug)] pub enum Big65536 { V0 = 3, V1 = 65535, V2 = 65536 }
impl Cat for Big65536 {
    const NAME: &'static str = "Big65536";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Big65536 { V0 = 3, V1 = 65535, V2 = 65536 }"####;
    const DISCR: &'static [u32] = &[3, 65535, 65536];
    const VARS: &'static [Self] = &[Big65536::V0, Big65536::V1, Big65536::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1025;
    const SIZE: usize = 8200;
    const INTEGER: bool = false;
    const HEAVY: bool = true;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Big65536 }
impl core::fmt::Display for Big65536 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Big65536 {}

#[derive(EnumSetType, Debug)] pub enum Big70000 { V0 = 0, V1 = 64, V2 = 4095, V3 = 4096, V4 = 70000 }
impl Cat for Big70000 {
    const NAME: &'static str = "Big70000";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Big70000 { V0 = 0, V1 = 64, V2 = 4095, V3 = 4096, V4 = 70000 }"####;
    const DISCR: &'static [u32] = &[0, 64, 4095, 4096, 70000];
    const VARS: &'static [Self] = &[Big70000::V0, Big70000::V1, Big70000::V2, Big70000::V3, Big70000::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 1094;
    const SIZE: usize = 8752;
    const INTEGER: bool = false;
    const HEAVY: bool = true;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Big70000 }
impl core::fmt::Display for Big70000 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Big70000 {}

#[derive(EnumSetType, Debug)] pub enum Mix1 { V0 = 10, V1 = 2, V2, V3 = 70, V4 = 0 }
impl Cat for Mix1 {
    const NAME: &'static str = "Mix1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Mix1 { V0 = 10, V1 = 2, V2, V3 = 70, V4 = 0 }"####;
    const DISCR: &'static [u32] = &[0, 2, 3, 10, 70];
    const VARS: &'static [Self] = &[Mix1::V4, Mix1::V1, Mix1::V2, Mix1::V0, Mix1::V3];
    const VNAMES: &'static [&'static str] = &["V4", "V1", "V2", "V0", "V3"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Mix1 }
impl core::fmt::Display for Mix1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Mix1 {}

#[derive(EnumSetType, Debug)] pub enum Mix2 { V0 = 127, V1, V2 = 0, V3, V4 = 64, V5 = 63 }
impl Cat for Mix2 {
    const NAME: &'static str = "Mix2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Mix2 { V0 = 127, V1, V2 = 0, V3, V4 = 64, V5 = 63 }"####;
    const DISCR: &'static [u32] = &[0, 1, 63, 64, 127, 128];
    const VARS: &'static [Self] = &[Mix2::V2, Mix2::V3, Mix2::V5, Mix2::V4, Mix2::V0, Mix2::V1];
    const VNAMES: &'static [&'static str] = &["V2", "V3", "V5", "V4", "V0", "V1"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Mix2 }
impl core::fmt::Display for Mix2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Mix2 {}

#[derive(EnumSetType, Debug)] pub enum Mix3 { V0 = 7, V1 = 6, V2 = 5, V3 = 4, V4 = 3, V5 = 2, V6 = 1, V7 = 0 }
impl Cat for Mix3 {
    const NAME: &'static str = "Mix3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Mix3 { V0 = 7, V1 = 6, V2 = 5, V3 = 4, V4 = 3, V5 = 2, V6 = 1, V7 = 0 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[Mix3::V7, Mix3::V6, Mix3::V5, Mix3::V4, Mix3::V3, Mix3::V2, Mix3::V1, Mix3::V0];
    const VNAMES: &'static [&'static str] = &["V7", "V6", "V5", "V4", "V3", "V2", "V1", "V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Mix3 }
impl core::fmt::Display for Mix3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Mix3 {}

#[derive(EnumSetType, Debug)] pub enum Mix4 { V0 = 200, V1 = 3, V2, V3 = 130, V4, V5 = 64, V6 = 191, V7 = 192 }
impl Cat for Mix4 {
    const NAME: &'static str = "Mix4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Mix4 { V0 = 200, V1 = 3, V2, V3 = 130, V4, V5 = 64, V6 = 191, V7 = 192 }"####;
    const DISCR: &'static [u32] = &[3, 4, 64, 130, 131, 191, 192, 200];
    const VARS: &'static [Self] = &[Mix4::V1, Mix4::V2, Mix4::V5, Mix4::V3, Mix4::V4, Mix4::V6, Mix4::V7, Mix4::V0];
    const VNAMES: &'static [&'static str] = &["V1", "V2", "V5", "V3", "V4", "V6", "V7", "V0"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Mix4 }
impl core::fmt::Display for Mix4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Mix4 {}

#[derive(EnumSetType, Debug)] pub enum Mix5 { V0 = 31, V1, V2 = 5, V3 = 0 }
impl Cat for Mix5 {
    const NAME: &'static str = "Mix5";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Mix5 { V0 = 31, V1, V2 = 5, V3 = 0 }"####;
    const DISCR: &'static [u32] = &[0, 5, 31, 32];
    const VARS: &'static [Self] = &[Mix5::V3, Mix5::V2, Mix5::V0, Mix5::V1];
    const VNAMES: &'static [&'static str] = &["V3", "V2", "V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Mix5 }
impl core::fmt::Display for Mix5 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Mix5 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x0 {  }
impl Cat for R8x0 {
    const NAME: &'static str = "R8x0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x0 {  }"####;
    const DISCR: &'static [u32] = &[];
    const VARS: &'static [Self] = &[];
    const VNAMES: &'static [&'static str] = &[];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { match self {} }
}
odd_order! { R8x0 }
impl core::fmt::Display for R8x0 { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl CatOps for R8x0 {}
impl CatRepr for R8x0 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x1 { V0 = 0 }
impl Cat for R8x1 {
    const NAME: &'static str = "R8x1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x1 { V0 = 0 }"####;
    const DISCR: &'static [u32] = &[0];
    const VARS: &'static [Self] = &[R8x1::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R8x1 }
impl core::fmt::Display for R8x1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R8x1 {}
impl CatRepr for R8x1 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x2 { V0 = 7 }
impl Cat for R8x2 {
    const NAME: &'static str = "R8x2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x2 { V0 = 7 }"####;
    const DISCR: &'static [u32] = &[7];
    const VARS: &'static [Self] = &[R8x2::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R8x2 }
impl core::fmt::Display for R8x2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R8x2 {}
impl CatRepr for R8x2 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x3 { V0 = 0, V1 = 7 }
impl Cat for R8x3 {
    const NAME: &'static str = "R8x3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x3 { V0 = 0, V1 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 7];
    const VARS: &'static [Self] = &[R8x3::V0, R8x3::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R8x3 }
impl core::fmt::Display for R8x3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R8x3 {}
impl CatRepr for R8x3 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4 }
impl Cat for R8x4 {
    const NAME: &'static str = "R8x4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4];
    const VARS: &'static [Self] = &[R8x4::V0, R8x4::V1, R8x4::V2, R8x4::V3, R8x4::V4];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R8x4 }
impl core::fmt::Display for R8x4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R8x4 {}
impl CatRepr for R8x4 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x5 { V0 = 1, V1 = 2, V2 = 4 }
impl Cat for R8x5 {
    const NAME: &'static str = "R8x5";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x5 { V0 = 1, V1 = 2, V2 = 4 }"####;
    const DISCR: &'static [u32] = &[1, 2, 4];
    const VARS: &'static [Self] = &[R8x5::V0, R8x5::V1, R8x5::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R8x5 }
impl core::fmt::Display for R8x5 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R8x5 {}
impl CatRepr for R8x5 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl Cat for R8x6 {
    const NAME: &'static str = "R8x6";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum R8x6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[R8x6::V0, R8x6::V1, R8x6::V2, R8x6::V3, R8x6::V4, R8x6::V5, R8x6::V6, R8x6::V7];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R8x6 }
impl core::fmt::Display for R8x6 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R8x6 {}
impl CatRepr for R8x6 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x0 { V0 = 0, V1 = 8, V2 = 15 }
impl Cat for R16x0 {
    const NAME: &'static str = "R16x0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x0 { V0 = 0, V1 = 8, V2 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 8, 15];
    const VARS: &'static [Self] = &[R16x0::V0, R16x0::V1, R16x0::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R16x0 }
impl core::fmt::Display for R16x0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R16x0 {}
impl CatRepr for R16x0 { type R = u16; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x1 { V0 = 1 }
impl Cat for R16x1 {
    const NAME: &'static str = "R16x1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x1 { V0 = 1 }"####;
    const DISCR: &'static [u32] = &[1];
    const VARS: &'static [Self] = &[R16x1::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R16x1 }
impl core::fmt::Display for R16x1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R16x1 {}
impl CatRepr for R16x1 { type R = u16; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x2 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl Cat for R16x2 {
    const NAME: &'static str = "R16x2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x2 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[R16x2::V0, R16x2::V1, R16x2::V2, R16x2::V3, R16x2::V4, R16x2::V5, R16x2::V6, R16x2::V7];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R16x2 }
impl core::fmt::Display for R16x2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R16x2 {}
impl CatRepr for R16x2 { type R = u16; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x3 { V0 = 3, V1 = 9 }
impl Cat for R16x3 {
    const NAME: &'static str = "R16x3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16x3 { V0 = 3, V1 = 9 }"####;
    const DISCR: &'static [u32] = &[3, 9];
    const VARS: &'static [Self] = &[R16x3::V0, R16x3::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R16x3 }
impl core::fmt::Display for R16x3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R16x3 {}
impl CatRepr for R16x3 { type R = u16; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x0 { V0 = 0, V1 = 31 }
impl Cat for R32x0 {
    const NAME: &'static str = "R32x0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x0 { V0 = 0, V1 = 31 }"####;
    const DISCR: &'static [u32] = &[0, 31];
    const VARS: &'static [Self] = &[R32x0::V0, R32x0::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R32x0 }
impl core::fmt::Display for R32x0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R32x0 {}
impl CatRepr for R32x0 { type R = u32; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x1 { V0 = 0, V1 = 8, V2 = 16, V3 = 24 }
impl Cat for R32x1 {
    const NAME: &'static str = "R32x1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x1 { V0 = 0, V1 = 8, V2 = 16, V3 = 24 }"####;
    const DISCR: &'static [u32] = &[0, 8, 16, 24];
    const VARS: &'static [Self] = &[R32x1::V0, R32x1::V1, R32x1::V2, R32x1::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R32x1 }
impl core::fmt::Display for R32x1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R32x1 {}
impl CatRepr for R32x1 { type R = u32; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x2 { V0 = 5 }
impl Cat for R32x2 {
    const NAME: &'static str = "R32x2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x2 { V0 = 5 }"####;
    const DISCR: &'static [u32] = &[5];
    const VARS: &'static [Self] = &[R32x2::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R32x2 }
impl core::fmt::Display for R32x2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R32x2 {}
impl CatRepr for R32x2 { type R = u32; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x3 { V0 = 0, V1 = 1, V2 = 2 }
impl Cat for R32x3 {
    const NAME: &'static str = "R32x3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum R32x3 { V0 = 0, V1 = 1, V2 = 2 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2];
    const VARS: &'static [Self] = &[R32x3::V0, R32x3::V1, R32x3::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 4;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R32x3 }
impl core::fmt::Display for R32x3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R32x3 {}
impl CatRepr for R32x3 { type R = u32; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x0 { V0 = 0, V1 = 63 }
impl Cat for R64x0 {
    const NAME: &'static str = "R64x0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x0 { V0 = 0, V1 = 63 }"####;
    const DISCR: &'static [u32] = &[0, 63];
    const VARS: &'static [Self] = &[R64x0::V0, R64x0::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R64x0 }
impl core::fmt::Display for R64x0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R64x0 {}
impl CatRepr for R64x0 { type R = u64; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x1 { V0 = 40 }
impl Cat for R64x1 {
    const NAME: &'static str = "R64x1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x1 { V0 = 40 }"####;
    const DISCR: &'static [u32] = &[40];
    const VARS: &'static [Self] = &[R64x1::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R64x1 }
impl core::fmt::Display for R64x1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R64x1 {}
impl CatRepr for R64x1 { type R = u64; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x2 { V0 = 31, V1 = 32, V2 = 33 }
impl Cat for R64x2 {
    const NAME: &'static str = "R64x2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x2 { V0 = 31, V1 = 32, V2 = 33 }"####;
    const DISCR: &'static [u32] = &[31, 32, 33];
    const VARS: &'static [Self] = &[R64x2::V0, R64x2::V1, R64x2::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R64x2 }
impl core::fmt::Display for R64x2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R64x2 {}
impl CatRepr for R64x2 { type R = u64; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x3 { V0 = 0, V1 = 1, V2 = 2 }
impl Cat for R64x3 {
    const NAME: &'static str = "R64x3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64x3 { V0 = 0, V1 = 1, V2 = 2 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2];
    const VARS: &'static [Self] = &[R64x3::V0, R64x3::V1, R64x3::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R64x3 }
impl core::fmt::Display for R64x3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R64x3 {}
impl CatRepr for R64x3 { type R = u64; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x0 { V0 = 0, V1 = 63, V2 = 64, V3 = 127 }
impl Cat for R128x0 {
    const NAME: &'static str = "R128x0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x0 { V0 = 0, V1 = 63, V2 = 64, V3 = 127 }"####;
    const DISCR: &'static [u32] = &[0, 63, 64, 127];
    const VARS: &'static [Self] = &[R128x0::V0, R128x0::V1, R128x0::V2, R128x0::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R128x0 }
impl core::fmt::Display for R128x0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R128x0 {}
impl CatRepr for R128x0 { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x1 { V0 = 127 }
impl Cat for R128x1 {
    const NAME: &'static str = "R128x1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x1 { V0 = 127 }"####;
    const DISCR: &'static [u32] = &[127];
    const VARS: &'static [Self] = &[R128x1::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R128x1 }
impl core::fmt::Display for R128x1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R128x1 {}
impl CatRepr for R128x1 { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x2 { V0 = 64 }
impl Cat for R128x2 {
    const NAME: &'static str = "R128x2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x2 { V0 = 64 }"####;
    const DISCR: &'static [u32] = &[64];
    const VARS: &'static [Self] = &[R128x2::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R128x2 }
impl core::fmt::Display for R128x2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R128x2 {}
impl CatRepr for R128x2 { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl Cat for R128x3 {
    const NAME: &'static str = "R128x3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[R128x3::V0, R128x3::V1, R128x3::V2, R128x3::V3, R128x3::V4, R128x3::V5, R128x3::V6, R128x3::V7];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"];
    const WORDS: usize = 1;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R128x3 }
impl core::fmt::Display for R128x3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R128x3 {}
impl CatRepr for R128x3 { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x4 { V0 = 63, V1 = 64, V2 = 65 }
impl Cat for R128x4 {
    const NAME: &'static str = "R128x4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128x4 { V0 = 63, V1 = 64, V2 = 65 }"####;
    const DISCR: &'static [u32] = &[63, 64, 65];
    const VARS: &'static [Self] = &[R128x4::V0, R128x4::V1, R128x4::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R128x4 }
impl core::fmt::Display for R128x4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R128x4 {}
impl CatRepr for R128x4 { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Cat for R128full {
    const NAME: &'static str = "R128full";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum R128full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, ... }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
    const VARS: &'static [Self] = &[R128full::V0, R128full::V1, R128full::V2, R128full::V3, R128full::V4, R128full::V5, R128full::V6, R128full::V7, R128full::V8, R128full::V9, R128full::V10, R128full::V11, R128full::V12, R128full::V13, R128full::V14, R128full::V15, R128full::V16, R128full::V17, R128full::V18, R128full::V19, R128full::V20, R128full::V21, R128full::V22, R128full::V23, R128full::V24, R128full::V25, R128full::V26, R128full::V27, R128full::V28, R128full::V29, R128full::V30, R128full::V31, R128full::V32, R128full::V33, R128full::V34, R128full::V35, R128full::V36, R128full::V37, R128full::V38, R128full::V39, R128full::V40, R128full::V41, R128full::V42, R128full::V43, R128full::V44, R128full::V45, R128full::V46, R128full::V47, R128full::V48, R128full::V49, R128full::V50, R128full::V51, R128full::V52, R128full::V53, R128full::V54, R128full::V55, R128full::V56, R128full::V57, R128full::V58, R128full::V59, R128full::V60, R128full::V61, R128full::V62, R128full::V63, R128full::V64, R128full::V65, R128full::V66, R128full::V67, R128full::V68, R128full::V69, R128full::V70, R128full::V71, R128full::V72, R128full::V73, R128full::V74, R128full::V75, R128full::V76, R128full::V77, R128full::V78, R128full::V79, R128full::V80, R128full::V81, R128full::V82, R128full::V83, R128full::V84, R128full::V85, R128full::V86, R128full::V87, R128full::V88, R128full::V89, R128full::V90, R128full::V91, R128full::V92, R128full::V93, R128full::V94, R128full::V95, R128full::V96, R128full::V97, R128full::V98, R128full::V99, R128full::V100, R128full::V101, R128full::V102, R128full::V103, R128full::V104, R128full::V105, R128full::V106, R128full::V107, R128full::V108, R128full::V109, R128full::V110, R128full::V111, R128full::V112, R128full::V113, R128full::V114, R128full::V115, R128full::V116, R128full::V117, R128full::V118, R128full::V119, R128full::V120, R128full::V121, R128full::V122, R128full::V123, R128full::V124, R128full::V125, R128full::V126, R128full::V127];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R128full }
impl core::fmt::Display for R128full { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R128full {}
impl CatRepr for R128full { type R = u128; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Cat for R64full {
    const NAME: &'static str = "R64full";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum R64full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
    const VARS: &'static [Self] = &[R64full::V0, R64full::V1, R64full::V2, R64full::V3, R64full::V4, R64full::V5, R64full::V6, R64full::V7, R64full::V8, R64full::V9, R64full::V10, R64full::V11, R64full::V12, R64full::V13, R64full::V14, R64full::V15, R64full::V16, R64full::V17, R64full::V18, R64full::V19, R64full::V20, R64full::V21, R64full::V22, R64full::V23, R64full::V24, R64full::V25, R64full::V26, R64full::V27, R64full::V28, R64full::V29, R64full::V30, R64full::V31, R64full::V32, R64full::V33, R64full::V34, R64full::V35, R64full::V36, R64full::V37, R64full::V38, R64full::V39, R64full::V40, R64full::V41, R64full::V42, R64full::V43, R64full::V44, R64full::V45, R64full::V46, R64full::V47, R64full::V48, R64full::V49, R64full::V50, R64full::V51, R64full::V52, R64full::V53, R64full::V54, R64full::V55, R64full::V56, R64full::V57, R64full::V58, R64full::V59, R64full::V60, R64full::V61, R64full::V62, R64full::V63];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R64full }
impl core::fmt::Display for R64full { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R64full {}
impl CatRepr for R64full { type R = u64; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Cat for R16full {
    const NAME: &'static str = "R16full";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum R16full { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const VARS: &'static [Self] = &[R16full::V0, R16full::V1, R16full::V2, R16full::V3, R16full::V4, R16full::V5, R16full::V6, R16full::V7, R16full::V8, R16full::V9, R16full::V10, R16full::V11, R16full::V12, R16full::V13, R16full::V14, R16full::V15];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { R16full }
impl core::fmt::Display for R16full { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for R16full {}
impl CatRepr for R16full { type R = u16; }

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A0 {  }
impl Cat for A0 {
    const NAME: &'static str = "A0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A0 {  }"####;
    const DISCR: &'static [u32] = &[];
    const VARS: &'static [Self] = &[];
    const VNAMES: &'static [&'static str] = &[];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { match self {} }
}
odd_order! { A0 }
impl core::fmt::Display for A0 { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl CatOps for A0 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A1 { V0 = 0, V1 = 1, V2 = 2 }
impl Cat for A1 {
    const NAME: &'static str = "A1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A1 { V0 = 0, V1 = 1, V2 = 2 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2];
    const VARS: &'static [Self] = &[A1::V0, A1::V1, A1::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A1 }
impl core::fmt::Display for A1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A1 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A2 { V0 = 63 }
impl Cat for A2 {
    const NAME: &'static str = "A2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A2 { V0 = 63 }"####;
    const DISCR: &'static [u32] = &[63];
    const VARS: &'static [Self] = &[A2::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A2 }
impl core::fmt::Display for A2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A2 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A3 { V0 = 64 }
impl Cat for A3 {
    const NAME: &'static str = "A3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A3 { V0 = 64 }"####;
    const DISCR: &'static [u32] = &[64];
    const VARS: &'static [Self] = &[A3::V0];
    const VNAMES: &'static [&'static str] = &["V0"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A3 }
impl core::fmt::Display for A3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A3 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A4 { V0 = 0, V1 = 127 }
impl Cat for A4 {
    const NAME: &'static str = "A4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A4 { V0 = 0, V1 = 127 }"####;
    const DISCR: &'static [u32] = &[0, 127];
    const VARS: &'static [Self] = &[A4::V0, A4::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A4 }
impl core::fmt::Display for A4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A4 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A5 { V0 = 0, V1 = 128, V2 = 191 }
impl Cat for A5 {
    const NAME: &'static str = "A5";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A5 { V0 = 0, V1 = 128, V2 = 191 }"####;
    const DISCR: &'static [u32] = &[0, 128, 191];
    const VARS: &'static [Self] = &[A5::V0, A5::V1, A5::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A5 }
impl core::fmt::Display for A5 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A5 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl Cat for A6 {
    const NAME: &'static str = "A6";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
    const VARS: &'static [Self] = &[A6::V0, A6::V1, A6::V2, A6::V3, A6::V4, A6::V5, A6::V6, A6::V7];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A6 }
impl core::fmt::Display for A6 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A6 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A7 { V0 = 0, V1 = 63, V2 = 64 }
impl Cat for A7 {
    const NAME: &'static str = "A7";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A7 { V0 = 0, V1 = 63, V2 = 64 }"####;
    const DISCR: &'static [u32] = &[0, 63, 64];
    const VARS: &'static [Self] = &[A7::V0, A7::V1, A7::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A7 }
impl core::fmt::Display for A7 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A7 {}

#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A8 { V0 = 2, V1 = 66, V2 = 130, V3 = 194 }
impl Cat for A8 {
    const NAME: &'static str = "A8";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum A8 { V0 = 2, V1 = 66, V2 = 130, V3 = 194 }"####;
    const DISCR: &'static [u32] = &[2, 66, 130, 194];
    const VARS: &'static [Self] = &[A8::V0, A8::V1, A8::V2, A8::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { A8 }
impl core::fmt::Display for A8 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for A8 {}

#[derive(EnumSetType, Debug)] #[repr(u8)] pub enum Pu8_255 { V0 = 0, V1 = 200, V2 = 255 }
impl Cat for Pu8_255 {
    const NAME: &'static str = "Pu8_255";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(u8)] pub enum Pu8_255 { V0 = 0, V1 = 200, V2 = 255 }"####;
    const DISCR: &'static [u32] = &[0, 200, 255];
    const VARS: &'static [Self] = &[Pu8_255::V0, Pu8_255::V1, Pu8_255::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 4;
    const SIZE: usize = 32;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pu8_255 }
impl core::fmt::Display for Pu8_255 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pu8_255 {}

#[derive(EnumSetType, Debug)] #[repr(u8)] pub enum Pu8_2 { V0 = 0, V1 = 1, V2 = 2 }
impl Cat for Pu8_2 {
    const NAME: &'static str = "Pu8_2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(u8)] pub enum Pu8_2 { V0 = 0, V1 = 1, V2 = 2 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2];
    const VARS: &'static [Self] = &[Pu8_2::V0, Pu8_2::V1, Pu8_2::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pu8_2 }
impl core::fmt::Display for Pu8_2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pu8_2 {}

#[derive(EnumSetType, Debug)] #[repr(u16)] pub enum Pu16_300 { V0 = 0, V1 = 1, V2 = 300 }
impl Cat for Pu16_300 {
    const NAME: &'static str = "Pu16_300";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(u16)] pub enum Pu16_300 { V0 = 0, V1 = 1, V2 = 300 }"####;
    const DISCR: &'static [u32] = &[0, 1, 300];
    const VARS: &'static [Self] = &[Pu16_300::V0, Pu16_300::V1, Pu16_300::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 5;
    const SIZE: usize = 40;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pu16_300 }
impl core::fmt::Display for Pu16_300 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pu16_300 {}

#[derive(EnumSetType, Debug)] #[repr(u32)] pub enum Pu32_64 { V0 = 0, V1 = 5, V2 = 64 }
impl Cat for Pu32_64 {
    const NAME: &'static str = "Pu32_64";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(u32)] pub enum Pu32_64 { V0 = 0, V1 = 5, V2 = 64 }"####;
    const DISCR: &'static [u32] = &[0, 5, 64];
    const VARS: &'static [Self] = &[Pu32_64::V0, Pu32_64::V1, Pu32_64::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pu32_64 }
impl core::fmt::Display for Pu32_64 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pu32_64 {}

#[derive(EnumSetType, Debug)] #[repr(u64)] pub enum Pu64_32 { V0 = 0, V1 = 31, V2 = 32 }
impl Cat for Pu64_32 {
    const NAME: &'static str = "Pu64_32";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(u64)] pub enum Pu64_32 { V0 = 0, V1 = 31, V2 = 32 }"####;
    const DISCR: &'static [u32] = &[0, 31, 32];
    const VARS: &'static [Self] = &[Pu64_32::V0, Pu64_32::V1, Pu64_32::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pu64_32 }
impl core::fmt::Display for Pu64_32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pu64_32 {}

#[derive(EnumSetType, Debug)] #[repr(usize)] pub enum Pusize_9 { V0 = 1, V1 = 7, V2 = 9 }
impl Cat for Pusize_9 {
    const NAME: &'static str = "Pusize_9";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(usize)] pub enum Pusize_9 { V0 = 1, V1 = 7, V2 = 9 }"####;
    const DISCR: &'static [u32] = &[1, 7, 9];
    const VARS: &'static [Self] = &[Pusize_9::V0, Pusize_9::V1, Pusize_9::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pusize_9 }
impl core::fmt::Display for Pusize_9 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pusize_9 {}

#[derive(EnumSetType, Debug)] #[repr(i8)] pub enum Pi8_127 { V0 = 0, V1 = 64, V2 = 127 }
impl Cat for Pi8_127 {
    const NAME: &'static str = "Pi8_127";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(i8)] pub enum Pi8_127 { V0 = 0, V1 = 64, V2 = 127 }"####;
    const DISCR: &'static [u32] = &[0, 64, 127];
    const VARS: &'static [Self] = &[Pi8_127::V0, Pi8_127::V1, Pi8_127::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pi8_127 }
impl core::fmt::Display for Pi8_127 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pi8_127 {}

#[derive(EnumSetType, Debug)] #[repr(i16)] pub enum Pi16_300 { V0 = 0, V1 = 129, V2 = 300 }
impl Cat for Pi16_300 {
    const NAME: &'static str = "Pi16_300";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(i16)] pub enum Pi16_300 { V0 = 0, V1 = 129, V2 = 300 }"####;
    const DISCR: &'static [u32] = &[0, 129, 300];
    const VARS: &'static [Self] = &[Pi16_300::V0, Pi16_300::V1, Pi16_300::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 5;
    const SIZE: usize = 40;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pi16_300 }
impl core::fmt::Display for Pi16_300 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pi16_300 {}

#[derive(EnumSetType, Debug)] #[repr(i32)] pub enum Pi32_15 { V0 = 0, V1 = 15 }
impl Cat for Pi32_15 {
    const NAME: &'static str = "Pi32_15";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(i32)] pub enum Pi32_15 { V0 = 0, V1 = 15 }"####;
    const DISCR: &'static [u32] = &[0, 15];
    const VARS: &'static [Self] = &[Pi32_15::V0, Pi32_15::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pi32_15 }
impl core::fmt::Display for Pi32_15 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pi32_15 {}

#[derive(EnumSetType, Debug)] #[repr(i64)] pub enum Pi64_63 { V0 = 0, V1 = 63 }
impl Cat for Pi64_63 {
    const NAME: &'static str = "Pi64_63";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(i64)] pub enum Pi64_63 { V0 = 0, V1 = 63 }"####;
    const DISCR: &'static [u32] = &[0, 63];
    const VARS: &'static [Self] = &[Pi64_63::V0, Pi64_63::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pi64_63 }
impl core::fmt::Display for Pi64_63 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pi64_63 {}

#[derive(EnumSetType, Debug)] #[repr(isize)] pub enum Pisize_127 { V0 = 0, V1 = 127 }
impl Cat for Pisize_127 {
    const NAME: &'static str = "Pisize_127";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(isize)] pub enum Pisize_127 { V0 = 0, V1 = 127 }"####;
    const DISCR: &'static [u32] = &[0, 127];
    const VARS: &'static [Self] = &[Pisize_127::V0, Pisize_127::V1];
    const VNAMES: &'static [&'static str] = &["V0", "V1"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { Pisize_127 }
impl core::fmt::Display for Pisize_127 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Pisize_127 {}

#[derive(EnumSetType, Debug)] #[repr(C)] pub enum PC_40 { V0 = 0, V1 = 1, V2 = 40 }
impl Cat for PC_40 {
    const NAME: &'static str = "PC_40";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[repr(C)] pub enum PC_40 { V0 = 0, V1 = 1, V2 = 40 }"####;
    const DISCR: &'static [u32] = &[0, 1, 40];
    const VARS: &'static [Self] = &[PC_40::V0, PC_40::V1, PC_40::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 1;
    const SIZE: usize = 8;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { PC_40 }
impl core::fmt::Display for PC_40 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for PC_40 {}

#[derive(EnumSetType, Debug, Clone, Copy, PartialEq, Eq)] #[enumset(no_super_impls)] pub enum NoSuper { V0 = 0, V1 = 9, V2 = 70 }
impl Cat for NoSuper {
    const NAME: &'static str = "NoSuper";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy, PartialEq, Eq)] #[enumset(no_super_impls)] pub enum NoSuper { V0 = 0, V1 = 9, V2 = 70 }"####;
    const DISCR: &'static [u32] = &[0, 9, 70];
    const VARS: &'static [Self] = &[NoSuper::V0, NoSuper::V1, NoSuper::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { NoSuper }
impl core::fmt::Display for NoSuper { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for NoSuper {}

#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd0 { V0 = 0, V1 = 1, V2 = 2, V3 = 5 }
impl Cat for Odd0 {
    const NAME: &'static str = "Odd0";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd0 { V0 = 0, V1 = 1, V2 = 2, V3 = 5 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 5];
    const VARS: &'static [Self] = &[Odd0::V0, Odd0::V1, Odd0::V2, Odd0::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
    const ODD: bool = true;
}
odd_order! { Odd0 = }
impl core::fmt::Display for Odd0 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Odd0 {}

#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd1 { V0 = 0, V1 = 9, V2 = 70 }
impl Cat for Odd1 {
    const NAME: &'static str = "Odd1";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd1 { V0 = 0, V1 = 9, V2 = 70 }"####;
    const DISCR: &'static [u32] = &[0, 9, 70];
    const VARS: &'static [Self] = &[Odd1::V0, Odd1::V1, Odd1::V2];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
    const ODD: bool = true;
}
odd_order! { Odd1 = }
impl core::fmt::Display for Odd1 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Odd1 {}

#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls, repr = "u128")] pub enum Odd2 { V0 = 0, V1 = 63, V2 = 64, V3 = 127 }
impl Cat for Odd2 {
    const NAME: &'static str = "Odd2";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls, repr = "u128")] pub enum Odd2 { V0 = 0, V1 = 63, V2 = 64, V3 = 127 }"####;
    const DISCR: &'static [u32] = &[0, 63, 64, 127];
    const VARS: &'static [Self] = &[Odd2::V0, Odd2::V1, Odd2::V2, Odd2::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
    const ODD: bool = true;
}
odd_order! { Odd2 = }
impl core::fmt::Display for Odd2 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Odd2 {}
impl CatRepr for Odd2 { type R = u128; }

#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl Cat for Odd3 {
    const NAME: &'static str = "Odd3";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd3 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####;
    const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
    const VARS: &'static [Self] = &[Odd3::V0, Odd3::V1, Odd3::V2, Odd3::V3, Odd3::V4, Odd3::V5, Odd3::V6, Odd3::V7, Odd3::V8];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"];
    const WORDS: usize = 1;
    const SIZE: usize = 2;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
    const ODD: bool = true;
}
odd_order! { Odd3 = }
impl core::fmt::Display for Odd3 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Odd3 {}

#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd4 { V0 = 0, V1 = 1, V2 = 62, V3 = 63, V4 = 64, V5 = 128 }
impl Cat for Odd4 {
    const NAME: &'static str = "Odd4";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls)] pub enum Odd4 { V0 = 0, V1 = 1, V2 = 62, V3 = 63, V4 = 64, V5 = 128 }"####;
    const DISCR: &'static [u32] = &[0, 1, 62, 63, 64, 128];
    const VARS: &'static [Self] = &[Odd4::V0, Odd4::V1, Odd4::V2, Odd4::V3, Odd4::V4, Odd4::V5];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5"];
    const WORDS: usize = 3;
    const SIZE: usize = 24;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
    const ODD: bool = true;
}
odd_order! { Odd4 = }
impl core::fmt::Display for Odd4 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Odd4 {}

#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls, repr = "u8")] pub enum Odd5 { V0 = 3, V1 = 2, V2 = 1 }
impl Cat for Odd5 {
    const NAME: &'static str = "Odd5";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Clone, Copy)] #[enumset(no_super_impls, repr = "u8")] pub enum Odd5 { V0 = 3, V1 = 2, V2 = 1 }"####;
    const DISCR: &'static [u32] = &[1, 2, 3];
    const VARS: &'static [Self] = &[Odd5::V2, Odd5::V1, Odd5::V0];
    const VNAMES: &'static [&'static str] = &["V2", "V1", "V0"];
    const WORDS: usize = 1;
    const SIZE: usize = 1;
    const INTEGER: bool = true;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
    const ODD: bool = true;
}
odd_order! { Odd5 = }
impl core::fmt::Display for Odd5 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }
impl CatOps for Odd5 {}
impl CatRepr for Odd5 { type R = u8; }

#[derive(EnumSetType, Debug)] #[enumset(no_ops)] pub enum NoOps { V0 = 0, V1 = 1, V2 = 5, V3 = 64 }
impl Cat for NoOps {
    const NAME: &'static str = "NoOps";
    const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(no_ops)] pub enum NoOps { V0 = 0, V1 = 1, V2 = 5, V3 = 64 }"####;
    const DISCR: &'static [u32] = &[0, 1, 5, 64];
    const VARS: &'static [Self] = &[NoOps::V0, NoOps::V1, NoOps::V2, NoOps::V3];
    const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"];
    const WORDS: usize = 2;
    const SIZE: usize = 16;
    const INTEGER: bool = false;
    const HEAVY: bool = false;
    fn disc(self) -> u32 { self as u32 }
}
odd_order! { NoOps }
impl core::fmt::Display for NoOps { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.pad(crate::vname(*self)) } }

pub const NAMES: &[&str] = &["D0", "D1", "D2", "D3", "D5", "D7", "D8", "D9", "D15", "D16", "D17", "D31", "D32", "D33", "D63", "D64", "D65", "D100", "D127", "D128", "D129", "D191", "D192", "D193", "D256", "D257", "D300", "D4", "D6", "D10", "D11", "D12", "D13", "D14", "D18", "D19", "D20", "D21", "D22", "D23", "D24", "D25", "D26", "D27", "D28", "D29", "D30", "D34", "D35", "D36", "D37", "D38", "D39", "D40", "D41", "D42", "D43", "D44", "D45", "D46", "D47", "D48", "D49", "D50", "D51", "D52", "D53", "D54", "D55", "D56", "D57", "D58", "D59", "D60", "D61", "D62", "D66", "D72", "D80", "D88", "D96", "D104", "D112", "D120", "D126", "D136", "D144", "D160", "S7", "S8", "S0_7", "S7_8", "S15", "S16", "S0_15", "S31", "S32", "S0_1_31", "S63", "S0_31_32_63", "S0_63", "S64", "S63_64", "S0_63_64_127", "S127", "S128", "S62_65_127_128", "S0_63_64_127_128_191", "S191", "S192", "S0_200", "S200", "S5_330", "S64_65", "S130_131_140", "S100_200_300_400_500_600_700_800", "S1_60_190_191_320_321", "S0_1000", "S255", "S256", "S0_255_256_511_512_1023_1024", "S0_63_64_383_384_447", "S0_447_448_511", "S1_511_512_575", "S63_320_640_767", "S0_767_768_831", "S0_2047_2048_2111", "Alt128", "Alt8", "Tri200", "H8_0", "H8_1", "H8_4", "H8_6", "RH8", "RT8", "H16_0", "H16_1", "H16_8", "H16_14", "RH16", "RT16", "H32_0", "H32_1", "H32_16", "H32_30", "RH32", "RT32", "H64_0", "H64_1", "H64_32", "H64_62", "RH64", "RT64", "H128_0", "H128_1", "H128_63", "H128_64", "H128_126", "RH128", "RT128", "H192_0", "H192_1", "H192_63", "H192_64", "H192_96", "H192_190", "M3", "M4", "M5", "M6", "M7", "M8", "M9", "M10", "M12", "Big65539", "Big65536", "Big70000", "Mix1", "Mix2", "Mix3", "Mix4", "Mix5", "R8x0", "R8x1", "R8x2", "R8x3", "R8x4", "R8x5", "R8x6", "R16x0", "R16x1", "R16x2", "R16x3", "R32x0", "R32x1", "R32x2", "R32x3", "R64x0", "R64x1", "R64x2", "R64x3", "R128x0", "R128x1", "R128x2", "R128x3", "R128x4", "R128full", "R64full", "R16full", "A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "Pu8_255", "Pu8_2", "Pu16_300", "Pu32_64", "Pu64_32", "Pusize_9", "Pi8_127", "Pi16_300", "Pi32_15", "Pi64_63", "Pisize_127", "PC_40", "NoSuper", "Odd0", "Odd1", "Odd2", "Odd3", "Odd4", "Odd5", "NoOps"];

pub fn dispatch<J: crate::Job>(name: &str, j: &J, cx: &mut crate::Cx) { match name {
    "D0" => j.run::<D0>(cx),
    "D1" => j.run::<D1>(cx),
    "D2" => j.run::<D2>(cx),
    "D3" => j.run::<D3>(cx),
    "D5" => j.run::<D5>(cx),
    "D7" => j.run::<D7>(cx),
    "D8" => j.run::<D8>(cx),
    "D9" => j.run::<D9>(cx),
    "D15" => j.run::<D15>(cx),
    "D16" => j.run::<D16>(cx),
    "D17" => j.run::<D17>(cx),
    "D31" => j.run::<D31>(cx),
    "D32" => j.run::<D32>(cx),
    "D33" => j.run::<D33>(cx),
    "D63" => j.run::<D63>(cx),
    "D64" => j.run::<D64>(cx),
    "D65" => j.run::<D65>(cx),
    "D100" => j.run::<D100>(cx),
    "D127" => j.run::<D127>(cx),
    "D128" => j.run::<D128>(cx),
    "D129" => j.run::<D129>(cx),
    "D191" => j.run::<D191>(cx),
    "D192" => j.run::<D192>(cx),
    "D193" => j.run::<D193>(cx),
    "D256" => j.run::<D256>(cx),
    "D257" => j.run::<D257>(cx),
    "D300" => j.run::<D300>(cx),
    "D4" => j.run::<D4>(cx),
    "D6" => j.run::<D6>(cx),
    "D10" => j.run::<D10>(cx),
    "D11" => j.run::<D11>(cx),
    "D12" => j.run::<D12>(cx),
    "D13" => j.run::<D13>(cx),
    "D14" => j.run::<D14>(cx),
    "D18" => j.run::<D18>(cx),
    "D19" => j.run::<D19>(cx),
    "D20" => j.run::<D20>(cx),
    "D21" => j.run::<D21>(cx),
    "D22" => j.run::<D22>(cx),
    "D23" => j.run::<D23>(cx),
    "D24" => j.run::<D24>(cx),
    "D25" => j.run::<D25>(cx),
    "D26" => j.run::<D26>(cx),
    "D27" => j.run::<D27>(cx),
    "D28" => j.run::<D28>(cx),
    "D29" => j.run::<D29>(cx),
    "D30" => j.run::<D30>(cx),
    "D34" => j.run::<D34>(cx),
    "D35" => j.run::<D35>(cx),
    "D36" => j.run::<D36>(cx),
    "D37" => j.run::<D37>(cx),
    "D38" => j.run::<D38>(cx),
    "D39" => j.run::<D39>(cx),
    "D40" => j.run::<D40>(cx),
    "D41" => j.run::<D41>(cx),
    "D42" => j.run::<D42>(cx),
    "D43" => j.run::<D43>(cx),
    "D44" => j.run::<D44>(cx),
    "D45" => j.run::<D45>(cx),
    "D46" => j.run::<D46>(cx),
    "D47" => j.run::<D47>(cx),
    "D48" => j.run::<D48>(cx),
    "D49" => j.run::<D49>(cx),
    "D50" => j.run::<D50>(cx),
    "D51" => j.run::<D51>(cx),
    "D52" => j.run::<D52>(cx),
    "D53" => j.run::<D53>(cx),
    "D54" => j.run::<D54>(cx),
    "D55" => j.run::<D55>(cx),
    "D56" => j.run::<D56>(cx),
    "D57" => j.run::<D57>(cx),
    "D58" => j.run::<D58>(cx),
    "D59" => j.run::<D59>(cx),
    "D60" => j.run::<D60>(cx),
    "D61" => j.run::<D61>(cx),
    "D62" => j.run::<D62>(cx),
    "D66" => j.run::<D66>(cx),
    "D72" => j.run::<D72>(cx),
    "D80" => j.run::<D80>(cx),
    "D88" => j.run::<D88>(cx),
    "D96" => j.run::<D96>(cx),
    "D104" => j.run::<D104>(cx),
    "D112" => j.run::<D112>(cx),
    "D120" => j.run::<D120>(cx),
    "D126" => j.run::<D126>(cx),
    "D136" => j.run::<D136>(cx),
    "D144" => j.run::<D144>(cx),
    "D160" => j.run::<D160>(cx),
    "S7" => j.run::<S7>(cx),
    "S8" => j.run::<S8>(cx),
    "S0_7" => j.run::<S0_7>(cx),
    "S7_8" => j.run::<S7_8>(cx),
    "S15" => j.run::<S15>(cx),
    "S16" => j.run::<S16>(cx),
    "S0_15" => j.run::<S0_15>(cx),
    "S31" => j.run::<S31>(cx),
    "S32" => j.run::<S32>(cx),
    "S0_1_31" => j.run::<S0_1_31>(cx),
    "S63" => j.run::<S63>(cx),
    "S0_31_32_63" => j.run::<S0_31_32_63>(cx),
    "S0_63" => j.run::<S0_63>(cx),
    "S64" => j.run::<S64>(cx),
    "S63_64" => j.run::<S63_64>(cx),
    "S0_63_64_127" => j.run::<S0_63_64_127>(cx),
    "S127" => j.run::<S127>(cx),
    "S128" => j.run::<S128>(cx),
    "S62_65_127_128" => j.run::<S62_65_127_128>(cx),
    "S0_63_64_127_128_191" => j.run::<S0_63_64_127_128_191>(cx),
    "S191" => j.run::<S191>(cx),
    "S192" => j.run::<S192>(cx),
    "S0_200" => j.run::<S0_200>(cx),
    "S200" => j.run::<S200>(cx),
    "S5_330" => j.run::<S5_330>(cx),
    "S64_65" => j.run::<S64_65>(cx),
    "S130_131_140" => j.run::<S130_131_140>(cx),
    "S100_200_300_400_500_600_700_800" => j.run::<S100_200_300_400_500_600_700_800>(cx),
    "S1_60_190_191_320_321" => j.run::<S1_60_190_191_320_321>(cx),
    "S0_1000" => j.run::<S0_1000>(cx),
    "S255" => j.run::<S255>(cx),
    "S256" => j.run::<S256>(cx),
    "S0_255_256_511_512_1023_1024" => j.run::<S0_255_256_511_512_1023_1024>(cx),
    "S0_63_64_383_384_447" => j.run::<S0_63_64_383_384_447>(cx),
    "S0_447_448_511" => j.run::<S0_447_448_511>(cx),
    "S1_511_512_575" => j.run::<S1_511_512_575>(cx),
    "S63_320_640_767" => j.run::<S63_320_640_767>(cx),
    "S0_767_768_831" => j.run::<S0_767_768_831>(cx),
    "S0_2047_2048_2111" => j.run::<S0_2047_2048_2111>(cx),
    "Alt128" => j.run::<Alt128>(cx),
    "Alt8" => j.run::<Alt8>(cx),
    "Tri200" => j.run::<Tri200>(cx),
    "H8_0" => j.run::<H8_0>(cx),
    "H8_1" => j.run::<H8_1>(cx),
    "H8_4" => j.run::<H8_4>(cx),
    "H8_6" => j.run::<H8_6>(cx),
    "RH8" => j.run::<RH8>(cx),
    "RT8" => j.run::<RT8>(cx),
    "H16_0" => j.run::<H16_0>(cx),
    "H16_1" => j.run::<H16_1>(cx),
    "H16_8" => j.run::<H16_8>(cx),
    "H16_14" => j.run::<H16_14>(cx),
    "RH16" => j.run::<RH16>(cx),
    "RT16" => j.run::<RT16>(cx),
    "H32_0" => j.run::<H32_0>(cx),
    "H32_1" => j.run::<H32_1>(cx),
    "H32_16" => j.run::<H32_16>(cx),
    "H32_30" => j.run::<H32_30>(cx),
    "RH32" => j.run::<RH32>(cx),
    "RT32" => j.run::<RT32>(cx),
    "H64_0" => j.run::<H64_0>(cx),
    "H64_1" => j.run::<H64_1>(cx),
    "H64_32" => j.run::<H64_32>(cx),
    "H64_62" => j.run::<H64_62>(cx),
    "RH64" => j.run::<RH64>(cx),
    "RT64" => j.run::<RT64>(cx),
    "H128_0" => j.run::<H128_0>(cx),
    "H128_1" => j.run::<H128_1>(cx),
    "H128_63" => j.run::<H128_63>(cx),
    "H128_64" => j.run::<H128_64>(cx),
    "H128_126" => j.run::<H128_126>(cx),
    "RH128" => j.run::<RH128>(cx),
    "RT128" => j.run::<RT128>(cx),
    "H192_0" => j.run::<H192_0>(cx),
    "H192_1" => j.run::<H192_1>(cx),
    "H192_63" => j.run::<H192_63>(cx),
    "H192_64" => j.run::<H192_64>(cx),
    "H192_96" => j.run::<H192_96>(cx),
    "H192_190" => j.run::<H192_190>(cx),
    "M3" => j.run::<M3>(cx),
    "M4" => j.run::<M4>(cx),
    "M5" => j.run::<M5>(cx),
    "M6" => j.run::<M6>(cx),
    "M7" => j.run::<M7>(cx),
    "M8" => j.run::<M8>(cx),
    "M9" => j.run::<M9>(cx),
    "M10" => j.run::<M10>(cx),
    "M12" => j.run::<M12>(cx),
    "Big65539" => j.run::<Big65539>(cx),
    "Big65536" => j.run::<Big65536>(cx),
    "Big70000" => j.run::<Big70000>(cx),
    "Mix1" => j.run::<Mix1>(cx),
    "Mix2" => j.run::<Mix2>(cx),
    "Mix3" => j.run::<Mix3>(cx),
    "Mix4" => j.run::<Mix4>(cx),
    "Mix5" => j.run::<Mix5>(cx),
    "R8x0" => j.run::<R8x0>(cx),
    "R8x1" => j.run::<R8x1>(cx),
    "R8x2" => j.run::<R8x2>(cx),
    "R8x3" => j.run::<R8x3>(cx),
    "R8x4" => j.run::<R8x4>(cx),
    "R8x5" => j.run::<R8x5>(cx),
    "R8x6" => j.run::<R8x6>(cx),
    "R16x0" => j.run::<R16x0>(cx),
    "R16x1" => j.run::<R16x1>(cx),
    "R16x2" => j.run::<R16x2>(cx),
    "R16x3" => j.run::<R16x3>(cx),
    "R32x0" => j.run::<R32x0>(cx),
    "R32x1" => j.run::<R32x1>(cx),
    "R32x2" => j.run::<R32x2>(cx),
    "R32x3" => j.run::<R32x3>(cx),
    "R64x0" => j.run::<R64x0>(cx),
    "R64x1" => j.run::<R64x1>(cx),
    "R64x2" => j.run::<R64x2>(cx),
    "R64x3" => j.run::<R64x3>(cx),
    "R128x0" => j.run::<R128x0>(cx),
    "R128x1" => j.run::<R128x1>(cx),
    "R128x2" => j.run::<R128x2>(cx),
    "R128x3" => j.run::<R128x3>(cx),
    "R128x4" => j.run::<R128x4>(cx),
    "R128full" => j.run::<R128full>(cx),
    "R64full" => j.run::<R64full>(cx),
    "R16full" => j.run::<R16full>(cx),
    "A0" => j.run::<A0>(cx),
    "A1" => j.run::<A1>(cx),
    "A2" => j.run::<A2>(cx),
    "A3" => j.run::<A3>(cx),
    "A4" => j.run::<A4>(cx),
    "A5" => j.run::<A5>(cx),
    "A6" => j.run::<A6>(cx),
    "A7" => j.run::<A7>(cx),
    "A8" => j.run::<A8>(cx),
    "Pu8_255" => j.run::<Pu8_255>(cx),
    "Pu8_2" => j.run::<Pu8_2>(cx),
    "Pu16_300" => j.run::<Pu16_300>(cx),
    "Pu32_64" => j.run::<Pu32_64>(cx),
    "Pu64_32" => j.run::<Pu64_32>(cx),
    "Pusize_9" => j.run::<Pusize_9>(cx),
    "Pi8_127" => j.run::<Pi8_127>(cx),
    "Pi16_300" => j.run::<Pi16_300>(cx),
    "Pi32_15" => j.run::<Pi32_15>(cx),
    "Pi64_63" => j.run::<Pi64_63>(cx),
    "Pisize_127" => j.run::<Pisize_127>(cx),
    "PC_40" => j.run::<PC_40>(cx),
    "NoSuper" => j.run::<NoSuper>(cx),
    "Odd0" => j.run::<Odd0>(cx),
    "Odd1" => j.run::<Odd1>(cx),
    "Odd2" => j.run::<Odd2>(cx),
    "Odd3" => j.run::<Odd3>(cx),
    "Odd4" => j.run::<Odd4>(cx),
    "Odd5" => j.run::<Odd5>(cx),
    "NoOps" => j.run::<NoOps>(cx),
    _ => panic!("no such job: {name}"),
} }
pub const NAMES_OPS: &[&str] = &["D0", "D1", "D2", "D3", "D5", "D7", "D8", "D9", "D15", "D16", "D17", "D31", "D32", "D33", "D63", "D64", "D65", "D100", "D127", "D128", "D129", "D191", "D192", "D193", "D256", "D257", "D300", "D4", "D6", "D10", "D11", "D12", "D13", "D14", "D18", "D19", "D20", "D21", "D22", "D23", "D24", "D25", "D26", "D27", "D28", "D29", "D30", "D34", "D35", "D36", "D37", "D38", "D39", "D40", "D41", "D42", "D43", "D44", "D45", "D46", "D47", "D48", "D49", "D50", "D51", "D52", "D53", "D54", "D55", "D56", "D57", "D58", "D59", "D60", "D61", "D62", "D66", "D72", "D80", "D88", "D96", "D104", "D112", "D120", "D126", "D136", "D144", "D160", "S7", "S8", "S0_7", "S7_8", "S15", "S16", "S0_15", "S31", "S32", "S0_1_31", "S63", "S0_31_32_63", "S0_63", "S64", "S63_64", "S0_63_64_127", "S127", "S128", "S62_65_127_128", "S0_63_64_127_128_191", "S191", "S192", "S0_200", "S200", "S5_330", "S64_65", "S130_131_140", "S100_200_300_400_500_600_700_800", "S1_60_190_191_320_321", "S0_1000", "S255", "S256", "S0_255_256_511_512_1023_1024", "S0_63_64_383_384_447", "S0_447_448_511", "S1_511_512_575", "S63_320_640_767", "S0_767_768_831", "S0_2047_2048_2111", "Alt128", "Alt8", "Tri200", "H8_0", "H8_1", "H8_4", "H8_6", "RH8", "RT8", "H16_0", "H16_1", "H16_8", "H16_14", "RH16", "RT16", "H32_0", "H32_1", "H32_16", "H32_30", "RH32", "RT32", "H64_0", "H64_1", "H64_32", "H64_62", "RH64", "RT64", "H128_0", "H128_1", "H128_63", "H128_64", "H128_126", "RH128", "RT128", "H192_0", "H192_1", "H192_63", "H192_64", "H192_96", "H192_190", "M3", "M4", "M5", "M6", "M7", "M8", "M9", "M10", "M12", "Big65539", "Big65536", "Big70000", "Mix1", "Mix2", "Mix3", "Mix4", "Mix5", "R8x0", "R8x1", "R8x2", "R8x3", "R8x4", "R8x5", "R8x6", "R16x0", "R16x1", "R16x2", "R16x3", "R32x0", "R32x1", "R32x2", "R32x3", "R64x0", "R64x1", "R64x2", "R64x3", "R128x0", "R128x1", "R128x2", "R128x3", "R128x4", "R128full", "R64full", "R16full", "A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "Pu8_255", "Pu8_2", "Pu16_300", "Pu32_64", "Pu64_32", "Pusize_9", "Pi8_127", "Pi16_300", "Pi32_15", "Pi64_63", "Pisize_127", "PC_40", "NoSuper", "Odd0", "Odd1", "Odd2", "Odd3", "Odd4", "Odd5"];
pub fn dispatch_ops<J: crate::JobOps>(name: &str, j: &J, cx: &mut crate::Cx) { match name {
    "D0" => j.run::<D0>(cx),
    "D1" => j.run::<D1>(cx),
    "D2" => j.run::<D2>(cx),
    "D3" => j.run::<D3>(cx),
    "D5" => j.run::<D5>(cx),
    "D7" => j.run::<D7>(cx),
    "D8" => j.run::<D8>(cx),
    "D9" => j.run::<D9>(cx),
    "D15" => j.run::<D15>(cx),
    "D16" => j.run::<D16>(cx),
    "D17" => j.run::<D17>(cx),
    "D31" => j.run::<D31>(cx),
    "D32" => j.run::<D32>(cx),
    "D33" => j.run::<D33>(cx),
    "D63" => j.run::<D63>(cx),
    "D64" => j.run::<D64>(cx),
    "D65" => j.run::<D65>(cx),
    "D100" => j.run::<D100>(cx),
    "D127" => j.run::<D127>(cx),
    "D128" => j.run::<D128>(cx),
    "D129" => j.run::<D129>(cx),
    "D191" => j.run::<D191>(cx),
    "D192" => j.run::<D192>(cx),
    "D193" => j.run::<D193>(cx),
    "D256" => j.run::<D256>(cx),
    "D257" => j.run::<D257>(cx),
    "D300" => j.run::<D300>(cx),
    "D4" => j.run::<D4>(cx),
    "D6" => j.run::<D6>(cx),
    "D10" => j.run::<D10>(cx),
    "D11" => j.run::<D11>(cx),
    "D12" => j.run::<D12>(cx),
    "D13" => j.run::<D13>(cx),
    "D14" => j.run::<D14>(cx),
    "D18" => j.run::<D18>(cx),
    "D19" => j.run::<D19>(cx),
    "D20" => j.run::<D20>(cx),
    "D21" => j.run::<D21>(cx),
    "D22" => j.run::<D22>(cx),
    "D23" => j.run::<D23>(cx),
    "D24" => j.run::<D24>(cx),
    "D25" => j.run::<D25>(cx),
    "D26" => j.run::<D26>(cx),
    "D27" => j.run::<D27>(cx),
    "D28" => j.run::<D28>(cx),
    "D29" => j.run::<D29>(cx),
    "D30" => j.run::<D30>(cx),
    "D34" => j.run::<D34>(cx),
    "D35" => j.run::<D35>(cx),
    "D36" => j.run::<D36>(cx),
    "D37" => j.run::<D37>(cx),
    "D38" => j.run::<D38>(cx),
    "D39" => j.run::<D39>(cx),
    "D40" => j.run::<D40>(cx),
    "D41" => j.run::<D41>(cx),
    "D42" => j.run::<D42>(cx),
    "D43" => j.run::<D43>(cx),
    "D44" => j.run::<D44>(cx),
    "D45" => j.run::<D45>(cx),
    "D46" => j.run::<D46>(cx),
    "D47" => j.run::<D47>(cx),
    "D48" => j.run::<D48>(cx),
    "D49" => j.run::<D49>(cx),
    "D50" => j.run::<D50>(cx),
    "D51" => j.run::<D51>(cx),
    "D52" => j.run::<D52>(cx),
    "D53" => j.run::<D53>(cx),
    "D54" => j.run::<D54>(cx),
    "D55" => j.run::<D55>(cx),
    "D56" => j.run::<D56>(cx),
    "D57" => j.run::<D57>(cx),
    "D58" => j.run::<D58>(cx),
    "D59" => j.run::<D59>(cx),
    "D60" => j.run::<D60>(cx),
    "D61" => j.run::<D61>(cx),
    "D62" => j.run::<D62>(cx),
    "D66" => j.run::<D66>(cx),
    "D72" => j.run::<D72>(cx),
    "D80" => j.run::<D80>(cx),
    "D88" => j.run::<D88>(cx),
    "D96" => j.run::<D96>(cx),
    "D104" => j.run::<D104>(cx),
    "D112" => j.run::<D112>(cx),
    "D120" => j.run::<D120>(cx),
    "D126" => j.run::<D126>(cx),
    "D136" => j.run::<D136>(cx),
    "D144" => j.run::<D144>(cx),
    "D160" => j.run::<D160>(cx),
    "S7" => j.run::<S7>(cx),
    "S8" => j.run::<S8>(cx),
    "S0_7" => j.run::<S0_7>(cx),
    "S7_8" => j.run::<S7_8>(cx),
    "S15" => j.run::<S15>(cx),
    "S16" => j.run::<S16>(cx),
    "S0_15" => j.run::<S0_15>(cx),
    "S31" => j.run::<S31>(cx),
    "S32" => j.run::<S32>(cx),
    "S0_1_31" => j.run::<S0_1_31>(cx),
    "S63" => j.run::<S63>(cx),
    "S0_31_32_63" => j.run::<S0_31_32_63>(cx),
    "S0_63" => j.run::<S0_63>(cx),
    "S64" => j.run::<S64>(cx),
    "S63_64" => j.run::<S63_64>(cx),
    "S0_63_64_127" => j.run::<S0_63_64_127>(cx),
    "S127" => j.run::<S127>(cx),
    "S128" => j.run::<S128>(cx),
    "S62_65_127_128" => j.run::<S62_65_127_128>(cx),
    "S0_63_64_127_128_191" => j.run::<S0_63_64_127_128_191>(cx),
    "S191" => j.run::<S191>(cx),
    "S192" => j.run::<S192>(cx),
    "S0_200" => j.run::<S0_200>(cx),
    "S200" => j.run::<S200>(cx),
    "S5_330" => j.run::<S5_330>(cx),
    "S64_65" => j.run::<S64_65>(cx),
    "S130_131_140" => j.run::<S130_131_140>(cx),
    "S100_200_300_400_500_600_700_800" => j.run::<S100_200_300_400_500_600_700_800>(cx),
    "S1_60_190_191_320_321" => j.run::<S1_60_190_191_320_321>(cx),
    "S0_1000" => j.run::<S0_1000>(cx),
    "S255" => j.run::<S255>(cx),
    "S256" => j.run::<S256>(cx),
    "S0_255_256_511_512_1023_1024" => j.run::<S0_255_256_511_512_1023_1024>(cx),
    "S0_63_64_383_384_447" => j.run::<S0_63_64_383_384_447>(cx),
    "S0_447_448_511" => j.run::<S0_447_448_511>(cx),
    "S1_511_512_575" => j.run::<S1_511_512_575>(cx),
    "S63_320_640_767" => j.run::<S63_320_640_767>(cx),
    "S0_767_768_831" => j.run::<S0_767_768_831>(cx),
    "S0_2047_2048_2111" => j.run::<S0_2047_2048_2111>(cx),
    "Alt128" => j.run::<Alt128>(cx),
    "Alt8" => j.run::<Alt8>(cx),
    "Tri200" => j.run::<Tri200>(cx),
    "H8_0" => j.run::<H8_0>(cx),
    "H8_1" => j.run::<H8_1>(cx),
    "H8_4" => j.run::<H8_4>(cx),
    "H8_6" => j.run::<H8_6>(cx),
    "RH8" => j.run::<RH8>(cx),
    "RT8" => j.run::<RT8>(cx),
    "H16_0" => j.run::<H16_0>(cx),
    "H16_1" => j.run::<H16_1>(cx),
    "H16_8" => j.run::<H16_8>(cx),
    "H16_14" => j.run::<H16_14>(cx),
    "RH16" => j.run::<RH16>(cx),
    "RT16" => j.run::<RT16>(cx),
    "H32_0" => j.run::<H32_0>(cx),
    "H32_1" => j.run::<H32_1>(cx),
    "H32_16" => j.run::<H32_16>(cx),
    "H32_30" => j.run::<H32_30>(cx),
    "RH32" => j.run::<RH32>(cx),
    "RT32" => j.run::<RT32>(cx),
    "H64_0" => j.run::<H64_0>(cx),
    "H64_1" => j.run::<H64_1>(cx),
    "H64_32" => j.run::<H64_32>(cx),
    "H64_62" => j.run::<H64_62>(cx),
    "RH64" => j.run::<RH64>(cx),
    "RT64" => j.run::<RT64>(cx),
    "H128_0" => j.run::<H128_0>(cx),
    "H128_1" => j.run::<H128_1>(cx),
    "H128_63" => j.run::<H128_63>(cx),
    "H128_64" => j.run::<H128_64>(cx),
    "H128_126" => j.run::<H128_126>(cx),
    "RH128" => j.run::<RH128>(cx),
    "RT128" => j.run::<RT128>(cx),
    "H192_0" => j.run::<H192_0>(cx),
    "H192_1" => j.run::<H192_1>(cx),
    "H192_63" => j.run::<H192_63>(cx),
    "H192_64" => j.run::<H192_64>(cx),
    "H192_96" => j.run::<H192_96>(cx),
    "H192_190" => j.run::<H192_190>(cx),
    "M3" => j.run::<M3>(cx),
    "M4" => j.run::<M4>(cx),
    "M5" => j.run::<M5>(cx),
    "M6" => j.run::<M6>(cx),
    "M7" => j.run::<M7>(cx),
    "M8" => j.run::<M8>(cx),
    "M9" => j.run::<M9>(cx),
    "M10" => j.run::<M10>(cx),
    "M12" => j.run::<M12>(cx),
    "Big65539" => j.run::<Big65539>(cx),
    "Big65536" => j.run::<Big65536>(cx),
    "Big70000" => j.run::<Big70000>(cx),
    "Mix1" => j.run::<Mix1>(cx),
    "Mix2" => j.run::<Mix2>(cx),
    "Mix3" => j.run::<Mix3>(cx),
    "Mix4" => j.run::<Mix4>(cx),
    "Mix5" => j.run::<Mix5>(cx),
    "R8x0" => j.run::<R8x0>(cx),
    "R8x1" => j.run::<R8x1>(cx),
    "R8x2" => j.run::<R8x2>(cx),
    "R8x3" => j.run::<R8x3>(cx),
    "R8x4" => j.run::<R8x4>(cx),
    "R8x5" => j.run::<R8x5>(cx),
    "R8x6" => j.run::<R8x6>(cx),
    "R16x0" => j.run::<R16x0>(cx),
    "R16x1" => j.run::<R16x1>(cx),
    "R16x2" => j.run::<R16x2>(cx),
    "R16x3" => j.run::<R16x3>(cx),
    "R32x0" => j.run::<R32x0>(cx),
    "R32x1" => j.run::<R32x1>(cx),
    "R32x2" => j.run::<R32x2>(cx),
    "R32x3" => j.run::<R32x3>(cx),
    "R64x0" => j.run::<R64x0>(cx),
    "R64x1" => j.run::<R64x1>(cx),
    "R64x2" => j.run::<R64x2>(cx),
    "R64x3" => j.run::<R64x3>(cx),
    "R128x0" => j.run::<R128x0>(cx),
    "R128x1" => j.run::<R128x1>(cx),
    "R128x2" => j.run::<R128x2>(cx),
    "R128x3" => j.run::<R128x3>(cx),
    "R128x4" => j.run::<R128x4>(cx),
    "R128full" => j.run::<R128full>(cx),
    "R64full" => j.run::<R64full>(cx),
    "R16full" => j.run::<R16full>(cx),
    "A0" => j.run::<A0>(cx),
    "A1" => j.run::<A1>(cx),
    "A2" => j.run::<A2>(cx),
    "A3" => j.run::<A3>(cx),
    "A4" => j.run::<A4>(cx),
    "A5" => j.run::<A5>(cx),
    "A6" => j.run::<A6>(cx),
    "A7" => j.run::<A7>(cx),
    "A8" => j.run::<A8>(cx),
    "Pu8_255" => j.run::<Pu8_255>(cx),
    "Pu8_2" => j.run::<Pu8_2>(cx),
    "Pu16_300" => j.run::<Pu16_300>(cx),
    "Pu32_64" => j.run::<Pu32_64>(cx),
    "Pu64_32" => j.run::<Pu64_32>(cx),
    "Pusize_9" => j.run::<Pusize_9>(cx),
    "Pi8_127" => j.run::<Pi8_127>(cx),
    "Pi16_300" => j.run::<Pi16_300>(cx),
    "Pi32_15" => j.run::<Pi32_15>(cx),
    "Pi64_63" => j.run::<Pi64_63>(cx),
    "Pisize_127" => j.run::<Pisize_127>(cx),
    "PC_40" => j.run::<PC_40>(cx),
    "NoSuper" => j.run::<NoSuper>(cx),
    "Odd0" => j.run::<Odd0>(cx),
    "Odd1" => j.run::<Odd1>(cx),
    "Odd2" => j.run::<Odd2>(cx),
    "Odd3" => j.run::<Odd3>(cx),
    "Odd4" => j.run::<Odd4>(cx),
    "Odd5" => j.run::<Odd5>(cx),
    _ => panic!("no such job: {name}"),
} }
pub const NAMES_REPR: &[&str] = &["RH8", "RT8", "RH16", "RT16", "RH32", "RT32", "RH64", "RT64", "RH128", "RT128", "R8x0", "R8x1", "R8x2", "R8x3", "R8x4", "R8x5", "R8x6", "R16x0", "R16x1", "R16x2", "R16x3", "R32x0", "R32x1", "R32x2", "R32x3", "R64x0", "R64x1", "R64x2", "R64x3", "R128x0", "R128x1", "R128x2", "R128x3", "R128x4", "R128full", "R64full", "R16full", "Odd2", "Odd5"];
pub fn dispatch_repr<J: crate::JobRepr>(name: &str, j: &J, cx: &mut crate::Cx) { match name {
    "RH8" => j.run::<RH8>(cx),
    "RT8" => j.run::<RT8>(cx),
    "RH16" => j.run::<RH16>(cx),
    "RT16" => j.run::<RT16>(cx),
    "RH32" => j.run::<RH32>(cx),
    "RT32" => j.run::<RT32>(cx),
    "RH64" => j.run::<RH64>(cx),
    "RT64" => j.run::<RT64>(cx),
    "RH128" => j.run::<RH128>(cx),
    "RT128" => j.run::<RT128>(cx),
    "R8x0" => j.run::<R8x0>(cx),
    "R8x1" => j.run::<R8x1>(cx),
    "R8x2" => j.run::<R8x2>(cx),
    "R8x3" => j.run::<R8x3>(cx),
    "R8x4" => j.run::<R8x4>(cx),
    "R8x5" => j.run::<R8x5>(cx),
    "R8x6" => j.run::<R8x6>(cx),
    "R16x0" => j.run::<R16x0>(cx),
    "R16x1" => j.run::<R16x1>(cx),
    "R16x2" => j.run::<R16x2>(cx),
    "R16x3" => j.run::<R16x3>(cx),
    "R32x0" => j.run::<R32x0>(cx),
    "R32x1" => j.run::<R32x1>(cx),
    "R32x2" => j.run::<R32x2>(cx),
    "R32x3" => j.run::<R32x3>(cx),
    "R64x0" => j.run::<R64x0>(cx),
    "R64x1" => j.run::<R64x1>(cx),
    "R64x2" => j.run::<R64x2>(cx),
    "R64x3" => j.run::<R64x3>(cx),
    "R128x0" => j.run::<R128x0>(cx),
    "R128x1" => j.run::<R128x1>(cx),
    "R128x2" => j.run::<R128x2>(cx),
    "R128x3" => j.run::<R128x3>(cx),
    "R128x4" => j.run::<R128x4>(cx),
    "R128full" => j.run::<R128full>(cx),
    "R64full" => j.run::<R64full>(cx),
    "R16full" => j.run::<R16full>(cx),
    "Odd2" => j.run::<Odd2>(cx),
    "Odd5" => j.run::<Odd5>(cx),
    _ => panic!("no such job: {name}"),
} }
