// @generated by tools/gen_serde.py; do not edit.
#![allow(non_camel_case_types, dead_code, deprecated, clippy::all)]
use crate::{Fmt, SCat};
use enumset::*;
use serde::{Deserialize, Serialize};

macro_rules! num_elem { ($e:ident) => {
    impl Serialize for $e { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
    impl<'de> Deserialize<'de> for $e { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = u32::deserialize(d)?;
        <$e as SCat>::VARS.iter().copied().find(|v| *v as u32 == x).ok_or_else(|| serde::de::Error::custom("no such element"))
    } }
} }
#[derive(EnumSetType, Debug)] pub enum D0 {  }
impl SCat for D0 { const NAME: &'static str = "D0"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D0 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D0_array {  }
impl SCat for D0_array { const NAME: &'static str = "D0_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D0_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D0_u8 {  }
impl SCat for D0_u8 { const NAME: &'static str = "D0_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D0_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum D0_u16 {  }
impl SCat for D0_u16 { const NAME: &'static str = "D0_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum D0_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum D0_u32 {  }
impl SCat for D0_u32 { const NAME: &'static str = "D0_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum D0_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum D0_u64 {  }
impl SCat for D0_u64 { const NAME: &'static str = "D0_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum D0_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D0_u128 {  }
impl SCat for D0_u128 { const NAME: &'static str = "D0_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D0_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D0_list {  }
impl SCat for D0_list { const NAME: &'static str = "D0_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D0_list {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D0_map {  }
impl SCat for D0_map { const NAME: &'static str = "D0_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D0_map {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D0_deny {  }
impl SCat for D0_deny { const NAME: &'static str = "D0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D0_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny {  }
impl SCat for D0_array_deny { const NAME: &'static str = "D0_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D0_u8_deny {  }
impl SCat for D0_u8_deny { const NAME: &'static str = "D0_u8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D0_u8_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum D0_u16_deny {  }
impl SCat for D0_u16_deny { const NAME: &'static str = "D0_u16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum D0_u16_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum D0_u32_deny {  }
impl SCat for D0_u32_deny { const NAME: &'static str = "D0_u32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum D0_u32_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum D0_u64_deny {  }
impl SCat for D0_u64_deny { const NAME: &'static str = "D0_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum D0_u64_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny {  }
impl SCat for D0_u128_deny { const NAME: &'static str = "D0_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum D0_list_deny {  }
impl SCat for D0_list_deny { const NAME: &'static str = "D0_list_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum D0_list_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum D0_map_deny {  }
impl SCat for D0_map_deny { const NAME: &'static str = "D0_map_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum D0_map_deny {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D1 { V0 = 0 }
impl SCat for D1 { const NAME: &'static str = "D1"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D1 { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D1_array { V0 = 0 }
impl SCat for D1_array { const NAME: &'static str = "D1_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D1_array { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_array::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D1_u8 { V0 = 0 }
impl SCat for D1_u8 { const NAME: &'static str = "D1_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D1_u8 { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_u8::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D1_u128 { V0 = 0 }
impl SCat for D1_u128 { const NAME: &'static str = "D1_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D1_u128 { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_u128::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D1_list { V0 = 0 }
impl SCat for D1_list { const NAME: &'static str = "D1_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D1_list { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_list::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D1_map { V0 = 0 }
impl SCat for D1_map { const NAME: &'static str = "D1_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D1_map { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_map::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D1_deny { V0 = 0 }
impl SCat for D1_deny { const NAME: &'static str = "D1_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D1_deny { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D1_array_deny { V0 = 0 }
impl SCat for D1_array_deny { const NAME: &'static str = "D1_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D1_array_deny { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_array_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D1_u8_deny { V0 = 0 }
impl SCat for D1_u8_deny { const NAME: &'static str = "D1_u8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D1_u8_deny { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_u8_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D1_u128_deny { V0 = 0 }
impl SCat for D1_u128_deny { const NAME: &'static str = "D1_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D1_u128_deny { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[D1_u128_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D3 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3 { const NAME: &'static str = "D3"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D3 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3::V0, D3::V1, D3::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D3_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array { const NAME: &'static str = "D3_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D3_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array::V0, D3_array::V1, D3_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D3_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u8 { const NAME: &'static str = "D3_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D3_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u8::V0, D3_u8::V1, D3_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum D3_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u16 { const NAME: &'static str = "D3_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum D3_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u16::V0, D3_u16::V1, D3_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum D3_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u32 { const NAME: &'static str = "D3_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum D3_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u32::V0, D3_u32::V1, D3_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum D3_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u64 { const NAME: &'static str = "D3_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum D3_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u64::V0, D3_u64::V1, D3_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D3_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128 { const NAME: &'static str = "D3_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D3_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128::V0, D3_u128::V1, D3_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D3_list { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list { const NAME: &'static str = "D3_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D3_list { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list::V0, D3_list::V1, D3_list::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D3_map { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_map { const NAME: &'static str = "D3_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D3_map { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_map::V0, D3_map::V1, D3_map::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D3_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny { const NAME: &'static str = "D3_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D3_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny::V0, D3_deny::V1, D3_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny { const NAME: &'static str = "D3_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny::V0, D3_array_deny::V1, D3_array_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D3_u8_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u8_deny { const NAME: &'static str = "D3_u8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D3_u8_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u8_deny::V0, D3_u8_deny::V1, D3_u8_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum D3_u16_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u16_deny { const NAME: &'static str = "D3_u16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum D3_u16_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u16_deny::V0, D3_u16_deny::V1, D3_u16_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum D3_u32_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u32_deny { const NAME: &'static str = "D3_u32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum D3_u32_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u32_deny::V0, D3_u32_deny::V1, D3_u32_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum D3_u64_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u64_deny { const NAME: &'static str = "D3_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum D3_u64_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u64_deny::V0, D3_u64_deny::V1, D3_u64_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny { const NAME: &'static str = "D3_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny::V0, D3_u128_deny::V1, D3_u128_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum D3_list_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_deny { const NAME: &'static str = "D3_list_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum D3_list_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_deny::V0, D3_list_deny::V1, D3_list_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum D3_map_deny { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_map_deny { const NAME: &'static str = "D3_map_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum D3_map_deny { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_map_deny::V0, D3_map_deny::V1, D3_map_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8 { const NAME: &'static str = "D8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8::V0, D8::V1, D8::V2, D8::V3, D8::V4, D8::V5, D8::V6, D8::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D8_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_array { const NAME: &'static str = "D8_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D8_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_array::V0, D8_array::V1, D8_array::V2, D8_array::V3, D8_array::V4, D8_array::V5, D8_array::V6, D8_array::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D8_u8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_u8 { const NAME: &'static str = "D8_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum D8_u8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_u8::V0, D8_u8::V1, D8_u8::V2, D8_u8::V3, D8_u8::V4, D8_u8::V5, D8_u8::V6, D8_u8::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D8_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_u128 { const NAME: &'static str = "D8_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D8_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_u128::V0, D8_u128::V1, D8_u128::V2, D8_u128::V3, D8_u128::V4, D8_u128::V5, D8_u128::V6, D8_u128::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D8_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_list { const NAME: &'static str = "D8_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D8_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_list::V0, D8_list::V1, D8_list::V2, D8_list::V3, D8_list::V4, D8_list::V5, D8_list::V6, D8_list::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D8_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_map { const NAME: &'static str = "D8_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D8_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_map::V0, D8_map::V1, D8_map::V2, D8_map::V3, D8_map::V4, D8_map::V5, D8_map::V6, D8_map::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D8_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_deny { const NAME: &'static str = "D8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D8_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_deny::V0, D8_deny::V1, D8_deny::V2, D8_deny::V3, D8_deny::V4, D8_deny::V5, D8_deny::V6, D8_deny::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D8_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_array_deny { const NAME: &'static str = "D8_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D8_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_array_deny::V0, D8_array_deny::V1, D8_array_deny::V2, D8_array_deny::V3, D8_array_deny::V4, D8_array_deny::V5, D8_array_deny::V6, D8_array_deny::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D8_u8_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_u8_deny { const NAME: &'static str = "D8_u8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum D8_u8_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_u8_deny::V0, D8_u8_deny::V1, D8_u8_deny::V2, D8_u8_deny::V3, D8_u8_deny::V4, D8_u8_deny::V5, D8_u8_deny::V6, D8_u8_deny::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D8_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }
impl SCat for D8_u128_deny { const NAME: &'static str = "D8_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D8_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[D8_u128_deny::V0, D8_u128_deny::V1, D8_u128_deny::V2, D8_u128_deny::V3, D8_u128_deny::V4, D8_u128_deny::V5, D8_u128_deny::V6, D8_u128_deny::V7]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D9 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9 { const NAME: &'static str = "D9"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D9 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9::V0, D9::V1, D9::V2, D9::V3, D9::V4, D9::V5, D9::V6, D9::V7, D9::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D9_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_array { const NAME: &'static str = "D9_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D9_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_array::V0, D9_array::V1, D9_array::V2, D9_array::V3, D9_array::V4, D9_array::V5, D9_array::V6, D9_array::V7, D9_array::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum D9_u16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u16 { const NAME: &'static str = "D9_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum D9_u16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u16::V0, D9_u16::V1, D9_u16::V2, D9_u16::V3, D9_u16::V4, D9_u16::V5, D9_u16::V6, D9_u16::V7, D9_u16::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum D9_u32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u32 { const NAME: &'static str = "D9_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum D9_u32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u32::V0, D9_u32::V1, D9_u32::V2, D9_u32::V3, D9_u32::V4, D9_u32::V5, D9_u32::V6, D9_u32::V7, D9_u32::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum D9_u64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u64 { const NAME: &'static str = "D9_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum D9_u64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u64::V0, D9_u64::V1, D9_u64::V2, D9_u64::V3, D9_u64::V4, D9_u64::V5, D9_u64::V6, D9_u64::V7, D9_u64::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D9_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u128 { const NAME: &'static str = "D9_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D9_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u128::V0, D9_u128::V1, D9_u128::V2, D9_u128::V3, D9_u128::V4, D9_u128::V5, D9_u128::V6, D9_u128::V7, D9_u128::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D9_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_list { const NAME: &'static str = "D9_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D9_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_list::V0, D9_list::V1, D9_list::V2, D9_list::V3, D9_list::V4, D9_list::V5, D9_list::V6, D9_list::V7, D9_list::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D9_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_map { const NAME: &'static str = "D9_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D9_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_map::V0, D9_map::V1, D9_map::V2, D9_map::V3, D9_map::V4, D9_map::V5, D9_map::V6, D9_map::V7, D9_map::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D9_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_deny { const NAME: &'static str = "D9_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D9_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_deny::V0, D9_deny::V1, D9_deny::V2, D9_deny::V3, D9_deny::V4, D9_deny::V5, D9_deny::V6, D9_deny::V7, D9_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D9_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_array_deny { const NAME: &'static str = "D9_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D9_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_array_deny::V0, D9_array_deny::V1, D9_array_deny::V2, D9_array_deny::V3, D9_array_deny::V4, D9_array_deny::V5, D9_array_deny::V6, D9_array_deny::V7, D9_array_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum D9_u16_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u16_deny { const NAME: &'static str = "D9_u16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum D9_u16_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u16_deny::V0, D9_u16_deny::V1, D9_u16_deny::V2, D9_u16_deny::V3, D9_u16_deny::V4, D9_u16_deny::V5, D9_u16_deny::V6, D9_u16_deny::V7, D9_u16_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum D9_u32_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u32_deny { const NAME: &'static str = "D9_u32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum D9_u32_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u32_deny::V0, D9_u32_deny::V1, D9_u32_deny::V2, D9_u32_deny::V3, D9_u32_deny::V4, D9_u32_deny::V5, D9_u32_deny::V6, D9_u32_deny::V7, D9_u32_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum D9_u64_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u64_deny { const NAME: &'static str = "D9_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum D9_u64_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u64_deny::V0, D9_u64_deny::V1, D9_u64_deny::V2, D9_u64_deny::V3, D9_u64_deny::V4, D9_u64_deny::V5, D9_u64_deny::V6, D9_u64_deny::V7, D9_u64_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D9_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_u128_deny { const NAME: &'static str = "D9_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D9_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_u128_deny::V0, D9_u128_deny::V1, D9_u128_deny::V2, D9_u128_deny::V3, D9_u128_deny::V4, D9_u128_deny::V5, D9_u128_deny::V6, D9_u128_deny::V7, D9_u128_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum D9_list_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_list_deny { const NAME: &'static str = "D9_list_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum D9_list_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_list_deny::V0, D9_list_deny::V1, D9_list_deny::V2, D9_list_deny::V3, D9_list_deny::V4, D9_list_deny::V5, D9_list_deny::V6, D9_list_deny::V7, D9_list_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum D9_map_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }
impl SCat for D9_map_deny { const NAME: &'static str = "D9_map_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum D9_map_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8]; const VARS: &'static [Self] = &[D9_map_deny::V0, D9_map_deny::V1, D9_map_deny::V2, D9_map_deny::V3, D9_map_deny::V4, D9_map_deny::V5, D9_map_deny::V6, D9_map_deny::V7, D9_map_deny::V8]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }
impl SCat for D16 { const NAME: &'static str = "D16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[D16::V0, D16::V1, D16::V2, D16::V3, D16::V4, D16::V5, D16::V6, D16::V7, D16::V8, D16::V9, D16::V10, D16::V11, D16::V12, D16::V13, D16::V14, D16::V15]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D16_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }
impl SCat for D16_array { const NAME: &'static str = "D16_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D16_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[D16_array::V0, D16_array::V1, D16_array::V2, D16_array::V3, D16_array::V4, D16_array::V5, D16_array::V6, D16_array::V7, D16_array::V8, D16_array::V9, D16_array::V10, D16_array::V11, D16_array::V12, D16_array::V13, D16_array::V14, D16_array::V15]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D16_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }
impl SCat for D16_u128 { const NAME: &'static str = "D16_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D16_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[D16_u128::V0, D16_u128::V1, D16_u128::V2, D16_u128::V3, D16_u128::V4, D16_u128::V5, D16_u128::V6, D16_u128::V7, D16_u128::V8, D16_u128::V9, D16_u128::V10, D16_u128::V11, D16_u128::V12, D16_u128::V13, D16_u128::V14, D16_u128::V15]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D16_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }
impl SCat for D16_deny { const NAME: &'static str = "D16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D16_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[D16_deny::V0, D16_deny::V1, D16_deny::V2, D16_deny::V3, D16_deny::V4, D16_deny::V5, D16_deny::V6, D16_deny::V7, D16_deny::V8, D16_deny::V9, D16_deny::V10, D16_deny::V11, D16_deny::V12, D16_deny::V13, D16_deny::V14, D16_deny::V15]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D16_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }
impl SCat for D16_array_deny { const NAME: &'static str = "D16_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D16_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[D16_array_deny::V0, D16_array_deny::V1, D16_array_deny::V2, D16_array_deny::V3, D16_array_deny::V4, D16_array_deny::V5, D16_array_deny::V6, D16_array_deny::V7, D16_array_deny::V8, D16_array_deny::V9, D16_array_deny::V10, D16_array_deny::V11, D16_array_deny::V12, D16_array_deny::V13, D16_array_deny::V14, D16_array_deny::V15]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D16_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }
impl SCat for D16_u128_deny { const NAME: &'static str = "D16_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D16_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[D16_u128_deny::V0, D16_u128_deny::V1, D16_u128_deny::V2, D16_u128_deny::V3, D16_u128_deny::V4, D16_u128_deny::V5, D16_u128_deny::V6, D16_u128_deny::V7, D16_u128_deny::V8, D16_u128_deny::V9, D16_u128_deny::V10, D16_u128_deny::V11, D16_u128_deny::V12, D16_u128_deny::V13, D16_u128_deny::V14, D16_u128_deny::V15]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D33 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }
impl SCat for D33 { const NAME: &'static str = "D33"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D33 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]; const VARS: &'static [Self] = &[D33::V0, D33::V1, D33::V2, D33::V3, D33::V4, D33::V5, D33::V6, D33::V7, D33::V8, D33::V9, D33::V10, D33::V11, D33::V12, D33::V13, D33::V14, D33::V15, D33::V16, D33::V17, D33::V18, D33::V19, D33::V20, D33::V21, D33::V22, D33::V23, D33::V24, D33::V25, D33::V26, D33::V27, D33::V28, D33::V29, D33::V30, D33::V31, D33::V32]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D33_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }
impl SCat for D33_array { const NAME: &'static str = "D33_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D33_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]; const VARS: &'static [Self] = &[D33_array::V0, D33_array::V1, D33_array::V2, D33_array::V3, D33_array::V4, D33_array::V5, D33_array::V6, D33_array::V7, D33_array::V8, D33_array::V9, D33_array::V10, D33_array::V11, D33_array::V12, D33_array::V13, D33_array::V14, D33_array::V15, D33_array::V16, D33_array::V17, D33_array::V18, D33_array::V19, D33_array::V20, D33_array::V21, D33_array::V22, D33_array::V23, D33_array::V24, D33_array::V25, D33_array::V26, D33_array::V27, D33_array::V28, D33_array::V29, D33_array::V30, D33_array::V31, D33_array::V32]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D33_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }
impl SCat for D33_u128 { const NAME: &'static str = "D33_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D33_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]; const VARS: &'static [Self] = &[D33_u128::V0, D33_u128::V1, D33_u128::V2, D33_u128::V3, D33_u128::V4, D33_u128::V5, D33_u128::V6, D33_u128::V7, D33_u128::V8, D33_u128::V9, D33_u128::V10, D33_u128::V11, D33_u128::V12, D33_u128::V13, D33_u128::V14, D33_u128::V15, D33_u128::V16, D33_u128::V17, D33_u128::V18, D33_u128::V19, D33_u128::V20, D33_u128::V21, D33_u128::V22, D33_u128::V23, D33_u128::V24, D33_u128::V25, D33_u128::V26, D33_u128::V27, D33_u128::V28, D33_u128::V29, D33_u128::V30, D33_u128::V31, D33_u128::V32]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D33_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }
impl SCat for D33_deny { const NAME: &'static str = "D33_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D33_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]; const VARS: &'static [Self] = &[D33_deny::V0, D33_deny::V1, D33_deny::V2, D33_deny::V3, D33_deny::V4, D33_deny::V5, D33_deny::V6, D33_deny::V7, D33_deny::V8, D33_deny::V9, D33_deny::V10, D33_deny::V11, D33_deny::V12, D33_deny::V13, D33_deny::V14, D33_deny::V15, D33_deny::V16, D33_deny::V17, D33_deny::V18, D33_deny::V19, D33_deny::V20, D33_deny::V21, D33_deny::V22, D33_deny::V23, D33_deny::V24, D33_deny::V25, D33_deny::V26, D33_deny::V27, D33_deny::V28, D33_deny::V29, D33_deny::V30, D33_deny::V31, D33_deny::V32]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D33_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }
impl SCat for D33_array_deny { const NAME: &'static str = "D33_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D33_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]; const VARS: &'static [Self] = &[D33_array_deny::V0, D33_array_deny::V1, D33_array_deny::V2, D33_array_deny::V3, D33_array_deny::V4, D33_array_deny::V5, D33_array_deny::V6, D33_array_deny::V7, D33_array_deny::V8, D33_array_deny::V9, D33_array_deny::V10, D33_array_deny::V11, D33_array_deny::V12, D33_array_deny::V13, D33_array_deny::V14, D33_array_deny::V15, D33_array_deny::V16, D33_array_deny::V17, D33_array_deny::V18, D33_array_deny::V19, D33_array_deny::V20, D33_array_deny::V21, D33_array_deny::V22, D33_array_deny::V23, D33_array_deny::V24, D33_array_deny::V25, D33_array_deny::V26, D33_array_deny::V27, D33_array_deny::V28, D33_array_deny::V29, D33_array_deny::V30, D33_array_deny::V31, D33_array_deny::V32]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D33_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32 }
impl SCat for D33_u128_deny { const NAME: &'static str = "D33_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D33_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]; const VARS: &'static [Self] = &[D33_u128_deny::V0, D33_u128_deny::V1, D33_u128_deny::V2, D33_u128_deny::V3, D33_u128_deny::V4, D33_u128_deny::V5, D33_u128_deny::V6, D33_u128_deny::V7, D33_u128_deny::V8, D33_u128_deny::V9, D33_u128_deny::V10, D33_u128_deny::V11, D33_u128_deny::V12, D33_u128_deny::V13, D33_u128_deny::V14, D33_u128_deny::V15, D33_u128_deny::V16, D33_u128_deny::V17, D33_u128_deny::V18, D33_u128_deny::V19, D33_u128_deny::V20, D33_u128_deny::V21, D33_u128_deny::V22, D33_u128_deny::V23, D33_u128_deny::V24, D33_u128_deny::V25, D33_u128_deny::V26, D33_u128_deny::V27, D33_u128_deny::V28, D33_u128_deny::V29, D33_u128_deny::V30, D33_u128_deny::V31, D33_u128_deny::V32]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 }
impl SCat for D64 { const NAME: &'static str = "D64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[D64::V0, D64::V1, D64::V2, D64::V3, D64::V4, D64::V5, D64::V6, D64::V7, D64::V8, D64::V9, D64::V10, D64::V11, D64::V12, D64::V13, D64::V14, D64::V15, D64::V16, D64::V17, D64::V18, D64::V19, D64::V20, D64::V21, D64::V22, D64::V23, D64::V24, D64::V25, D64::V26, D64::V27, D64::V28, D64::V29, D64::V30, D64::V31, D64::V32, D64::V33, D64::V34, D64::V35, D64::V36, D64::V37, D64::V38, D64::V39, D64::V40, D64::V41, D64::V42, D64::V43, D64::V44, D64::V45, D64::V46, D64::V47, D64::V48, D64::V49, D64::V50, D64::V51, D64::V52, D64::V53, D64::V54, D64::V55, D64::V56, D64::V57, D64::V58, D64::V59, D64::V60, D64::V61, D64::V62, D64::V63]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D64_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 }
impl SCat for D64_array { const NAME: &'static str = "D64_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D64_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[D64_array::V0, D64_array::V1, D64_array::V2, D64_array::V3, D64_array::V4, D64_array::V5, D64_array::V6, D64_array::V7, D64_array::V8, D64_array::V9, D64_array::V10, D64_array::V11, D64_array::V12, D64_array::V13, D64_array::V14, D64_array::V15, D64_array::V16, D64_array::V17, D64_array::V18, D64_array::V19, D64_array::V20, D64_array::V21, D64_array::V22, D64_array::V23, D64_array::V24, D64_array::V25, D64_array::V26, D64_array::V27, D64_array::V28, D64_array::V29, D64_array::V30, D64_array::V31, D64_array::V32, D64_array::V33, D64_array::V34, D64_array::V35, D64_array::V36, D64_array::V37, D64_array::V38, D64_array::V39, D64_array::V40, D64_array::V41, D64_array::V42, D64_array::V43, D64_array::V44, D64_array::V45, D64_array::V46, D64_array::V47, D64_array::V48, D64_array::V49, D64_array::V50, D64_array::V51, D64_array::V52, D64_array::V53, D64_array::V54, D64_array::V55, D64_array::V56, D64_array::V57, D64_array::V58, D64_array::V59, D64_array::V60, D64_array::V61, D64_array::V62, D64_array::V63]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D64_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 }
impl SCat for D64_u128 { const NAME: &'static str = "D64_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D64_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[D64_u128::V0, D64_u128::V1, D64_u128::V2, D64_u128::V3, D64_u128::V4, D64_u128::V5, D64_u128::V6, D64_u128::V7, D64_u128::V8, D64_u128::V9, D64_u128::V10, D64_u128::V11, D64_u128::V12, D64_u128::V13, D64_u128::V14, D64_u128::V15, D64_u128::V16, D64_u128::V17, D64_u128::V18, D64_u128::V19, D64_u128::V20, D64_u128::V21, D64_u128::V22, D64_u128::V23, D64_u128::V24, D64_u128::V25, D64_u128::V26, D64_u128::V27, D64_u128::V28, D64_u128::V29, D64_u128::V30, D64_u128::V31, D64_u128::V32, D64_u128::V33, D64_u128::V34, D64_u128::V35, D64_u128::V36, D64_u128::V37, D64_u128::V38, D64_u128::V39, D64_u128::V40, D64_u128::V41, D64_u128::V42, D64_u128::V43, D64_u128::V44, D64_u128::V45, D64_u128::V46, D64_u128::V47, D64_u128::V48, D64_u128::V49, D64_u128::V50, D64_u128::V51, D64_u128::V52, D64_u128::V53, D64_u128::V54, D64_u128::V55, D64_u128::V56, D64_u128::V57, D64_u128::V58, D64_u128::V59, D64_u128::V60, D64_u128::V61, D64_u128::V62, D64_u128::V63]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D64_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 }
impl SCat for D64_deny { const NAME: &'static str = "D64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D64_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[D64_deny::V0, D64_deny::V1, D64_deny::V2, D64_deny::V3, D64_deny::V4, D64_deny::V5, D64_deny::V6, D64_deny::V7, D64_deny::V8, D64_deny::V9, D64_deny::V10, D64_deny::V11, D64_deny::V12, D64_deny::V13, D64_deny::V14, D64_deny::V15, D64_deny::V16, D64_deny::V17, D64_deny::V18, D64_deny::V19, D64_deny::V20, D64_deny::V21, D64_deny::V22, D64_deny::V23, D64_deny::V24, D64_deny::V25, D64_deny::V26, D64_deny::V27, D64_deny::V28, D64_deny::V29, D64_deny::V30, D64_deny::V31, D64_deny::V32, D64_deny::V33, D64_deny::V34, D64_deny::V35, D64_deny::V36, D64_deny::V37, D64_deny::V38, D64_deny::V39, D64_deny::V40, D64_deny::V41, D64_deny::V42, D64_deny::V43, D64_deny::V44, D64_deny::V45, D64_deny::V46, D64_deny::V47, D64_deny::V48, D64_deny::V49, D64_deny::V50, D64_deny::V51, D64_deny::V52, D64_deny::V53, D64_deny::V54, D64_deny::V55, D64_deny::V56, D64_deny::V57, D64_deny::V58, D64_deny::V59, D64_deny::V60, D64_deny::V61, D64_deny::V62, D64_deny::V63]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D64_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 }
impl SCat for D64_array_deny { const NAME: &'static str = "D64_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D64_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[D64_array_deny::V0, D64_array_deny::V1, D64_array_deny::V2, D64_array_deny::V3, D64_array_deny::V4, D64_array_deny::V5, D64_array_deny::V6, D64_array_deny::V7, D64_array_deny::V8, D64_array_deny::V9, D64_array_deny::V10, D64_array_deny::V11, D64_array_deny::V12, D64_array_deny::V13, D64_array_deny::V14, D64_array_deny::V15, D64_array_deny::V16, D64_array_deny::V17, D64_array_deny::V18, D64_array_deny::V19, D64_array_deny::V20, D64_array_deny::V21, D64_array_deny::V22, D64_array_deny::V23, D64_array_deny::V24, D64_array_deny::V25, D64_array_deny::V26, D64_array_deny::V27, D64_array_deny::V28, D64_array_deny::V29, D64_array_deny::V30, D64_array_deny::V31, D64_array_deny::V32, D64_array_deny::V33, D64_array_deny::V34, D64_array_deny::V35, D64_array_deny::V36, D64_array_deny::V37, D64_array_deny::V38, D64_array_deny::V39, D64_array_deny::V40, D64_array_deny::V41, D64_array_deny::V42, D64_array_deny::V43, D64_array_deny::V44, D64_array_deny::V45, D64_array_deny::V46, D64_array_deny::V47, D64_array_deny::V48, D64_array_deny::V49, D64_array_deny::V50, D64_array_deny::V51, D64_array_deny::V52, D64_array_deny::V53, D64_array_deny::V54, D64_array_deny::V55, D64_array_deny::V56, D64_array_deny::V57, D64_array_deny::V58, D64_array_deny::V59, D64_array_deny::V60, D64_array_deny::V61, D64_array_deny::V62, D64_array_deny::V63]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D64_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 }
impl SCat for D64_u128_deny { const NAME: &'static str = "D64_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D64_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[D64_u128_deny::V0, D64_u128_deny::V1, D64_u128_deny::V2, D64_u128_deny::V3, D64_u128_deny::V4, D64_u128_deny::V5, D64_u128_deny::V6, D64_u128_deny::V7, D64_u128_deny::V8, D64_u128_deny::V9, D64_u128_deny::V10, D64_u128_deny::V11, D64_u128_deny::V12, D64_u128_deny::V13, D64_u128_deny::V14, D64_u128_deny::V15, D64_u128_deny::V16, D64_u128_deny::V17, D64_u128_deny::V18, D64_u128_deny::V19, D64_u128_deny::V20, D64_u128_deny::V21, D64_u128_deny::V22, D64_u128_deny::V23, D64_u128_deny::V24, D64_u128_deny::V25, D64_u128_deny::V26, D64_u128_deny::V27, D64_u128_deny::V28, D64_u128_deny::V29, D64_u128_deny::V30, D64_u128_deny::V31, D64_u128_deny::V32, D64_u128_deny::V33, D64_u128_deny::V34, D64_u128_deny::V35, D64_u128_deny::V36, D64_u128_deny::V37, D64_u128_deny::V38, D64_u128_deny::V39, D64_u128_deny::V40, D64_u128_deny::V41, D64_u128_deny::V42, D64_u128_deny::V43, D64_u128_deny::V44, D64_u128_deny::V45, D64_u128_deny::V46, D64_u128_deny::V47, D64_u128_deny::V48, D64_u128_deny::V49, D64_u128_deny::V50, D64_u128_deny::V51, D64_u128_deny::V52, D64_u128_deny::V53, D64_u128_deny::V54, D64_u128_deny::V55, D64_u128_deny::V56, D64_u128_deny::V57, D64_u128_deny::V58, D64_u128_deny::V59, D64_u128_deny::V60, D64_u128_deny::V61, D64_u128_deny::V62, D64_u128_deny::V63]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D65 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65 { const NAME: &'static str = "D65"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D65 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65::V0, D65::V1, D65::V2, D65::V3, D65::V4, D65::V5, D65::V6, D65::V7, D65::V8, D65::V9, D65::V10, D65::V11, D65::V12, D65::V13, D65::V14, D65::V15, D65::V16, D65::V17, D65::V18, D65::V19, D65::V20, D65::V21, D65::V22, D65::V23, D65::V24, D65::V25, D65::V26, D65::V27, D65::V28, D65::V29, D65::V30, D65::V31, D65::V32, D65::V33, D65::V34, D65::V35, D65::V36, D65::V37, D65::V38, D65::V39, D65::V40, D65::V41, D65::V42, D65::V43, D65::V44, D65::V45, D65::V46, D65::V47, D65::V48, D65::V49, D65::V50, D65::V51, D65::V52, D65::V53, D65::V54, D65::V55, D65::V56, D65::V57, D65::V58, D65::V59, D65::V60, D65::V61, D65::V62, D65::V63, D65::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D65_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_array { const NAME: &'static str = "D65_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D65_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_array::V0, D65_array::V1, D65_array::V2, D65_array::V3, D65_array::V4, D65_array::V5, D65_array::V6, D65_array::V7, D65_array::V8, D65_array::V9, D65_array::V10, D65_array::V11, D65_array::V12, D65_array::V13, D65_array::V14, D65_array::V15, D65_array::V16, D65_array::V17, D65_array::V18, D65_array::V19, D65_array::V20, D65_array::V21, D65_array::V22, D65_array::V23, D65_array::V24, D65_array::V25, D65_array::V26, D65_array::V27, D65_array::V28, D65_array::V29, D65_array::V30, D65_array::V31, D65_array::V32, D65_array::V33, D65_array::V34, D65_array::V35, D65_array::V36, D65_array::V37, D65_array::V38, D65_array::V39, D65_array::V40, D65_array::V41, D65_array::V42, D65_array::V43, D65_array::V44, D65_array::V45, D65_array::V46, D65_array::V47, D65_array::V48, D65_array::V49, D65_array::V50, D65_array::V51, D65_array::V52, D65_array::V53, D65_array::V54, D65_array::V55, D65_array::V56, D65_array::V57, D65_array::V58, D65_array::V59, D65_array::V60, D65_array::V61, D65_array::V62, D65_array::V63, D65_array::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D65_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_u128 { const NAME: &'static str = "D65_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D65_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_u128::V0, D65_u128::V1, D65_u128::V2, D65_u128::V3, D65_u128::V4, D65_u128::V5, D65_u128::V6, D65_u128::V7, D65_u128::V8, D65_u128::V9, D65_u128::V10, D65_u128::V11, D65_u128::V12, D65_u128::V13, D65_u128::V14, D65_u128::V15, D65_u128::V16, D65_u128::V17, D65_u128::V18, D65_u128::V19, D65_u128::V20, D65_u128::V21, D65_u128::V22, D65_u128::V23, D65_u128::V24, D65_u128::V25, D65_u128::V26, D65_u128::V27, D65_u128::V28, D65_u128::V29, D65_u128::V30, D65_u128::V31, D65_u128::V32, D65_u128::V33, D65_u128::V34, D65_u128::V35, D65_u128::V36, D65_u128::V37, D65_u128::V38, D65_u128::V39, D65_u128::V40, D65_u128::V41, D65_u128::V42, D65_u128::V43, D65_u128::V44, D65_u128::V45, D65_u128::V46, D65_u128::V47, D65_u128::V48, D65_u128::V49, D65_u128::V50, D65_u128::V51, D65_u128::V52, D65_u128::V53, D65_u128::V54, D65_u128::V55, D65_u128::V56, D65_u128::V57, D65_u128::V58, D65_u128::V59, D65_u128::V60, D65_u128::V61, D65_u128::V62, D65_u128::V63, D65_u128::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D65_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_list { const NAME: &'static str = "D65_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D65_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_list::V0, D65_list::V1, D65_list::V2, D65_list::V3, D65_list::V4, D65_list::V5, D65_list::V6, D65_list::V7, D65_list::V8, D65_list::V9, D65_list::V10, D65_list::V11, D65_list::V12, D65_list::V13, D65_list::V14, D65_list::V15, D65_list::V16, D65_list::V17, D65_list::V18, D65_list::V19, D65_list::V20, D65_list::V21, D65_list::V22, D65_list::V23, D65_list::V24, D65_list::V25, D65_list::V26, D65_list::V27, D65_list::V28, D65_list::V29, D65_list::V30, D65_list::V31, D65_list::V32, D65_list::V33, D65_list::V34, D65_list::V35, D65_list::V36, D65_list::V37, D65_list::V38, D65_list::V39, D65_list::V40, D65_list::V41, D65_list::V42, D65_list::V43, D65_list::V44, D65_list::V45, D65_list::V46, D65_list::V47, D65_list::V48, D65_list::V49, D65_list::V50, D65_list::V51, D65_list::V52, D65_list::V53, D65_list::V54, D65_list::V55, D65_list::V56, D65_list::V57, D65_list::V58, D65_list::V59, D65_list::V60, D65_list::V61, D65_list::V62, D65_list::V63, D65_list::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D65_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_map { const NAME: &'static str = "D65_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D65_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V2 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_map::V0, D65_map::V1, D65_map::V2, D65_map::V3, D65_map::V4, D65_map::V5, D65_map::V6, D65_map::V7, D65_map::V8, D65_map::V9, D65_map::V10, D65_map::V11, D65_map::V12, D65_map::V13, D65_map::V14, D65_map::V15, D65_map::V16, D65_map::V17, D65_map::V18, D65_map::V19, D65_map::V20, D65_map::V21, D65_map::V22, D65_map::V23, D65_map::V24, D65_map::V25, D65_map::V26, D65_map::V27, D65_map::V28, D65_map::V29, D65_map::V30, D65_map::V31, D65_map::V32, D65_map::V33, D65_map::V34, D65_map::V35, D65_map::V36, D65_map::V37, D65_map::V38, D65_map::V39, D65_map::V40, D65_map::V41, D65_map::V42, D65_map::V43, D65_map::V44, D65_map::V45, D65_map::V46, D65_map::V47, D65_map::V48, D65_map::V49, D65_map::V50, D65_map::V51, D65_map::V52, D65_map::V53, D65_map::V54, D65_map::V55, D65_map::V56, D65_map::V57, D65_map::V58, D65_map::V59, D65_map::V60, D65_map::V61, D65_map::V62, D65_map::V63, D65_map::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D65_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_deny { const NAME: &'static str = "D65_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D65_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_deny::V0, D65_deny::V1, D65_deny::V2, D65_deny::V3, D65_deny::V4, D65_deny::V5, D65_deny::V6, D65_deny::V7, D65_deny::V8, D65_deny::V9, D65_deny::V10, D65_deny::V11, D65_deny::V12, D65_deny::V13, D65_deny::V14, D65_deny::V15, D65_deny::V16, D65_deny::V17, D65_deny::V18, D65_deny::V19, D65_deny::V20, D65_deny::V21, D65_deny::V22, D65_deny::V23, D65_deny::V24, D65_deny::V25, D65_deny::V26, D65_deny::V27, D65_deny::V28, D65_deny::V29, D65_deny::V30, D65_deny::V31, D65_deny::V32, D65_deny::V33, D65_deny::V34, D65_deny::V35, D65_deny::V36, D65_deny::V37, D65_deny::V38, D65_deny::V39, D65_deny::V40, D65_deny::V41, D65_deny::V42, D65_deny::V43, D65_deny::V44, D65_deny::V45, D65_deny::V46, D65_deny::V47, D65_deny::V48, D65_deny::V49, D65_deny::V50, D65_deny::V51, D65_deny::V52, D65_deny::V53, D65_deny::V54, D65_deny::V55, D65_deny::V56, D65_deny::V57, D65_deny::V58, D65_deny::V59, D65_deny::V60, D65_deny::V61, D65_deny::V62, D65_deny::V63, D65_deny::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D65_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_array_deny { const NAME: &'static str = "D65_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D65_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_array_deny::V0, D65_array_deny::V1, D65_array_deny::V2, D65_array_deny::V3, D65_array_deny::V4, D65_array_deny::V5, D65_array_deny::V6, D65_array_deny::V7, D65_array_deny::V8, D65_array_deny::V9, D65_array_deny::V10, D65_array_deny::V11, D65_array_deny::V12, D65_array_deny::V13, D65_array_deny::V14, D65_array_deny::V15, D65_array_deny::V16, D65_array_deny::V17, D65_array_deny::V18, D65_array_deny::V19, D65_array_deny::V20, D65_array_deny::V21, D65_array_deny::V22, D65_array_deny::V23, D65_array_deny::V24, D65_array_deny::V25, D65_array_deny::V26, D65_array_deny::V27, D65_array_deny::V28, D65_array_deny::V29, D65_array_deny::V30, D65_array_deny::V31, D65_array_deny::V32, D65_array_deny::V33, D65_array_deny::V34, D65_array_deny::V35, D65_array_deny::V36, D65_array_deny::V37, D65_array_deny::V38, D65_array_deny::V39, D65_array_deny::V40, D65_array_deny::V41, D65_array_deny::V42, D65_array_deny::V43, D65_array_deny::V44, D65_array_deny::V45, D65_array_deny::V46, D65_array_deny::V47, D65_array_deny::V48, D65_array_deny::V49, D65_array_deny::V50, D65_array_deny::V51, D65_array_deny::V52, D65_array_deny::V53, D65_array_deny::V54, D65_array_deny::V55, D65_array_deny::V56, D65_array_deny::V57, D65_array_deny::V58, D65_array_deny::V59, D65_array_deny::V60, D65_array_deny::V61, D65_array_deny::V62, D65_array_deny::V63, D65_array_deny::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D65_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64 }
impl SCat for D65_u128_deny { const NAME: &'static str = "D65_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D65_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]; const VARS: &'static [Self] = &[D65_u128_deny::V0, D65_u128_deny::V1, D65_u128_deny::V2, D65_u128_deny::V3, D65_u128_deny::V4, D65_u128_deny::V5, D65_u128_deny::V6, D65_u128_deny::V7, D65_u128_deny::V8, D65_u128_deny::V9, D65_u128_deny::V10, D65_u128_deny::V11, D65_u128_deny::V12, D65_u128_deny::V13, D65_u128_deny::V14, D65_u128_deny::V15, D65_u128_deny::V16, D65_u128_deny::V17, D65_u128_deny::V18, D65_u128_deny::V19, D65_u128_deny::V20, D65_u128_deny::V21, D65_u128_deny::V22, D65_u128_deny::V23, D65_u128_deny::V24, D65_u128_deny::V25, D65_u128_deny::V26, D65_u128_deny::V27, D65_u128_deny::V28, D65_u128_deny::V29, D65_u128_deny::V30, D65_u128_deny::V31, D65_u128_deny::V32, D65_u128_deny::V33, D65_u128_deny::V34, D65_u128_deny::V35, D65_u128_deny::V36, D65_u128_deny::V37, D65_u128_deny::V38, D65_u128_deny::V39, D65_u128_deny::V40, D65_u128_deny::V41, D65_u128_deny::V42, D65_u128_deny::V43, D65_u128_deny::V44, D65_u128_deny::V45, D65_u128_deny::V46, D65_u128_deny::V47, D65_u128_deny::V48, D65_u128_deny::V49, D65_u128_deny::V50, D65_u128_deny::V51, D65_u128_deny::V52, D65_u128_deny::V53, D65_u128_deny::V54, D65_u128_deny::V55, D65_u128_deny::V56, D65_u128_deny::V57, D65_u128_deny::V58, D65_u128_deny::V59, D65_u128_deny::V60, D65_u128_deny::V61, D65_u128_deny::V62, D65_u128_deny::V63, D65_u128_deny::V64]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127 }
impl SCat for D128 { const NAME: &'static str = "D128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[D128::V0, D128::V1, D128::V2, D128::V3, D128::V4, D128::V5, D128::V6, D128::V7, D128::V8, D128::V9, D128::V10, D128::V11, D128::V12, D128::V13, D128::V14, D128::V15, D128::V16, D128::V17, D128::V18, D128::V19, D128::V20, D128::V21, D128::V22, D128::V23, D128::V24, D128::V25, D128::V26, D128::V27, D128::V28, D128::V29, D128::V30, D128::V31, D128::V32, D128::V33, D128::V34, D128::V35, D128::V36, D128::V37, D128::V38, D128::V39, D128::V40, D128::V41, D128::V42, D128::V43, D128::V44, D128::V45, D128::V46, D128::V47, D128::V48, D128::V49, D128::V50, D128::V51, D128::V52, D128::V53, D128::V54, D128::V55, D128::V56, D128::V57, D128::V58, D128::V59, D128::V60, D128::V61, D128::V62, D128::V63, D128::V64, D128::V65, D128::V66, D128::V67, D128::V68, D128::V69, D128::V70, D128::V71, D128::V72, D128::V73, D128::V74, D128::V75, D128::V76, D128::V77, D128::V78, D128::V79, D128::V80, D128::V81, D128::V82, D128::V83, D128::V84, D128::V85, D128::V86, D128::V87, D128::V88, D128::V89, D128::V90, D128::V91, D128::V92, D128::V93, D128::V94, D128::V95, D128::V96, D128::V97, D128::V98, D128::V99, D128::V100, D128::V101, D128::V102, D128::V103, D128::V104, D128::V105, D128::V106, D128::V107, D128::V108, D128::V109, D128::V110, D128::V111, D128::V112, D128::V113, D128::V114, D128::V115, D128::V116, D128::V117, D128::V118, D128::V119, D128::V120, D128::V121, D128::V122, D128::V123, D128::V124, D128::V125, D128::V126, D128::V127]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D128_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127 }
impl SCat for D128_array { const NAME: &'static str = "D128_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D128_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[D128_array::V0, D128_array::V1, D128_array::V2, D128_array::V3, D128_array::V4, D128_array::V5, D128_array::V6, D128_array::V7, D128_array::V8, D128_array::V9, D128_array::V10, D128_array::V11, D128_array::V12, D128_array::V13, D128_array::V14, D128_array::V15, D128_array::V16, D128_array::V17, D128_array::V18, D128_array::V19, D128_array::V20, D128_array::V21, D128_array::V22, D128_array::V23, D128_array::V24, D128_array::V25, D128_array::V26, D128_array::V27, D128_array::V28, D128_array::V29, D128_array::V30, D128_array::V31, D128_array::V32, D128_array::V33, D128_array::V34, D128_array::V35, D128_array::V36, D128_array::V37, D128_array::V38, D128_array::V39, D128_array::V40, D128_array::V41, D128_array::V42, D128_array::V43, D128_array::V44, D128_array::V45, D128_array::V46, D128_array::V47, D128_array::V48, D128_array::V49, D128_array::V50, D128_array::V51, D128_array::V52, D128_array::V53, D128_array::V54, D128_array::V55, D128_array::V56, D128_array::V57, D128_array::V58, D128_array::V59, D128_array::V60, D128_array::V61, D128_array::V62, D128_array::V63, D128_array::V64, D128_array::V65, D128_array::V66, D128_array::V67, D128_array::V68, D128_array::V69, D128_array::V70, D128_array::V71, D128_array::V72, D128_array::V73, D128_array::V74, D128_array::V75, D128_array::V76, D128_array::V77, D128_array::V78, D128_array::V79, D128_array::V80, D128_array::V81, D128_array::V82, D128_array::V83, D128_array::V84, D128_array::V85, D128_array::V86, D128_array::V87, D128_array::V88, D128_array::V89, D128_array::V90, D128_array::V91, D128_array::V92, D128_array::V93, D128_array::V94, D128_array::V95, D128_array::V96, D128_array::V97, D128_array::V98, D128_array::V99, D128_array::V100, D128_array::V101, D128_array::V102, D128_array::V103, D128_array::V104, D128_array::V105, D128_array::V106, D128_array::V107, D128_array::V108, D128_array::V109, D128_array::V110, D128_array::V111, D128_array::V112, D128_array::V113, D128_array::V114, D128_array::V115, D128_array::V116, D128_array::V117, D128_array::V118, D128_array::V119, D128_array::V120, D128_array::V121, D128_array::V122, D128_array::V123, D128_array::V124, D128_array::V125, D128_array::V126, D128_array::V127]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D128_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127 }
impl SCat for D128_u128 { const NAME: &'static str = "D128_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum D128_u128 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[D128_u128::V0, D128_u128::V1, D128_u128::V2, D128_u128::V3, D128_u128::V4, D128_u128::V5, D128_u128::V6, D128_u128::V7, D128_u128::V8, D128_u128::V9, D128_u128::V10, D128_u128::V11, D128_u128::V12, D128_u128::V13, D128_u128::V14, D128_u128::V15, D128_u128::V16, D128_u128::V17, D128_u128::V18, D128_u128::V19, D128_u128::V20, D128_u128::V21, D128_u128::V22, D128_u128::V23, D128_u128::V24, D128_u128::V25, D128_u128::V26, D128_u128::V27, D128_u128::V28, D128_u128::V29, D128_u128::V30, D128_u128::V31, D128_u128::V32, D128_u128::V33, D128_u128::V34, D128_u128::V35, D128_u128::V36, D128_u128::V37, D128_u128::V38, D128_u128::V39, D128_u128::V40, D128_u128::V41, D128_u128::V42, D128_u128::V43, D128_u128::V44, D128_u128::V45, D128_u128::V46, D128_u128::V47, D128_u128::V48, D128_u128::V49, D128_u128::V50, D128_u128::V51, D128_u128::V52, D128_u128::V53, D128_u128::V54, D128_u128::V55, D128_u128::V56, D128_u128::V57, D128_u128::V58, D128_u128::V59, D128_u128::V60, D128_u128::V61, D128_u128::V62, D128_u128::V63, D128_u128::V64, D128_u128::V65, D128_u128::V66, D128_u128::V67, D128_u128::V68, D128_u128::V69, D128_u128::V70, D128_u128::V71, D128_u128::V72, D128_u128::V73, D128_u128::V74, D128_u128::V75, D128_u128::V76, D128_u128::V77, D128_u128::V78, D128_u128::V79, D128_u128::V80, D128_u128::V81, D128_u128::V82, D128_u128::V83, D128_u128::V84, D128_u128::V85, D128_u128::V86, D128_u128::V87, D128_u128::V88, D128_u128::V89, D128_u128::V90, D128_u128::V91, D128_u128::V92, D128_u128::V93, D128_u128::V94, D128_u128::V95, D128_u128::V96, D128_u128::V97, D128_u128::V98, D128_u128::V99, D128_u128::V100, D128_u128::V101, D128_u128::V102, D128_u128::V103, D128_u128::V104, D128_u128::V105, D128_u128::V106, D128_u128::V107, D128_u128::V108, D128_u128::V109, D128_u128::V110, D128_u128::V111, D128_u128::V112, D128_u128::V113, D128_u128::V114, D128_u128::V115, D128_u128::V116, D128_u128::V117, D128_u128::V118, D128_u128::V119, D128_u128::V120, D128_u128::V121, D128_u128::V122, D128_u128::V123, D128_u128::V124, D128_u128::V125, D128_u128::V126, D128_u128::V127]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127 }
impl SCat for D128_deny { const NAME: &'static str = "D128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[D128_deny::V0, D128_deny::V1, D128_deny::V2, D128_deny::V3, D128_deny::V4, D128_deny::V5, D128_deny::V6, D128_deny::V7, D128_deny::V8, D128_deny::V9, D128_deny::V10, D128_deny::V11, D128_deny::V12, D128_deny::V13, D128_deny::V14, D128_deny::V15, D128_deny::V16, D128_deny::V17, D128_deny::V18, D128_deny::V19, D128_deny::V20, D128_deny::V21, D128_deny::V22, D128_deny::V23, D128_deny::V24, D128_deny::V25, D128_deny::V26, D128_deny::V27, D128_deny::V28, D128_deny::V29, D128_deny::V30, D128_deny::V31, D128_deny::V32, D128_deny::V33, D128_deny::V34, D128_deny::V35, D128_deny::V36, D128_deny::V37, D128_deny::V38, D128_deny::V39, D128_deny::V40, D128_deny::V41, D128_deny::V42, D128_deny::V43, D128_deny::V44, D128_deny::V45, D128_deny::V46, D128_deny::V47, D128_deny::V48, D128_deny::V49, D128_deny::V50, D128_deny::V51, D128_deny::V52, D128_deny::V53, D128_deny::V54, D128_deny::V55, D128_deny::V56, D128_deny::V57, D128_deny::V58, D128_deny::V59, D128_deny::V60, D128_deny::V61, D128_deny::V62, D128_deny::V63, D128_deny::V64, D128_deny::V65, D128_deny::V66, D128_deny::V67, D128_deny::V68, D128_deny::V69, D128_deny::V70, D128_deny::V71, D128_deny::V72, D128_deny::V73, D128_deny::V74, D128_deny::V75, D128_deny::V76, D128_deny::V77, D128_deny::V78, D128_deny::V79, D128_deny::V80, D128_deny::V81, D128_deny::V82, D128_deny::V83, D128_deny::V84, D128_deny::V85, D128_deny::V86, D128_deny::V87, D128_deny::V88, D128_deny::V89, D128_deny::V90, D128_deny::V91, D128_deny::V92, D128_deny::V93, D128_deny::V94, D128_deny::V95, D128_deny::V96, D128_deny::V97, D128_deny::V98, D128_deny::V99, D128_deny::V100, D128_deny::V101, D128_deny::V102, D128_deny::V103, D128_deny::V104, D128_deny::V105, D128_deny::V106, D128_deny::V107, D128_deny::V108, D128_deny::V109, D128_deny::V110, D128_deny::V111, D128_deny::V112, D128_deny::V113, D128_deny::V114, D128_deny::V115, D128_deny::V116, D128_deny::V117, D128_deny::V118, D128_deny::V119, D128_deny::V120, D128_deny::V121, D128_deny::V122, D128_deny::V123, D128_deny::V124, D128_deny::V125, D128_deny::V126, D128_deny::V127]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D128_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127 }
impl SCat for D128_array_deny { const NAME: &'static str = "D128_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D128_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V2 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[D128_array_deny::V0, D128_array_deny::V1, D128_array_deny::V2, D128_array_deny::V3, D128_array_deny::V4, D128_array_deny::V5, D128_array_deny::V6, D128_array_deny::V7, D128_array_deny::V8, D128_array_deny::V9, D128_array_deny::V10, D128_array_deny::V11, D128_array_deny::V12, D128_array_deny::V13, D128_array_deny::V14, D128_array_deny::V15, D128_array_deny::V16, D128_array_deny::V17, D128_array_deny::V18, D128_array_deny::V19, D128_array_deny::V20, D128_array_deny::V21, D128_array_deny::V22, D128_array_deny::V23, D128_array_deny::V24, D128_array_deny::V25, D128_array_deny::V26, D128_array_deny::V27, D128_array_deny::V28, D128_array_deny::V29, D128_array_deny::V30, D128_array_deny::V31, D128_array_deny::V32, D128_array_deny::V33, D128_array_deny::V34, D128_array_deny::V35, D128_array_deny::V36, D128_array_deny::V37, D128_array_deny::V38, D128_array_deny::V39, D128_array_deny::V40, D128_array_deny::V41, D128_array_deny::V42, D128_array_deny::V43, D128_array_deny::V44, D128_array_deny::V45, D128_array_deny::V46, D128_array_deny::V47, D128_array_deny::V48, D128_array_deny::V49, D128_array_deny::V50, D128_array_deny::V51, D128_array_deny::V52, D128_array_deny::V53, D128_array_deny::V54, D128_array_deny::V55, D128_array_deny::V56, D128_array_deny::V57, D128_array_deny::V58, D128_array_deny::V59, D128_array_deny::V60, D128_array_deny::V61, D128_array_deny::V62, D128_array_deny::V63, D128_array_deny::V64, D128_array_deny::V65, D128_array_deny::V66, D128_array_deny::V67, D128_array_deny::V68, D128_array_deny::V69, D128_array_deny::V70, D128_array_deny::V71, D128_array_deny::V72, D128_array_deny::V73, D128_array_deny::V74, D128_array_deny::V75, D128_array_deny::V76, D128_array_deny::V77, D128_array_deny::V78, D128_array_deny::V79, D128_array_deny::V80, D128_array_deny::V81, D128_array_deny::V82, D128_array_deny::V83, D128_array_deny::V84, D128_array_deny::V85, D128_array_deny::V86, D128_array_deny::V87, D128_array_deny::V88, D128_array_deny::V89, D128_array_deny::V90, D128_array_deny::V91, D128_array_deny::V92, D128_array_deny::V93, D128_array_deny::V94, D128_array_deny::V95, D128_array_deny::V96, D128_array_deny::V97, D128_array_deny::V98, D128_array_deny::V99, D128_array_deny::V100, D128_array_deny::V101, D128_array_deny::V102, D128_array_deny::V103, D128_array_deny::V104, D128_array_deny::V105, D128_array_deny::V106, D128_array_deny::V107, D128_array_deny::V108, D128_array_deny::V109, D128_array_deny::V110, D128_array_deny::V111, D128_array_deny::V112, D128_array_deny::V113, D128_array_deny::V114, D128_array_deny::V115, D128_array_deny::V116, D128_array_deny::V117, D128_array_deny::V118, D128_array_deny::V119, D128_array_deny::V120, D128_array_deny::V121, D128_array_deny::V122, D128_array_deny::V123, D128_array_deny::V124, D128_array_deny::V125, D128_array_deny::V126, D128_array_deny::V127]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D128_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127 }
impl SCat for D128_u128_deny { const NAME: &'static str = "D128_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum D128_u128_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[D128_u128_deny::V0, D128_u128_deny::V1, D128_u128_deny::V2, D128_u128_deny::V3, D128_u128_deny::V4, D128_u128_deny::V5, D128_u128_deny::V6, D128_u128_deny::V7, D128_u128_deny::V8, D128_u128_deny::V9, D128_u128_deny::V10, D128_u128_deny::V11, D128_u128_deny::V12, D128_u128_deny::V13, D128_u128_deny::V14, D128_u128_deny::V15, D128_u128_deny::V16, D128_u128_deny::V17, D128_u128_deny::V18, D128_u128_deny::V19, D128_u128_deny::V20, D128_u128_deny::V21, D128_u128_deny::V22, D128_u128_deny::V23, D128_u128_deny::V24, D128_u128_deny::V25, D128_u128_deny::V26, D128_u128_deny::V27, D128_u128_deny::V28, D128_u128_deny::V29, D128_u128_deny::V30, D128_u128_deny::V31, D128_u128_deny::V32, D128_u128_deny::V33, D128_u128_deny::V34, D128_u128_deny::V35, D128_u128_deny::V36, D128_u128_deny::V37, D128_u128_deny::V38, D128_u128_deny::V39, D128_u128_deny::V40, D128_u128_deny::V41, D128_u128_deny::V42, D128_u128_deny::V43, D128_u128_deny::V44, D128_u128_deny::V45, D128_u128_deny::V46, D128_u128_deny::V47, D128_u128_deny::V48, D128_u128_deny::V49, D128_u128_deny::V50, D128_u128_deny::V51, D128_u128_deny::V52, D128_u128_deny::V53, D128_u128_deny::V54, D128_u128_deny::V55, D128_u128_deny::V56, D128_u128_deny::V57, D128_u128_deny::V58, D128_u128_deny::V59, D128_u128_deny::V60, D128_u128_deny::V61, D128_u128_deny::V62, D128_u128_deny::V63, D128_u128_deny::V64, D128_u128_deny::V65, D128_u128_deny::V66, D128_u128_deny::V67, D128_u128_deny::V68, D128_u128_deny::V69, D128_u128_deny::V70, D128_u128_deny::V71, D128_u128_deny::V72, D128_u128_deny::V73, D128_u128_deny::V74, D128_u128_deny::V75, D128_u128_deny::V76, D128_u128_deny::V77, D128_u128_deny::V78, D128_u128_deny::V79, D128_u128_deny::V80, D128_u128_deny::V81, D128_u128_deny::V82, D128_u128_deny::V83, D128_u128_deny::V84, D128_u128_deny::V85, D128_u128_deny::V86, D128_u128_deny::V87, D128_u128_deny::V88, D128_u128_deny::V89, D128_u128_deny::V90, D128_u128_deny::V91, D128_u128_deny::V92, D128_u128_deny::V93, D128_u128_deny::V94, D128_u128_deny::V95, D128_u128_deny::V96, D128_u128_deny::V97, D128_u128_deny::V98, D128_u128_deny::V99, D128_u128_deny::V100, D128_u128_deny::V101, D128_u128_deny::V102, D128_u128_deny::V103, D128_u128_deny::V104, D128_u128_deny::V105, D128_u128_deny::V106, D128_u128_deny::V107, D128_u128_deny::V108, D128_u128_deny::V109, D128_u128_deny::V110, D128_u128_deny::V111, D128_u128_deny::V112, D128_u128_deny::V113, D128_u128_deny::V114, D128_u128_deny::V115, D128_u128_deny::V116, D128_u128_deny::V117, D128_u128_deny::V118, D128_u128_deny::V119, D128_u128_deny::V120, D128_u128_deny::V121, D128_u128_deny::V122, D128_u128_deny::V123, D128_u128_deny::V124, D128_u128_deny::V125, D128_u128_deny::V126, D128_u128_deny::V127]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D129 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128 }
impl SCat for D129 { const NAME: &'static str = "D129"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D129 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128]; const VARS: &'static [Self] = &[D129::V0, D129::V1, D129::V2, D129::V3, D129::V4, D129::V5, D129::V6, D129::V7, D129::V8, D129::V9, D129::V10, D129::V11, D129::V12, D129::V13, D129::V14, D129::V15, D129::V16, D129::V17, D129::V18, D129::V19, D129::V20, D129::V21, D129::V22, D129::V23, D129::V24, D129::V25, D129::V26, D129::V27, D129::V28, D129::V29, D129::V30, D129::V31, D129::V32, D129::V33, D129::V34, D129::V35, D129::V36, D129::V37, D129::V38, D129::V39, D129::V40, D129::V41, D129::V42, D129::V43, D129::V44, D129::V45, D129::V46, D129::V47, D129::V48, D129::V49, D129::V50, D129::V51, D129::V52, D129::V53, D129::V54, D129::V55, D129::V56, D129::V57, D129::V58, D129::V59, D129::V60, D129::V61, D129::V62, D129::V63, D129::V64, D129::V65, D129::V66, D129::V67, D129::V68, D129::V69, D129::V70, D129::V71, D129::V72, D129::V73, D129::V74, D129::V75, D129::V76, D129::V77, D129::V78, D129::V79, D129::V80, D129::V81, D129::V82, D129::V83, D129::V84, D129::V85, D129::V86, D129::V87, D129::V88, D129::V89, D129::V90, D129::V91, D129::V92, D129::V93, D129::V94, D129::V95, D129::V96, D129::V97, D129::V98, D129::V99, D129::V100, D129::V101, D129::V102, D129::V103, D129::V104, D129::V105, D129::V106, D129::V107, D129::V108, D129::V109, D129::V110, D129::V111, D129::V112, D129::V113, D129::V114, D129::V115, D129::V116, D129::V117, D129::V118, D129::V119, D129::V120, D129::V121, D129::V122, D129::V123, D129::V124, D129::V125, D129::V126, D129::V127, D129::V128]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D129_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128 }
impl SCat for D129_array { const NAME: &'static str = "D129_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D129_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128]; const VARS: &'static [Self] = &[D129_array::V0, D129_array::V1, D129_array::V2, D129_array::V3, D129_array::V4, D129_array::V5, D129_array::V6, D129_array::V7, D129_array::V8, D129_array::V9, D129_array::V10, D129_array::V11, D129_array::V12, D129_array::V13, D129_array::V14, D129_array::V15, D129_array::V16, D129_array::V17, D129_array::V18, D129_array::V19, D129_array::V20, D129_array::V21, D129_array::V22, D129_array::V23, D129_array::V24, D129_array::V25, D129_array::V26, D129_array::V27, D129_array::V28, D129_array::V29, D129_array::V30, D129_array::V31, D129_array::V32, D129_array::V33, D129_array::V34, D129_array::V35, D129_array::V36, D129_array::V37, D129_array::V38, D129_array::V39, D129_array::V40, D129_array::V41, D129_array::V42, D129_array::V43, D129_array::V44, D129_array::V45, D129_array::V46, D129_array::V47, D129_array::V48, D129_array::V49, D129_array::V50, D129_array::V51, D129_array::V52, D129_array::V53, D129_array::V54, D129_array::V55, D129_array::V56, D129_array::V57, D129_array::V58, D129_array::V59, D129_array::V60, D129_array::V61, D129_array::V62, D129_array::V63, D129_array::V64, D129_array::V65, D129_array::V66, D129_array::V67, D129_array::V68, D129_array::V69, D129_array::V70, D129_array::V71, D129_array::V72, D129_array::V73, D129_array::V74, D129_array::V75, D129_array::V76, D129_array::V77, D129_array::V78, D129_array::V79, D129_array::V80, D129_array::V81, D129_array::V82, D129_array::V83, D129_array::V84, D129_array::V85, D129_array::V86, D129_array::V87, D129_array::V88, D129_array::V89, D129_array::V90, D129_array::V91, D129_array::V92, D129_array::V93, D129_array::V94, D129_array::V95, D129_array::V96, D129_array::V97, D129_array::V98, D129_array::V99, D129_array::V100, D129_array::V101, D129_array::V102, D129_array::V103, D129_array::V104, D129_array::V105, D129_array::V106, D129_array::V107, D129_array::V108, D129_array::V109, D129_array::V110, D129_array::V111, D129_array::V112, D129_array::V113, D129_array::V114, D129_array::V115, D129_array::V116, D129_array::V117, D129_array::V118, D129_array::V119, D129_array::V120, D129_array::V121, D129_array::V122, D129_array::V123, D129_array::V124, D129_array::V125, D129_array::V126, D129_array::V127, D129_array::V128]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D129_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128 }
impl SCat for D129_list { const NAME: &'static str = "D129_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum D129_list { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128]; const VARS: &'static [Self] = &[D129_list::V0, D129_list::V1, D129_list::V2, D129_list::V3, D129_list::V4, D129_list::V5, D129_list::V6, D129_list::V7, D129_list::V8, D129_list::V9, D129_list::V10, D129_list::V11, D129_list::V12, D129_list::V13, D129_list::V14, D129_list::V15, D129_list::V16, D129_list::V17, D129_list::V18, D129_list::V19, D129_list::V20, D129_list::V21, D129_list::V22, D129_list::V23, D129_list::V24, D129_list::V25, D129_list::V26, D129_list::V27, D129_list::V28, D129_list::V29, D129_list::V30, D129_list::V31, D129_list::V32, D129_list::V33, D129_list::V34, D129_list::V35, D129_list::V36, D129_list::V37, D129_list::V38, D129_list::V39, D129_list::V40, D129_list::V41, D129_list::V42, D129_list::V43, D129_list::V44, D129_list::V45, D129_list::V46, D129_list::V47, D129_list::V48, D129_list::V49, D129_list::V50, D129_list::V51, D129_list::V52, D129_list::V53, D129_list::V54, D129_list::V55, D129_list::V56, D129_list::V57, D129_list::V58, D129_list::V59, D129_list::V60, D129_list::V61, D129_list::V62, D129_list::V63, D129_list::V64, D129_list::V65, D129_list::V66, D129_list::V67, D129_list::V68, D129_list::V69, D129_list::V70, D129_list::V71, D129_list::V72, D129_list::V73, D129_list::V74, D129_list::V75, D129_list::V76, D129_list::V77, D129_list::V78, D129_list::V79, D129_list::V80, D129_list::V81, D129_list::V82, D129_list::V83, D129_list::V84, D129_list::V85, D129_list::V86, D129_list::V87, D129_list::V88, D129_list::V89, D129_list::V90, D129_list::V91, D129_list::V92, D129_list::V93, D129_list::V94, D129_list::V95, D129_list::V96, D129_list::V97, D129_list::V98, D129_list::V99, D129_list::V100, D129_list::V101, D129_list::V102, D129_list::V103, D129_list::V104, D129_list::V105, D129_list::V106, D129_list::V107, D129_list::V108, D129_list::V109, D129_list::V110, D129_list::V111, D129_list::V112, D129_list::V113, D129_list::V114, D129_list::V115, D129_list::V116, D129_list::V117, D129_list::V118, D129_list::V119, D129_list::V120, D129_list::V121, D129_list::V122, D129_list::V123, D129_list::V124, D129_list::V125, D129_list::V126, D129_list::V127, D129_list::V128]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D129_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128 }
impl SCat for D129_map { const NAME: &'static str = "D129_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum D129_map { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128]; const VARS: &'static [Self] = &[D129_map::V0, D129_map::V1, D129_map::V2, D129_map::V3, D129_map::V4, D129_map::V5, D129_map::V6, D129_map::V7, D129_map::V8, D129_map::V9, D129_map::V10, D129_map::V11, D129_map::V12, D129_map::V13, D129_map::V14, D129_map::V15, D129_map::V16, D129_map::V17, D129_map::V18, D129_map::V19, D129_map::V20, D129_map::V21, D129_map::V22, D129_map::V23, D129_map::V24, D129_map::V25, D129_map::V26, D129_map::V27, D129_map::V28, D129_map::V29, D129_map::V30, D129_map::V31, D129_map::V32, D129_map::V33, D129_map::V34, D129_map::V35, D129_map::V36, D129_map::V37, D129_map::V38, D129_map::V39, D129_map::V40, D129_map::V41, D129_map::V42, D129_map::V43, D129_map::V44, D129_map::V45, D129_map::V46, D129_map::V47, D129_map::V48, D129_map::V49, D129_map::V50, D129_map::V51, D129_map::V52, D129_map::V53, D129_map::V54, D129_map::V55, D129_map::V56, D129_map::V57, D129_map::V58, D129_map::V59, D129_map::V60, D129_map::V61, D129_map::V62, D129_map::V63, D129_map::V64, D129_map::V65, D129_map::V66, D129_map::V67, D129_map::V68, D129_map::V69, D129_map::V70, D129_map::V71, D129_map::V72, D129_map::V73, D129_map::V74, D129_map::V75, D129_map::V76, D129_map::V77, D129_map::V78, D129_map::V79, D129_map::V80, D129_map::V81, D129_map::V82, D129_map::V83, D129_map::V84, D129_map::V85, D129_map::V86, D129_map::V87, D129_map::V88, D129_map::V89, D129_map::V90, D129_map::V91, D129_map::V92, D129_map::V93, D129_map::V94, D129_map::V95, D129_map::V96, D129_map::V97, D129_map::V98, D129_map::V99, D129_map::V100, D129_map::V101, D129_map::V102, D129_map::V103, D129_map::V104, D129_map::V105, D129_map::V106, D129_map::V107, D129_map::V108, D129_map::V109, D129_map::V110, D129_map::V111, D129_map::V112, D129_map::V113, D129_map::V114, D129_map::V115, D129_map::V116, D129_map::V117, D129_map::V118, D129_map::V119, D129_map::V120, D129_map::V121, D129_map::V122, D129_map::V123, D129_map::V124, D129_map::V125, D129_map::V126, D129_map::V127, D129_map::V128]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D129_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128 }
impl SCat for D129_deny { const NAME: &'static str = "D129_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D129_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128]; const VARS: &'static [Self] = &[D129_deny::V0, D129_deny::V1, D129_deny::V2, D129_deny::V3, D129_deny::V4, D129_deny::V5, D129_deny::V6, D129_deny::V7, D129_deny::V8, D129_deny::V9, D129_deny::V10, D129_deny::V11, D129_deny::V12, D129_deny::V13, D129_deny::V14, D129_deny::V15, D129_deny::V16, D129_deny::V17, D129_deny::V18, D129_deny::V19, D129_deny::V20, D129_deny::V21, D129_deny::V22, D129_deny::V23, D129_deny::V24, D129_deny::V25, D129_deny::V26, D129_deny::V27, D129_deny::V28, D129_deny::V29, D129_deny::V30, D129_deny::V31, D129_deny::V32, D129_deny::V33, D129_deny::V34, D129_deny::V35, D129_deny::V36, D129_deny::V37, D129_deny::V38, D129_deny::V39, D129_deny::V40, D129_deny::V41, D129_deny::V42, D129_deny::V43, D129_deny::V44, D129_deny::V45, D129_deny::V46, D129_deny::V47, D129_deny::V48, D129_deny::V49, D129_deny::V50, D129_deny::V51, D129_deny::V52, D129_deny::V53, D129_deny::V54, D129_deny::V55, D129_deny::V56, D129_deny::V57, D129_deny::V58, D129_deny::V59, D129_deny::V60, D129_deny::V61, D129_deny::V62, D129_deny::V63, D129_deny::V64, D129_deny::V65, D129_deny::V66, D129_deny::V67, D129_deny::V68, D129_deny::V69, D129_deny::V70, D129_deny::V71, D129_deny::V72, D129_deny::V73, D129_deny::V74, D129_deny::V75, D129_deny::V76, D129_deny::V77, D129_deny::V78, D129_deny::V79, D129_deny::V80, D129_deny::V81, D129_deny::V82, D129_deny::V83, D129_deny::V84, D129_deny::V85, D129_deny::V86, D129_deny::V87, D129_deny::V88, D129_deny::V89, D129_deny::V90, D129_deny::V91, D129_deny::V92, D129_deny::V93, D129_deny::V94, D129_deny::V95, D129_deny::V96, D129_deny::V97, D129_deny::V98, D129_deny::V99, D129_deny::V100, D129_deny::V101, D129_deny::V102, D129_deny::V103, D129_deny::V104, D129_deny::V105, D129_deny::V106, D129_deny::V107, D129_deny::V108, D129_deny::V109, D129_deny::V110, D129_deny::V111, D129_deny::V112, D129_deny::V113, D129_deny::V114, D129_deny::V115, D129_deny::V116, D129_deny::V117, D129_deny::V118, D129_deny::V119, D129_deny::V120, D129_deny::V121, D129_deny::V122, D129_deny::V123, D129_deny::V124, D129_deny::V125, D129_deny::V126, D129_deny::V127, D129_deny::V128]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D129_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128 }
impl SCat for D129_array_deny { const NAME: &'static str = "D129_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D129_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V2 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128]; const VARS: &'static [Self] = &[D129_array_deny::V0, D129_array_deny::V1, D129_array_deny::V2, D129_array_deny::V3, D129_array_deny::V4, D129_array_deny::V5, D129_array_deny::V6, D129_array_deny::V7, D129_array_deny::V8, D129_array_deny::V9, D129_array_deny::V10, D129_array_deny::V11, D129_array_deny::V12, D129_array_deny::V13, D129_array_deny::V14, D129_array_deny::V15, D129_array_deny::V16, D129_array_deny::V17, D129_array_deny::V18, D129_array_deny::V19, D129_array_deny::V20, D129_array_deny::V21, D129_array_deny::V22, D129_array_deny::V23, D129_array_deny::V24, D129_array_deny::V25, D129_array_deny::V26, D129_array_deny::V27, D129_array_deny::V28, D129_array_deny::V29, D129_array_deny::V30, D129_array_deny::V31, D129_array_deny::V32, D129_array_deny::V33, D129_array_deny::V34, D129_array_deny::V35, D129_array_deny::V36, D129_array_deny::V37, D129_array_deny::V38, D129_array_deny::V39, D129_array_deny::V40, D129_array_deny::V41, D129_array_deny::V42, D129_array_deny::V43, D129_array_deny::V44, D129_array_deny::V45, D129_array_deny::V46, D129_array_deny::V47, D129_array_deny::V48, D129_array_deny::V49, D129_array_deny::V50, D129_array_deny::V51, D129_array_deny::V52, D129_array_deny::V53, D129_array_deny::V54, D129_array_deny::V55, D129_array_deny::V56, D129_array_deny::V57, D129_array_deny::V58, D129_array_deny::V59, D129_array_deny::V60, D129_array_deny::V61, D129_array_deny::V62, D129_array_deny::V63, D129_array_deny::V64, D129_array_deny::V65, D129_array_deny::V66, D129_array_deny::V67, D129_array_deny::V68, D129_array_deny::V69, D129_array_deny::V70, D129_array_deny::V71, D129_array_deny::V72, D129_array_deny::V73, D129_array_deny::V74, D129_array_deny::V75, D129_array_deny::V76, D129_array_deny::V77, D129_array_deny::V78, D129_array_deny::V79, D129_array_deny::V80, D129_array_deny::V81, D129_array_deny::V82, D129_array_deny::V83, D129_array_deny::V84, D129_array_deny::V85, D129_array_deny::V86, D129_array_deny::V87, D129_array_deny::V88, D129_array_deny::V89, D129_array_deny::V90, D129_array_deny::V91, D129_array_deny::V92, D129_array_deny::V93, D129_array_deny::V94, D129_array_deny::V95, D129_array_deny::V96, D129_array_deny::V97, D129_array_deny::V98, D129_array_deny::V99, D129_array_deny::V100, D129_array_deny::V101, D129_array_deny::V102, D129_array_deny::V103, D129_array_deny::V104, D129_array_deny::V105, D129_array_deny::V106, D129_array_deny::V107, D129_array_deny::V108, D129_array_deny::V109, D129_array_deny::V110, D129_array_deny::V111, D129_array_deny::V112, D129_array_deny::V113, D129_array_deny::V114, D129_array_deny::V115, D129_array_deny::V116, D129_array_deny::V117, D129_array_deny::V118, D129_array_deny::V119, D129_array_deny::V120, D129_array_deny::V121, D129_array_deny::V122, D129_array_deny::V123, D129_array_deny::V124, D129_array_deny::V125, D129_array_deny::V126, D129_array_deny::V127, D129_array_deny::V128]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D193 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192 }
impl SCat for D193 { const NAME: &'static str = "D193"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D193 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192]; const VARS: &'static [Self] = &[D193::V0, D193::V1, D193::V2, D193::V3, D193::V4, D193::V5, D193::V6, D193::V7, D193::V8, D193::V9, D193::V10, D193::V11, D193::V12, D193::V13, D193::V14, D193::V15, D193::V16, D193::V17, D193::V18, D193::V19, D193::V20, D193::V21, D193::V22, D193::V23, D193::V24, D193::V25, D193::V26, D193::V27, D193::V28, D193::V29, D193::V30, D193::V31, D193::V32, D193::V33, D193::V34, D193::V35, D193::V36, D193::V37, D193::V38, D193::V39, D193::V40, D193::V41, D193::V42, D193::V43, D193::V44, D193::V45, D193::V46, D193::V47, D193::V48, D193::V49, D193::V50, D193::V51, D193::V52, D193::V53, D193::V54, D193::V55, D193::V56, D193::V57, D193::V58, D193::V59, D193::V60, D193::V61, D193::V62, D193::V63, D193::V64, D193::V65, D193::V66, D193::V67, D193::V68, D193::V69, D193::V70, D193::V71, D193::V72, D193::V73, D193::V74, D193::V75, D193::V76, D193::V77, D193::V78, D193::V79, D193::V80, D193::V81, D193::V82, D193::V83, D193::V84, D193::V85, D193::V86, D193::V87, D193::V88, D193::V89, D193::V90, D193::V91, D193::V92, D193::V93, D193::V94, D193::V95, D193::V96, D193::V97, D193::V98, D193::V99, D193::V100, D193::V101, D193::V102, D193::V103, D193::V104, D193::V105, D193::V106, D193::V107, D193::V108, D193::V109, D193::V110, D193::V111, D193::V112, D193::V113, D193::V114, D193::V115, D193::V116, D193::V117, D193::V118, D193::V119, D193::V120, D193::V121, D193::V122, D193::V123, D193::V124, D193::V125, D193::V126, D193::V127, D193::V128, D193::V129, D193::V130, D193::V131, D193::V132, D193::V133, D193::V134, D193::V135, D193::V136, D193::V137, D193::V138, D193::V139, D193::V140, D193::V141, D193::V142, D193::V143, D193::V144, D193::V145, D193::V146, D193::V147, D193::V148, D193::V149, D193::V150, D193::V151, D193::V152, D193::V153, D193::V154, D193::V155, D193::V156, D193::V157, D193::V158, D193::V159, D193::V160, D193::V161, D193::V162, D193::V163, D193::V164, D193::V165, D193::V166, D193::V167, D193::V168, D193::V169, D193::V170, D193::V171, D193::V172, D193::V173, D193::V174, D193::V175, D193::V176, D193::V177, D193::V178, D193::V179, D193::V180, D193::V181, D193::V182, D193::V183, D193::V184, D193::V185, D193::V186, D193::V187, D193::V188, D193::V189, D193::V190, D193::V191, D193::V192]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D193_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192 }
impl SCat for D193_array { const NAME: &'static str = "D193_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum D193_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192]; const VARS: &'static [Self] = &[D193_array::V0, D193_array::V1, D193_array::V2, D193_array::V3, D193_array::V4, D193_array::V5, D193_array::V6, D193_array::V7, D193_array::V8, D193_array::V9, D193_array::V10, D193_array::V11, D193_array::V12, D193_array::V13, D193_array::V14, D193_array::V15, D193_array::V16, D193_array::V17, D193_array::V18, D193_array::V19, D193_array::V20, D193_array::V21, D193_array::V22, D193_array::V23, D193_array::V24, D193_array::V25, D193_array::V26, D193_array::V27, D193_array::V28, D193_array::V29, D193_array::V30, D193_array::V31, D193_array::V32, D193_array::V33, D193_array::V34, D193_array::V35, D193_array::V36, D193_array::V37, D193_array::V38, D193_array::V39, D193_array::V40, D193_array::V41, D193_array::V42, D193_array::V43, D193_array::V44, D193_array::V45, D193_array::V46, D193_array::V47, D193_array::V48, D193_array::V49, D193_array::V50, D193_array::V51, D193_array::V52, D193_array::V53, D193_array::V54, D193_array::V55, D193_array::V56, D193_array::V57, D193_array::V58, D193_array::V59, D193_array::V60, D193_array::V61, D193_array::V62, D193_array::V63, D193_array::V64, D193_array::V65, D193_array::V66, D193_array::V67, D193_array::V68, D193_array::V69, D193_array::V70, D193_array::V71, D193_array::V72, D193_array::V73, D193_array::V74, D193_array::V75, D193_array::V76, D193_array::V77, D193_array::V78, D193_array::V79, D193_array::V80, D193_array::V81, D193_array::V82, D193_array::V83, D193_array::V84, D193_array::V85, D193_array::V86, D193_array::V87, D193_array::V88, D193_array::V89, D193_array::V90, D193_array::V91, D193_array::V92, D193_array::V93, D193_array::V94, D193_array::V95, D193_array::V96, D193_array::V97, D193_array::V98, D193_array::V99, D193_array::V100, D193_array::V101, D193_array::V102, D193_array::V103, D193_array::V104, D193_array::V105, D193_array::V106, D193_array::V107, D193_array::V108, D193_array::V109, D193_array::V110, D193_array::V111, D193_array::V112, D193_array::V113, D193_array::V114, D193_array::V115, D193_array::V116, D193_array::V117, D193_array::V118, D193_array::V119, D193_array::V120, D193_array::V121, D193_array::V122, D193_array::V123, D193_array::V124, D193_array::V125, D193_array::V126, D193_array::V127, D193_array::V128, D193_array::V129, D193_array::V130, D193_array::V131, D193_array::V132, D193_array::V133, D193_array::V134, D193_array::V135, D193_array::V136, D193_array::V137, D193_array::V138, D193_array::V139, D193_array::V140, D193_array::V141, D193_array::V142, D193_array::V143, D193_array::V144, D193_array::V145, D193_array::V146, D193_array::V147, D193_array::V148, D193_array::V149, D193_array::V150, D193_array::V151, D193_array::V152, D193_array::V153, D193_array::V154, D193_array::V155, D193_array::V156, D193_array::V157, D193_array::V158, D193_array::V159, D193_array::V160, D193_array::V161, D193_array::V162, D193_array::V163, D193_array::V164, D193_array::V165, D193_array::V166, D193_array::V167, D193_array::V168, D193_array::V169, D193_array::V170, D193_array::V171, D193_array::V172, D193_array::V173, D193_array::V174, D193_array::V175, D193_array::V176, D193_array::V177, D193_array::V178, D193_array::V179, D193_array::V180, D193_array::V181, D193_array::V182, D193_array::V183, D193_array::V184, D193_array::V185, D193_array::V186, D193_array::V187, D193_array::V188, D193_array::V189, D193_array::V190, D193_array::V191, D193_array::V192]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D193_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192 }
impl SCat for D193_deny { const NAME: &'static str = "D193_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D193_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192]; const VARS: &'static [Self] = &[D193_deny::V0, D193_deny::V1, D193_deny::V2, D193_deny::V3, D193_deny::V4, D193_deny::V5, D193_deny::V6, D193_deny::V7, D193_deny::V8, D193_deny::V9, D193_deny::V10, D193_deny::V11, D193_deny::V12, D193_deny::V13, D193_deny::V14, D193_deny::V15, D193_deny::V16, D193_deny::V17, D193_deny::V18, D193_deny::V19, D193_deny::V20, D193_deny::V21, D193_deny::V22, D193_deny::V23, D193_deny::V24, D193_deny::V25, D193_deny::V26, D193_deny::V27, D193_deny::V28, D193_deny::V29, D193_deny::V30, D193_deny::V31, D193_deny::V32, D193_deny::V33, D193_deny::V34, D193_deny::V35, D193_deny::V36, D193_deny::V37, D193_deny::V38, D193_deny::V39, D193_deny::V40, D193_deny::V41, D193_deny::V42, D193_deny::V43, D193_deny::V44, D193_deny::V45, D193_deny::V46, D193_deny::V47, D193_deny::V48, D193_deny::V49, D193_deny::V50, D193_deny::V51, D193_deny::V52, D193_deny::V53, D193_deny::V54, D193_deny::V55, D193_deny::V56, D193_deny::V57, D193_deny::V58, D193_deny::V59, D193_deny::V60, D193_deny::V61, D193_deny::V62, D193_deny::V63, D193_deny::V64, D193_deny::V65, D193_deny::V66, D193_deny::V67, D193_deny::V68, D193_deny::V69, D193_deny::V70, D193_deny::V71, D193_deny::V72, D193_deny::V73, D193_deny::V74, D193_deny::V75, D193_deny::V76, D193_deny::V77, D193_deny::V78, D193_deny::V79, D193_deny::V80, D193_deny::V81, D193_deny::V82, D193_deny::V83, D193_deny::V84, D193_deny::V85, D193_deny::V86, D193_deny::V87, D193_deny::V88, D193_deny::V89, D193_deny::V90, D193_deny::V91, D193_deny::V92, D193_deny::V93, D193_deny::V94, D193_deny::V95, D193_deny::V96, D193_deny::V97, D193_deny::V98, D193_deny::V99, D193_deny::V100, D193_deny::V101, D193_deny::V102, D193_deny::V103, D193_deny::V104, D193_deny::V105, D193_deny::V106, D193_deny::V107, D193_deny::V108, D193_deny::V109, D193_deny::V110, D193_deny::V111, D193_deny::V112, D193_deny::V113, D193_deny::V114, D193_deny::V115, D193_deny::V116, D193_deny::V117, D193_deny::V118, D193_deny::V119, D193_deny::V120, D193_deny::V121, D193_deny::V122, D193_deny::V123, D193_deny::V124, D193_deny::V125, D193_deny::V126, D193_deny::V127, D193_deny::V128, D193_deny::V129, D193_deny::V130, D193_deny::V131, D193_deny::V132, D193_deny::V133, D193_deny::V134, D193_deny::V135, D193_deny::V136, D193_deny::V137, D193_deny::V138, D193_deny::V139, D193_deny::V140, D193_deny::V141, D193_deny::V142, D193_deny::V143, D193_deny::V144, D193_deny::V145, D193_deny::V146, D193_deny::V147, D193_deny::V148, D193_deny::V149, D193_deny::V150, D193_deny::V151, D193_deny::V152, D193_deny::V153, D193_deny::V154, D193_deny::V155, D193_deny::V156, D193_deny::V157, D193_deny::V158, D193_deny::V159, D193_deny::V160, D193_deny::V161, D193_deny::V162, D193_deny::V163, D193_deny::V164, D193_deny::V165, D193_deny::V166, D193_deny::V167, D193_deny::V168, D193_deny::V169, D193_deny::V170, D193_deny::V171, D193_deny::V172, D193_deny::V173, D193_deny::V174, D193_deny::V175, D193_deny::V176, D193_deny::V177, D193_deny::V178, D193_deny::V179, D193_deny::V180, D193_deny::V181, D193_deny::V182, D193_deny::V183, D193_deny::V184, D193_deny::V185, D193_deny::V186, D193_deny::V187, D193_deny::V188, D193_deny::V189, D193_deny::V190, D193_deny::V191, D193_deny::V192]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D193_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192 }
impl SCat for D193_array_deny { const NAME: &'static str = "D193_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum D193_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V2 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192]; const VARS: &'static [Self] = &[D193_array_deny::V0, D193_array_deny::V1, D193_array_deny::V2, D193_array_deny::V3, D193_array_deny::V4, D193_array_deny::V5, D193_array_deny::V6, D193_array_deny::V7, D193_array_deny::V8, D193_array_deny::V9, D193_array_deny::V10, D193_array_deny::V11, D193_array_deny::V12, D193_array_deny::V13, D193_array_deny::V14, D193_array_deny::V15, D193_array_deny::V16, D193_array_deny::V17, D193_array_deny::V18, D193_array_deny::V19, D193_array_deny::V20, D193_array_deny::V21, D193_array_deny::V22, D193_array_deny::V23, D193_array_deny::V24, D193_array_deny::V25, D193_array_deny::V26, D193_array_deny::V27, D193_array_deny::V28, D193_array_deny::V29, D193_array_deny::V30, D193_array_deny::V31, D193_array_deny::V32, D193_array_deny::V33, D193_array_deny::V34, D193_array_deny::V35, D193_array_deny::V36, D193_array_deny::V37, D193_array_deny::V38, D193_array_deny::V39, D193_array_deny::V40, D193_array_deny::V41, D193_array_deny::V42, D193_array_deny::V43, D193_array_deny::V44, D193_array_deny::V45, D193_array_deny::V46, D193_array_deny::V47, D193_array_deny::V48, D193_array_deny::V49, D193_array_deny::V50, D193_array_deny::V51, D193_array_deny::V52, D193_array_deny::V53, D193_array_deny::V54, D193_array_deny::V55, D193_array_deny::V56, D193_array_deny::V57, D193_array_deny::V58, D193_array_deny::V59, D193_array_deny::V60, D193_array_deny::V61, D193_array_deny::V62, D193_array_deny::V63, D193_array_deny::V64, D193_array_deny::V65, D193_array_deny::V66, D193_array_deny::V67, D193_array_deny::V68, D193_array_deny::V69, D193_array_deny::V70, D193_array_deny::V71, D193_array_deny::V72, D193_array_deny::V73, D193_array_deny::V74, D193_array_deny::V75, D193_array_deny::V76, D193_array_deny::V77, D193_array_deny::V78, D193_array_deny::V79, D193_array_deny::V80, D193_array_deny::V81, D193_array_deny::V82, D193_array_deny::V83, D193_array_deny::V84, D193_array_deny::V85, D193_array_deny::V86, D193_array_deny::V87, D193_array_deny::V88, D193_array_deny::V89, D193_array_deny::V90, D193_array_deny::V91, D193_array_deny::V92, D193_array_deny::V93, D193_array_deny::V94, D193_array_deny::V95, D193_array_deny::V96, D193_array_deny::V97, D193_array_deny::V98, D193_array_deny::V99, D193_array_deny::V100, D193_array_deny::V101, D193_array_deny::V102, D193_array_deny::V103, D193_array_deny::V104, D193_array_deny::V105, D193_array_deny::V106, D193_array_deny::V107, D193_array_deny::V108, D193_array_deny::V109, D193_array_deny::V110, D193_array_deny::V111, D193_array_deny::V112, D193_array_deny::V113, D193_array_deny::V114, D193_array_deny::V115, D193_array_deny::V116, D193_array_deny::V117, D193_array_deny::V118, D193_array_deny::V119, D193_array_deny::V120, D193_array_deny::V121, D193_array_deny::V122, D193_array_deny::V123, D193_array_deny::V124, D193_array_deny::V125, D193_array_deny::V126, D193_array_deny::V127, D193_array_deny::V128, D193_array_deny::V129, D193_array_deny::V130, D193_array_deny::V131, D193_array_deny::V132, D193_array_deny::V133, D193_array_deny::V134, D193_array_deny::V135, D193_array_deny::V136, D193_array_deny::V137, D193_array_deny::V138, D193_array_deny::V139, D193_array_deny::V140, D193_array_deny::V141, D193_array_deny::V142, D193_array_deny::V143, D193_array_deny::V144, D193_array_deny::V145, D193_array_deny::V146, D193_array_deny::V147, D193_array_deny::V148, D193_array_deny::V149, D193_array_deny::V150, D193_array_deny::V151, D193_array_deny::V152, D193_array_deny::V153, D193_array_deny::V154, D193_array_deny::V155, D193_array_deny::V156, D193_array_deny::V157, D193_array_deny::V158, D193_array_deny::V159, D193_array_deny::V160, D193_array_deny::V161, D193_array_deny::V162, D193_array_deny::V163, D193_array_deny::V164, D193_array_deny::V165, D193_array_deny::V166, D193_array_deny::V167, D193_array_deny::V168, D193_array_deny::V169, D193_array_deny::V170, D193_array_deny::V171, D193_array_deny::V172, D193_array_deny::V173, D193_array_deny::V174, D193_array_deny::V175, D193_array_deny::V176, D193_array_deny::V177, D193_array_deny::V178, D193_array_deny::V179, D193_array_deny::V180, D193_array_deny::V181, D193_array_deny::V182, D193_array_deny::V183, D193_array_deny::V184, D193_array_deny::V185, D193_array_deny::V186, D193_array_deny::V187, D193_array_deny::V188, D193_array_deny::V189, D193_array_deny::V190, D193_array_deny::V191, D193_array_deny::V192]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sa { V0 = 7 }
impl SCat for Sa { const NAME: &'static str = "Sa"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sa { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sa_array { V0 = 7 }
impl SCat for Sa_array { const NAME: &'static str = "Sa_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sa_array { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_array::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum Sa_u8 { V0 = 7 }
impl SCat for Sa_u8 { const NAME: &'static str = "Sa_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum Sa_u8 { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u8::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum Sa_u16 { V0 = 7 }
impl SCat for Sa_u16 { const NAME: &'static str = "Sa_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum Sa_u16 { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u16::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum Sa_u32 { V0 = 7 }
impl SCat for Sa_u32 { const NAME: &'static str = "Sa_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum Sa_u32 { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u32::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sa_u64 { V0 = 7 }
impl SCat for Sa_u64 { const NAME: &'static str = "Sa_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sa_u64 { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u64::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sa_u128 { V0 = 7 }
impl SCat for Sa_u128 { const NAME: &'static str = "Sa_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sa_u128 { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u128::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sa_list { V0 = 7 }
impl SCat for Sa_list { const NAME: &'static str = "Sa_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sa_list { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_list::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sa_map { V0 = 7 }
impl SCat for Sa_map { const NAME: &'static str = "Sa_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sa_map { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_map::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sa_deny { V0 = 7 }
impl SCat for Sa_deny { const NAME: &'static str = "Sa_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sa_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sa_array_deny { V0 = 7 }
impl SCat for Sa_array_deny { const NAME: &'static str = "Sa_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sa_array_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_array_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum Sa_u8_deny { V0 = 7 }
impl SCat for Sa_u8_deny { const NAME: &'static str = "Sa_u8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum Sa_u8_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u8_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum Sa_u16_deny { V0 = 7 }
impl SCat for Sa_u16_deny { const NAME: &'static str = "Sa_u16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum Sa_u16_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u16_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum Sa_u32_deny { V0 = 7 }
impl SCat for Sa_u32_deny { const NAME: &'static str = "Sa_u32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum Sa_u32_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u32_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sa_u64_deny { V0 = 7 }
impl SCat for Sa_u64_deny { const NAME: &'static str = "Sa_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sa_u64_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u64_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sa_u128_deny { V0 = 7 }
impl SCat for Sa_u128_deny { const NAME: &'static str = "Sa_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sa_u128_deny { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[Sa_u128_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sb { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb { const NAME: &'static str = "Sb"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sb { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb::V0, Sb::V1, Sb::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sb_array { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_array { const NAME: &'static str = "Sb_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sb_array { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_array::V0, Sb_array::V1, Sb_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum Sb_u8 { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_u8 { const NAME: &'static str = "Sb_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8")] pub enum Sb_u8 { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_u8::V0, Sb_u8::V1, Sb_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sb_u128 { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_u128 { const NAME: &'static str = "Sb_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sb_u128 { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_u128::V0, Sb_u128::V1, Sb_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sb_list { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_list { const NAME: &'static str = "Sb_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sb_list { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_list::V0, Sb_list::V1, Sb_list::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sb_map { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_map { const NAME: &'static str = "Sb_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sb_map { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_map::V0, Sb_map::V1, Sb_map::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sb_deny { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_deny { const NAME: &'static str = "Sb_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sb_deny { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_deny::V0, Sb_deny::V1, Sb_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sb_array_deny { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_array_deny { const NAME: &'static str = "Sb_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sb_array_deny { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_array_deny::V0, Sb_array_deny::V1, Sb_array_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum Sb_u8_deny { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_u8_deny { const NAME: &'static str = "Sb_u8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u8", serialize_deny_unknown)] pub enum Sb_u8_deny { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_u8_deny::V0, Sb_u8_deny::V1, Sb_u8_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sb_u128_deny { V0 = 1, V1 = 4, V2 = 6 }
impl SCat for Sb_u128_deny { const NAME: &'static str = "Sb_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sb_u128_deny { V0 = 1, V1 = 4, V2 = 6 }"####; const DISCR: &'static [u32] = &[1, 4, 6]; const VARS: &'static [Self] = &[Sb_u128_deny::V0, Sb_u128_deny::V1, Sb_u128_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sc { V0 = 3, V1 = 8 }
impl SCat for Sc { const NAME: &'static str = "Sc"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sc { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc::V0, Sc::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sc_array { V0 = 3, V1 = 8 }
impl SCat for Sc_array { const NAME: &'static str = "Sc_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sc_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array::V0, Sc_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum Sc_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_u16 { const NAME: &'static str = "Sc_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16")] pub enum Sc_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u16::V0, Sc_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum Sc_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_u32 { const NAME: &'static str = "Sc_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum Sc_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u32::V0, Sc_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sc_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_u64 { const NAME: &'static str = "Sc_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sc_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u64::V0, Sc_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sc_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128 { const NAME: &'static str = "Sc_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sc_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128::V0, Sc_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sc_list { V0 = 3, V1 = 8 }
impl SCat for Sc_list { const NAME: &'static str = "Sc_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sc_list { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_list::V0, Sc_list::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sc_map { V0 = 3, V1 = 8 }
impl SCat for Sc_map { const NAME: &'static str = "Sc_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sc_map { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_map::V0, Sc_map::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sc_deny { V0 = 3, V1 = 8 }
impl SCat for Sc_deny { const NAME: &'static str = "Sc_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sc_deny { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_deny::V0, Sc_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny { V0 = 3, V1 = 8 }
impl SCat for Sc_array_deny { const NAME: &'static str = "Sc_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_deny::V0, Sc_array_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum Sc_u16_deny { V0 = 3, V1 = 8 }
impl SCat for Sc_u16_deny { const NAME: &'static str = "Sc_u16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u16", serialize_deny_unknown)] pub enum Sc_u16_deny { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u16_deny::V0, Sc_u16_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum Sc_u32_deny { V0 = 3, V1 = 8 }
impl SCat for Sc_u32_deny { const NAME: &'static str = "Sc_u32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum Sc_u32_deny { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u32_deny::V0, Sc_u32_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sc_u64_deny { V0 = 3, V1 = 8 }
impl SCat for Sc_u64_deny { const NAME: &'static str = "Sc_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sc_u64_deny { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u64_deny::V0, Sc_u64_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_deny { const NAME: &'static str = "Sc_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_deny::V0, Sc_u128_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sd { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd { const NAME: &'static str = "Sd"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sd { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd::V0, Sd::V1, Sd::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sd_array { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_array { const NAME: &'static str = "Sd_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sd_array { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_array::V0, Sd_array::V1, Sd_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum Sd_u32 { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_u32 { const NAME: &'static str = "Sd_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32")] pub enum Sd_u32 { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_u32::V0, Sd_u32::V1, Sd_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sd_u64 { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_u64 { const NAME: &'static str = "Sd_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sd_u64 { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_u64::V0, Sd_u64::V1, Sd_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sd_u128 { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_u128 { const NAME: &'static str = "Sd_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sd_u128 { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_u128::V0, Sd_u128::V1, Sd_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sd_list { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_list { const NAME: &'static str = "Sd_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sd_list { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_list::V0, Sd_list::V1, Sd_list::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sd_map { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_map { const NAME: &'static str = "Sd_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sd_map { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_map::V0, Sd_map::V1, Sd_map::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sd_deny { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_deny { const NAME: &'static str = "Sd_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sd_deny { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_deny::V0, Sd_deny::V1, Sd_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sd_array_deny { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_array_deny { const NAME: &'static str = "Sd_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sd_array_deny { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_array_deny::V0, Sd_array_deny::V1, Sd_array_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum Sd_u32_deny { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_u32_deny { const NAME: &'static str = "Sd_u32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] pub enum Sd_u32_deny { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_u32_deny::V0, Sd_u32_deny::V1, Sd_u32_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sd_u64_deny { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_u64_deny { const NAME: &'static str = "Sd_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sd_u64_deny { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_u64_deny::V0, Sd_u64_deny::V1, Sd_u64_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sd_u128_deny { V0 = 0, V1 = 15, V2 = 16 }
impl SCat for Sd_u128_deny { const NAME: &'static str = "Sd_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sd_u128_deny { V0 = 0, V1 = 15, V2 = 16 }"####; const DISCR: &'static [u32] = &[0, 15, 16]; const VARS: &'static [Self] = &[Sd_u128_deny::V0, Sd_u128_deny::V1, Sd_u128_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Se { V0 = 31, V1 = 32 }
impl SCat for Se { const NAME: &'static str = "Se"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Se { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se::V0, Se::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Se_array { V0 = 31, V1 = 32 }
impl SCat for Se_array { const NAME: &'static str = "Se_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Se_array { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_array::V0, Se_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Se_u64 { V0 = 31, V1 = 32 }
impl SCat for Se_u64 { const NAME: &'static str = "Se_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Se_u64 { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_u64::V0, Se_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Se_u128 { V0 = 31, V1 = 32 }
impl SCat for Se_u128 { const NAME: &'static str = "Se_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Se_u128 { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_u128::V0, Se_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Se_list { V0 = 31, V1 = 32 }
impl SCat for Se_list { const NAME: &'static str = "Se_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Se_list { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_list::V0, Se_list::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Se_map { V0 = 31, V1 = 32 }
impl SCat for Se_map { const NAME: &'static str = "Se_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Se_map { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_map::V0, Se_map::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Se_deny { V0 = 31, V1 = 32 }
impl SCat for Se_deny { const NAME: &'static str = "Se_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Se_deny { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_deny::V0, Se_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Se_array_deny { V0 = 31, V1 = 32 }
impl SCat for Se_array_deny { const NAME: &'static str = "Se_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Se_array_deny { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_array_deny::V0, Se_array_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Se_u64_deny { V0 = 31, V1 = 32 }
impl SCat for Se_u64_deny { const NAME: &'static str = "Se_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Se_u64_deny { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_u64_deny::V0, Se_u64_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Se_u128_deny { V0 = 31, V1 = 32 }
impl SCat for Se_u128_deny { const NAME: &'static str = "Se_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Se_u128_deny { V0 = 31, V1 = 32 }"####; const DISCR: &'static [u32] = &[31, 32]; const VARS: &'static [Self] = &[Se_u128_deny::V0, Se_u128_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sf { V0 = 0, V1 = 63 }
impl SCat for Sf { const NAME: &'static str = "Sf"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sf { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf::V0, Sf::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sf_array { V0 = 0, V1 = 63 }
impl SCat for Sf_array { const NAME: &'static str = "Sf_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sf_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array::V0, Sf_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sf_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_u64 { const NAME: &'static str = "Sf_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64")] pub enum Sf_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u64::V0, Sf_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sf_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_u128 { const NAME: &'static str = "Sf_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sf_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128::V0, Sf_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sf_list { V0 = 0, V1 = 63 }
impl SCat for Sf_list { const NAME: &'static str = "Sf_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sf_list { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_list::V0, Sf_list::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sf_map { V0 = 0, V1 = 63 }
impl SCat for Sf_map { const NAME: &'static str = "Sf_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sf_map { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_map::V0, Sf_map::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sf_deny { V0 = 0, V1 = 63 }
impl SCat for Sf_deny { const NAME: &'static str = "Sf_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sf_deny { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_deny::V0, Sf_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny { V0 = 0, V1 = 63 }
impl SCat for Sf_array_deny { const NAME: &'static str = "Sf_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_deny::V0, Sf_array_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sf_u64_deny { V0 = 0, V1 = 63 }
impl SCat for Sf_u64_deny { const NAME: &'static str = "Sf_u64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] pub enum Sf_u64_deny { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u64_deny::V0, Sf_u64_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_deny { const NAME: &'static str = "Sf_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_deny::V0, Sf_u128_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sg { V0 = 64 }
impl SCat for Sg { const NAME: &'static str = "Sg"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sg { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sg_array { V0 = 64 }
impl SCat for Sg_array { const NAME: &'static str = "Sg_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sg_array { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_array::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sg_u128 { V0 = 64 }
impl SCat for Sg_u128 { const NAME: &'static str = "Sg_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sg_u128 { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_u128::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sg_list { V0 = 64 }
impl SCat for Sg_list { const NAME: &'static str = "Sg_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sg_list { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_list::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sg_map { V0 = 64 }
impl SCat for Sg_map { const NAME: &'static str = "Sg_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sg_map { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_map::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sg_deny { V0 = 64 }
impl SCat for Sg_deny { const NAME: &'static str = "Sg_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sg_deny { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sg_array_deny { V0 = 64 }
impl SCat for Sg_array_deny { const NAME: &'static str = "Sg_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sg_array_deny { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_array_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sg_u128_deny { V0 = 64 }
impl SCat for Sg_u128_deny { const NAME: &'static str = "Sg_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sg_u128_deny { V0 = 64 }"####; const DISCR: &'static [u32] = &[64]; const VARS: &'static [Self] = &[Sg_u128_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sh { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh { const NAME: &'static str = "Sh"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sh { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh::V0, Sh::V1, Sh::V2, Sh::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sh_array { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_array { const NAME: &'static str = "Sh_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sh_array { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_array::V0, Sh_array::V1, Sh_array::V2, Sh_array::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sh_u128 { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_u128 { const NAME: &'static str = "Sh_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sh_u128 { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_u128::V0, Sh_u128::V1, Sh_u128::V2, Sh_u128::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sh_list { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_list { const NAME: &'static str = "Sh_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sh_list { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_list::V0, Sh_list::V1, Sh_list::V2, Sh_list::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sh_map { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_map { const NAME: &'static str = "Sh_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sh_map { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_map::V0, Sh_map::V1, Sh_map::V2, Sh_map::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sh_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_deny { const NAME: &'static str = "Sh_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sh_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_deny::V0, Sh_deny::V1, Sh_deny::V2, Sh_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sh_array_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_array_deny { const NAME: &'static str = "Sh_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sh_array_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_array_deny::V0, Sh_array_deny::V1, Sh_array_deny::V2, Sh_array_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sh_u128_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_u128_deny { const NAME: &'static str = "Sh_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sh_u128_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_u128_deny::V0, Sh_u128_deny::V1, Sh_u128_deny::V2, Sh_u128_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum Sh_list_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_list_deny { const NAME: &'static str = "Sh_list_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum Sh_list_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_list_deny::V0, Sh_list_deny::V1, Sh_list_deny::V2, Sh_list_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum Sh_map_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_map_deny { const NAME: &'static str = "Sh_map_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum Sh_map_deny { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_map_deny::V0, Sh_map_deny::V1, Sh_map_deny::V2, Sh_map_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Si { V0 = 0, V1 = 127 }
impl SCat for Si { const NAME: &'static str = "Si"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Si { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si::V0, Si::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Si_array { V0 = 0, V1 = 127 }
impl SCat for Si_array { const NAME: &'static str = "Si_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Si_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_array::V0, Si_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Si_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_u128 { const NAME: &'static str = "Si_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Si_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_u128::V0, Si_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Si_list { V0 = 0, V1 = 127 }
impl SCat for Si_list { const NAME: &'static str = "Si_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Si_list { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_list::V0, Si_list::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Si_map { V0 = 0, V1 = 127 }
impl SCat for Si_map { const NAME: &'static str = "Si_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Si_map { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_map::V0, Si_map::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Si_deny { V0 = 0, V1 = 127 }
impl SCat for Si_deny { const NAME: &'static str = "Si_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Si_deny { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_deny::V0, Si_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Si_array_deny { V0 = 0, V1 = 127 }
impl SCat for Si_array_deny { const NAME: &'static str = "Si_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Si_array_deny { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_array_deny::V0, Si_array_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Si_u128_deny { V0 = 0, V1 = 127 }
impl SCat for Si_u128_deny { const NAME: &'static str = "Si_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Si_u128_deny { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_u128_deny::V0, Si_u128_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sj { V0 = 128 }
impl SCat for Sj { const NAME: &'static str = "Sj"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sj { V0 = 128 }"####; const DISCR: &'static [u32] = &[128]; const VARS: &'static [Self] = &[Sj::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sj_array { V0 = 128 }
impl SCat for Sj_array { const NAME: &'static str = "Sj_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sj_array { V0 = 128 }"####; const DISCR: &'static [u32] = &[128]; const VARS: &'static [Self] = &[Sj_array::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sj_list { V0 = 128 }
impl SCat for Sj_list { const NAME: &'static str = "Sj_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sj_list { V0 = 128 }"####; const DISCR: &'static [u32] = &[128]; const VARS: &'static [Self] = &[Sj_list::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sj_map { V0 = 128 }
impl SCat for Sj_map { const NAME: &'static str = "Sj_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sj_map { V0 = 128 }"####; const DISCR: &'static [u32] = &[128]; const VARS: &'static [Self] = &[Sj_map::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sj_deny { V0 = 128 }
impl SCat for Sj_deny { const NAME: &'static str = "Sj_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sj_deny { V0 = 128 }"####; const DISCR: &'static [u32] = &[128]; const VARS: &'static [Self] = &[Sj_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sj_array_deny { V0 = 128 }
impl SCat for Sj_array_deny { const NAME: &'static str = "Sj_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sj_array_deny { V0 = 128 }"####; const DISCR: &'static [u32] = &[128]; const VARS: &'static [Self] = &[Sj_array_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sk { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk { const NAME: &'static str = "Sk"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sk { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk::V0, Sk::V1, Sk::V2, Sk::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sk_array { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_array { const NAME: &'static str = "Sk_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sk_array { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_array::V0, Sk_array::V1, Sk_array::V2, Sk_array::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sk_list { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_list { const NAME: &'static str = "Sk_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sk_list { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_list::V0, Sk_list::V1, Sk_list::V2, Sk_list::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sk_map { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_map { const NAME: &'static str = "Sk_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sk_map { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_map::V0, Sk_map::V1, Sk_map::V2, Sk_map::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sk_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_deny { const NAME: &'static str = "Sk_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sk_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_deny::V0, Sk_deny::V1, Sk_deny::V2, Sk_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sk_array_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_array_deny { const NAME: &'static str = "Sk_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sk_array_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_array_deny::V0, Sk_array_deny::V1, Sk_array_deny::V2, Sk_array_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum Sk_list_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_list_deny { const NAME: &'static str = "Sk_list_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list", serialize_deny_unknown)] pub enum Sk_list_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_list_deny::V0, Sk_list_deny::V1, Sk_list_deny::V2, Sk_list_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum Sk_map_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_map_deny { const NAME: &'static str = "Sk_map_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map", serialize_deny_unknown)] pub enum Sk_map_deny { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_map_deny::V0, Sk_map_deny::V1, Sk_map_deny::V2, Sk_map_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Map; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sl { V0 = 192 }
impl SCat for Sl { const NAME: &'static str = "Sl"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sl { V0 = 192 }"####; const DISCR: &'static [u32] = &[192]; const VARS: &'static [Self] = &[Sl::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sl_array { V0 = 192 }
impl SCat for Sl_array { const NAME: &'static str = "Sl_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sl_array { V0 = 192 }"####; const DISCR: &'static [u32] = &[192]; const VARS: &'static [Self] = &[Sl_array::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sl_list { V0 = 192 }
impl SCat for Sl_list { const NAME: &'static str = "Sl_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sl_list { V0 = 192 }"####; const DISCR: &'static [u32] = &[192]; const VARS: &'static [Self] = &[Sl_list::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sl_map { V0 = 192 }
impl SCat for Sl_map { const NAME: &'static str = "Sl_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sl_map { V0 = 192 }"####; const DISCR: &'static [u32] = &[192]; const VARS: &'static [Self] = &[Sl_map::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sl_deny { V0 = 192 }
impl SCat for Sl_deny { const NAME: &'static str = "Sl_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sl_deny { V0 = 192 }"####; const DISCR: &'static [u32] = &[192]; const VARS: &'static [Self] = &[Sl_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sl_array_deny { V0 = 192 }
impl SCat for Sl_array_deny { const NAME: &'static str = "Sl_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sl_array_deny { V0 = 192 }"####; const DISCR: &'static [u32] = &[192]; const VARS: &'static [Self] = &[Sl_array_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sm { V0 = 5, V1 = 130, V2 = 330 }
impl SCat for Sm { const NAME: &'static str = "Sm"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sm { V0 = 5, V1 = 130, V2 = 330 }"####; const DISCR: &'static [u32] = &[5, 130, 330]; const VARS: &'static [Self] = &[Sm::V0, Sm::V1, Sm::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 6; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sm_array { V0 = 5, V1 = 130, V2 = 330 }
impl SCat for Sm_array { const NAME: &'static str = "Sm_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sm_array { V0 = 5, V1 = 130, V2 = 330 }"####; const DISCR: &'static [u32] = &[5, 130, 330]; const VARS: &'static [Self] = &[Sm_array::V0, Sm_array::V1, Sm_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 6; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sm_list { V0 = 5, V1 = 130, V2 = 330 }
impl SCat for Sm_list { const NAME: &'static str = "Sm_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sm_list { V0 = 5, V1 = 130, V2 = 330 }"####; const DISCR: &'static [u32] = &[5, 130, 330]; const VARS: &'static [Self] = &[Sm_list::V0, Sm_list::V1, Sm_list::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 6; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sm_map { V0 = 5, V1 = 130, V2 = 330 }
impl SCat for Sm_map { const NAME: &'static str = "Sm_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sm_map { V0 = 5, V1 = 130, V2 = 330 }"####; const DISCR: &'static [u32] = &[5, 130, 330]; const VARS: &'static [Self] = &[Sm_map::V0, Sm_map::V1, Sm_map::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 6; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sm_deny { V0 = 5, V1 = 130, V2 = 330 }
impl SCat for Sm_deny { const NAME: &'static str = "Sm_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sm_deny { V0 = 5, V1 = 130, V2 = 330 }"####; const DISCR: &'static [u32] = &[5, 130, 330]; const VARS: &'static [Self] = &[Sm_deny::V0, Sm_deny::V1, Sm_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 6; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sm_array_deny { V0 = 5, V1 = 130, V2 = 330 }
impl SCat for Sm_array_deny { const NAME: &'static str = "Sm_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sm_array_deny { V0 = 5, V1 = 130, V2 = 330 }"####; const DISCR: &'static [u32] = &[5, 130, 330]; const VARS: &'static [Self] = &[Sm_array_deny::V0, Sm_array_deny::V1, Sm_array_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 6; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sn { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn { const NAME: &'static str = "Sn"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sn { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn::V0, Sn::V1, Sn::V2, Sn::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sn_array { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_array { const NAME: &'static str = "Sn_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sn_array { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_array::V0, Sn_array::V1, Sn_array::V2, Sn_array::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sn_u128 { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_u128 { const NAME: &'static str = "Sn_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128")] pub enum Sn_u128 { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_u128::V0, Sn_u128::V1, Sn_u128::V2, Sn_u128::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sn_list { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_list { const NAME: &'static str = "Sn_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sn_list { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_list::V0, Sn_list::V1, Sn_list::V2, Sn_list::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sn_map { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_map { const NAME: &'static str = "Sn_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sn_map { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_map::V0, Sn_map::V1, Sn_map::V2, Sn_map::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sn_deny { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_deny { const NAME: &'static str = "Sn_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sn_deny { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_deny::V0, Sn_deny::V1, Sn_deny::V2, Sn_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sn_array_deny { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_array_deny { const NAME: &'static str = "Sn_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sn_array_deny { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_array_deny::V0, Sn_array_deny::V1, Sn_array_deny::V2, Sn_array_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sn_u128_deny { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }
impl SCat for Sn_u128_deny { const NAME: &'static str = "Sn_u128_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] pub enum Sn_u128_deny { V0 = 1, V1 = 62, V2 = 65, V3 = 126 }"####; const DISCR: &'static [u32] = &[1, 62, 65, 126]; const VARS: &'static [Self] = &[Sn_u128_deny::V0, Sn_u128_deny::V1, Sn_u128_deny::V2, Sn_u128_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum So { V0 = 3, V1 = 320, V2 = 447 }
impl SCat for So { const NAME: &'static str = "So"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum So { V0 = 3, V1 = 320, V2 = 447 }"####; const DISCR: &'static [u32] = &[3, 320, 447]; const VARS: &'static [Self] = &[So::V0, So::V1, So::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 7; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum So_array { V0 = 3, V1 = 320, V2 = 447 }
impl SCat for So_array { const NAME: &'static str = "So_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum So_array { V0 = 3, V1 = 320, V2 = 447 }"####; const DISCR: &'static [u32] = &[3, 320, 447]; const VARS: &'static [Self] = &[So_array::V0, So_array::V1, So_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 7; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum So_list { V0 = 3, V1 = 320, V2 = 447 }
impl SCat for So_list { const NAME: &'static str = "So_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum So_list { V0 = 3, V1 = 320, V2 = 447 }"####; const DISCR: &'static [u32] = &[3, 320, 447]; const VARS: &'static [Self] = &[So_list::V0, So_list::V1, So_list::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 7; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum So_map { V0 = 3, V1 = 320, V2 = 447 }
impl SCat for So_map { const NAME: &'static str = "So_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum So_map { V0 = 3, V1 = 320, V2 = 447 }"####; const DISCR: &'static [u32] = &[3, 320, 447]; const VARS: &'static [Self] = &[So_map::V0, So_map::V1, So_map::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 7; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum So_deny { V0 = 3, V1 = 320, V2 = 447 }
impl SCat for So_deny { const NAME: &'static str = "So_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum So_deny { V0 = 3, V1 = 320, V2 = 447 }"####; const DISCR: &'static [u32] = &[3, 320, 447]; const VARS: &'static [Self] = &[So_deny::V0, So_deny::V1, So_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 7; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum So_array_deny { V0 = 3, V1 = 320, V2 = 447 }
impl SCat for So_array_deny { const NAME: &'static str = "So_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum So_array_deny { V0 = 3, V1 = 320, V2 = 447 }"####; const DISCR: &'static [u32] = &[3, 320, 447]; const VARS: &'static [Self] = &[So_array_deny::V0, So_array_deny::V1, So_array_deny::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 7; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sp { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl SCat for Sp { const NAME: &'static str = "Sp"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sp { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####; const DISCR: &'static [u32] = &[0, 447, 448, 511]; const VARS: &'static [Self] = &[Sp::V0, Sp::V1, Sp::V2, Sp::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 8; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sp_array { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl SCat for Sp_array { const NAME: &'static str = "Sp_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sp_array { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####; const DISCR: &'static [u32] = &[0, 447, 448, 511]; const VARS: &'static [Self] = &[Sp_array::V0, Sp_array::V1, Sp_array::V2, Sp_array::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 8; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sp_list { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl SCat for Sp_list { const NAME: &'static str = "Sp_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sp_list { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####; const DISCR: &'static [u32] = &[0, 447, 448, 511]; const VARS: &'static [Self] = &[Sp_list::V0, Sp_list::V1, Sp_list::V2, Sp_list::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 8; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sp_map { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl SCat for Sp_map { const NAME: &'static str = "Sp_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sp_map { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####; const DISCR: &'static [u32] = &[0, 447, 448, 511]; const VARS: &'static [Self] = &[Sp_map::V0, Sp_map::V1, Sp_map::V2, Sp_map::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 8; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sp_deny { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl SCat for Sp_deny { const NAME: &'static str = "Sp_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sp_deny { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####; const DISCR: &'static [u32] = &[0, 447, 448, 511]; const VARS: &'static [Self] = &[Sp_deny::V0, Sp_deny::V1, Sp_deny::V2, Sp_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 8; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sp_array_deny { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }
impl SCat for Sp_array_deny { const NAME: &'static str = "Sp_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sp_array_deny { V0 = 0, V1 = 447, V2 = 448, V3 = 511 }"####; const DISCR: &'static [u32] = &[0, 447, 448, 511]; const VARS: &'static [Self] = &[Sp_array_deny::V0, Sp_array_deny::V1, Sp_array_deny::V2, Sp_array_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 8; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum Sq { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl SCat for Sq { const NAME: &'static str = "Sq"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum Sq { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####; const DISCR: &'static [u32] = &[1, 511, 512, 575]; const VARS: &'static [Self] = &[Sq::V0, Sq::V1, Sq::V2, Sq::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sq_array { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl SCat for Sq_array { const NAME: &'static str = "Sq_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum Sq_array { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####; const DISCR: &'static [u32] = &[1, 511, 512, 575]; const VARS: &'static [Self] = &[Sq_array::V0, Sq_array::V1, Sq_array::V2, Sq_array::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sq_list { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl SCat for Sq_list { const NAME: &'static str = "Sq_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum Sq_list { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####; const DISCR: &'static [u32] = &[1, 511, 512, 575]; const VARS: &'static [Self] = &[Sq_list::V0, Sq_list::V1, Sq_list::V2, Sq_list::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sq_map { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl SCat for Sq_map { const NAME: &'static str = "Sq_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] pub enum Sq_map { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####; const DISCR: &'static [u32] = &[1, 511, 512, 575]; const VARS: &'static [Self] = &[Sq_map::V0, Sq_map::V1, Sq_map::V2, Sq_map::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sq_deny { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl SCat for Sq_deny { const NAME: &'static str = "Sq_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum Sq_deny { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####; const DISCR: &'static [u32] = &[1, 511, 512, 575]; const VARS: &'static [Self] = &[Sq_deny::V0, Sq_deny::V1, Sq_deny::V2, Sq_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sq_array_deny { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }
impl SCat for Sq_array_deny { const NAME: &'static str = "Sq_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum Sq_array_deny { V0 = 1, V1 = 511, V2 = 512, V3 = 575 }"####; const DISCR: &'static [u32] = &[1, 511, 512, 575]; const VARS: &'static [Self] = &[Sq_array_deny::V0, Sq_array_deny::V1, Sq_array_deny::V2, Sq_array_deny::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum D3_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_in_u8 { const NAME: &'static str = "D3_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum D3_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_in_u8::V0, D3_in_u8::V1, D3_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array")] pub enum D3_array_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_in_u8 { const NAME: &'static str = "D3_array_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array")] pub enum D3_array_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_in_u8::V0, D3_array_in_u8::V1, D3_array_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128")] pub enum D3_u128_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_in_u8 { const NAME: &'static str = "D3_u128_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128")] pub enum D3_u128_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_in_u8::V0, D3_u128_in_u8::V1, D3_u128_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_deny_unknown)] pub enum D3_deny_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny_in_u8 { const NAME: &'static str = "D3_deny_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_deny_unknown)] pub enum D3_deny_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny_in_u8::V0, D3_deny_in_u8::V1, D3_deny_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny_in_u8 { const NAME: &'static str = "D3_array_deny_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny_in_u8::V0, D3_array_deny_in_u8::V1, D3_array_deny_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny_in_u8 { const NAME: &'static str = "D3_u128_deny_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny_in_u8::V0, D3_u128_deny_in_u8::V1, D3_u128_deny_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u8", serialize_repr = "list")] pub enum D3_list_in_u8 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_in_u8 { const NAME: &'static str = "D3_list_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u8", serialize_repr = "list")] pub enum D3_list_in_u8 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_in_u8::V0, D3_list_in_u8::V1, D3_list_in_u8::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum D3_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_in_u16 { const NAME: &'static str = "D3_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum D3_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_in_u16::V0, D3_in_u16::V1, D3_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array")] pub enum D3_array_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_in_u16 { const NAME: &'static str = "D3_array_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array")] pub enum D3_array_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_in_u16::V0, D3_array_in_u16::V1, D3_array_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128")] pub enum D3_u128_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_in_u16 { const NAME: &'static str = "D3_u128_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128")] pub enum D3_u128_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_in_u16::V0, D3_u128_in_u16::V1, D3_u128_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_deny_unknown)] pub enum D3_deny_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny_in_u16 { const NAME: &'static str = "D3_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_deny_unknown)] pub enum D3_deny_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny_in_u16::V0, D3_deny_in_u16::V1, D3_deny_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny_in_u16 { const NAME: &'static str = "D3_array_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny_in_u16::V0, D3_array_deny_in_u16::V1, D3_array_deny_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny_in_u16 { const NAME: &'static str = "D3_u128_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny_in_u16::V0, D3_u128_deny_in_u16::V1, D3_u128_deny_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u16", serialize_repr = "list")] pub enum D3_list_in_u16 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_in_u16 { const NAME: &'static str = "D3_list_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u16", serialize_repr = "list")] pub enum D3_list_in_u16 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_in_u16::V0, D3_list_in_u16::V1, D3_list_in_u16::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum D3_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_in_u32 { const NAME: &'static str = "D3_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum D3_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_in_u32::V0, D3_in_u32::V1, D3_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array")] pub enum D3_array_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_in_u32 { const NAME: &'static str = "D3_array_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array")] pub enum D3_array_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_in_u32::V0, D3_array_in_u32::V1, D3_array_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128")] pub enum D3_u128_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_in_u32 { const NAME: &'static str = "D3_u128_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128")] pub enum D3_u128_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_in_u32::V0, D3_u128_in_u32::V1, D3_u128_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_deny_unknown)] pub enum D3_deny_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny_in_u32 { const NAME: &'static str = "D3_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_deny_unknown)] pub enum D3_deny_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny_in_u32::V0, D3_deny_in_u32::V1, D3_deny_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny_in_u32 { const NAME: &'static str = "D3_array_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny_in_u32::V0, D3_array_deny_in_u32::V1, D3_array_deny_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny_in_u32 { const NAME: &'static str = "D3_u128_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny_in_u32::V0, D3_u128_deny_in_u32::V1, D3_u128_deny_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u32", serialize_repr = "list")] pub enum D3_list_in_u32 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_in_u32 { const NAME: &'static str = "D3_list_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u32", serialize_repr = "list")] pub enum D3_list_in_u32 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_in_u32::V0, D3_list_in_u32::V1, D3_list_in_u32::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum D3_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_in_u64 { const NAME: &'static str = "D3_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum D3_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_in_u64::V0, D3_in_u64::V1, D3_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum D3_array_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_in_u64 { const NAME: &'static str = "D3_array_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum D3_array_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_in_u64::V0, D3_array_in_u64::V1, D3_array_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum D3_u128_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_in_u64 { const NAME: &'static str = "D3_u128_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum D3_u128_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_in_u64::V0, D3_u128_in_u64::V1, D3_u128_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum D3_deny_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny_in_u64 { const NAME: &'static str = "D3_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum D3_deny_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny_in_u64::V0, D3_deny_in_u64::V1, D3_deny_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny_in_u64 { const NAME: &'static str = "D3_array_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny_in_u64::V0, D3_array_deny_in_u64::V1, D3_array_deny_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny_in_u64 { const NAME: &'static str = "D3_u128_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny_in_u64::V0, D3_u128_deny_in_u64::V1, D3_u128_deny_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum D3_list_in_u64 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_in_u64 { const NAME: &'static str = "D3_list_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum D3_list_in_u64 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_in_u64::V0, D3_list_in_u64::V1, D3_list_in_u64::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum D3_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_in_u128 { const NAME: &'static str = "D3_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum D3_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_in_u128::V0, D3_in_u128::V1, D3_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum D3_array_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_in_u128 { const NAME: &'static str = "D3_array_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum D3_array_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_in_u128::V0, D3_array_in_u128::V1, D3_array_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum D3_u128_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_in_u128 { const NAME: &'static str = "D3_u128_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum D3_u128_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_in_u128::V0, D3_u128_in_u128::V1, D3_u128_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum D3_deny_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny_in_u128 { const NAME: &'static str = "D3_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum D3_deny_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny_in_u128::V0, D3_deny_in_u128::V1, D3_deny_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny_in_u128 { const NAME: &'static str = "D3_array_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny_in_u128::V0, D3_array_deny_in_u128::V1, D3_array_deny_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny_in_u128 { const NAME: &'static str = "D3_u128_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny_in_u128::V0, D3_u128_deny_in_u128::V1, D3_u128_deny_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum D3_list_in_u128 { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_in_u128 { const NAME: &'static str = "D3_list_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum D3_list_in_u128 { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_in_u128::V0, D3_list_in_u128::V1, D3_list_in_u128::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum D3_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_in_array { const NAME: &'static str = "D3_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum D3_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_in_array::V0, D3_in_array::V1, D3_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum D3_array_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_in_array { const NAME: &'static str = "D3_array_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum D3_array_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_in_array::V0, D3_array_in_array::V1, D3_array_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum D3_u128_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_in_array { const NAME: &'static str = "D3_u128_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum D3_u128_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_in_array::V0, D3_u128_in_array::V1, D3_u128_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum D3_deny_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_deny_in_array { const NAME: &'static str = "D3_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum D3_deny_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_deny_in_array::V0, D3_deny_in_array::V1, D3_deny_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_array_deny_in_array { const NAME: &'static str = "D3_array_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum D3_array_deny_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_array_deny_in_array::V0, D3_array_deny_in_array::V1, D3_array_deny_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_u128_deny_in_array { const NAME: &'static str = "D3_u128_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum D3_u128_deny_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_u128_deny_in_array::V0, D3_u128_deny_in_array::V1, D3_u128_deny_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum D3_list_in_array { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_in_array { const NAME: &'static str = "D3_list_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum D3_list_in_array { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_in_array::V0, D3_list_in_array::V1, D3_list_in_array::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum Sc_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_in_u16 { const NAME: &'static str = "Sc_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum Sc_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_in_u16::V0, Sc_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array")] pub enum Sc_array_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_in_u16 { const NAME: &'static str = "Sc_array_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array")] pub enum Sc_array_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_in_u16::V0, Sc_array_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128")] pub enum Sc_u128_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_in_u16 { const NAME: &'static str = "Sc_u128_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128")] pub enum Sc_u128_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_in_u16::V0, Sc_u128_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_deny_unknown)] pub enum Sc_deny_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_deny_in_u16 { const NAME: &'static str = "Sc_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_deny_unknown)] pub enum Sc_deny_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_deny_in_u16::V0, Sc_deny_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_deny_in_u16 { const NAME: &'static str = "Sc_array_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_deny_in_u16::V0, Sc_array_deny_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_deny_in_u16 { const NAME: &'static str = "Sc_u128_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_deny_in_u16::V0, Sc_u128_deny_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u16", serialize_repr = "list")] pub enum Sc_list_in_u16 { V0 = 3, V1 = 8 }
impl SCat for Sc_list_in_u16 { const NAME: &'static str = "Sc_list_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u16", serialize_repr = "list")] pub enum Sc_list_in_u16 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_list_in_u16::V0, Sc_list_in_u16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum Sc_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_in_u32 { const NAME: &'static str = "Sc_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum Sc_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_in_u32::V0, Sc_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array")] pub enum Sc_array_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_in_u32 { const NAME: &'static str = "Sc_array_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array")] pub enum Sc_array_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_in_u32::V0, Sc_array_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128")] pub enum Sc_u128_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_in_u32 { const NAME: &'static str = "Sc_u128_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128")] pub enum Sc_u128_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_in_u32::V0, Sc_u128_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_deny_unknown)] pub enum Sc_deny_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_deny_in_u32 { const NAME: &'static str = "Sc_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_deny_unknown)] pub enum Sc_deny_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_deny_in_u32::V0, Sc_deny_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_deny_in_u32 { const NAME: &'static str = "Sc_array_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_deny_in_u32::V0, Sc_array_deny_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_deny_in_u32 { const NAME: &'static str = "Sc_u128_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_deny_in_u32::V0, Sc_u128_deny_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u32", serialize_repr = "list")] pub enum Sc_list_in_u32 { V0 = 3, V1 = 8 }
impl SCat for Sc_list_in_u32 { const NAME: &'static str = "Sc_list_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u32", serialize_repr = "list")] pub enum Sc_list_in_u32 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_list_in_u32::V0, Sc_list_in_u32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum Sc_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_in_u64 { const NAME: &'static str = "Sc_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum Sc_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_in_u64::V0, Sc_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum Sc_array_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_in_u64 { const NAME: &'static str = "Sc_array_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum Sc_array_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_in_u64::V0, Sc_array_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum Sc_u128_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_in_u64 { const NAME: &'static str = "Sc_u128_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum Sc_u128_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_in_u64::V0, Sc_u128_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum Sc_deny_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_deny_in_u64 { const NAME: &'static str = "Sc_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum Sc_deny_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_deny_in_u64::V0, Sc_deny_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_deny_in_u64 { const NAME: &'static str = "Sc_array_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_deny_in_u64::V0, Sc_array_deny_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_deny_in_u64 { const NAME: &'static str = "Sc_u128_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_deny_in_u64::V0, Sc_u128_deny_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum Sc_list_in_u64 { V0 = 3, V1 = 8 }
impl SCat for Sc_list_in_u64 { const NAME: &'static str = "Sc_list_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum Sc_list_in_u64 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_list_in_u64::V0, Sc_list_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum Sc_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_in_u128 { const NAME: &'static str = "Sc_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum Sc_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_in_u128::V0, Sc_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum Sc_array_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_in_u128 { const NAME: &'static str = "Sc_array_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum Sc_array_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_in_u128::V0, Sc_array_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum Sc_u128_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_in_u128 { const NAME: &'static str = "Sc_u128_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum Sc_u128_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_in_u128::V0, Sc_u128_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum Sc_deny_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_deny_in_u128 { const NAME: &'static str = "Sc_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum Sc_deny_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_deny_in_u128::V0, Sc_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_array_deny_in_u128 { const NAME: &'static str = "Sc_array_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_deny_in_u128::V0, Sc_array_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_deny_in_u128 { const NAME: &'static str = "Sc_u128_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_deny_in_u128::V0, Sc_u128_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum Sc_list_in_u128 { V0 = 3, V1 = 8 }
impl SCat for Sc_list_in_u128 { const NAME: &'static str = "Sc_list_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum Sc_list_in_u128 { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_list_in_u128::V0, Sc_list_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum Sc_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_in_array { const NAME: &'static str = "Sc_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum Sc_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_in_array::V0, Sc_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum Sc_array_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_array_in_array { const NAME: &'static str = "Sc_array_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum Sc_array_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_in_array::V0, Sc_array_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum Sc_u128_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_in_array { const NAME: &'static str = "Sc_u128_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum Sc_u128_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_in_array::V0, Sc_u128_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum Sc_deny_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_deny_in_array { const NAME: &'static str = "Sc_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum Sc_deny_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_deny_in_array::V0, Sc_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_array_deny_in_array { const NAME: &'static str = "Sc_array_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum Sc_array_deny_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_array_deny_in_array::V0, Sc_array_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_u128_deny_in_array { const NAME: &'static str = "Sc_u128_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sc_u128_deny_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_u128_deny_in_array::V0, Sc_u128_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum Sc_list_in_array { V0 = 3, V1 = 8 }
impl SCat for Sc_list_in_array { const NAME: &'static str = "Sc_list_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum Sc_list_in_array { V0 = 3, V1 = 8 }"####; const DISCR: &'static [u32] = &[3, 8]; const VARS: &'static [Self] = &[Sc_list_in_array::V0, Sc_list_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum Sf_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_in_u64 { const NAME: &'static str = "Sf_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum Sf_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_in_u64::V0, Sf_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum Sf_array_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_array_in_u64 { const NAME: &'static str = "Sf_array_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum Sf_array_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_in_u64::V0, Sf_array_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum Sf_u128_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_in_u64 { const NAME: &'static str = "Sf_u128_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum Sf_u128_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_in_u64::V0, Sf_u128_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum Sf_deny_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_deny_in_u64 { const NAME: &'static str = "Sf_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum Sf_deny_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_deny_in_u64::V0, Sf_deny_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_array_deny_in_u64 { const NAME: &'static str = "Sf_array_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_deny_in_u64::V0, Sf_array_deny_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_deny_in_u64 { const NAME: &'static str = "Sf_u128_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_deny_in_u64::V0, Sf_u128_deny_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum Sf_list_in_u64 { V0 = 0, V1 = 63 }
impl SCat for Sf_list_in_u64 { const NAME: &'static str = "Sf_list_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum Sf_list_in_u64 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_list_in_u64::V0, Sf_list_in_u64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum Sf_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_in_u128 { const NAME: &'static str = "Sf_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum Sf_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_in_u128::V0, Sf_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum Sf_array_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_array_in_u128 { const NAME: &'static str = "Sf_array_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum Sf_array_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_in_u128::V0, Sf_array_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum Sf_u128_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_in_u128 { const NAME: &'static str = "Sf_u128_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum Sf_u128_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_in_u128::V0, Sf_u128_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum Sf_deny_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_deny_in_u128 { const NAME: &'static str = "Sf_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum Sf_deny_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_deny_in_u128::V0, Sf_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_array_deny_in_u128 { const NAME: &'static str = "Sf_array_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_deny_in_u128::V0, Sf_array_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_deny_in_u128 { const NAME: &'static str = "Sf_u128_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_deny_in_u128::V0, Sf_u128_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum Sf_list_in_u128 { V0 = 0, V1 = 63 }
impl SCat for Sf_list_in_u128 { const NAME: &'static str = "Sf_list_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum Sf_list_in_u128 { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_list_in_u128::V0, Sf_list_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum Sf_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_in_array { const NAME: &'static str = "Sf_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum Sf_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_in_array::V0, Sf_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum Sf_array_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_array_in_array { const NAME: &'static str = "Sf_array_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum Sf_array_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_in_array::V0, Sf_array_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum Sf_u128_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_in_array { const NAME: &'static str = "Sf_u128_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum Sf_u128_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_in_array::V0, Sf_u128_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum Sf_deny_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_deny_in_array { const NAME: &'static str = "Sf_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum Sf_deny_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_deny_in_array::V0, Sf_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_array_deny_in_array { const NAME: &'static str = "Sf_array_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum Sf_array_deny_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_array_deny_in_array::V0, Sf_array_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_u128_deny_in_array { const NAME: &'static str = "Sf_u128_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum Sf_u128_deny_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_u128_deny_in_array::V0, Sf_u128_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum Sf_list_in_array { V0 = 0, V1 = 63 }
impl SCat for Sf_list_in_array { const NAME: &'static str = "Sf_list_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum Sf_list_in_array { V0 = 0, V1 = 63 }"####; const DISCR: &'static [u32] = &[0, 63]; const VARS: &'static [Self] = &[Sf_list_in_array::V0, Sf_list_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum Si_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_in_u128 { const NAME: &'static str = "Si_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum Si_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_in_u128::V0, Si_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum Si_array_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_array_in_u128 { const NAME: &'static str = "Si_array_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum Si_array_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_array_in_u128::V0, Si_array_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum Si_u128_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_u128_in_u128 { const NAME: &'static str = "Si_u128_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum Si_u128_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_u128_in_u128::V0, Si_u128_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum Si_deny_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_deny_in_u128 { const NAME: &'static str = "Si_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum Si_deny_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_deny_in_u128::V0, Si_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum Si_array_deny_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_array_deny_in_u128 { const NAME: &'static str = "Si_array_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum Si_array_deny_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_array_deny_in_u128::V0, Si_array_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum Si_u128_deny_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_u128_deny_in_u128 { const NAME: &'static str = "Si_u128_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum Si_u128_deny_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_u128_deny_in_u128::V0, Si_u128_deny_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum Si_list_in_u128 { V0 = 0, V1 = 127 }
impl SCat for Si_list_in_u128 { const NAME: &'static str = "Si_list_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum Si_list_in_u128 { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_list_in_u128::V0, Si_list_in_u128::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum Si_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_in_array { const NAME: &'static str = "Si_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum Si_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_in_array::V0, Si_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum Si_array_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_array_in_array { const NAME: &'static str = "Si_array_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum Si_array_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_array_in_array::V0, Si_array_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum Si_u128_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_u128_in_array { const NAME: &'static str = "Si_u128_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum Si_u128_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_u128_in_array::V0, Si_u128_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum Si_deny_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_deny_in_array { const NAME: &'static str = "Si_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum Si_deny_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_deny_in_array::V0, Si_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum Si_array_deny_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_array_deny_in_array { const NAME: &'static str = "Si_array_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum Si_array_deny_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_array_deny_in_array::V0, Si_array_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum Si_u128_deny_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_u128_deny_in_array { const NAME: &'static str = "Si_u128_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum Si_u128_deny_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_u128_deny_in_array::V0, Si_u128_deny_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum Si_list_in_array { V0 = 0, V1 = 127 }
impl SCat for Si_list_in_array { const NAME: &'static str = "Si_list_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum Si_list_in_array { V0 = 0, V1 = 127 }"####; const DISCR: &'static [u32] = &[0, 127]; const VARS: &'static [Self] = &[Si_list_in_array::V0, Si_list_in_array::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum D0_in_u8 {  }
impl SCat for D0_in_u8 { const NAME: &'static str = "D0_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] pub enum D0_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array")] pub enum D0_array_in_u8 {  }
impl SCat for D0_array_in_u8 { const NAME: &'static str = "D0_array_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array")] pub enum D0_array_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128")] pub enum D0_u128_in_u8 {  }
impl SCat for D0_u128_in_u8 { const NAME: &'static str = "D0_u128_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128")] pub enum D0_u128_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_deny_unknown)] pub enum D0_deny_in_u8 {  }
impl SCat for D0_deny_in_u8 { const NAME: &'static str = "D0_deny_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_deny_unknown)] pub enum D0_deny_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u8 {  }
impl SCat for D0_array_deny_in_u8 { const NAME: &'static str = "D0_array_deny_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u8 {  }
impl SCat for D0_u128_deny_in_u8 { const NAME: &'static str = "D0_u128_deny_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u8", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u8", serialize_repr = "list")] pub enum D0_list_in_u8 {  }
impl SCat for D0_list_in_u8 { const NAME: &'static str = "D0_list_in_u8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u8", serialize_repr = "list")] pub enum D0_list_in_u8 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum D0_in_u16 {  }
impl SCat for D0_in_u16 { const NAME: &'static str = "D0_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16")] pub enum D0_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array")] pub enum D0_array_in_u16 {  }
impl SCat for D0_array_in_u16 { const NAME: &'static str = "D0_array_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array")] pub enum D0_array_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128")] pub enum D0_u128_in_u16 {  }
impl SCat for D0_u128_in_u16 { const NAME: &'static str = "D0_u128_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128")] pub enum D0_u128_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_deny_unknown)] pub enum D0_deny_in_u16 {  }
impl SCat for D0_deny_in_u16 { const NAME: &'static str = "D0_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_deny_unknown)] pub enum D0_deny_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u16 {  }
impl SCat for D0_array_deny_in_u16 { const NAME: &'static str = "D0_array_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u16 {  }
impl SCat for D0_u128_deny_in_u16 { const NAME: &'static str = "D0_u128_deny_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u16", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u16", serialize_repr = "list")] pub enum D0_list_in_u16 {  }
impl SCat for D0_list_in_u16 { const NAME: &'static str = "D0_list_in_u16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u16", serialize_repr = "list")] pub enum D0_list_in_u16 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum D0_in_u32 {  }
impl SCat for D0_in_u32 { const NAME: &'static str = "D0_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] pub enum D0_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array")] pub enum D0_array_in_u32 {  }
impl SCat for D0_array_in_u32 { const NAME: &'static str = "D0_array_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array")] pub enum D0_array_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128")] pub enum D0_u128_in_u32 {  }
impl SCat for D0_u128_in_u32 { const NAME: &'static str = "D0_u128_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128")] pub enum D0_u128_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_deny_unknown)] pub enum D0_deny_in_u32 {  }
impl SCat for D0_deny_in_u32 { const NAME: &'static str = "D0_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_deny_unknown)] pub enum D0_deny_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u32 {  }
impl SCat for D0_array_deny_in_u32 { const NAME: &'static str = "D0_array_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u32 {  }
impl SCat for D0_u128_deny_in_u32 { const NAME: &'static str = "D0_u128_deny_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u32", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u32", serialize_repr = "list")] pub enum D0_list_in_u32 {  }
impl SCat for D0_list_in_u32 { const NAME: &'static str = "D0_list_in_u32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u32", serialize_repr = "list")] pub enum D0_list_in_u32 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum D0_in_u64 {  }
impl SCat for D0_in_u64 { const NAME: &'static str = "D0_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64")] pub enum D0_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum D0_array_in_u64 {  }
impl SCat for D0_array_in_u64 { const NAME: &'static str = "D0_array_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array")] pub enum D0_array_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum D0_u128_in_u64 {  }
impl SCat for D0_u128_in_u64 { const NAME: &'static str = "D0_u128_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128")] pub enum D0_u128_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum D0_deny_in_u64 {  }
impl SCat for D0_deny_in_u64 { const NAME: &'static str = "D0_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_deny_unknown)] pub enum D0_deny_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u64 {  }
impl SCat for D0_array_deny_in_u64 { const NAME: &'static str = "D0_array_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u64 {  }
impl SCat for D0_u128_deny_in_u64 { const NAME: &'static str = "D0_u128_deny_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u64", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum D0_list_in_u64 {  }
impl SCat for D0_list_in_u64 { const NAME: &'static str = "D0_list_in_u64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u64", serialize_repr = "list")] pub enum D0_list_in_u64 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum D0_in_u128 {  }
impl SCat for D0_in_u128 { const NAME: &'static str = "D0_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] pub enum D0_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum D0_array_in_u128 {  }
impl SCat for D0_array_in_u128 { const NAME: &'static str = "D0_array_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array")] pub enum D0_array_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum D0_u128_in_u128 {  }
impl SCat for D0_u128_in_u128 { const NAME: &'static str = "D0_u128_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] pub enum D0_u128_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum D0_deny_in_u128 {  }
impl SCat for D0_deny_in_u128 { const NAME: &'static str = "D0_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_deny_unknown)] pub enum D0_deny_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u128 {  }
impl SCat for D0_array_deny_in_u128 { const NAME: &'static str = "D0_array_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u128 {  }
impl SCat for D0_u128_deny_in_u128 { const NAME: &'static str = "D0_u128_deny_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum D0_list_in_u128 {  }
impl SCat for D0_list_in_u128 { const NAME: &'static str = "D0_list_in_u128"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "u128", serialize_repr = "list")] pub enum D0_list_in_u128 {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum D0_in_array {  }
impl SCat for D0_in_array { const NAME: &'static str = "D0_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] pub enum D0_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum D0_array_in_array {  }
impl SCat for D0_array_in_array { const NAME: &'static str = "D0_array_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array")] pub enum D0_array_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum D0_u128_in_array {  }
impl SCat for D0_u128_in_array { const NAME: &'static str = "D0_u128_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128")] pub enum D0_u128_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum D0_deny_in_array {  }
impl SCat for D0_deny_in_array { const NAME: &'static str = "D0_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_deny_unknown)] pub enum D0_deny_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_array {  }
impl SCat for D0_array_deny_in_array { const NAME: &'static str = "D0_array_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] pub enum D0_array_deny_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_array {  }
impl SCat for D0_u128_deny_in_array { const NAME: &'static str = "D0_u128_deny_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)] pub enum D0_u128_deny_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum D0_list_in_array {  }
impl SCat for D0_list_in_array { const NAME: &'static str = "D0_list_in_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(repr = "array", serialize_repr = "list")] pub enum D0_list_in_array {  }"####; const DISCR: &'static [u32] = &[]; const VARS: &'static [Self] = &[]; const VNAMES: &'static [&'static str] = &[]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_list)] pub enum D3_serialize_as_list { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_serialize_as_list { const NAME: &'static str = "D3_serialize_as_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_list)] pub enum D3_serialize_as_list { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_serialize_as_list::V0, D3_serialize_as_list::V1, D3_serialize_as_list::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_map)] pub enum D3_serialize_as_map { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_serialize_as_map { const NAME: &'static str = "D3_serialize_as_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_map)] pub enum D3_serialize_as_map { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_serialize_as_map::V0, D3_serialize_as_map::V1, D3_serialize_as_map::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_list)] pub enum Sk_serialize_as_list { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_serialize_as_list { const NAME: &'static str = "Sk_serialize_as_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_list)] pub enum Sk_serialize_as_list { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_serialize_as_list::V0, Sk_serialize_as_list::V1, Sk_serialize_as_list::V2, Sk_serialize_as_list::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_map)] pub enum Sk_serialize_as_map { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_serialize_as_map { const NAME: &'static str = "Sk_serialize_as_map"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_as_map)] pub enum Sk_serialize_as_map { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_serialize_as_map::V0, Sk_serialize_as_map::V1, Sk_serialize_as_map::V2, Sk_serialize_as_map::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "list")] pub enum D3_list_num { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_list_num { const NAME: &'static str = "D3_list_num"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "list")] pub enum D3_list_num { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_list_num::V0, D3_list_num::V1, D3_list_num::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = true; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
num_elem!(D3_list_num);
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "map")] pub enum D3_map_num { V0 = 0, V1 = 1, V2 = 2 }
impl SCat for D3_map_num { const NAME: &'static str = "D3_map_num"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "map")] pub enum D3_map_num { V0 = 0, V1 = 1, V2 = 2 }"####; const DISCR: &'static [u32] = &[0, 1, 2]; const VARS: &'static [Self] = &[D3_map_num::V0, D3_map_num::V1, D3_map_num::V2]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2"]; const NUM: bool = true; const WORDS: usize = 1; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
num_elem!(D3_map_num);
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "list")] pub enum Sh_list_num { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_list_num { const NAME: &'static str = "Sh_list_num"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "list")] pub enum Sh_list_num { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_list_num::V0, Sh_list_num::V1, Sh_list_num::V2, Sh_list_num::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = true; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
num_elem!(Sh_list_num);
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "map")] pub enum Sh_map_num { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }
impl SCat for Sh_map_num { const NAME: &'static str = "Sh_map_num"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "map")] pub enum Sh_map_num { V0 = 2, V1 = 63, V2 = 64, V3 = 100 }"####; const DISCR: &'static [u32] = &[2, 63, 64, 100]; const VARS: &'static [Self] = &[Sh_map_num::V0, Sh_map_num::V1, Sh_map_num::V2, Sh_map_num::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = true; const WORDS: usize = 2; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
num_elem!(Sh_map_num);
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "list")] pub enum Sk_list_num { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_list_num { const NAME: &'static str = "Sk_list_num"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "list")] pub enum Sk_list_num { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_list_num::V0, Sk_list_num::V1, Sk_list_num::V2, Sk_list_num::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = true; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
num_elem!(Sk_list_num);
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "map")] pub enum Sk_map_num { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }
impl SCat for Sk_map_num { const NAME: &'static str = "Sk_map_num"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "map")] pub enum Sk_map_num { V0 = 0, V1 = 64, V2 = 128, V3 = 191 }"####; const DISCR: &'static [u32] = &[0, 64, 128, 191]; const VARS: &'static [Self] = &[Sk_map_num::V0, Sk_map_num::V1, Sk_map_num::V2, Sk_map_num::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = true; const WORDS: usize = 3; const FMT: Fmt = Fmt::Map; const DENY: bool = false; }
num_elem!(Sk_map_num);
#[derive(EnumSetType, Debug)] pub enum D2 { V0 = 0, V1 = 1 }
impl SCat for D2 { const NAME: &'static str = "D2"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D2 { V0 = 0, V1 = 1 }"####; const DISCR: &'static [u32] = &[0, 1]; const VARS: &'static [Self] = &[D2::V0, D2::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3 }
impl SCat for D4 { const NAME: &'static str = "D4"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3]; const VARS: &'static [Self] = &[D4::V0, D4::V1, D4::V2, D4::V3]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D5 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4 }
impl SCat for D5 { const NAME: &'static str = "D5"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D5 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4]; const VARS: &'static [Self] = &[D5::V0, D5::V1, D5::V2, D5::V3, D5::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5 }
impl SCat for D6 { const NAME: &'static str = "D6"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5]; const VARS: &'static [Self] = &[D6::V0, D6::V1, D6::V2, D6::V3, D6::V4, D6::V5]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D7 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6 }
impl SCat for D7 { const NAME: &'static str = "D7"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D7 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6]; const VARS: &'static [Self] = &[D7::V0, D7::V1, D7::V2, D7::V3, D7::V4, D7::V5, D7::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D10 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9 }
impl SCat for D10 { const NAME: &'static str = "D10"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D10 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]; const VARS: &'static [Self] = &[D10::V0, D10::V1, D10::V2, D10::V3, D10::V4, D10::V5, D10::V6, D10::V7, D10::V8, D10::V9]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D11 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10 }
impl SCat for D11 { const NAME: &'static str = "D11"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D11 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]; const VARS: &'static [Self] = &[D11::V0, D11::V1, D11::V2, D11::V3, D11::V4, D11::V5, D11::V6, D11::V7, D11::V8, D11::V9, D11::V10]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D12 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11 }
impl SCat for D12 { const NAME: &'static str = "D12"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D12 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]; const VARS: &'static [Self] = &[D12::V0, D12::V1, D12::V2, D12::V3, D12::V4, D12::V5, D12::V6, D12::V7, D12::V8, D12::V9, D12::V10, D12::V11]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D13 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12 }
impl SCat for D13 { const NAME: &'static str = "D13"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D13 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]; const VARS: &'static [Self] = &[D13::V0, D13::V1, D13::V2, D13::V3, D13::V4, D13::V5, D13::V6, D13::V7, D13::V8, D13::V9, D13::V10, D13::V11, D13::V12]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D14 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13 }
impl SCat for D14 { const NAME: &'static str = "D14"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D14 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]; const VARS: &'static [Self] = &[D14::V0, D14::V1, D14::V2, D14::V3, D14::V4, D14::V5, D14::V6, D14::V7, D14::V8, D14::V9, D14::V10, D14::V11, D14::V12, D14::V13]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D15 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14 }
impl SCat for D15 { const NAME: &'static str = "D15"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D15 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]; const VARS: &'static [Self] = &[D15::V0, D15::V1, D15::V2, D15::V3, D15::V4, D15::V5, D15::V6, D15::V7, D15::V8, D15::V9, D15::V10, D15::V11, D15::V12, D15::V13, D15::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D17 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16 }
impl SCat for D17 { const NAME: &'static str = "D17"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D17 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]; const VARS: &'static [Self] = &[D17::V0, D17::V1, D17::V2, D17::V3, D17::V4, D17::V5, D17::V6, D17::V7, D17::V8, D17::V9, D17::V10, D17::V11, D17::V12, D17::V13, D17::V14, D17::V15, D17::V16]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D18 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17 }
impl SCat for D18 { const NAME: &'static str = "D18"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D18 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]; const VARS: &'static [Self] = &[D18::V0, D18::V1, D18::V2, D18::V3, D18::V4, D18::V5, D18::V6, D18::V7, D18::V8, D18::V9, D18::V10, D18::V11, D18::V12, D18::V13, D18::V14, D18::V15, D18::V16, D18::V17]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D19 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18 }
impl SCat for D19 { const NAME: &'static str = "D19"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D19 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]; const VARS: &'static [Self] = &[D19::V0, D19::V1, D19::V2, D19::V3, D19::V4, D19::V5, D19::V6, D19::V7, D19::V8, D19::V9, D19::V10, D19::V11, D19::V12, D19::V13, D19::V14, D19::V15, D19::V16, D19::V17, D19::V18]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D20 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19 }
impl SCat for D20 { const NAME: &'static str = "D20"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D20 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19]; const VARS: &'static [Self] = &[D20::V0, D20::V1, D20::V2, D20::V3, D20::V4, D20::V5, D20::V6, D20::V7, D20::V8, D20::V9, D20::V10, D20::V11, D20::V12, D20::V13, D20::V14, D20::V15, D20::V16, D20::V17, D20::V18, D20::V19]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D21 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20 }
impl SCat for D21 { const NAME: &'static str = "D21"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D21 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]; const VARS: &'static [Self] = &[D21::V0, D21::V1, D21::V2, D21::V3, D21::V4, D21::V5, D21::V6, D21::V7, D21::V8, D21::V9, D21::V10, D21::V11, D21::V12, D21::V13, D21::V14, D21::V15, D21::V16, D21::V17, D21::V18, D21::V19, D21::V20]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D22 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21 }
impl SCat for D22 { const NAME: &'static str = "D22"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D22 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]; const VARS: &'static [Self] = &[D22::V0, D22::V1, D22::V2, D22::V3, D22::V4, D22::V5, D22::V6, D22::V7, D22::V8, D22::V9, D22::V10, D22::V11, D22::V12, D22::V13, D22::V14, D22::V15, D22::V16, D22::V17, D22::V18, D22::V19, D22::V20, D22::V21]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D23 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22 }
impl SCat for D23 { const NAME: &'static str = "D23"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D23 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]; const VARS: &'static [Self] = &[D23::V0, D23::V1, D23::V2, D23::V3, D23::V4, D23::V5, D23::V6, D23::V7, D23::V8, D23::V9, D23::V10, D23::V11, D23::V12, D23::V13, D23::V14, D23::V15, D23::V16, D23::V17, D23::V18, D23::V19, D23::V20, D23::V21, D23::V22]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D24_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23 }
impl SCat for D24_deny { const NAME: &'static str = "D24_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D24_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]; const VARS: &'static [Self] = &[D24_deny::V0, D24_deny::V1, D24_deny::V2, D24_deny::V3, D24_deny::V4, D24_deny::V5, D24_deny::V6, D24_deny::V7, D24_deny::V8, D24_deny::V9, D24_deny::V10, D24_deny::V11, D24_deny::V12, D24_deny::V13, D24_deny::V14, D24_deny::V15, D24_deny::V16, D24_deny::V17, D24_deny::V18, D24_deny::V19, D24_deny::V20, D24_deny::V21, D24_deny::V22, D24_deny::V23]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D24 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23 }
impl SCat for D24 { const NAME: &'static str = "D24"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D24 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]; const VARS: &'static [Self] = &[D24::V0, D24::V1, D24::V2, D24::V3, D24::V4, D24::V5, D24::V6, D24::V7, D24::V8, D24::V9, D24::V10, D24::V11, D24::V12, D24::V13, D24::V14, D24::V15, D24::V16, D24::V17, D24::V18, D24::V19, D24::V20, D24::V21, D24::V22, D24::V23]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D25 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24 }
impl SCat for D25 { const NAME: &'static str = "D25"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D25 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]; const VARS: &'static [Self] = &[D25::V0, D25::V1, D25::V2, D25::V3, D25::V4, D25::V5, D25::V6, D25::V7, D25::V8, D25::V9, D25::V10, D25::V11, D25::V12, D25::V13, D25::V14, D25::V15, D25::V16, D25::V17, D25::V18, D25::V19, D25::V20, D25::V21, D25::V22, D25::V23, D25::V24]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D26 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25 }
impl SCat for D26 { const NAME: &'static str = "D26"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D26 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]; const VARS: &'static [Self] = &[D26::V0, D26::V1, D26::V2, D26::V3, D26::V4, D26::V5, D26::V6, D26::V7, D26::V8, D26::V9, D26::V10, D26::V11, D26::V12, D26::V13, D26::V14, D26::V15, D26::V16, D26::V17, D26::V18, D26::V19, D26::V20, D26::V21, D26::V22, D26::V23, D26::V24, D26::V25]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D27 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26 }
impl SCat for D27 { const NAME: &'static str = "D27"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D27 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26]; const VARS: &'static [Self] = &[D27::V0, D27::V1, D27::V2, D27::V3, D27::V4, D27::V5, D27::V6, D27::V7, D27::V8, D27::V9, D27::V10, D27::V11, D27::V12, D27::V13, D27::V14, D27::V15, D27::V16, D27::V17, D27::V18, D27::V19, D27::V20, D27::V21, D27::V22, D27::V23, D27::V24, D27::V25, D27::V26]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D28 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27 }
impl SCat for D28 { const NAME: &'static str = "D28"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D28 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27]; const VARS: &'static [Self] = &[D28::V0, D28::V1, D28::V2, D28::V3, D28::V4, D28::V5, D28::V6, D28::V7, D28::V8, D28::V9, D28::V10, D28::V11, D28::V12, D28::V13, D28::V14, D28::V15, D28::V16, D28::V17, D28::V18, D28::V19, D28::V20, D28::V21, D28::V22, D28::V23, D28::V24, D28::V25, D28::V26, D28::V27]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D29 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28 }
impl SCat for D29 { const NAME: &'static str = "D29"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D29 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]; const VARS: &'static [Self] = &[D29::V0, D29::V1, D29::V2, D29::V3, D29::V4, D29::V5, D29::V6, D29::V7, D29::V8, D29::V9, D29::V10, D29::V11, D29::V12, D29::V13, D29::V14, D29::V15, D29::V16, D29::V17, D29::V18, D29::V19, D29::V20, D29::V21, D29::V22, D29::V23, D29::V24, D29::V25, D29::V26, D29::V27, D29::V28]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D30 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29 }
impl SCat for D30 { const NAME: &'static str = "D30"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D30 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]; const VARS: &'static [Self] = &[D30::V0, D30::V1, D30::V2, D30::V3, D30::V4, D30::V5, D30::V6, D30::V7, D30::V8, D30::V9, D30::V10, D30::V11, D30::V12, D30::V13, D30::V14, D30::V15, D30::V16, D30::V17, D30::V18, D30::V19, D30::V20, D30::V21, D30::V22, D30::V23, D30::V24, D30::V25, D30::V26, D30::V27, D30::V28, D30::V29]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D31 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30 }
impl SCat for D31 { const NAME: &'static str = "D31"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D31 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]; const VARS: &'static [Self] = &[D31::V0, D31::V1, D31::V2, D31::V3, D31::V4, D31::V5, D31::V6, D31::V7, D31::V8, D31::V9, D31::V10, D31::V11, D31::V12, D31::V13, D31::V14, D31::V15, D31::V16, D31::V17, D31::V18, D31::V19, D31::V20, D31::V21, D31::V22, D31::V23, D31::V24, D31::V25, D31::V26, D31::V27, D31::V28, D31::V29, D31::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D32_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31 }
impl SCat for D32_deny { const NAME: &'static str = "D32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D32_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]; const VARS: &'static [Self] = &[D32_deny::V0, D32_deny::V1, D32_deny::V2, D32_deny::V3, D32_deny::V4, D32_deny::V5, D32_deny::V6, D32_deny::V7, D32_deny::V8, D32_deny::V9, D32_deny::V10, D32_deny::V11, D32_deny::V12, D32_deny::V13, D32_deny::V14, D32_deny::V15, D32_deny::V16, D32_deny::V17, D32_deny::V18, D32_deny::V19, D32_deny::V20, D32_deny::V21, D32_deny::V22, D32_deny::V23, D32_deny::V24, D32_deny::V25, D32_deny::V26, D32_deny::V27, D32_deny::V28, D32_deny::V29, D32_deny::V30, D32_deny::V31]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31 }
impl SCat for D32 { const NAME: &'static str = "D32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]; const VARS: &'static [Self] = &[D32::V0, D32::V1, D32::V2, D32::V3, D32::V4, D32::V5, D32::V6, D32::V7, D32::V8, D32::V9, D32::V10, D32::V11, D32::V12, D32::V13, D32::V14, D32::V15, D32::V16, D32::V17, D32::V18, D32::V19, D32::V20, D32::V21, D32::V22, D32::V23, D32::V24, D32::V25, D32::V26, D32::V27, D32::V28, D32::V29, D32::V30, D32::V31]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D34 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33 }
impl SCat for D34 { const NAME: &'static str = "D34"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D34 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33]; const VARS: &'static [Self] = &[D34::V0, D34::V1, D34::V2, D34::V3, D34::V4, D34::V5, D34::V6, D34::V7, D34::V8, D34::V9, D34::V10, D34::V11, D34::V12, D34::V13, D34::V14, D34::V15, D34::V16, D34::V17, D34::V18, D34::V19, D34::V20, D34::V21, D34::V22, D34::V23, D34::V24, D34::V25, D34::V26, D34::V27, D34::V28, D34::V29, D34::V30, D34::V31, D34::V32, D34::V33]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D35 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34 }
impl SCat for D35 { const NAME: &'static str = "D35"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D35 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34]; const VARS: &'static [Self] = &[D35::V0, D35::V1, D35::V2, D35::V3, D35::V4, D35::V5, D35::V6, D35::V7, D35::V8, D35::V9, D35::V10, D35::V11, D35::V12, D35::V13, D35::V14, D35::V15, D35::V16, D35::V17, D35::V18, D35::V19, D35::V20, D35::V21, D35::V22, D35::V23, D35::V24, D35::V25, D35::V26, D35::V27, D35::V28, D35::V29, D35::V30, D35::V31, D35::V32, D35::V33, D35::V34]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D36 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35 }
impl SCat for D36 { const NAME: &'static str = "D36"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D36 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35]; const VARS: &'static [Self] = &[D36::V0, D36::V1, D36::V2, D36::V3, D36::V4, D36::V5, D36::V6, D36::V7, D36::V8, D36::V9, D36::V10, D36::V11, D36::V12, D36::V13, D36::V14, D36::V15, D36::V16, D36::V17, D36::V18, D36::V19, D36::V20, D36::V21, D36::V22, D36::V23, D36::V24, D36::V25, D36::V26, D36::V27, D36::V28, D36::V29, D36::V30, D36::V31, D36::V32, D36::V33, D36::V34, D36::V35]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D37 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36 }
impl SCat for D37 { const NAME: &'static str = "D37"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D37 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36]; const VARS: &'static [Self] = &[D37::V0, D37::V1, D37::V2, D37::V3, D37::V4, D37::V5, D37::V6, D37::V7, D37::V8, D37::V9, D37::V10, D37::V11, D37::V12, D37::V13, D37::V14, D37::V15, D37::V16, D37::V17, D37::V18, D37::V19, D37::V20, D37::V21, D37::V22, D37::V23, D37::V24, D37::V25, D37::V26, D37::V27, D37::V28, D37::V29, D37::V30, D37::V31, D37::V32, D37::V33, D37::V34, D37::V35, D37::V36]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D38 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37 }
impl SCat for D38 { const NAME: &'static str = "D38"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D38 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37]; const VARS: &'static [Self] = &[D38::V0, D38::V1, D38::V2, D38::V3, D38::V4, D38::V5, D38::V6, D38::V7, D38::V8, D38::V9, D38::V10, D38::V11, D38::V12, D38::V13, D38::V14, D38::V15, D38::V16, D38::V17, D38::V18, D38::V19, D38::V20, D38::V21, D38::V22, D38::V23, D38::V24, D38::V25, D38::V26, D38::V27, D38::V28, D38::V29, D38::V30, D38::V31, D38::V32, D38::V33, D38::V34, D38::V35, D38::V36, D38::V37]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D39 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38 }
impl SCat for D39 { const NAME: &'static str = "D39"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D39 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38]; const VARS: &'static [Self] = &[D39::V0, D39::V1, D39::V2, D39::V3, D39::V4, D39::V5, D39::V6, D39::V7, D39::V8, D39::V9, D39::V10, D39::V11, D39::V12, D39::V13, D39::V14, D39::V15, D39::V16, D39::V17, D39::V18, D39::V19, D39::V20, D39::V21, D39::V22, D39::V23, D39::V24, D39::V25, D39::V26, D39::V27, D39::V28, D39::V29, D39::V30, D39::V31, D39::V32, D39::V33, D39::V34, D39::V35, D39::V36, D39::V37, D39::V38]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D40_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39 }
impl SCat for D40_deny { const NAME: &'static str = "D40_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D40_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39]; const VARS: &'static [Self] = &[D40_deny::V0, D40_deny::V1, D40_deny::V2, D40_deny::V3, D40_deny::V4, D40_deny::V5, D40_deny::V6, D40_deny::V7, D40_deny::V8, D40_deny::V9, D40_deny::V10, D40_deny::V11, D40_deny::V12, D40_deny::V13, D40_deny::V14, D40_deny::V15, D40_deny::V16, D40_deny::V17, D40_deny::V18, D40_deny::V19, D40_deny::V20, D40_deny::V21, D40_deny::V22, D40_deny::V23, D40_deny::V24, D40_deny::V25, D40_deny::V26, D40_deny::V27, D40_deny::V28, D40_deny::V29, D40_deny::V30, D40_deny::V31, D40_deny::V32, D40_deny::V33, D40_deny::V34, D40_deny::V35, D40_deny::V36, D40_deny::V37, D40_deny::V38, D40_deny::V39]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D40 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39 }
impl SCat for D40 { const NAME: &'static str = "D40"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D40 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39]; const VARS: &'static [Self] = &[D40::V0, D40::V1, D40::V2, D40::V3, D40::V4, D40::V5, D40::V6, D40::V7, D40::V8, D40::V9, D40::V10, D40::V11, D40::V12, D40::V13, D40::V14, D40::V15, D40::V16, D40::V17, D40::V18, D40::V19, D40::V20, D40::V21, D40::V22, D40::V23, D40::V24, D40::V25, D40::V26, D40::V27, D40::V28, D40::V29, D40::V30, D40::V31, D40::V32, D40::V33, D40::V34, D40::V35, D40::V36, D40::V37, D40::V38, D40::V39]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D41 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40 }
impl SCat for D41 { const NAME: &'static str = "D41"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D41 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40]; const VARS: &'static [Self] = &[D41::V0, D41::V1, D41::V2, D41::V3, D41::V4, D41::V5, D41::V6, D41::V7, D41::V8, D41::V9, D41::V10, D41::V11, D41::V12, D41::V13, D41::V14, D41::V15, D41::V16, D41::V17, D41::V18, D41::V19, D41::V20, D41::V21, D41::V22, D41::V23, D41::V24, D41::V25, D41::V26, D41::V27, D41::V28, D41::V29, D41::V30, D41::V31, D41::V32, D41::V33, D41::V34, D41::V35, D41::V36, D41::V37, D41::V38, D41::V39, D41::V40]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D42 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41 }
impl SCat for D42 { const NAME: &'static str = "D42"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D42 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41]; const VARS: &'static [Self] = &[D42::V0, D42::V1, D42::V2, D42::V3, D42::V4, D42::V5, D42::V6, D42::V7, D42::V8, D42::V9, D42::V10, D42::V11, D42::V12, D42::V13, D42::V14, D42::V15, D42::V16, D42::V17, D42::V18, D42::V19, D42::V20, D42::V21, D42::V22, D42::V23, D42::V24, D42::V25, D42::V26, D42::V27, D42::V28, D42::V29, D42::V30, D42::V31, D42::V32, D42::V33, D42::V34, D42::V35, D42::V36, D42::V37, D42::V38, D42::V39, D42::V40, D42::V41]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D43 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42 }
impl SCat for D43 { const NAME: &'static str = "D43"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D43 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42]; const VARS: &'static [Self] = &[D43::V0, D43::V1, D43::V2, D43::V3, D43::V4, D43::V5, D43::V6, D43::V7, D43::V8, D43::V9, D43::V10, D43::V11, D43::V12, D43::V13, D43::V14, D43::V15, D43::V16, D43::V17, D43::V18, D43::V19, D43::V20, D43::V21, D43::V22, D43::V23, D43::V24, D43::V25, D43::V26, D43::V27, D43::V28, D43::V29, D43::V30, D43::V31, D43::V32, D43::V33, D43::V34, D43::V35, D43::V36, D43::V37, D43::V38, D43::V39, D43::V40, D43::V41, D43::V42]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D44 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43 }
impl SCat for D44 { const NAME: &'static str = "D44"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D44 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43]; const VARS: &'static [Self] = &[D44::V0, D44::V1, D44::V2, D44::V3, D44::V4, D44::V5, D44::V6, D44::V7, D44::V8, D44::V9, D44::V10, D44::V11, D44::V12, D44::V13, D44::V14, D44::V15, D44::V16, D44::V17, D44::V18, D44::V19, D44::V20, D44::V21, D44::V22, D44::V23, D44::V24, D44::V25, D44::V26, D44::V27, D44::V28, D44::V29, D44::V30, D44::V31, D44::V32, D44::V33, D44::V34, D44::V35, D44::V36, D44::V37, D44::V38, D44::V39, D44::V40, D44::V41, D44::V42, D44::V43]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D45 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44 }
impl SCat for D45 { const NAME: &'static str = "D45"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D45 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44]; const VARS: &'static [Self] = &[D45::V0, D45::V1, D45::V2, D45::V3, D45::V4, D45::V5, D45::V6, D45::V7, D45::V8, D45::V9, D45::V10, D45::V11, D45::V12, D45::V13, D45::V14, D45::V15, D45::V16, D45::V17, D45::V18, D45::V19, D45::V20, D45::V21, D45::V22, D45::V23, D45::V24, D45::V25, D45::V26, D45::V27, D45::V28, D45::V29, D45::V30, D45::V31, D45::V32, D45::V33, D45::V34, D45::V35, D45::V36, D45::V37, D45::V38, D45::V39, D45::V40, D45::V41, D45::V42, D45::V43, D45::V44]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D46 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45 }
impl SCat for D46 { const NAME: &'static str = "D46"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D46 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45]; const VARS: &'static [Self] = &[D46::V0, D46::V1, D46::V2, D46::V3, D46::V4, D46::V5, D46::V6, D46::V7, D46::V8, D46::V9, D46::V10, D46::V11, D46::V12, D46::V13, D46::V14, D46::V15, D46::V16, D46::V17, D46::V18, D46::V19, D46::V20, D46::V21, D46::V22, D46::V23, D46::V24, D46::V25, D46::V26, D46::V27, D46::V28, D46::V29, D46::V30, D46::V31, D46::V32, D46::V33, D46::V34, D46::V35, D46::V36, D46::V37, D46::V38, D46::V39, D46::V40, D46::V41, D46::V42, D46::V43, D46::V44, D46::V45]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D47 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46 }
impl SCat for D47 { const NAME: &'static str = "D47"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D47 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46]; const VARS: &'static [Self] = &[D47::V0, D47::V1, D47::V2, D47::V3, D47::V4, D47::V5, D47::V6, D47::V7, D47::V8, D47::V9, D47::V10, D47::V11, D47::V12, D47::V13, D47::V14, D47::V15, D47::V16, D47::V17, D47::V18, D47::V19, D47::V20, D47::V21, D47::V22, D47::V23, D47::V24, D47::V25, D47::V26, D47::V27, D47::V28, D47::V29, D47::V30, D47::V31, D47::V32, D47::V33, D47::V34, D47::V35, D47::V36, D47::V37, D47::V38, D47::V39, D47::V40, D47::V41, D47::V42, D47::V43, D47::V44, D47::V45, D47::V46]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D48_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47 }
impl SCat for D48_deny { const NAME: &'static str = "D48_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D48_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47]; const VARS: &'static [Self] = &[D48_deny::V0, D48_deny::V1, D48_deny::V2, D48_deny::V3, D48_deny::V4, D48_deny::V5, D48_deny::V6, D48_deny::V7, D48_deny::V8, D48_deny::V9, D48_deny::V10, D48_deny::V11, D48_deny::V12, D48_deny::V13, D48_deny::V14, D48_deny::V15, D48_deny::V16, D48_deny::V17, D48_deny::V18, D48_deny::V19, D48_deny::V20, D48_deny::V21, D48_deny::V22, D48_deny::V23, D48_deny::V24, D48_deny::V25, D48_deny::V26, D48_deny::V27, D48_deny::V28, D48_deny::V29, D48_deny::V30, D48_deny::V31, D48_deny::V32, D48_deny::V33, D48_deny::V34, D48_deny::V35, D48_deny::V36, D48_deny::V37, D48_deny::V38, D48_deny::V39, D48_deny::V40, D48_deny::V41, D48_deny::V42, D48_deny::V43, D48_deny::V44, D48_deny::V45, D48_deny::V46, D48_deny::V47]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D48 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47 }
impl SCat for D48 { const NAME: &'static str = "D48"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D48 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47]; const VARS: &'static [Self] = &[D48::V0, D48::V1, D48::V2, D48::V3, D48::V4, D48::V5, D48::V6, D48::V7, D48::V8, D48::V9, D48::V10, D48::V11, D48::V12, D48::V13, D48::V14, D48::V15, D48::V16, D48::V17, D48::V18, D48::V19, D48::V20, D48::V21, D48::V22, D48::V23, D48::V24, D48::V25, D48::V26, D48::V27, D48::V28, D48::V29, D48::V30, D48::V31, D48::V32, D48::V33, D48::V34, D48::V35, D48::V36, D48::V37, D48::V38, D48::V39, D48::V40, D48::V41, D48::V42, D48::V43, D48::V44, D48::V45, D48::V46, D48::V47]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D49 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48 }
impl SCat for D49 { const NAME: &'static str = "D49"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D49 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48]; const VARS: &'static [Self] = &[D49::V0, D49::V1, D49::V2, D49::V3, D49::V4, D49::V5, D49::V6, D49::V7, D49::V8, D49::V9, D49::V10, D49::V11, D49::V12, D49::V13, D49::V14, D49::V15, D49::V16, D49::V17, D49::V18, D49::V19, D49::V20, D49::V21, D49::V22, D49::V23, D49::V24, D49::V25, D49::V26, D49::V27, D49::V28, D49::V29, D49::V30, D49::V31, D49::V32, D49::V33, D49::V34, D49::V35, D49::V36, D49::V37, D49::V38, D49::V39, D49::V40, D49::V41, D49::V42, D49::V43, D49::V44, D49::V45, D49::V46, D49::V47, D49::V48]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D50 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49 }
impl SCat for D50 { const NAME: &'static str = "D50"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D50 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49]; const VARS: &'static [Self] = &[D50::V0, D50::V1, D50::V2, D50::V3, D50::V4, D50::V5, D50::V6, D50::V7, D50::V8, D50::V9, D50::V10, D50::V11, D50::V12, D50::V13, D50::V14, D50::V15, D50::V16, D50::V17, D50::V18, D50::V19, D50::V20, D50::V21, D50::V22, D50::V23, D50::V24, D50::V25, D50::V26, D50::V27, D50::V28, D50::V29, D50::V30, D50::V31, D50::V32, D50::V33, D50::V34, D50::V35, D50::V36, D50::V37, D50::V38, D50::V39, D50::V40, D50::V41, D50::V42, D50::V43, D50::V44, D50::V45, D50::V46, D50::V47, D50::V48, D50::V49]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D51 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50 }
impl SCat for D51 { const NAME: &'static str = "D51"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D51 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50]; const VARS: &'static [Self] = &[D51::V0, D51::V1, D51::V2, D51::V3, D51::V4, D51::V5, D51::V6, D51::V7, D51::V8, D51::V9, D51::V10, D51::V11, D51::V12, D51::V13, D51::V14, D51::V15, D51::V16, D51::V17, D51::V18, D51::V19, D51::V20, D51::V21, D51::V22, D51::V23, D51::V24, D51::V25, D51::V26, D51::V27, D51::V28, D51::V29, D51::V30, D51::V31, D51::V32, D51::V33, D51::V34, D51::V35, D51::V36, D51::V37, D51::V38, D51::V39, D51::V40, D51::V41, D51::V42, D51::V43, D51::V44, D51::V45, D51::V46, D51::V47, D51::V48, D51::V49, D51::V50]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D52 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51 }
impl SCat for D52 { const NAME: &'static str = "D52"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D52 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51]; const VARS: &'static [Self] = &[D52::V0, D52::V1, D52::V2, D52::V3, D52::V4, D52::V5, D52::V6, D52::V7, D52::V8, D52::V9, D52::V10, D52::V11, D52::V12, D52::V13, D52::V14, D52::V15, D52::V16, D52::V17, D52::V18, D52::V19, D52::V20, D52::V21, D52::V22, D52::V23, D52::V24, D52::V25, D52::V26, D52::V27, D52::V28, D52::V29, D52::V30, D52::V31, D52::V32, D52::V33, D52::V34, D52::V35, D52::V36, D52::V37, D52::V38, D52::V39, D52::V40, D52::V41, D52::V42, D52::V43, D52::V44, D52::V45, D52::V46, D52::V47, D52::V48, D52::V49, D52::V50, D52::V51]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D53 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52 }
impl SCat for D53 { const NAME: &'static str = "D53"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D53 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52]; const VARS: &'static [Self] = &[D53::V0, D53::V1, D53::V2, D53::V3, D53::V4, D53::V5, D53::V6, D53::V7, D53::V8, D53::V9, D53::V10, D53::V11, D53::V12, D53::V13, D53::V14, D53::V15, D53::V16, D53::V17, D53::V18, D53::V19, D53::V20, D53::V21, D53::V22, D53::V23, D53::V24, D53::V25, D53::V26, D53::V27, D53::V28, D53::V29, D53::V30, D53::V31, D53::V32, D53::V33, D53::V34, D53::V35, D53::V36, D53::V37, D53::V38, D53::V39, D53::V40, D53::V41, D53::V42, D53::V43, D53::V44, D53::V45, D53::V46, D53::V47, D53::V48, D53::V49, D53::V50, D53::V51, D53::V52]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D54 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53 }
impl SCat for D54 { const NAME: &'static str = "D54"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D54 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53]; const VARS: &'static [Self] = &[D54::V0, D54::V1, D54::V2, D54::V3, D54::V4, D54::V5, D54::V6, D54::V7, D54::V8, D54::V9, D54::V10, D54::V11, D54::V12, D54::V13, D54::V14, D54::V15, D54::V16, D54::V17, D54::V18, D54::V19, D54::V20, D54::V21, D54::V22, D54::V23, D54::V24, D54::V25, D54::V26, D54::V27, D54::V28, D54::V29, D54::V30, D54::V31, D54::V32, D54::V33, D54::V34, D54::V35, D54::V36, D54::V37, D54::V38, D54::V39, D54::V40, D54::V41, D54::V42, D54::V43, D54::V44, D54::V45, D54::V46, D54::V47, D54::V48, D54::V49, D54::V50, D54::V51, D54::V52, D54::V53]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D55 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54 }
impl SCat for D55 { const NAME: &'static str = "D55"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D55 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54]; const VARS: &'static [Self] = &[D55::V0, D55::V1, D55::V2, D55::V3, D55::V4, D55::V5, D55::V6, D55::V7, D55::V8, D55::V9, D55::V10, D55::V11, D55::V12, D55::V13, D55::V14, D55::V15, D55::V16, D55::V17, D55::V18, D55::V19, D55::V20, D55::V21, D55::V22, D55::V23, D55::V24, D55::V25, D55::V26, D55::V27, D55::V28, D55::V29, D55::V30, D55::V31, D55::V32, D55::V33, D55::V34, D55::V35, D55::V36, D55::V37, D55::V38, D55::V39, D55::V40, D55::V41, D55::V42, D55::V43, D55::V44, D55::V45, D55::V46, D55::V47, D55::V48, D55::V49, D55::V50, D55::V51, D55::V52, D55::V53, D55::V54]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D56_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55 }
impl SCat for D56_deny { const NAME: &'static str = "D56_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D56_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55]; const VARS: &'static [Self] = &[D56_deny::V0, D56_deny::V1, D56_deny::V2, D56_deny::V3, D56_deny::V4, D56_deny::V5, D56_deny::V6, D56_deny::V7, D56_deny::V8, D56_deny::V9, D56_deny::V10, D56_deny::V11, D56_deny::V12, D56_deny::V13, D56_deny::V14, D56_deny::V15, D56_deny::V16, D56_deny::V17, D56_deny::V18, D56_deny::V19, D56_deny::V20, D56_deny::V21, D56_deny::V22, D56_deny::V23, D56_deny::V24, D56_deny::V25, D56_deny::V26, D56_deny::V27, D56_deny::V28, D56_deny::V29, D56_deny::V30, D56_deny::V31, D56_deny::V32, D56_deny::V33, D56_deny::V34, D56_deny::V35, D56_deny::V36, D56_deny::V37, D56_deny::V38, D56_deny::V39, D56_deny::V40, D56_deny::V41, D56_deny::V42, D56_deny::V43, D56_deny::V44, D56_deny::V45, D56_deny::V46, D56_deny::V47, D56_deny::V48, D56_deny::V49, D56_deny::V50, D56_deny::V51, D56_deny::V52, D56_deny::V53, D56_deny::V54, D56_deny::V55]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D56 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55 }
impl SCat for D56 { const NAME: &'static str = "D56"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D56 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55]; const VARS: &'static [Self] = &[D56::V0, D56::V1, D56::V2, D56::V3, D56::V4, D56::V5, D56::V6, D56::V7, D56::V8, D56::V9, D56::V10, D56::V11, D56::V12, D56::V13, D56::V14, D56::V15, D56::V16, D56::V17, D56::V18, D56::V19, D56::V20, D56::V21, D56::V22, D56::V23, D56::V24, D56::V25, D56::V26, D56::V27, D56::V28, D56::V29, D56::V30, D56::V31, D56::V32, D56::V33, D56::V34, D56::V35, D56::V36, D56::V37, D56::V38, D56::V39, D56::V40, D56::V41, D56::V42, D56::V43, D56::V44, D56::V45, D56::V46, D56::V47, D56::V48, D56::V49, D56::V50, D56::V51, D56::V52, D56::V53, D56::V54, D56::V55]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D57 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56 }
impl SCat for D57 { const NAME: &'static str = "D57"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D57 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56]; const VARS: &'static [Self] = &[D57::V0, D57::V1, D57::V2, D57::V3, D57::V4, D57::V5, D57::V6, D57::V7, D57::V8, D57::V9, D57::V10, D57::V11, D57::V12, D57::V13, D57::V14, D57::V15, D57::V16, D57::V17, D57::V18, D57::V19, D57::V20, D57::V21, D57::V22, D57::V23, D57::V24, D57::V25, D57::V26, D57::V27, D57::V28, D57::V29, D57::V30, D57::V31, D57::V32, D57::V33, D57::V34, D57::V35, D57::V36, D57::V37, D57::V38, D57::V39, D57::V40, D57::V41, D57::V42, D57::V43, D57::V44, D57::V45, D57::V46, D57::V47, D57::V48, D57::V49, D57::V50, D57::V51, D57::V52, D57::V53, D57::V54, D57::V55, D57::V56]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D58 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57 }
impl SCat for D58 { const NAME: &'static str = "D58"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D58 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57]; const VARS: &'static [Self] = &[D58::V0, D58::V1, D58::V2, D58::V3, D58::V4, D58::V5, D58::V6, D58::V7, D58::V8, D58::V9, D58::V10, D58::V11, D58::V12, D58::V13, D58::V14, D58::V15, D58::V16, D58::V17, D58::V18, D58::V19, D58::V20, D58::V21, D58::V22, D58::V23, D58::V24, D58::V25, D58::V26, D58::V27, D58::V28, D58::V29, D58::V30, D58::V31, D58::V32, D58::V33, D58::V34, D58::V35, D58::V36, D58::V37, D58::V38, D58::V39, D58::V40, D58::V41, D58::V42, D58::V43, D58::V44, D58::V45, D58::V46, D58::V47, D58::V48, D58::V49, D58::V50, D58::V51, D58::V52, D58::V53, D58::V54, D58::V55, D58::V56, D58::V57]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D59 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58 }
impl SCat for D59 { const NAME: &'static str = "D59"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D59 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58]; const VARS: &'static [Self] = &[D59::V0, D59::V1, D59::V2, D59::V3, D59::V4, D59::V5, D59::V6, D59::V7, D59::V8, D59::V9, D59::V10, D59::V11, D59::V12, D59::V13, D59::V14, D59::V15, D59::V16, D59::V17, D59::V18, D59::V19, D59::V20, D59::V21, D59::V22, D59::V23, D59::V24, D59::V25, D59::V26, D59::V27, D59::V28, D59::V29, D59::V30, D59::V31, D59::V32, D59::V33, D59::V34, D59::V35, D59::V36, D59::V37, D59::V38, D59::V39, D59::V40, D59::V41, D59::V42, D59::V43, D59::V44, D59::V45, D59::V46, D59::V47, D59::V48, D59::V49, D59::V50, D59::V51, D59::V52, D59::V53, D59::V54, D59::V55, D59::V56, D59::V57, D59::V58]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D60 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59 }
impl SCat for D60 { const NAME: &'static str = "D60"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D60 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59]; const VARS: &'static [Self] = &[D60::V0, D60::V1, D60::V2, D60::V3, D60::V4, D60::V5, D60::V6, D60::V7, D60::V8, D60::V9, D60::V10, D60::V11, D60::V12, D60::V13, D60::V14, D60::V15, D60::V16, D60::V17, D60::V18, D60::V19, D60::V20, D60::V21, D60::V22, D60::V23, D60::V24, D60::V25, D60::V26, D60::V27, D60::V28, D60::V29, D60::V30, D60::V31, D60::V32, D60::V33, D60::V34, D60::V35, D60::V36, D60::V37, D60::V38, D60::V39, D60::V40, D60::V41, D60::V42, D60::V43, D60::V44, D60::V45, D60::V46, D60::V47, D60::V48, D60::V49, D60::V50, D60::V51, D60::V52, D60::V53, D60::V54, D60::V55, D60::V56, D60::V57, D60::V58, D60::V59]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D61 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60 }
impl SCat for D61 { const NAME: &'static str = "D61"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D61 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60]; const VARS: &'static [Self] = &[D61::V0, D61::V1, D61::V2, D61::V3, D61::V4, D61::V5, D61::V6, D61::V7, D61::V8, D61::V9, D61::V10, D61::V11, D61::V12, D61::V13, D61::V14, D61::V15, D61::V16, D61::V17, D61::V18, D61::V19, D61::V20, D61::V21, D61::V22, D61::V23, D61::V24, D61::V25, D61::V26, D61::V27, D61::V28, D61::V29, D61::V30, D61::V31, D61::V32, D61::V33, D61::V34, D61::V35, D61::V36, D61::V37, D61::V38, D61::V39, D61::V40, D61::V41, D61::V42, D61::V43, D61::V44, D61::V45, D61::V46, D61::V47, D61::V48, D61::V49, D61::V50, D61::V51, D61::V52, D61::V53, D61::V54, D61::V55, D61::V56, D61::V57, D61::V58, D61::V59, D61::V60]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D62 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61 }
impl SCat for D62 { const NAME: &'static str = "D62"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D62 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61]; const VARS: &'static [Self] = &[D62::V0, D62::V1, D62::V2, D62::V3, D62::V4, D62::V5, D62::V6, D62::V7, D62::V8, D62::V9, D62::V10, D62::V11, D62::V12, D62::V13, D62::V14, D62::V15, D62::V16, D62::V17, D62::V18, D62::V19, D62::V20, D62::V21, D62::V22, D62::V23, D62::V24, D62::V25, D62::V26, D62::V27, D62::V28, D62::V29, D62::V30, D62::V31, D62::V32, D62::V33, D62::V34, D62::V35, D62::V36, D62::V37, D62::V38, D62::V39, D62::V40, D62::V41, D62::V42, D62::V43, D62::V44, D62::V45, D62::V46, D62::V47, D62::V48, D62::V49, D62::V50, D62::V51, D62::V52, D62::V53, D62::V54, D62::V55, D62::V56, D62::V57, D62::V58, D62::V59, D62::V60, D62::V61]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D63 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62 }
impl SCat for D63 { const NAME: &'static str = "D63"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D63 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62]; const VARS: &'static [Self] = &[D63::V0, D63::V1, D63::V2, D63::V3, D63::V4, D63::V5, D63::V6, D63::V7, D63::V8, D63::V9, D63::V10, D63::V11, D63::V12, D63::V13, D63::V14, D63::V15, D63::V16, D63::V17, D63::V18, D63::V19, D63::V20, D63::V21, D63::V22, D63::V23, D63::V24, D63::V25, D63::V26, D63::V27, D63::V28, D63::V29, D63::V30, D63::V31, D63::V32, D63::V33, D63::V34, D63::V35, D63::V36, D63::V37, D63::V38, D63::V39, D63::V40, D63::V41, D63::V42, D63::V43, D63::V44, D63::V45, D63::V46, D63::V47, D63::V48, D63::V49, D63::V50, D63::V51, D63::V52, D63::V53, D63::V54, D63::V55, D63::V56, D63::V57, D63::V58, D63::V59, D63::V60, D63::V61, D63::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D66 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65 }
impl SCat for D66 { const NAME: &'static str = "D66"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D66 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65]; const VARS: &'static [Self] = &[D66::V0, D66::V1, D66::V2, D66::V3, D66::V4, D66::V5, D66::V6, D66::V7, D66::V8, D66::V9, D66::V10, D66::V11, D66::V12, D66::V13, D66::V14, D66::V15, D66::V16, D66::V17, D66::V18, D66::V19, D66::V20, D66::V21, D66::V22, D66::V23, D66::V24, D66::V25, D66::V26, D66::V27, D66::V28, D66::V29, D66::V30, D66::V31, D66::V32, D66::V33, D66::V34, D66::V35, D66::V36, D66::V37, D66::V38, D66::V39, D66::V40, D66::V41, D66::V42, D66::V43, D66::V44, D66::V45, D66::V46, D66::V47, D66::V48, D66::V49, D66::V50, D66::V51, D66::V52, D66::V53, D66::V54, D66::V55, D66::V56, D66::V57, D66::V58, D66::V59, D66::V60, D66::V61, D66::V62, D66::V63, D66::V64, D66::V65]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D72_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71 }
impl SCat for D72_deny { const NAME: &'static str = "D72_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D72_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71]; const VARS: &'static [Self] = &[D72_deny::V0, D72_deny::V1, D72_deny::V2, D72_deny::V3, D72_deny::V4, D72_deny::V5, D72_deny::V6, D72_deny::V7, D72_deny::V8, D72_deny::V9, D72_deny::V10, D72_deny::V11, D72_deny::V12, D72_deny::V13, D72_deny::V14, D72_deny::V15, D72_deny::V16, D72_deny::V17, D72_deny::V18, D72_deny::V19, D72_deny::V20, D72_deny::V21, D72_deny::V22, D72_deny::V23, D72_deny::V24, D72_deny::V25, D72_deny::V26, D72_deny::V27, D72_deny::V28, D72_deny::V29, D72_deny::V30, D72_deny::V31, D72_deny::V32, D72_deny::V33, D72_deny::V34, D72_deny::V35, D72_deny::V36, D72_deny::V37, D72_deny::V38, D72_deny::V39, D72_deny::V40, D72_deny::V41, D72_deny::V42, D72_deny::V43, D72_deny::V44, D72_deny::V45, D72_deny::V46, D72_deny::V47, D72_deny::V48, D72_deny::V49, D72_deny::V50, D72_deny::V51, D72_deny::V52, D72_deny::V53, D72_deny::V54, D72_deny::V55, D72_deny::V56, D72_deny::V57, D72_deny::V58, D72_deny::V59, D72_deny::V60, D72_deny::V61, D72_deny::V62, D72_deny::V63, D72_deny::V64, D72_deny::V65, D72_deny::V66, D72_deny::V67, D72_deny::V68, D72_deny::V69, D72_deny::V70, D72_deny::V71]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D72 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71 }
impl SCat for D72 { const NAME: &'static str = "D72"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D72 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71]; const VARS: &'static [Self] = &[D72::V0, D72::V1, D72::V2, D72::V3, D72::V4, D72::V5, D72::V6, D72::V7, D72::V8, D72::V9, D72::V10, D72::V11, D72::V12, D72::V13, D72::V14, D72::V15, D72::V16, D72::V17, D72::V18, D72::V19, D72::V20, D72::V21, D72::V22, D72::V23, D72::V24, D72::V25, D72::V26, D72::V27, D72::V28, D72::V29, D72::V30, D72::V31, D72::V32, D72::V33, D72::V34, D72::V35, D72::V36, D72::V37, D72::V38, D72::V39, D72::V40, D72::V41, D72::V42, D72::V43, D72::V44, D72::V45, D72::V46, D72::V47, D72::V48, D72::V49, D72::V50, D72::V51, D72::V52, D72::V53, D72::V54, D72::V55, D72::V56, D72::V57, D72::V58, D72::V59, D72::V60, D72::V61, D72::V62, D72::V63, D72::V64, D72::V65, D72::V66, D72::V67, D72::V68, D72::V69, D72::V70, D72::V71]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D80_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79 }
impl SCat for D80_deny { const NAME: &'static str = "D80_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D80_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79]; const VARS: &'static [Self] = &[D80_deny::V0, D80_deny::V1, D80_deny::V2, D80_deny::V3, D80_deny::V4, D80_deny::V5, D80_deny::V6, D80_deny::V7, D80_deny::V8, D80_deny::V9, D80_deny::V10, D80_deny::V11, D80_deny::V12, D80_deny::V13, D80_deny::V14, D80_deny::V15, D80_deny::V16, D80_deny::V17, D80_deny::V18, D80_deny::V19, D80_deny::V20, D80_deny::V21, D80_deny::V22, D80_deny::V23, D80_deny::V24, D80_deny::V25, D80_deny::V26, D80_deny::V27, D80_deny::V28, D80_deny::V29, D80_deny::V30, D80_deny::V31, D80_deny::V32, D80_deny::V33, D80_deny::V34, D80_deny::V35, D80_deny::V36, D80_deny::V37, D80_deny::V38, D80_deny::V39, D80_deny::V40, D80_deny::V41, D80_deny::V42, D80_deny::V43, D80_deny::V44, D80_deny::V45, D80_deny::V46, D80_deny::V47, D80_deny::V48, D80_deny::V49, D80_deny::V50, D80_deny::V51, D80_deny::V52, D80_deny::V53, D80_deny::V54, D80_deny::V55, D80_deny::V56, D80_deny::V57, D80_deny::V58, D80_deny::V59, D80_deny::V60, D80_deny::V61, D80_deny::V62, D80_deny::V63, D80_deny::V64, D80_deny::V65, D80_deny::V66, D80_deny::V67, D80_deny::V68, D80_deny::V69, D80_deny::V70, D80_deny::V71, D80_deny::V72, D80_deny::V73, D80_deny::V74, D80_deny::V75, D80_deny::V76, D80_deny::V77, D80_deny::V78, D80_deny::V79]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D80 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79 }
impl SCat for D80 { const NAME: &'static str = "D80"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D80 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79]; const VARS: &'static [Self] = &[D80::V0, D80::V1, D80::V2, D80::V3, D80::V4, D80::V5, D80::V6, D80::V7, D80::V8, D80::V9, D80::V10, D80::V11, D80::V12, D80::V13, D80::V14, D80::V15, D80::V16, D80::V17, D80::V18, D80::V19, D80::V20, D80::V21, D80::V22, D80::V23, D80::V24, D80::V25, D80::V26, D80::V27, D80::V28, D80::V29, D80::V30, D80::V31, D80::V32, D80::V33, D80::V34, D80::V35, D80::V36, D80::V37, D80::V38, D80::V39, D80::V40, D80::V41, D80::V42, D80::V43, D80::V44, D80::V45, D80::V46, D80::V47, D80::V48, D80::V49, D80::V50, D80::V51, D80::V52, D80::V53, D80::V54, D80::V55, D80::V56, D80::V57, D80::V58, D80::V59, D80::V60, D80::V61, D80::V62, D80::V63, D80::V64, D80::V65, D80::V66, D80::V67, D80::V68, D80::V69, D80::V70, D80::V71, D80::V72, D80::V73, D80::V74, D80::V75, D80::V76, D80::V77, D80::V78, D80::V79]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D88_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87 }
impl SCat for D88_deny { const NAME: &'static str = "D88_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D88_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87]; const VARS: &'static [Self] = &[D88_deny::V0, D88_deny::V1, D88_deny::V2, D88_deny::V3, D88_deny::V4, D88_deny::V5, D88_deny::V6, D88_deny::V7, D88_deny::V8, D88_deny::V9, D88_deny::V10, D88_deny::V11, D88_deny::V12, D88_deny::V13, D88_deny::V14, D88_deny::V15, D88_deny::V16, D88_deny::V17, D88_deny::V18, D88_deny::V19, D88_deny::V20, D88_deny::V21, D88_deny::V22, D88_deny::V23, D88_deny::V24, D88_deny::V25, D88_deny::V26, D88_deny::V27, D88_deny::V28, D88_deny::V29, D88_deny::V30, D88_deny::V31, D88_deny::V32, D88_deny::V33, D88_deny::V34, D88_deny::V35, D88_deny::V36, D88_deny::V37, D88_deny::V38, D88_deny::V39, D88_deny::V40, D88_deny::V41, D88_deny::V42, D88_deny::V43, D88_deny::V44, D88_deny::V45, D88_deny::V46, D88_deny::V47, D88_deny::V48, D88_deny::V49, D88_deny::V50, D88_deny::V51, D88_deny::V52, D88_deny::V53, D88_deny::V54, D88_deny::V55, D88_deny::V56, D88_deny::V57, D88_deny::V58, D88_deny::V59, D88_deny::V60, D88_deny::V61, D88_deny::V62, D88_deny::V63, D88_deny::V64, D88_deny::V65, D88_deny::V66, D88_deny::V67, D88_deny::V68, D88_deny::V69, D88_deny::V70, D88_deny::V71, D88_deny::V72, D88_deny::V73, D88_deny::V74, D88_deny::V75, D88_deny::V76, D88_deny::V77, D88_deny::V78, D88_deny::V79, D88_deny::V80, D88_deny::V81, D88_deny::V82, D88_deny::V83, D88_deny::V84, D88_deny::V85, D88_deny::V86, D88_deny::V87]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D88 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87 }
impl SCat for D88 { const NAME: &'static str = "D88"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D88 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87]; const VARS: &'static [Self] = &[D88::V0, D88::V1, D88::V2, D88::V3, D88::V4, D88::V5, D88::V6, D88::V7, D88::V8, D88::V9, D88::V10, D88::V11, D88::V12, D88::V13, D88::V14, D88::V15, D88::V16, D88::V17, D88::V18, D88::V19, D88::V20, D88::V21, D88::V22, D88::V23, D88::V24, D88::V25, D88::V26, D88::V27, D88::V28, D88::V29, D88::V30, D88::V31, D88::V32, D88::V33, D88::V34, D88::V35, D88::V36, D88::V37, D88::V38, D88::V39, D88::V40, D88::V41, D88::V42, D88::V43, D88::V44, D88::V45, D88::V46, D88::V47, D88::V48, D88::V49, D88::V50, D88::V51, D88::V52, D88::V53, D88::V54, D88::V55, D88::V56, D88::V57, D88::V58, D88::V59, D88::V60, D88::V61, D88::V62, D88::V63, D88::V64, D88::V65, D88::V66, D88::V67, D88::V68, D88::V69, D88::V70, D88::V71, D88::V72, D88::V73, D88::V74, D88::V75, D88::V76, D88::V77, D88::V78, D88::V79, D88::V80, D88::V81, D88::V82, D88::V83, D88::V84, D88::V85, D88::V86, D88::V87]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D96_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95 }
impl SCat for D96_deny { const NAME: &'static str = "D96_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D96_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95]; const VARS: &'static [Self] = &[D96_deny::V0, D96_deny::V1, D96_deny::V2, D96_deny::V3, D96_deny::V4, D96_deny::V5, D96_deny::V6, D96_deny::V7, D96_deny::V8, D96_deny::V9, D96_deny::V10, D96_deny::V11, D96_deny::V12, D96_deny::V13, D96_deny::V14, D96_deny::V15, D96_deny::V16, D96_deny::V17, D96_deny::V18, D96_deny::V19, D96_deny::V20, D96_deny::V21, D96_deny::V22, D96_deny::V23, D96_deny::V24, D96_deny::V25, D96_deny::V26, D96_deny::V27, D96_deny::V28, D96_deny::V29, D96_deny::V30, D96_deny::V31, D96_deny::V32, D96_deny::V33, D96_deny::V34, D96_deny::V35, D96_deny::V36, D96_deny::V37, D96_deny::V38, D96_deny::V39, D96_deny::V40, D96_deny::V41, D96_deny::V42, D96_deny::V43, D96_deny::V44, D96_deny::V45, D96_deny::V46, D96_deny::V47, D96_deny::V48, D96_deny::V49, D96_deny::V50, D96_deny::V51, D96_deny::V52, D96_deny::V53, D96_deny::V54, D96_deny::V55, D96_deny::V56, D96_deny::V57, D96_deny::V58, D96_deny::V59, D96_deny::V60, D96_deny::V61, D96_deny::V62, D96_deny::V63, D96_deny::V64, D96_deny::V65, D96_deny::V66, D96_deny::V67, D96_deny::V68, D96_deny::V69, D96_deny::V70, D96_deny::V71, D96_deny::V72, D96_deny::V73, D96_deny::V74, D96_deny::V75, D96_deny::V76, D96_deny::V77, D96_deny::V78, D96_deny::V79, D96_deny::V80, D96_deny::V81, D96_deny::V82, D96_deny::V83, D96_deny::V84, D96_deny::V85, D96_deny::V86, D96_deny::V87, D96_deny::V88, D96_deny::V89, D96_deny::V90, D96_deny::V91, D96_deny::V92, D96_deny::V93, D96_deny::V94, D96_deny::V95]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D96 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95 }
impl SCat for D96 { const NAME: &'static str = "D96"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D96 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95]; const VARS: &'static [Self] = &[D96::V0, D96::V1, D96::V2, D96::V3, D96::V4, D96::V5, D96::V6, D96::V7, D96::V8, D96::V9, D96::V10, D96::V11, D96::V12, D96::V13, D96::V14, D96::V15, D96::V16, D96::V17, D96::V18, D96::V19, D96::V20, D96::V21, D96::V22, D96::V23, D96::V24, D96::V25, D96::V26, D96::V27, D96::V28, D96::V29, D96::V30, D96::V31, D96::V32, D96::V33, D96::V34, D96::V35, D96::V36, D96::V37, D96::V38, D96::V39, D96::V40, D96::V41, D96::V42, D96::V43, D96::V44, D96::V45, D96::V46, D96::V47, D96::V48, D96::V49, D96::V50, D96::V51, D96::V52, D96::V53, D96::V54, D96::V55, D96::V56, D96::V57, D96::V58, D96::V59, D96::V60, D96::V61, D96::V62, D96::V63, D96::V64, D96::V65, D96::V66, D96::V67, D96::V68, D96::V69, D96::V70, D96::V71, D96::V72, D96::V73, D96::V74, D96::V75, D96::V76, D96::V77, D96::V78, D96::V79, D96::V80, D96::V81, D96::V82, D96::V83, D96::V84, D96::V85, D96::V86, D96::V87, D96::V88, D96::V89, D96::V90, D96::V91, D96::V92, D96::V93, D96::V94, D96::V95]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D104_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103 }
impl SCat for D104_deny { const NAME: &'static str = "D104_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D104_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103]; const VARS: &'static [Self] = &[D104_deny::V0, D104_deny::V1, D104_deny::V2, D104_deny::V3, D104_deny::V4, D104_deny::V5, D104_deny::V6, D104_deny::V7, D104_deny::V8, D104_deny::V9, D104_deny::V10, D104_deny::V11, D104_deny::V12, D104_deny::V13, D104_deny::V14, D104_deny::V15, D104_deny::V16, D104_deny::V17, D104_deny::V18, D104_deny::V19, D104_deny::V20, D104_deny::V21, D104_deny::V22, D104_deny::V23, D104_deny::V24, D104_deny::V25, D104_deny::V26, D104_deny::V27, D104_deny::V28, D104_deny::V29, D104_deny::V30, D104_deny::V31, D104_deny::V32, D104_deny::V33, D104_deny::V34, D104_deny::V35, D104_deny::V36, D104_deny::V37, D104_deny::V38, D104_deny::V39, D104_deny::V40, D104_deny::V41, D104_deny::V42, D104_deny::V43, D104_deny::V44, D104_deny::V45, D104_deny::V46, D104_deny::V47, D104_deny::V48, D104_deny::V49, D104_deny::V50, D104_deny::V51, D104_deny::V52, D104_deny::V53, D104_deny::V54, D104_deny::V55, D104_deny::V56, D104_deny::V57, D104_deny::V58, D104_deny::V59, D104_deny::V60, D104_deny::V61, D104_deny::V62, D104_deny::V63, D104_deny::V64, D104_deny::V65, D104_deny::V66, D104_deny::V67, D104_deny::V68, D104_deny::V69, D104_deny::V70, D104_deny::V71, D104_deny::V72, D104_deny::V73, D104_deny::V74, D104_deny::V75, D104_deny::V76, D104_deny::V77, D104_deny::V78, D104_deny::V79, D104_deny::V80, D104_deny::V81, D104_deny::V82, D104_deny::V83, D104_deny::V84, D104_deny::V85, D104_deny::V86, D104_deny::V87, D104_deny::V88, D104_deny::V89, D104_deny::V90, D104_deny::V91, D104_deny::V92, D104_deny::V93, D104_deny::V94, D104_deny::V95, D104_deny::V96, D104_deny::V97, D104_deny::V98, D104_deny::V99, D104_deny::V100, D104_deny::V101, D104_deny::V102, D104_deny::V103]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D104 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103 }
impl SCat for D104 { const NAME: &'static str = "D104"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D104 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103]; const VARS: &'static [Self] = &[D104::V0, D104::V1, D104::V2, D104::V3, D104::V4, D104::V5, D104::V6, D104::V7, D104::V8, D104::V9, D104::V10, D104::V11, D104::V12, D104::V13, D104::V14, D104::V15, D104::V16, D104::V17, D104::V18, D104::V19, D104::V20, D104::V21, D104::V22, D104::V23, D104::V24, D104::V25, D104::V26, D104::V27, D104::V28, D104::V29, D104::V30, D104::V31, D104::V32, D104::V33, D104::V34, D104::V35, D104::V36, D104::V37, D104::V38, D104::V39, D104::V40, D104::V41, D104::V42, D104::V43, D104::V44, D104::V45, D104::V46, D104::V47, D104::V48, D104::V49, D104::V50, D104::V51, D104::V52, D104::V53, D104::V54, D104::V55, D104::V56, D104::V57, D104::V58, D104::V59, D104::V60, D104::V61, D104::V62, D104::V63, D104::V64, D104::V65, D104::V66, D104::V67, D104::V68, D104::V69, D104::V70, D104::V71, D104::V72, D104::V73, D104::V74, D104::V75, D104::V76, D104::V77, D104::V78, D104::V79, D104::V80, D104::V81, D104::V82, D104::V83, D104::V84, D104::V85, D104::V86, D104::V87, D104::V88, D104::V89, D104::V90, D104::V91, D104::V92, D104::V93, D104::V94, D104::V95, D104::V96, D104::V97, D104::V98, D104::V99, D104::V100, D104::V101, D104::V102, D104::V103]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D112_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111 }
impl SCat for D112_deny { const NAME: &'static str = "D112_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D112_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111]; const VARS: &'static [Self] = &[D112_deny::V0, D112_deny::V1, D112_deny::V2, D112_deny::V3, D112_deny::V4, D112_deny::V5, D112_deny::V6, D112_deny::V7, D112_deny::V8, D112_deny::V9, D112_deny::V10, D112_deny::V11, D112_deny::V12, D112_deny::V13, D112_deny::V14, D112_deny::V15, D112_deny::V16, D112_deny::V17, D112_deny::V18, D112_deny::V19, D112_deny::V20, D112_deny::V21, D112_deny::V22, D112_deny::V23, D112_deny::V24, D112_deny::V25, D112_deny::V26, D112_deny::V27, D112_deny::V28, D112_deny::V29, D112_deny::V30, D112_deny::V31, D112_deny::V32, D112_deny::V33, D112_deny::V34, D112_deny::V35, D112_deny::V36, D112_deny::V37, D112_deny::V38, D112_deny::V39, D112_deny::V40, D112_deny::V41, D112_deny::V42, D112_deny::V43, D112_deny::V44, D112_deny::V45, D112_deny::V46, D112_deny::V47, D112_deny::V48, D112_deny::V49, D112_deny::V50, D112_deny::V51, D112_deny::V52, D112_deny::V53, D112_deny::V54, D112_deny::V55, D112_deny::V56, D112_deny::V57, D112_deny::V58, D112_deny::V59, D112_deny::V60, D112_deny::V61, D112_deny::V62, D112_deny::V63, D112_deny::V64, D112_deny::V65, D112_deny::V66, D112_deny::V67, D112_deny::V68, D112_deny::V69, D112_deny::V70, D112_deny::V71, D112_deny::V72, D112_deny::V73, D112_deny::V74, D112_deny::V75, D112_deny::V76, D112_deny::V77, D112_deny::V78, D112_deny::V79, D112_deny::V80, D112_deny::V81, D112_deny::V82, D112_deny::V83, D112_deny::V84, D112_deny::V85, D112_deny::V86, D112_deny::V87, D112_deny::V88, D112_deny::V89, D112_deny::V90, D112_deny::V91, D112_deny::V92, D112_deny::V93, D112_deny::V94, D112_deny::V95, D112_deny::V96, D112_deny::V97, D112_deny::V98, D112_deny::V99, D112_deny::V100, D112_deny::V101, D112_deny::V102, D112_deny::V103, D112_deny::V104, D112_deny::V105, D112_deny::V106, D112_deny::V107, D112_deny::V108, D112_deny::V109, D112_deny::V110, D112_deny::V111]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D112 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111 }
impl SCat for D112 { const NAME: &'static str = "D112"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D112 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111]; const VARS: &'static [Self] = &[D112::V0, D112::V1, D112::V2, D112::V3, D112::V4, D112::V5, D112::V6, D112::V7, D112::V8, D112::V9, D112::V10, D112::V11, D112::V12, D112::V13, D112::V14, D112::V15, D112::V16, D112::V17, D112::V18, D112::V19, D112::V20, D112::V21, D112::V22, D112::V23, D112::V24, D112::V25, D112::V26, D112::V27, D112::V28, D112::V29, D112::V30, D112::V31, D112::V32, D112::V33, D112::V34, D112::V35, D112::V36, D112::V37, D112::V38, D112::V39, D112::V40, D112::V41, D112::V42, D112::V43, D112::V44, D112::V45, D112::V46, D112::V47, D112::V48, D112::V49, D112::V50, D112::V51, D112::V52, D112::V53, D112::V54, D112::V55, D112::V56, D112::V57, D112::V58, D112::V59, D112::V60, D112::V61, D112::V62, D112::V63, D112::V64, D112::V65, D112::V66, D112::V67, D112::V68, D112::V69, D112::V70, D112::V71, D112::V72, D112::V73, D112::V74, D112::V75, D112::V76, D112::V77, D112::V78, D112::V79, D112::V80, D112::V81, D112::V82, D112::V83, D112::V84, D112::V85, D112::V86, D112::V87, D112::V88, D112::V89, D112::V90, D112::V91, D112::V92, D112::V93, D112::V94, D112::V95, D112::V96, D112::V97, D112::V98, D112::V99, D112::V100, D112::V101, D112::V102, D112::V103, D112::V104, D112::V105, D112::V106, D112::V107, D112::V108, D112::V109, D112::V110, D112::V111]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D120_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119 }
impl SCat for D120_deny { const NAME: &'static str = "D120_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D120_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119]; const VARS: &'static [Self] = &[D120_deny::V0, D120_deny::V1, D120_deny::V2, D120_deny::V3, D120_deny::V4, D120_deny::V5, D120_deny::V6, D120_deny::V7, D120_deny::V8, D120_deny::V9, D120_deny::V10, D120_deny::V11, D120_deny::V12, D120_deny::V13, D120_deny::V14, D120_deny::V15, D120_deny::V16, D120_deny::V17, D120_deny::V18, D120_deny::V19, D120_deny::V20, D120_deny::V21, D120_deny::V22, D120_deny::V23, D120_deny::V24, D120_deny::V25, D120_deny::V26, D120_deny::V27, D120_deny::V28, D120_deny::V29, D120_deny::V30, D120_deny::V31, D120_deny::V32, D120_deny::V33, D120_deny::V34, D120_deny::V35, D120_deny::V36, D120_deny::V37, D120_deny::V38, D120_deny::V39, D120_deny::V40, D120_deny::V41, D120_deny::V42, D120_deny::V43, D120_deny::V44, D120_deny::V45, D120_deny::V46, D120_deny::V47, D120_deny::V48, D120_deny::V49, D120_deny::V50, D120_deny::V51, D120_deny::V52, D120_deny::V53, D120_deny::V54, D120_deny::V55, D120_deny::V56, D120_deny::V57, D120_deny::V58, D120_deny::V59, D120_deny::V60, D120_deny::V61, D120_deny::V62, D120_deny::V63, D120_deny::V64, D120_deny::V65, D120_deny::V66, D120_deny::V67, D120_deny::V68, D120_deny::V69, D120_deny::V70, D120_deny::V71, D120_deny::V72, D120_deny::V73, D120_deny::V74, D120_deny::V75, D120_deny::V76, D120_deny::V77, D120_deny::V78, D120_deny::V79, D120_deny::V80, D120_deny::V81, D120_deny::V82, D120_deny::V83, D120_deny::V84, D120_deny::V85, D120_deny::V86, D120_deny::V87, D120_deny::V88, D120_deny::V89, D120_deny::V90, D120_deny::V91, D120_deny::V92, D120_deny::V93, D120_deny::V94, D120_deny::V95, D120_deny::V96, D120_deny::V97, D120_deny::V98, D120_deny::V99, D120_deny::V100, D120_deny::V101, D120_deny::V102, D120_deny::V103, D120_deny::V104, D120_deny::V105, D120_deny::V106, D120_deny::V107, D120_deny::V108, D120_deny::V109, D120_deny::V110, D120_deny::V111, D120_deny::V112, D120_deny::V113, D120_deny::V114, D120_deny::V115, D120_deny::V116, D120_deny::V117, D120_deny::V118, D120_deny::V119]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D120 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119 }
impl SCat for D120 { const NAME: &'static str = "D120"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D120 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119]; const VARS: &'static [Self] = &[D120::V0, D120::V1, D120::V2, D120::V3, D120::V4, D120::V5, D120::V6, D120::V7, D120::V8, D120::V9, D120::V10, D120::V11, D120::V12, D120::V13, D120::V14, D120::V15, D120::V16, D120::V17, D120::V18, D120::V19, D120::V20, D120::V21, D120::V22, D120::V23, D120::V24, D120::V25, D120::V26, D120::V27, D120::V28, D120::V29, D120::V30, D120::V31, D120::V32, D120::V33, D120::V34, D120::V35, D120::V36, D120::V37, D120::V38, D120::V39, D120::V40, D120::V41, D120::V42, D120::V43, D120::V44, D120::V45, D120::V46, D120::V47, D120::V48, D120::V49, D120::V50, D120::V51, D120::V52, D120::V53, D120::V54, D120::V55, D120::V56, D120::V57, D120::V58, D120::V59, D120::V60, D120::V61, D120::V62, D120::V63, D120::V64, D120::V65, D120::V66, D120::V67, D120::V68, D120::V69, D120::V70, D120::V71, D120::V72, D120::V73, D120::V74, D120::V75, D120::V76, D120::V77, D120::V78, D120::V79, D120::V80, D120::V81, D120::V82, D120::V83, D120::V84, D120::V85, D120::V86, D120::V87, D120::V88, D120::V89, D120::V90, D120::V91, D120::V92, D120::V93, D120::V94, D120::V95, D120::V96, D120::V97, D120::V98, D120::V99, D120::V100, D120::V101, D120::V102, D120::V103, D120::V104, D120::V105, D120::V106, D120::V107, D120::V108, D120::V109, D120::V110, D120::V111, D120::V112, D120::V113, D120::V114, D120::V115, D120::V116, D120::V117, D120::V118, D120::V119]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D126 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125 }
impl SCat for D126 { const NAME: &'static str = "D126"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D126 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125]; const VARS: &'static [Self] = &[D126::V0, D126::V1, D126::V2, D126::V3, D126::V4, D126::V5, D126::V6, D126::V7, D126::V8, D126::V9, D126::V10, D126::V11, D126::V12, D126::V13, D126::V14, D126::V15, D126::V16, D126::V17, D126::V18, D126::V19, D126::V20, D126::V21, D126::V22, D126::V23, D126::V24, D126::V25, D126::V26, D126::V27, D126::V28, D126::V29, D126::V30, D126::V31, D126::V32, D126::V33, D126::V34, D126::V35, D126::V36, D126::V37, D126::V38, D126::V39, D126::V40, D126::V41, D126::V42, D126::V43, D126::V44, D126::V45, D126::V46, D126::V47, D126::V48, D126::V49, D126::V50, D126::V51, D126::V52, D126::V53, D126::V54, D126::V55, D126::V56, D126::V57, D126::V58, D126::V59, D126::V60, D126::V61, D126::V62, D126::V63, D126::V64, D126::V65, D126::V66, D126::V67, D126::V68, D126::V69, D126::V70, D126::V71, D126::V72, D126::V73, D126::V74, D126::V75, D126::V76, D126::V77, D126::V78, D126::V79, D126::V80, D126::V81, D126::V82, D126::V83, D126::V84, D126::V85, D126::V86, D126::V87, D126::V88, D126::V89, D126::V90, D126::V91, D126::V92, D126::V93, D126::V94, D126::V95, D126::V96, D126::V97, D126::V98, D126::V99, D126::V100, D126::V101, D126::V102, D126::V103, D126::V104, D126::V105, D126::V106, D126::V107, D126::V108, D126::V109, D126::V110, D126::V111, D126::V112, D126::V113, D126::V114, D126::V115, D126::V116, D126::V117, D126::V118, D126::V119, D126::V120, D126::V121, D126::V122, D126::V123, D126::V124, D126::V125]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum D127 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126 }
impl SCat for D127 { const NAME: &'static str = "D127"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D127 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126]; const VARS: &'static [Self] = &[D127::V0, D127::V1, D127::V2, D127::V3, D127::V4, D127::V5, D127::V6, D127::V7, D127::V8, D127::V9, D127::V10, D127::V11, D127::V12, D127::V13, D127::V14, D127::V15, D127::V16, D127::V17, D127::V18, D127::V19, D127::V20, D127::V21, D127::V22, D127::V23, D127::V24, D127::V25, D127::V26, D127::V27, D127::V28, D127::V29, D127::V30, D127::V31, D127::V32, D127::V33, D127::V34, D127::V35, D127::V36, D127::V37, D127::V38, D127::V39, D127::V40, D127::V41, D127::V42, D127::V43, D127::V44, D127::V45, D127::V46, D127::V47, D127::V48, D127::V49, D127::V50, D127::V51, D127::V52, D127::V53, D127::V54, D127::V55, D127::V56, D127::V57, D127::V58, D127::V59, D127::V60, D127::V61, D127::V62, D127::V63, D127::V64, D127::V65, D127::V66, D127::V67, D127::V68, D127::V69, D127::V70, D127::V71, D127::V72, D127::V73, D127::V74, D127::V75, D127::V76, D127::V77, D127::V78, D127::V79, D127::V80, D127::V81, D127::V82, D127::V83, D127::V84, D127::V85, D127::V86, D127::V87, D127::V88, D127::V89, D127::V90, D127::V91, D127::V92, D127::V93, D127::V94, D127::V95, D127::V96, D127::V97, D127::V98, D127::V99, D127::V100, D127::V101, D127::V102, D127::V103, D127::V104, D127::V105, D127::V106, D127::V107, D127::V108, D127::V109, D127::V110, D127::V111, D127::V112, D127::V113, D127::V114, D127::V115, D127::V116, D127::V117, D127::V118, D127::V119, D127::V120, D127::V121, D127::V122, D127::V123, D127::V124, D127::V125, D127::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D136_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135 }
impl SCat for D136_deny { const NAME: &'static str = "D136_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D136_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135]; const VARS: &'static [Self] = &[D136_deny::V0, D136_deny::V1, D136_deny::V2, D136_deny::V3, D136_deny::V4, D136_deny::V5, D136_deny::V6, D136_deny::V7, D136_deny::V8, D136_deny::V9, D136_deny::V10, D136_deny::V11, D136_deny::V12, D136_deny::V13, D136_deny::V14, D136_deny::V15, D136_deny::V16, D136_deny::V17, D136_deny::V18, D136_deny::V19, D136_deny::V20, D136_deny::V21, D136_deny::V22, D136_deny::V23, D136_deny::V24, D136_deny::V25, D136_deny::V26, D136_deny::V27, D136_deny::V28, D136_deny::V29, D136_deny::V30, D136_deny::V31, D136_deny::V32, D136_deny::V33, D136_deny::V34, D136_deny::V35, D136_deny::V36, D136_deny::V37, D136_deny::V38, D136_deny::V39, D136_deny::V40, D136_deny::V41, D136_deny::V42, D136_deny::V43, D136_deny::V44, D136_deny::V45, D136_deny::V46, D136_deny::V47, D136_deny::V48, D136_deny::V49, D136_deny::V50, D136_deny::V51, D136_deny::V52, D136_deny::V53, D136_deny::V54, D136_deny::V55, D136_deny::V56, D136_deny::V57, D136_deny::V58, D136_deny::V59, D136_deny::V60, D136_deny::V61, D136_deny::V62, D136_deny::V63, D136_deny::V64, D136_deny::V65, D136_deny::V66, D136_deny::V67, D136_deny::V68, D136_deny::V69, D136_deny::V70, D136_deny::V71, D136_deny::V72, D136_deny::V73, D136_deny::V74, D136_deny::V75, D136_deny::V76, D136_deny::V77, D136_deny::V78, D136_deny::V79, D136_deny::V80, D136_deny::V81, D136_deny::V82, D136_deny::V83, D136_deny::V84, D136_deny::V85, D136_deny::V86, D136_deny::V87, D136_deny::V88, D136_deny::V89, D136_deny::V90, D136_deny::V91, D136_deny::V92, D136_deny::V93, D136_deny::V94, D136_deny::V95, D136_deny::V96, D136_deny::V97, D136_deny::V98, D136_deny::V99, D136_deny::V100, D136_deny::V101, D136_deny::V102, D136_deny::V103, D136_deny::V104, D136_deny::V105, D136_deny::V106, D136_deny::V107, D136_deny::V108, D136_deny::V109, D136_deny::V110, D136_deny::V111, D136_deny::V112, D136_deny::V113, D136_deny::V114, D136_deny::V115, D136_deny::V116, D136_deny::V117, D136_deny::V118, D136_deny::V119, D136_deny::V120, D136_deny::V121, D136_deny::V122, D136_deny::V123, D136_deny::V124, D136_deny::V125, D136_deny::V126, D136_deny::V127, D136_deny::V128, D136_deny::V129, D136_deny::V130, D136_deny::V131, D136_deny::V132, D136_deny::V133, D136_deny::V134, D136_deny::V135]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D136 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135 }
impl SCat for D136 { const NAME: &'static str = "D136"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D136 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135]; const VARS: &'static [Self] = &[D136::V0, D136::V1, D136::V2, D136::V3, D136::V4, D136::V5, D136::V6, D136::V7, D136::V8, D136::V9, D136::V10, D136::V11, D136::V12, D136::V13, D136::V14, D136::V15, D136::V16, D136::V17, D136::V18, D136::V19, D136::V20, D136::V21, D136::V22, D136::V23, D136::V24, D136::V25, D136::V26, D136::V27, D136::V28, D136::V29, D136::V30, D136::V31, D136::V32, D136::V33, D136::V34, D136::V35, D136::V36, D136::V37, D136::V38, D136::V39, D136::V40, D136::V41, D136::V42, D136::V43, D136::V44, D136::V45, D136::V46, D136::V47, D136::V48, D136::V49, D136::V50, D136::V51, D136::V52, D136::V53, D136::V54, D136::V55, D136::V56, D136::V57, D136::V58, D136::V59, D136::V60, D136::V61, D136::V62, D136::V63, D136::V64, D136::V65, D136::V66, D136::V67, D136::V68, D136::V69, D136::V70, D136::V71, D136::V72, D136::V73, D136::V74, D136::V75, D136::V76, D136::V77, D136::V78, D136::V79, D136::V80, D136::V81, D136::V82, D136::V83, D136::V84, D136::V85, D136::V86, D136::V87, D136::V88, D136::V89, D136::V90, D136::V91, D136::V92, D136::V93, D136::V94, D136::V95, D136::V96, D136::V97, D136::V98, D136::V99, D136::V100, D136::V101, D136::V102, D136::V103, D136::V104, D136::V105, D136::V106, D136::V107, D136::V108, D136::V109, D136::V110, D136::V111, D136::V112, D136::V113, D136::V114, D136::V115, D136::V116, D136::V117, D136::V118, D136::V119, D136::V120, D136::V121, D136::V122, D136::V123, D136::V124, D136::V125, D136::V126, D136::V127, D136::V128, D136::V129, D136::V130, D136::V131, D136::V132, D136::V133, D136::V134, D136::V135]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D144_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143 }
impl SCat for D144_deny { const NAME: &'static str = "D144_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D144_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143]; const VARS: &'static [Self] = &[D144_deny::V0, D144_deny::V1, D144_deny::V2, D144_deny::V3, D144_deny::V4, D144_deny::V5, D144_deny::V6, D144_deny::V7, D144_deny::V8, D144_deny::V9, D144_deny::V10, D144_deny::V11, D144_deny::V12, D144_deny::V13, D144_deny::V14, D144_deny::V15, D144_deny::V16, D144_deny::V17, D144_deny::V18, D144_deny::V19, D144_deny::V20, D144_deny::V21, D144_deny::V22, D144_deny::V23, D144_deny::V24, D144_deny::V25, D144_deny::V26, D144_deny::V27, D144_deny::V28, D144_deny::V29, D144_deny::V30, D144_deny::V31, D144_deny::V32, D144_deny::V33, D144_deny::V34, D144_deny::V35, D144_deny::V36, D144_deny::V37, D144_deny::V38, D144_deny::V39, D144_deny::V40, D144_deny::V41, D144_deny::V42, D144_deny::V43, D144_deny::V44, D144_deny::V45, D144_deny::V46, D144_deny::V47, D144_deny::V48, D144_deny::V49, D144_deny::V50, D144_deny::V51, D144_deny::V52, D144_deny::V53, D144_deny::V54, D144_deny::V55, D144_deny::V56, D144_deny::V57, D144_deny::V58, D144_deny::V59, D144_deny::V60, D144_deny::V61, D144_deny::V62, D144_deny::V63, D144_deny::V64, D144_deny::V65, D144_deny::V66, D144_deny::V67, D144_deny::V68, D144_deny::V69, D144_deny::V70, D144_deny::V71, D144_deny::V72, D144_deny::V73, D144_deny::V74, D144_deny::V75, D144_deny::V76, D144_deny::V77, D144_deny::V78, D144_deny::V79, D144_deny::V80, D144_deny::V81, D144_deny::V82, D144_deny::V83, D144_deny::V84, D144_deny::V85, D144_deny::V86, D144_deny::V87, D144_deny::V88, D144_deny::V89, D144_deny::V90, D144_deny::V91, D144_deny::V92, D144_deny::V93, D144_deny::V94, D144_deny::V95, D144_deny::V96, D144_deny::V97, D144_deny::V98, D144_deny::V99, D144_deny::V100, D144_deny::V101, D144_deny::V102, D144_deny::V103, D144_deny::V104, D144_deny::V105, D144_deny::V106, D144_deny::V107, D144_deny::V108, D144_deny::V109, D144_deny::V110, D144_deny::V111, D144_deny::V112, D144_deny::V113, D144_deny::V114, D144_deny::V115, D144_deny::V116, D144_deny::V117, D144_deny::V118, D144_deny::V119, D144_deny::V120, D144_deny::V121, D144_deny::V122, D144_deny::V123, D144_deny::V124, D144_deny::V125, D144_deny::V126, D144_deny::V127, D144_deny::V128, D144_deny::V129, D144_deny::V130, D144_deny::V131, D144_deny::V132, D144_deny::V133, D144_deny::V134, D144_deny::V135, D144_deny::V136, D144_deny::V137, D144_deny::V138, D144_deny::V139, D144_deny::V140, D144_deny::V141, D144_deny::V142, D144_deny::V143]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D144 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143 }
impl SCat for D144 { const NAME: &'static str = "D144"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D144 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143]; const VARS: &'static [Self] = &[D144::V0, D144::V1, D144::V2, D144::V3, D144::V4, D144::V5, D144::V6, D144::V7, D144::V8, D144::V9, D144::V10, D144::V11, D144::V12, D144::V13, D144::V14, D144::V15, D144::V16, D144::V17, D144::V18, D144::V19, D144::V20, D144::V21, D144::V22, D144::V23, D144::V24, D144::V25, D144::V26, D144::V27, D144::V28, D144::V29, D144::V30, D144::V31, D144::V32, D144::V33, D144::V34, D144::V35, D144::V36, D144::V37, D144::V38, D144::V39, D144::V40, D144::V41, D144::V42, D144::V43, D144::V44, D144::V45, D144::V46, D144::V47, D144::V48, D144::V49, D144::V50, D144::V51, D144::V52, D144::V53, D144::V54, D144::V55, D144::V56, D144::V57, D144::V58, D144::V59, D144::V60, D144::V61, D144::V62, D144::V63, D144::V64, D144::V65, D144::V66, D144::V67, D144::V68, D144::V69, D144::V70, D144::V71, D144::V72, D144::V73, D144::V74, D144::V75, D144::V76, D144::V77, D144::V78, D144::V79, D144::V80, D144::V81, D144::V82, D144::V83, D144::V84, D144::V85, D144::V86, D144::V87, D144::V88, D144::V89, D144::V90, D144::V91, D144::V92, D144::V93, D144::V94, D144::V95, D144::V96, D144::V97, D144::V98, D144::V99, D144::V100, D144::V101, D144::V102, D144::V103, D144::V104, D144::V105, D144::V106, D144::V107, D144::V108, D144::V109, D144::V110, D144::V111, D144::V112, D144::V113, D144::V114, D144::V115, D144::V116, D144::V117, D144::V118, D144::V119, D144::V120, D144::V121, D144::V122, D144::V123, D144::V124, D144::V125, D144::V126, D144::V127, D144::V128, D144::V129, D144::V130, D144::V131, D144::V132, D144::V133, D144::V134, D144::V135, D144::V136, D144::V137, D144::V138, D144::V139, D144::V140, D144::V141, D144::V142, D144::V143]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D160_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159 }
impl SCat for D160_deny { const NAME: &'static str = "D160_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D160_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159]; const VARS: &'static [Self] = &[D160_deny::V0, D160_deny::V1, D160_deny::V2, D160_deny::V3, D160_deny::V4, D160_deny::V5, D160_deny::V6, D160_deny::V7, D160_deny::V8, D160_deny::V9, D160_deny::V10, D160_deny::V11, D160_deny::V12, D160_deny::V13, D160_deny::V14, D160_deny::V15, D160_deny::V16, D160_deny::V17, D160_deny::V18, D160_deny::V19, D160_deny::V20, D160_deny::V21, D160_deny::V22, D160_deny::V23, D160_deny::V24, D160_deny::V25, D160_deny::V26, D160_deny::V27, D160_deny::V28, D160_deny::V29, D160_deny::V30, D160_deny::V31, D160_deny::V32, D160_deny::V33, D160_deny::V34, D160_deny::V35, D160_deny::V36, D160_deny::V37, D160_deny::V38, D160_deny::V39, D160_deny::V40, D160_deny::V41, D160_deny::V42, D160_deny::V43, D160_deny::V44, D160_deny::V45, D160_deny::V46, D160_deny::V47, D160_deny::V48, D160_deny::V49, D160_deny::V50, D160_deny::V51, D160_deny::V52, D160_deny::V53, D160_deny::V54, D160_deny::V55, D160_deny::V56, D160_deny::V57, D160_deny::V58, D160_deny::V59, D160_deny::V60, D160_deny::V61, D160_deny::V62, D160_deny::V63, D160_deny::V64, D160_deny::V65, D160_deny::V66, D160_deny::V67, D160_deny::V68, D160_deny::V69, D160_deny::V70, D160_deny::V71, D160_deny::V72, D160_deny::V73, D160_deny::V74, D160_deny::V75, D160_deny::V76, D160_deny::V77, D160_deny::V78, D160_deny::V79, D160_deny::V80, D160_deny::V81, D160_deny::V82, D160_deny::V83, D160_deny::V84, D160_deny::V85, D160_deny::V86, D160_deny::V87, D160_deny::V88, D160_deny::V89, D160_deny::V90, D160_deny::V91, D160_deny::V92, D160_deny::V93, D160_deny::V94, D160_deny::V95, D160_deny::V96, D160_deny::V97, D160_deny::V98, D160_deny::V99, D160_deny::V100, D160_deny::V101, D160_deny::V102, D160_deny::V103, D160_deny::V104, D160_deny::V105, D160_deny::V106, D160_deny::V107, D160_deny::V108, D160_deny::V109, D160_deny::V110, D160_deny::V111, D160_deny::V112, D160_deny::V113, D160_deny::V114, D160_deny::V115, D160_deny::V116, D160_deny::V117, D160_deny::V118, D160_deny::V119, D160_deny::V120, D160_deny::V121, D160_deny::V122, D160_deny::V123, D160_deny::V124, D160_deny::V125, D160_deny::V126, D160_deny::V127, D160_deny::V128, D160_deny::V129, D160_deny::V130, D160_deny::V131, D160_deny::V132, D160_deny::V133, D160_deny::V134, D160_deny::V135, D160_deny::V136, D160_deny::V137, D160_deny::V138, D160_deny::V139, D160_deny::V140, D160_deny::V141, D160_deny::V142, D160_deny::V143, D160_deny::V144, D160_deny::V145, D160_deny::V146, D160_deny::V147, D160_deny::V148, D160_deny::V149, D160_deny::V150, D160_deny::V151, D160_deny::V152, D160_deny::V153, D160_deny::V154, D160_deny::V155, D160_deny::V156, D160_deny::V157, D160_deny::V158, D160_deny::V159]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D160 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159 }
impl SCat for D160 { const NAME: &'static str = "D160"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D160 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159]; const VARS: &'static [Self] = &[D160::V0, D160::V1, D160::V2, D160::V3, D160::V4, D160::V5, D160::V6, D160::V7, D160::V8, D160::V9, D160::V10, D160::V11, D160::V12, D160::V13, D160::V14, D160::V15, D160::V16, D160::V17, D160::V18, D160::V19, D160::V20, D160::V21, D160::V22, D160::V23, D160::V24, D160::V25, D160::V26, D160::V27, D160::V28, D160::V29, D160::V30, D160::V31, D160::V32, D160::V33, D160::V34, D160::V35, D160::V36, D160::V37, D160::V38, D160::V39, D160::V40, D160::V41, D160::V42, D160::V43, D160::V44, D160::V45, D160::V46, D160::V47, D160::V48, D160::V49, D160::V50, D160::V51, D160::V52, D160::V53, D160::V54, D160::V55, D160::V56, D160::V57, D160::V58, D160::V59, D160::V60, D160::V61, D160::V62, D160::V63, D160::V64, D160::V65, D160::V66, D160::V67, D160::V68, D160::V69, D160::V70, D160::V71, D160::V72, D160::V73, D160::V74, D160::V75, D160::V76, D160::V77, D160::V78, D160::V79, D160::V80, D160::V81, D160::V82, D160::V83, D160::V84, D160::V85, D160::V86, D160::V87, D160::V88, D160::V89, D160::V90, D160::V91, D160::V92, D160::V93, D160::V94, D160::V95, D160::V96, D160::V97, D160::V98, D160::V99, D160::V100, D160::V101, D160::V102, D160::V103, D160::V104, D160::V105, D160::V106, D160::V107, D160::V108, D160::V109, D160::V110, D160::V111, D160::V112, D160::V113, D160::V114, D160::V115, D160::V116, D160::V117, D160::V118, D160::V119, D160::V120, D160::V121, D160::V122, D160::V123, D160::V124, D160::V125, D160::V126, D160::V127, D160::V128, D160::V129, D160::V130, D160::V131, D160::V132, D160::V133, D160::V134, D160::V135, D160::V136, D160::V137, D160::V138, D160::V139, D160::V140, D160::V141, D160::V142, D160::V143, D160::V144, D160::V145, D160::V146, D160::V147, D160::V148, D160::V149, D160::V150, D160::V151, D160::V152, D160::V153, D160::V154, D160::V155, D160::V156, D160::V157, D160::V158, D160::V159]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D256_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192, V193 = 193, V194 = 194, V195 = 195, V196 = 196, V197 = 197, V198 = 198, V199 = 199, V200 = 200, V201 = 201, V202 = 202, V203 = 203, V204 = 204, V205 = 205, V206 = 206, V207 = 207, V208 = 208, V209 = 209, V210 = 210, V211 = 211, V212 = 212, V213 = 213, V214 = 214, V215 = 215, V216 = 216, V217 = 217, V218 = 218, V219 = 219, V220 = 220, V221 = 221, V222 = 222, V223 = 223, V224 = 224, V225 = 225, V226 = 226, V227 = 227, V228 = 228, V229 = 229, V230 = 230, V231 = 231, V232 = 232, V233 = 233, V234 = 234, V235 = 235, V236 = 236, V237 = 237, V238 = 238, V239 = 239, V240 = 240, V241 = 241, V242 = 242, V243 = 243, V244 = 244, V245 = 245, V246 = 246, V247 = 247, V248 = 248, V249 = 249, V250 = 250, V251 = 251, V252 = 252, V253 = 253, V254 = 254, V255 = 255 }
impl SCat for D256_deny { const NAME: &'static str = "D256_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum D256_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255]; const VARS: &'static [Self] = &[D256_deny::V0, D256_deny::V1, D256_deny::V2, D256_deny::V3, D256_deny::V4, D256_deny::V5, D256_deny::V6, D256_deny::V7, D256_deny::V8, D256_deny::V9, D256_deny::V10, D256_deny::V11, D256_deny::V12, D256_deny::V13, D256_deny::V14, D256_deny::V15, D256_deny::V16, D256_deny::V17, D256_deny::V18, D256_deny::V19, D256_deny::V20, D256_deny::V21, D256_deny::V22, D256_deny::V23, D256_deny::V24, D256_deny::V25, D256_deny::V26, D256_deny::V27, D256_deny::V28, D256_deny::V29, D256_deny::V30, D256_deny::V31, D256_deny::V32, D256_deny::V33, D256_deny::V34, D256_deny::V35, D256_deny::V36, D256_deny::V37, D256_deny::V38, D256_deny::V39, D256_deny::V40, D256_deny::V41, D256_deny::V42, D256_deny::V43, D256_deny::V44, D256_deny::V45, D256_deny::V46, D256_deny::V47, D256_deny::V48, D256_deny::V49, D256_deny::V50, D256_deny::V51, D256_deny::V52, D256_deny::V53, D256_deny::V54, D256_deny::V55, D256_deny::V56, D256_deny::V57, D256_deny::V58, D256_deny::V59, D256_deny::V60, D256_deny::V61, D256_deny::V62, D256_deny::V63, D256_deny::V64, D256_deny::V65, D256_deny::V66, D256_deny::V67, D256_deny::V68, D256_deny::V69, D256_deny::V70, D256_deny::V71, D256_deny::V72, D256_deny::V73, D256_deny::V74, D256_deny::V75, D256_deny::V76, D256_deny::V77, D256_deny::V78, D256_deny::V79, D256_deny::V80, D256_deny::V81, D256_deny::V82, D256_deny::V83, D256_deny::V84, D256_deny::V85, D256_deny::V86, D256_deny::V87, D256_deny::V88, D256_deny::V89, D256_deny::V90, D256_deny::V91, D256_deny::V92, D256_deny::V93, D256_deny::V94, D256_deny::V95, D256_deny::V96, D256_deny::V97, D256_deny::V98, D256_deny::V99, D256_deny::V100, D256_deny::V101, D256_deny::V102, D256_deny::V103, D256_deny::V104, D256_deny::V105, D256_deny::V106, D256_deny::V107, D256_deny::V108, D256_deny::V109, D256_deny::V110, D256_deny::V111, D256_deny::V112, D256_deny::V113, D256_deny::V114, D256_deny::V115, D256_deny::V116, D256_deny::V117, D256_deny::V118, D256_deny::V119, D256_deny::V120, D256_deny::V121, D256_deny::V122, D256_deny::V123, D256_deny::V124, D256_deny::V125, D256_deny::V126, D256_deny::V127, D256_deny::V128, D256_deny::V129, D256_deny::V130, D256_deny::V131, D256_deny::V132, D256_deny::V133, D256_deny::V134, D256_deny::V135, D256_deny::V136, D256_deny::V137, D256_deny::V138, D256_deny::V139, D256_deny::V140, D256_deny::V141, D256_deny::V142, D256_deny::V143, D256_deny::V144, D256_deny::V145, D256_deny::V146, D256_deny::V147, D256_deny::V148, D256_deny::V149, D256_deny::V150, D256_deny::V151, D256_deny::V152, D256_deny::V153, D256_deny::V154, D256_deny::V155, D256_deny::V156, D256_deny::V157, D256_deny::V158, D256_deny::V159, D256_deny::V160, D256_deny::V161, D256_deny::V162, D256_deny::V163, D256_deny::V164, D256_deny::V165, D256_deny::V166, D256_deny::V167, D256_deny::V168, D256_deny::V169, D256_deny::V170, D256_deny::V171, D256_deny::V172, D256_deny::V173, D256_deny::V174, D256_deny::V175, D256_deny::V176, D256_deny::V177, D256_deny::V178, D256_deny::V179, D256_deny::V180, D256_deny::V181, D256_deny::V182, D256_deny::V183, D256_deny::V184, D256_deny::V185, D256_deny::V186, D256_deny::V187, D256_deny::V188, D256_deny::V189, D256_deny::V190, D256_deny::V191, D256_deny::V192, D256_deny::V193, D256_deny::V194, D256_deny::V195, D256_deny::V196, D256_deny::V197, D256_deny::V198, D256_deny::V199, D256_deny::V200, D256_deny::V201, D256_deny::V202, D256_deny::V203, D256_deny::V204, D256_deny::V205, D256_deny::V206, D256_deny::V207, D256_deny::V208, D256_deny::V209, D256_deny::V210, D256_deny::V211, D256_deny::V212, D256_deny::V213, D256_deny::V214, D256_deny::V215, D256_deny::V216, D256_deny::V217, D256_deny::V218, D256_deny::V219, D256_deny::V220, D256_deny::V221, D256_deny::V222, D256_deny::V223, D256_deny::V224, D256_deny::V225, D256_deny::V226, D256_deny::V227, D256_deny::V228, D256_deny::V229, D256_deny::V230, D256_deny::V231, D256_deny::V232, D256_deny::V233, D256_deny::V234, D256_deny::V235, D256_deny::V236, D256_deny::V237, D256_deny::V238, D256_deny::V239, D256_deny::V240, D256_deny::V241, D256_deny::V242, D256_deny::V243, D256_deny::V244, D256_deny::V245, D256_deny::V246, D256_deny::V247, D256_deny::V248, D256_deny::V249, D256_deny::V250, D256_deny::V251, D256_deny::V252, D256_deny::V253, D256_deny::V254, D256_deny::V255]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192", "V193", "V194", "V195", "V196", "V197", "V198", "V199", "V200", "V201", "V202", "V203", "V204", "V205", "V206", "V207", "V208", "V209", "V210", "V211", "V212", "V213", "V214", "V215", "V216", "V217", "V218", "V219", "V220", "V221", "V222", "V223", "V224", "V225", "V226", "V227", "V228", "V229", "V230", "V231", "V232", "V233", "V234", "V235", "V236", "V237", "V238", "V239", "V240", "V241", "V242", "V243", "V244", "V245", "V246", "V247", "V248", "V249", "V250", "V251", "V252", "V253", "V254", "V255"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum D256 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 190, V191 = 191, V192 = 192, V193 = 193, V194 = 194, V195 = 195, V196 = 196, V197 = 197, V198 = 198, V199 = 199, V200 = 200, V201 = 201, V202 = 202, V203 = 203, V204 = 204, V205 = 205, V206 = 206, V207 = 207, V208 = 208, V209 = 209, V210 = 210, V211 = 211, V212 = 212, V213 = 213, V214 = 214, V215 = 215, V216 = 216, V217 = 217, V218 = 218, V219 = 219, V220 = 220, V221 = 221, V222 = 222, V223 = 223, V224 = 224, V225 = 225, V226 = 226, V227 = 227, V228 = 228, V229 = 229, V230 = 230, V231 = 231, V232 = 232, V233 = 233, V234 = 234, V235 = 235, V236 = 236, V237 = 237, V238 = 238, V239 = 239, V240 = 240, V241 = 241, V242 = 242, V243 = 243, V244 = 244, V245 = 245, V246 = 246, V247 = 247, V248 = 248, V249 = 249, V250 = 250, V251 = 251, V252 = 252, V253 = 253, V254 = 254, V255 = 255 }
impl SCat for D256 { const NAME: &'static str = "D256"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum D256 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255]; const VARS: &'static [Self] = &[D256::V0, D256::V1, D256::V2, D256::V3, D256::V4, D256::V5, D256::V6, D256::V7, D256::V8, D256::V9, D256::V10, D256::V11, D256::V12, D256::V13, D256::V14, D256::V15, D256::V16, D256::V17, D256::V18, D256::V19, D256::V20, D256::V21, D256::V22, D256::V23, D256::V24, D256::V25, D256::V26, D256::V27, D256::V28, D256::V29, D256::V30, D256::V31, D256::V32, D256::V33, D256::V34, D256::V35, D256::V36, D256::V37, D256::V38, D256::V39, D256::V40, D256::V41, D256::V42, D256::V43, D256::V44, D256::V45, D256::V46, D256::V47, D256::V48, D256::V49, D256::V50, D256::V51, D256::V52, D256::V53, D256::V54, D256::V55, D256::V56, D256::V57, D256::V58, D256::V59, D256::V60, D256::V61, D256::V62, D256::V63, D256::V64, D256::V65, D256::V66, D256::V67, D256::V68, D256::V69, D256::V70, D256::V71, D256::V72, D256::V73, D256::V74, D256::V75, D256::V76, D256::V77, D256::V78, D256::V79, D256::V80, D256::V81, D256::V82, D256::V83, D256::V84, D256::V85, D256::V86, D256::V87, D256::V88, D256::V89, D256::V90, D256::V91, D256::V92, D256::V93, D256::V94, D256::V95, D256::V96, D256::V97, D256::V98, D256::V99, D256::V100, D256::V101, D256::V102, D256::V103, D256::V104, D256::V105, D256::V106, D256::V107, D256::V108, D256::V109, D256::V110, D256::V111, D256::V112, D256::V113, D256::V114, D256::V115, D256::V116, D256::V117, D256::V118, D256::V119, D256::V120, D256::V121, D256::V122, D256::V123, D256::V124, D256::V125, D256::V126, D256::V127, D256::V128, D256::V129, D256::V130, D256::V131, D256::V132, D256::V133, D256::V134, D256::V135, D256::V136, D256::V137, D256::V138, D256::V139, D256::V140, D256::V141, D256::V142, D256::V143, D256::V144, D256::V145, D256::V146, D256::V147, D256::V148, D256::V149, D256::V150, D256::V151, D256::V152, D256::V153, D256::V154, D256::V155, D256::V156, D256::V157, D256::V158, D256::V159, D256::V160, D256::V161, D256::V162, D256::V163, D256::V164, D256::V165, D256::V166, D256::V167, D256::V168, D256::V169, D256::V170, D256::V171, D256::V172, D256::V173, D256::V174, D256::V175, D256::V176, D256::V177, D256::V178, D256::V179, D256::V180, D256::V181, D256::V182, D256::V183, D256::V184, D256::V185, D256::V186, D256::V187, D256::V188, D256::V189, D256::V190, D256::V191, D256::V192, D256::V193, D256::V194, D256::V195, D256::V196, D256::V197, D256::V198, D256::V199, D256::V200, D256::V201, D256::V202, D256::V203, D256::V204, D256::V205, D256::V206, D256::V207, D256::V208, D256::V209, D256::V210, D256::V211, D256::V212, D256::V213, D256::V214, D256::V215, D256::V216, D256::V217, D256::V218, D256::V219, D256::V220, D256::V221, D256::V222, D256::V223, D256::V224, D256::V225, D256::V226, D256::V227, D256::V228, D256::V229, D256::V230, D256::V231, D256::V232, D256::V233, D256::V234, D256::V235, D256::V236, D256::V237, D256::V238, D256::V239, D256::V240, D256::V241, D256::V242, D256::V243, D256::V244, D256::V245, D256::V246, D256::V247, D256::V248, D256::V249, D256::V250, D256::V251, D256::V252, D256::V253, D256::V254, D256::V255]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190", "V191", "V192", "V193", "V194", "V195", "V196", "V197", "V198", "V199", "V200", "V201", "V202", "V203", "V204", "V205", "V206", "V207", "V208", "V209", "V210", "V211", "V212", "V213", "V214", "V215", "V216", "V217", "V218", "V219", "V220", "V221", "V222", "V223", "V224", "V225", "V226", "V227", "V228", "V229", "V230", "V231", "V232", "V233", "V234", "V235", "V236", "V237", "V238", "V239", "V240", "V241", "V242", "V243", "V244", "V245", "V246", "V247", "V248", "V249", "V250", "V251", "V252", "V253", "V254", "V255"]; const NUM: bool = false; const WORDS: usize = 4; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H8_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }
impl SCat for H8_0_deny { const NAME: &'static str = "H8_0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H8_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7 }"####; const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7]; const VARS: &'static [Self] = &[H8_0_deny::V0, H8_0_deny::V1, H8_0_deny::V2, H8_0_deny::V3, H8_0_deny::V4, H8_0_deny::V5, H8_0_deny::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H8_4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }
impl SCat for H8_4 { const NAME: &'static str = "H8_4"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H8_4 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 5, 6, 7]; const VARS: &'static [Self] = &[H8_4::V0, H8_4::V1, H8_4::V2, H8_4::V3, H8_4::V4, H8_4::V5, H8_4::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H8_4_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }
impl SCat for H8_4_deny { const NAME: &'static str = "H8_4_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H8_4_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 5, 6, 7]; const VARS: &'static [Self] = &[H8_4_deny::V0, H8_4_deny::V1, H8_4_deny::V2, H8_4_deny::V3, H8_4_deny::V4, H8_4_deny::V5, H8_4_deny::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H8_4_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }
impl SCat for H8_4_array_deny { const NAME: &'static str = "H8_4_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H8_4_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 5, V5 = 6, V6 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 5, 6, 7]; const VARS: &'static [Self] = &[H8_4_array_deny::V0, H8_4_array_deny::V1, H8_4_array_deny::V2, H8_4_array_deny::V3, H8_4_array_deny::V4, H8_4_array_deny::V5, H8_4_array_deny::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H8_6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }
impl SCat for H8_6 { const NAME: &'static str = "H8_6"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H8_6 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 7]; const VARS: &'static [Self] = &[H8_6::V0, H8_6::V1, H8_6::V2, H8_6::V3, H8_6::V4, H8_6::V5, H8_6::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H8_6_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }
impl SCat for H8_6_deny { const NAME: &'static str = "H8_6_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H8_6_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 7]; const VARS: &'static [Self] = &[H8_6_deny::V0, H8_6_deny::V1, H8_6_deny::V2, H8_6_deny::V3, H8_6_deny::V4, H8_6_deny::V5, H8_6_deny::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H8_6_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }
impl SCat for H8_6_array { const NAME: &'static str = "H8_6_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H8_6_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 7 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 7]; const VARS: &'static [Self] = &[H8_6_array::V0, H8_6_array::V1, H8_6_array::V2, H8_6_array::V3, H8_6_array::V4, H8_6_array::V5, H8_6_array::V6]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H16_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl SCat for H16_0_deny { const NAME: &'static str = "H16_0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H16_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####; const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[H16_0_deny::V0, H16_0_deny::V1, H16_0_deny::V2, H16_0_deny::V3, H16_0_deny::V4, H16_0_deny::V5, H16_0_deny::V6, H16_0_deny::V7, H16_0_deny::V8, H16_0_deny::V9, H16_0_deny::V10, H16_0_deny::V11, H16_0_deny::V12, H16_0_deny::V13, H16_0_deny::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H16_8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl SCat for H16_8 { const NAME: &'static str = "H16_8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H16_8 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[H16_8::V0, H16_8::V1, H16_8::V2, H16_8::V3, H16_8::V4, H16_8::V5, H16_8::V6, H16_8::V7, H16_8::V8, H16_8::V9, H16_8::V10, H16_8::V11, H16_8::V12, H16_8::V13, H16_8::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H16_8_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl SCat for H16_8_deny { const NAME: &'static str = "H16_8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H16_8_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[H16_8_deny::V0, H16_8_deny::V1, H16_8_deny::V2, H16_8_deny::V3, H16_8_deny::V4, H16_8_deny::V5, H16_8_deny::V6, H16_8_deny::V7, H16_8_deny::V8, H16_8_deny::V9, H16_8_deny::V10, H16_8_deny::V11, H16_8_deny::V12, H16_8_deny::V13, H16_8_deny::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H16_8_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }
impl SCat for H16_8_array_deny { const NAME: &'static str = "H16_8_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H16_8_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15]; const VARS: &'static [Self] = &[H16_8_array_deny::V0, H16_8_array_deny::V1, H16_8_array_deny::V2, H16_8_array_deny::V3, H16_8_array_deny::V4, H16_8_array_deny::V5, H16_8_array_deny::V6, H16_8_array_deny::V7, H16_8_array_deny::V8, H16_8_array_deny::V9, H16_8_array_deny::V10, H16_8_array_deny::V11, H16_8_array_deny::V12, H16_8_array_deny::V13, H16_8_array_deny::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H16_14 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }
impl SCat for H16_14 { const NAME: &'static str = "H16_14"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H16_14 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]; const VARS: &'static [Self] = &[H16_14::V0, H16_14::V1, H16_14::V2, H16_14::V3, H16_14::V4, H16_14::V5, H16_14::V6, H16_14::V7, H16_14::V8, H16_14::V9, H16_14::V10, H16_14::V11, H16_14::V12, H16_14::V13, H16_14::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H16_14_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }
impl SCat for H16_14_deny { const NAME: &'static str = "H16_14_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H16_14_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]; const VARS: &'static [Self] = &[H16_14_deny::V0, H16_14_deny::V1, H16_14_deny::V2, H16_14_deny::V3, H16_14_deny::V4, H16_14_deny::V5, H16_14_deny::V6, H16_14_deny::V7, H16_14_deny::V8, H16_14_deny::V9, H16_14_deny::V10, H16_14_deny::V11, H16_14_deny::V12, H16_14_deny::V13, H16_14_deny::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H16_14_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }
impl SCat for H16_14_array { const NAME: &'static str = "H16_14_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H16_14_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 15 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]; const VARS: &'static [Self] = &[H16_14_array::V0, H16_14_array::V1, H16_14_array::V2, H16_14_array::V3, H16_14_array::V4, H16_14_array::V5, H16_14_array::V6, H16_14_array::V7, H16_14_array::V8, H16_14_array::V9, H16_14_array::V10, H16_14_array::V11, H16_14_array::V12, H16_14_array::V13, H16_14_array::V14]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H32_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl SCat for H32_0_deny { const NAME: &'static str = "H32_0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H32_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####; const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]; const VARS: &'static [Self] = &[H32_0_deny::V0, H32_0_deny::V1, H32_0_deny::V2, H32_0_deny::V3, H32_0_deny::V4, H32_0_deny::V5, H32_0_deny::V6, H32_0_deny::V7, H32_0_deny::V8, H32_0_deny::V9, H32_0_deny::V10, H32_0_deny::V11, H32_0_deny::V12, H32_0_deny::V13, H32_0_deny::V14, H32_0_deny::V15, H32_0_deny::V16, H32_0_deny::V17, H32_0_deny::V18, H32_0_deny::V19, H32_0_deny::V20, H32_0_deny::V21, H32_0_deny::V22, H32_0_deny::V23, H32_0_deny::V24, H32_0_deny::V25, H32_0_deny::V26, H32_0_deny::V27, H32_0_deny::V28, H32_0_deny::V29, H32_0_deny::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H32_16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl SCat for H32_16 { const NAME: &'static str = "H32_16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H32_16 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]; const VARS: &'static [Self] = &[H32_16::V0, H32_16::V1, H32_16::V2, H32_16::V3, H32_16::V4, H32_16::V5, H32_16::V6, H32_16::V7, H32_16::V8, H32_16::V9, H32_16::V10, H32_16::V11, H32_16::V12, H32_16::V13, H32_16::V14, H32_16::V15, H32_16::V16, H32_16::V17, H32_16::V18, H32_16::V19, H32_16::V20, H32_16::V21, H32_16::V22, H32_16::V23, H32_16::V24, H32_16::V25, H32_16::V26, H32_16::V27, H32_16::V28, H32_16::V29, H32_16::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H32_16_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl SCat for H32_16_deny { const NAME: &'static str = "H32_16_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H32_16_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]; const VARS: &'static [Self] = &[H32_16_deny::V0, H32_16_deny::V1, H32_16_deny::V2, H32_16_deny::V3, H32_16_deny::V4, H32_16_deny::V5, H32_16_deny::V6, H32_16_deny::V7, H32_16_deny::V8, H32_16_deny::V9, H32_16_deny::V10, H32_16_deny::V11, H32_16_deny::V12, H32_16_deny::V13, H32_16_deny::V14, H32_16_deny::V15, H32_16_deny::V16, H32_16_deny::V17, H32_16_deny::V18, H32_16_deny::V19, H32_16_deny::V20, H32_16_deny::V21, H32_16_deny::V22, H32_16_deny::V23, H32_16_deny::V24, H32_16_deny::V25, H32_16_deny::V26, H32_16_deny::V27, H32_16_deny::V28, H32_16_deny::V29, H32_16_deny::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H32_16_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31 }
impl SCat for H32_16_array_deny { const NAME: &'static str = "H32_16_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H32_16_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]; const VARS: &'static [Self] = &[H32_16_array_deny::V0, H32_16_array_deny::V1, H32_16_array_deny::V2, H32_16_array_deny::V3, H32_16_array_deny::V4, H32_16_array_deny::V5, H32_16_array_deny::V6, H32_16_array_deny::V7, H32_16_array_deny::V8, H32_16_array_deny::V9, H32_16_array_deny::V10, H32_16_array_deny::V11, H32_16_array_deny::V12, H32_16_array_deny::V13, H32_16_array_deny::V14, H32_16_array_deny::V15, H32_16_array_deny::V16, H32_16_array_deny::V17, H32_16_array_deny::V18, H32_16_array_deny::V19, H32_16_array_deny::V20, H32_16_array_deny::V21, H32_16_array_deny::V22, H32_16_array_deny::V23, H32_16_array_deny::V24, H32_16_array_deny::V25, H32_16_array_deny::V26, H32_16_array_deny::V27, H32_16_array_deny::V28, H32_16_array_deny::V29, H32_16_array_deny::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H32_30 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }
impl SCat for H32_30 { const NAME: &'static str = "H32_30"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H32_30 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 31]; const VARS: &'static [Self] = &[H32_30::V0, H32_30::V1, H32_30::V2, H32_30::V3, H32_30::V4, H32_30::V5, H32_30::V6, H32_30::V7, H32_30::V8, H32_30::V9, H32_30::V10, H32_30::V11, H32_30::V12, H32_30::V13, H32_30::V14, H32_30::V15, H32_30::V16, H32_30::V17, H32_30::V18, H32_30::V19, H32_30::V20, H32_30::V21, H32_30::V22, H32_30::V23, H32_30::V24, H32_30::V25, H32_30::V26, H32_30::V27, H32_30::V28, H32_30::V29, H32_30::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H32_30_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }
impl SCat for H32_30_deny { const NAME: &'static str = "H32_30_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H32_30_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 31]; const VARS: &'static [Self] = &[H32_30_deny::V0, H32_30_deny::V1, H32_30_deny::V2, H32_30_deny::V3, H32_30_deny::V4, H32_30_deny::V5, H32_30_deny::V6, H32_30_deny::V7, H32_30_deny::V8, H32_30_deny::V9, H32_30_deny::V10, H32_30_deny::V11, H32_30_deny::V12, H32_30_deny::V13, H32_30_deny::V14, H32_30_deny::V15, H32_30_deny::V16, H32_30_deny::V17, H32_30_deny::V18, H32_30_deny::V19, H32_30_deny::V20, H32_30_deny::V21, H32_30_deny::V22, H32_30_deny::V23, H32_30_deny::V24, H32_30_deny::V25, H32_30_deny::V26, H32_30_deny::V27, H32_30_deny::V28, H32_30_deny::V29, H32_30_deny::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H32_30_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }
impl SCat for H32_30_array { const NAME: &'static str = "H32_30_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H32_30_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 31 }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 31]; const VARS: &'static [Self] = &[H32_30_array::V0, H32_30_array::V1, H32_30_array::V2, H32_30_array::V3, H32_30_array::V4, H32_30_array::V5, H32_30_array::V6, H32_30_array::V7, H32_30_array::V8, H32_30_array::V9, H32_30_array::V10, H32_30_array::V11, H32_30_array::V12, H32_30_array::V13, H32_30_array::V14, H32_30_array::V15, H32_30_array::V16, H32_30_array::V17, H32_30_array::V18, H32_30_array::V19, H32_30_array::V20, H32_30_array::V21, H32_30_array::V22, H32_30_array::V23, H32_30_array::V24, H32_30_array::V25, H32_30_array::V26, H32_30_array::V27, H32_30_array::V28, H32_30_array::V29, H32_30_array::V30]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H64_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl SCat for H64_0_deny { const NAME: &'static str = "H64_0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H64_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V3 ... }"####; const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[H64_0_deny::V0, H64_0_deny::V1, H64_0_deny::V2, H64_0_deny::V3, H64_0_deny::V4, H64_0_deny::V5, H64_0_deny::V6, H64_0_deny::V7, H64_0_deny::V8, H64_0_deny::V9, H64_0_deny::V10, H64_0_deny::V11, H64_0_deny::V12, H64_0_deny::V13, H64_0_deny::V14, H64_0_deny::V15, H64_0_deny::V16, H64_0_deny::V17, H64_0_deny::V18, H64_0_deny::V19, H64_0_deny::V20, H64_0_deny::V21, H64_0_deny::V22, H64_0_deny::V23, H64_0_deny::V24, H64_0_deny::V25, H64_0_deny::V26, H64_0_deny::V27, H64_0_deny::V28, H64_0_deny::V29, H64_0_deny::V30, H64_0_deny::V31, H64_0_deny::V32, H64_0_deny::V33, H64_0_deny::V34, H64_0_deny::V35, H64_0_deny::V36, H64_0_deny::V37, H64_0_deny::V38, H64_0_deny::V39, H64_0_deny::V40, H64_0_deny::V41, H64_0_deny::V42, H64_0_deny::V43, H64_0_deny::V44, H64_0_deny::V45, H64_0_deny::V46, H64_0_deny::V47, H64_0_deny::V48, H64_0_deny::V49, H64_0_deny::V50, H64_0_deny::V51, H64_0_deny::V52, H64_0_deny::V53, H64_0_deny::V54, H64_0_deny::V55, H64_0_deny::V56, H64_0_deny::V57, H64_0_deny::V58, H64_0_deny::V59, H64_0_deny::V60, H64_0_deny::V61, H64_0_deny::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H64_32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl SCat for H64_32 { const NAME: &'static str = "H64_32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H64_32 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 33, V33 = 34, V34 = 35, V3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[H64_32::V0, H64_32::V1, H64_32::V2, H64_32::V3, H64_32::V4, H64_32::V5, H64_32::V6, H64_32::V7, H64_32::V8, H64_32::V9, H64_32::V10, H64_32::V11, H64_32::V12, H64_32::V13, H64_32::V14, H64_32::V15, H64_32::V16, H64_32::V17, H64_32::V18, H64_32::V19, H64_32::V20, H64_32::V21, H64_32::V22, H64_32::V23, H64_32::V24, H64_32::V25, H64_32::V26, H64_32::V27, H64_32::V28, H64_32::V29, H64_32::V30, H64_32::V31, H64_32::V32, H64_32::V33, H64_32::V34, H64_32::V35, H64_32::V36, H64_32::V37, H64_32::V38, H64_32::V39, H64_32::V40, H64_32::V41, H64_32::V42, H64_32::V43, H64_32::V44, H64_32::V45, H64_32::V46, H64_32::V47, H64_32::V48, H64_32::V49, H64_32::V50, H64_32::V51, H64_32::V52, H64_32::V53, H64_32::V54, H64_32::V55, H64_32::V56, H64_32::V57, H64_32::V58, H64_32::V59, H64_32::V60, H64_32::V61, H64_32::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H64_32_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl SCat for H64_32_deny { const NAME: &'static str = "H64_32_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H64_32_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[H64_32_deny::V0, H64_32_deny::V1, H64_32_deny::V2, H64_32_deny::V3, H64_32_deny::V4, H64_32_deny::V5, H64_32_deny::V6, H64_32_deny::V7, H64_32_deny::V8, H64_32_deny::V9, H64_32_deny::V10, H64_32_deny::V11, H64_32_deny::V12, H64_32_deny::V13, H64_32_deny::V14, H64_32_deny::V15, H64_32_deny::V16, H64_32_deny::V17, H64_32_deny::V18, H64_32_deny::V19, H64_32_deny::V20, H64_32_deny::V21, H64_32_deny::V22, H64_32_deny::V23, H64_32_deny::V24, H64_32_deny::V25, H64_32_deny::V26, H64_32_deny::V27, H64_32_deny::V28, H64_32_deny::V29, H64_32_deny::V30, H64_32_deny::V31, H64_32_deny::V32, H64_32_deny::V33, H64_32_deny::V34, H64_32_deny::V35, H64_32_deny::V36, H64_32_deny::V37, H64_32_deny::V38, H64_32_deny::V39, H64_32_deny::V40, H64_32_deny::V41, H64_32_deny::V42, H64_32_deny::V43, H64_32_deny::V44, H64_32_deny::V45, H64_32_deny::V46, H64_32_deny::V47, H64_32_deny::V48, H64_32_deny::V49, H64_32_deny::V50, H64_32_deny::V51, H64_32_deny::V52, H64_32_deny::V53, H64_32_deny::V54, H64_32_deny::V55, H64_32_deny::V56, H64_32_deny::V57, H64_32_deny::V58, H64_32_deny::V59, H64_32_deny::V60, H64_32_deny::V61, H64_32_deny::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H64_32_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63 }
impl SCat for H64_32_array_deny { const NAME: &'static str = "H64_32_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H64_32_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63]; const VARS: &'static [Self] = &[H64_32_array_deny::V0, H64_32_array_deny::V1, H64_32_array_deny::V2, H64_32_array_deny::V3, H64_32_array_deny::V4, H64_32_array_deny::V5, H64_32_array_deny::V6, H64_32_array_deny::V7, H64_32_array_deny::V8, H64_32_array_deny::V9, H64_32_array_deny::V10, H64_32_array_deny::V11, H64_32_array_deny::V12, H64_32_array_deny::V13, H64_32_array_deny::V14, H64_32_array_deny::V15, H64_32_array_deny::V16, H64_32_array_deny::V17, H64_32_array_deny::V18, H64_32_array_deny::V19, H64_32_array_deny::V20, H64_32_array_deny::V21, H64_32_array_deny::V22, H64_32_array_deny::V23, H64_32_array_deny::V24, H64_32_array_deny::V25, H64_32_array_deny::V26, H64_32_array_deny::V27, H64_32_array_deny::V28, H64_32_array_deny::V29, H64_32_array_deny::V30, H64_32_array_deny::V31, H64_32_array_deny::V32, H64_32_array_deny::V33, H64_32_array_deny::V34, H64_32_array_deny::V35, H64_32_array_deny::V36, H64_32_array_deny::V37, H64_32_array_deny::V38, H64_32_array_deny::V39, H64_32_array_deny::V40, H64_32_array_deny::V41, H64_32_array_deny::V42, H64_32_array_deny::V43, H64_32_array_deny::V44, H64_32_array_deny::V45, H64_32_array_deny::V46, H64_32_array_deny::V47, H64_32_array_deny::V48, H64_32_array_deny::V49, H64_32_array_deny::V50, H64_32_array_deny::V51, H64_32_array_deny::V52, H64_32_array_deny::V53, H64_32_array_deny::V54, H64_32_array_deny::V55, H64_32_array_deny::V56, H64_32_array_deny::V57, H64_32_array_deny::V58, H64_32_array_deny::V59, H64_32_array_deny::V60, H64_32_array_deny::V61, H64_32_array_deny::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H64_62 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 63 }
impl SCat for H64_62 { const NAME: &'static str = "H64_62"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H64_62 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 63]; const VARS: &'static [Self] = &[H64_62::V0, H64_62::V1, H64_62::V2, H64_62::V3, H64_62::V4, H64_62::V5, H64_62::V6, H64_62::V7, H64_62::V8, H64_62::V9, H64_62::V10, H64_62::V11, H64_62::V12, H64_62::V13, H64_62::V14, H64_62::V15, H64_62::V16, H64_62::V17, H64_62::V18, H64_62::V19, H64_62::V20, H64_62::V21, H64_62::V22, H64_62::V23, H64_62::V24, H64_62::V25, H64_62::V26, H64_62::V27, H64_62::V28, H64_62::V29, H64_62::V30, H64_62::V31, H64_62::V32, H64_62::V33, H64_62::V34, H64_62::V35, H64_62::V36, H64_62::V37, H64_62::V38, H64_62::V39, H64_62::V40, H64_62::V41, H64_62::V42, H64_62::V43, H64_62::V44, H64_62::V45, H64_62::V46, H64_62::V47, H64_62::V48, H64_62::V49, H64_62::V50, H64_62::V51, H64_62::V52, H64_62::V53, H64_62::V54, H64_62::V55, H64_62::V56, H64_62::V57, H64_62::V58, H64_62::V59, H64_62::V60, H64_62::V61, H64_62::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H64_62_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 63 }
impl SCat for H64_62_deny { const NAME: &'static str = "H64_62_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H64_62_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 63]; const VARS: &'static [Self] = &[H64_62_deny::V0, H64_62_deny::V1, H64_62_deny::V2, H64_62_deny::V3, H64_62_deny::V4, H64_62_deny::V5, H64_62_deny::V6, H64_62_deny::V7, H64_62_deny::V8, H64_62_deny::V9, H64_62_deny::V10, H64_62_deny::V11, H64_62_deny::V12, H64_62_deny::V13, H64_62_deny::V14, H64_62_deny::V15, H64_62_deny::V16, H64_62_deny::V17, H64_62_deny::V18, H64_62_deny::V19, H64_62_deny::V20, H64_62_deny::V21, H64_62_deny::V22, H64_62_deny::V23, H64_62_deny::V24, H64_62_deny::V25, H64_62_deny::V26, H64_62_deny::V27, H64_62_deny::V28, H64_62_deny::V29, H64_62_deny::V30, H64_62_deny::V31, H64_62_deny::V32, H64_62_deny::V33, H64_62_deny::V34, H64_62_deny::V35, H64_62_deny::V36, H64_62_deny::V37, H64_62_deny::V38, H64_62_deny::V39, H64_62_deny::V40, H64_62_deny::V41, H64_62_deny::V42, H64_62_deny::V43, H64_62_deny::V44, H64_62_deny::V45, H64_62_deny::V46, H64_62_deny::V47, H64_62_deny::V48, H64_62_deny::V49, H64_62_deny::V50, H64_62_deny::V51, H64_62_deny::V52, H64_62_deny::V53, H64_62_deny::V54, H64_62_deny::V55, H64_62_deny::V56, H64_62_deny::V57, H64_62_deny::V58, H64_62_deny::V59, H64_62_deny::V60, H64_62_deny::V61, H64_62_deny::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H64_62_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 63 }
impl SCat for H64_62_array { const NAME: &'static str = "H64_62_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H64_62_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 63]; const VARS: &'static [Self] = &[H64_62_array::V0, H64_62_array::V1, H64_62_array::V2, H64_62_array::V3, H64_62_array::V4, H64_62_array::V5, H64_62_array::V6, H64_62_array::V7, H64_62_array::V8, H64_62_array::V9, H64_62_array::V10, H64_62_array::V11, H64_62_array::V12, H64_62_array::V13, H64_62_array::V14, H64_62_array::V15, H64_62_array::V16, H64_62_array::V17, H64_62_array::V18, H64_62_array::V19, H64_62_array::V20, H64_62_array::V21, H64_62_array::V22, H64_62_array::V23, H64_62_array::V24, H64_62_array::V25, H64_62_array::V26, H64_62_array::V27, H64_62_array::V28, H64_62_array::V29, H64_62_array::V30, H64_62_array::V31, H64_62_array::V32, H64_62_array::V33, H64_62_array::V34, H64_62_array::V35, H64_62_array::V36, H64_62_array::V37, H64_62_array::V38, H64_62_array::V39, H64_62_array::V40, H64_62_array::V41, H64_62_array::V42, H64_62_array::V43, H64_62_array::V44, H64_62_array::V45, H64_62_array::V46, H64_62_array::V47, H64_62_array::V48, H64_62_array::V49, H64_62_array::V50, H64_62_array::V51, H64_62_array::V52, H64_62_array::V53, H64_62_array::V54, H64_62_array::V55, H64_62_array::V56, H64_62_array::V57, H64_62_array::V58, H64_62_array::V59, H64_62_array::V60, H64_62_array::V61, H64_62_array::V62]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H128_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl SCat for H128_0_deny { const NAME: &'static str = "H128_0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H128_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V ... }"####; const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[H128_0_deny::V0, H128_0_deny::V1, H128_0_deny::V2, H128_0_deny::V3, H128_0_deny::V4, H128_0_deny::V5, H128_0_deny::V6, H128_0_deny::V7, H128_0_deny::V8, H128_0_deny::V9, H128_0_deny::V10, H128_0_deny::V11, H128_0_deny::V12, H128_0_deny::V13, H128_0_deny::V14, H128_0_deny::V15, H128_0_deny::V16, H128_0_deny::V17, H128_0_deny::V18, H128_0_deny::V19, H128_0_deny::V20, H128_0_deny::V21, H128_0_deny::V22, H128_0_deny::V23, H128_0_deny::V24, H128_0_deny::V25, H128_0_deny::V26, H128_0_deny::V27, H128_0_deny::V28, H128_0_deny::V29, H128_0_deny::V30, H128_0_deny::V31, H128_0_deny::V32, H128_0_deny::V33, H128_0_deny::V34, H128_0_deny::V35, H128_0_deny::V36, H128_0_deny::V37, H128_0_deny::V38, H128_0_deny::V39, H128_0_deny::V40, H128_0_deny::V41, H128_0_deny::V42, H128_0_deny::V43, H128_0_deny::V44, H128_0_deny::V45, H128_0_deny::V46, H128_0_deny::V47, H128_0_deny::V48, H128_0_deny::V49, H128_0_deny::V50, H128_0_deny::V51, H128_0_deny::V52, H128_0_deny::V53, H128_0_deny::V54, H128_0_deny::V55, H128_0_deny::V56, H128_0_deny::V57, H128_0_deny::V58, H128_0_deny::V59, H128_0_deny::V60, H128_0_deny::V61, H128_0_deny::V62, H128_0_deny::V63, H128_0_deny::V64, H128_0_deny::V65, H128_0_deny::V66, H128_0_deny::V67, H128_0_deny::V68, H128_0_deny::V69, H128_0_deny::V70, H128_0_deny::V71, H128_0_deny::V72, H128_0_deny::V73, H128_0_deny::V74, H128_0_deny::V75, H128_0_deny::V76, H128_0_deny::V77, H128_0_deny::V78, H128_0_deny::V79, H128_0_deny::V80, H128_0_deny::V81, H128_0_deny::V82, H128_0_deny::V83, H128_0_deny::V84, H128_0_deny::V85, H128_0_deny::V86, H128_0_deny::V87, H128_0_deny::V88, H128_0_deny::V89, H128_0_deny::V90, H128_0_deny::V91, H128_0_deny::V92, H128_0_deny::V93, H128_0_deny::V94, H128_0_deny::V95, H128_0_deny::V96, H128_0_deny::V97, H128_0_deny::V98, H128_0_deny::V99, H128_0_deny::V100, H128_0_deny::V101, H128_0_deny::V102, H128_0_deny::V103, H128_0_deny::V104, H128_0_deny::V105, H128_0_deny::V106, H128_0_deny::V107, H128_0_deny::V108, H128_0_deny::V109, H128_0_deny::V110, H128_0_deny::V111, H128_0_deny::V112, H128_0_deny::V113, H128_0_deny::V114, H128_0_deny::V115, H128_0_deny::V116, H128_0_deny::V117, H128_0_deny::V118, H128_0_deny::V119, H128_0_deny::V120, H128_0_deny::V121, H128_0_deny::V122, H128_0_deny::V123, H128_0_deny::V124, H128_0_deny::V125, H128_0_deny::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H128_64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl SCat for H128_64 { const NAME: &'static str = "H128_64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_64 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[H128_64::V0, H128_64::V1, H128_64::V2, H128_64::V3, H128_64::V4, H128_64::V5, H128_64::V6, H128_64::V7, H128_64::V8, H128_64::V9, H128_64::V10, H128_64::V11, H128_64::V12, H128_64::V13, H128_64::V14, H128_64::V15, H128_64::V16, H128_64::V17, H128_64::V18, H128_64::V19, H128_64::V20, H128_64::V21, H128_64::V22, H128_64::V23, H128_64::V24, H128_64::V25, H128_64::V26, H128_64::V27, H128_64::V28, H128_64::V29, H128_64::V30, H128_64::V31, H128_64::V32, H128_64::V33, H128_64::V34, H128_64::V35, H128_64::V36, H128_64::V37, H128_64::V38, H128_64::V39, H128_64::V40, H128_64::V41, H128_64::V42, H128_64::V43, H128_64::V44, H128_64::V45, H128_64::V46, H128_64::V47, H128_64::V48, H128_64::V49, H128_64::V50, H128_64::V51, H128_64::V52, H128_64::V53, H128_64::V54, H128_64::V55, H128_64::V56, H128_64::V57, H128_64::V58, H128_64::V59, H128_64::V60, H128_64::V61, H128_64::V62, H128_64::V63, H128_64::V64, H128_64::V65, H128_64::V66, H128_64::V67, H128_64::V68, H128_64::V69, H128_64::V70, H128_64::V71, H128_64::V72, H128_64::V73, H128_64::V74, H128_64::V75, H128_64::V76, H128_64::V77, H128_64::V78, H128_64::V79, H128_64::V80, H128_64::V81, H128_64::V82, H128_64::V83, H128_64::V84, H128_64::V85, H128_64::V86, H128_64::V87, H128_64::V88, H128_64::V89, H128_64::V90, H128_64::V91, H128_64::V92, H128_64::V93, H128_64::V94, H128_64::V95, H128_64::V96, H128_64::V97, H128_64::V98, H128_64::V99, H128_64::V100, H128_64::V101, H128_64::V102, H128_64::V103, H128_64::V104, H128_64::V105, H128_64::V106, H128_64::V107, H128_64::V108, H128_64::V109, H128_64::V110, H128_64::V111, H128_64::V112, H128_64::V113, H128_64::V114, H128_64::V115, H128_64::V116, H128_64::V117, H128_64::V118, H128_64::V119, H128_64::V120, H128_64::V121, H128_64::V122, H128_64::V123, H128_64::V124, H128_64::V125, H128_64::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H128_64_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl SCat for H128_64_deny { const NAME: &'static str = "H128_64_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H128_64_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[H128_64_deny::V0, H128_64_deny::V1, H128_64_deny::V2, H128_64_deny::V3, H128_64_deny::V4, H128_64_deny::V5, H128_64_deny::V6, H128_64_deny::V7, H128_64_deny::V8, H128_64_deny::V9, H128_64_deny::V10, H128_64_deny::V11, H128_64_deny::V12, H128_64_deny::V13, H128_64_deny::V14, H128_64_deny::V15, H128_64_deny::V16, H128_64_deny::V17, H128_64_deny::V18, H128_64_deny::V19, H128_64_deny::V20, H128_64_deny::V21, H128_64_deny::V22, H128_64_deny::V23, H128_64_deny::V24, H128_64_deny::V25, H128_64_deny::V26, H128_64_deny::V27, H128_64_deny::V28, H128_64_deny::V29, H128_64_deny::V30, H128_64_deny::V31, H128_64_deny::V32, H128_64_deny::V33, H128_64_deny::V34, H128_64_deny::V35, H128_64_deny::V36, H128_64_deny::V37, H128_64_deny::V38, H128_64_deny::V39, H128_64_deny::V40, H128_64_deny::V41, H128_64_deny::V42, H128_64_deny::V43, H128_64_deny::V44, H128_64_deny::V45, H128_64_deny::V46, H128_64_deny::V47, H128_64_deny::V48, H128_64_deny::V49, H128_64_deny::V50, H128_64_deny::V51, H128_64_deny::V52, H128_64_deny::V53, H128_64_deny::V54, H128_64_deny::V55, H128_64_deny::V56, H128_64_deny::V57, H128_64_deny::V58, H128_64_deny::V59, H128_64_deny::V60, H128_64_deny::V61, H128_64_deny::V62, H128_64_deny::V63, H128_64_deny::V64, H128_64_deny::V65, H128_64_deny::V66, H128_64_deny::V67, H128_64_deny::V68, H128_64_deny::V69, H128_64_deny::V70, H128_64_deny::V71, H128_64_deny::V72, H128_64_deny::V73, H128_64_deny::V74, H128_64_deny::V75, H128_64_deny::V76, H128_64_deny::V77, H128_64_deny::V78, H128_64_deny::V79, H128_64_deny::V80, H128_64_deny::V81, H128_64_deny::V82, H128_64_deny::V83, H128_64_deny::V84, H128_64_deny::V85, H128_64_deny::V86, H128_64_deny::V87, H128_64_deny::V88, H128_64_deny::V89, H128_64_deny::V90, H128_64_deny::V91, H128_64_deny::V92, H128_64_deny::V93, H128_64_deny::V94, H128_64_deny::V95, H128_64_deny::V96, H128_64_deny::V97, H128_64_deny::V98, H128_64_deny::V99, H128_64_deny::V100, H128_64_deny::V101, H128_64_deny::V102, H128_64_deny::V103, H128_64_deny::V104, H128_64_deny::V105, H128_64_deny::V106, H128_64_deny::V107, H128_64_deny::V108, H128_64_deny::V109, H128_64_deny::V110, H128_64_deny::V111, H128_64_deny::V112, H128_64_deny::V113, H128_64_deny::V114, H128_64_deny::V115, H128_64_deny::V116, H128_64_deny::V117, H128_64_deny::V118, H128_64_deny::V119, H128_64_deny::V120, H128_64_deny::V121, H128_64_deny::V122, H128_64_deny::V123, H128_64_deny::V124, H128_64_deny::V125, H128_64_deny::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H128_64_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127 }
impl SCat for H128_64_array_deny { const NAME: &'static str = "H128_64_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H128_64_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127]; const VARS: &'static [Self] = &[H128_64_array_deny::V0, H128_64_array_deny::V1, H128_64_array_deny::V2, H128_64_array_deny::V3, H128_64_array_deny::V4, H128_64_array_deny::V5, H128_64_array_deny::V6, H128_64_array_deny::V7, H128_64_array_deny::V8, H128_64_array_deny::V9, H128_64_array_deny::V10, H128_64_array_deny::V11, H128_64_array_deny::V12, H128_64_array_deny::V13, H128_64_array_deny::V14, H128_64_array_deny::V15, H128_64_array_deny::V16, H128_64_array_deny::V17, H128_64_array_deny::V18, H128_64_array_deny::V19, H128_64_array_deny::V20, H128_64_array_deny::V21, H128_64_array_deny::V22, H128_64_array_deny::V23, H128_64_array_deny::V24, H128_64_array_deny::V25, H128_64_array_deny::V26, H128_64_array_deny::V27, H128_64_array_deny::V28, H128_64_array_deny::V29, H128_64_array_deny::V30, H128_64_array_deny::V31, H128_64_array_deny::V32, H128_64_array_deny::V33, H128_64_array_deny::V34, H128_64_array_deny::V35, H128_64_array_deny::V36, H128_64_array_deny::V37, H128_64_array_deny::V38, H128_64_array_deny::V39, H128_64_array_deny::V40, H128_64_array_deny::V41, H128_64_array_deny::V42, H128_64_array_deny::V43, H128_64_array_deny::V44, H128_64_array_deny::V45, H128_64_array_deny::V46, H128_64_array_deny::V47, H128_64_array_deny::V48, H128_64_array_deny::V49, H128_64_array_deny::V50, H128_64_array_deny::V51, H128_64_array_deny::V52, H128_64_array_deny::V53, H128_64_array_deny::V54, H128_64_array_deny::V55, H128_64_array_deny::V56, H128_64_array_deny::V57, H128_64_array_deny::V58, H128_64_array_deny::V59, H128_64_array_deny::V60, H128_64_array_deny::V61, H128_64_array_deny::V62, H128_64_array_deny::V63, H128_64_array_deny::V64, H128_64_array_deny::V65, H128_64_array_deny::V66, H128_64_array_deny::V67, H128_64_array_deny::V68, H128_64_array_deny::V69, H128_64_array_deny::V70, H128_64_array_deny::V71, H128_64_array_deny::V72, H128_64_array_deny::V73, H128_64_array_deny::V74, H128_64_array_deny::V75, H128_64_array_deny::V76, H128_64_array_deny::V77, H128_64_array_deny::V78, H128_64_array_deny::V79, H128_64_array_deny::V80, H128_64_array_deny::V81, H128_64_array_deny::V82, H128_64_array_deny::V83, H128_64_array_deny::V84, H128_64_array_deny::V85, H128_64_array_deny::V86, H128_64_array_deny::V87, H128_64_array_deny::V88, H128_64_array_deny::V89, H128_64_array_deny::V90, H128_64_array_deny::V91, H128_64_array_deny::V92, H128_64_array_deny::V93, H128_64_array_deny::V94, H128_64_array_deny::V95, H128_64_array_deny::V96, H128_64_array_deny::V97, H128_64_array_deny::V98, H128_64_array_deny::V99, H128_64_array_deny::V100, H128_64_array_deny::V101, H128_64_array_deny::V102, H128_64_array_deny::V103, H128_64_array_deny::V104, H128_64_array_deny::V105, H128_64_array_deny::V106, H128_64_array_deny::V107, H128_64_array_deny::V108, H128_64_array_deny::V109, H128_64_array_deny::V110, H128_64_array_deny::V111, H128_64_array_deny::V112, H128_64_array_deny::V113, H128_64_array_deny::V114, H128_64_array_deny::V115, H128_64_array_deny::V116, H128_64_array_deny::V117, H128_64_array_deny::V118, H128_64_array_deny::V119, H128_64_array_deny::V120, H128_64_array_deny::V121, H128_64_array_deny::V122, H128_64_array_deny::V123, H128_64_array_deny::V124, H128_64_array_deny::V125, H128_64_array_deny::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H128_126 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 127 }
impl SCat for H128_126 { const NAME: &'static str = "H128_126"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H128_126 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 127]; const VARS: &'static [Self] = &[H128_126::V0, H128_126::V1, H128_126::V2, H128_126::V3, H128_126::V4, H128_126::V5, H128_126::V6, H128_126::V7, H128_126::V8, H128_126::V9, H128_126::V10, H128_126::V11, H128_126::V12, H128_126::V13, H128_126::V14, H128_126::V15, H128_126::V16, H128_126::V17, H128_126::V18, H128_126::V19, H128_126::V20, H128_126::V21, H128_126::V22, H128_126::V23, H128_126::V24, H128_126::V25, H128_126::V26, H128_126::V27, H128_126::V28, H128_126::V29, H128_126::V30, H128_126::V31, H128_126::V32, H128_126::V33, H128_126::V34, H128_126::V35, H128_126::V36, H128_126::V37, H128_126::V38, H128_126::V39, H128_126::V40, H128_126::V41, H128_126::V42, H128_126::V43, H128_126::V44, H128_126::V45, H128_126::V46, H128_126::V47, H128_126::V48, H128_126::V49, H128_126::V50, H128_126::V51, H128_126::V52, H128_126::V53, H128_126::V54, H128_126::V55, H128_126::V56, H128_126::V57, H128_126::V58, H128_126::V59, H128_126::V60, H128_126::V61, H128_126::V62, H128_126::V63, H128_126::V64, H128_126::V65, H128_126::V66, H128_126::V67, H128_126::V68, H128_126::V69, H128_126::V70, H128_126::V71, H128_126::V72, H128_126::V73, H128_126::V74, H128_126::V75, H128_126::V76, H128_126::V77, H128_126::V78, H128_126::V79, H128_126::V80, H128_126::V81, H128_126::V82, H128_126::V83, H128_126::V84, H128_126::V85, H128_126::V86, H128_126::V87, H128_126::V88, H128_126::V89, H128_126::V90, H128_126::V91, H128_126::V92, H128_126::V93, H128_126::V94, H128_126::V95, H128_126::V96, H128_126::V97, H128_126::V98, H128_126::V99, H128_126::V100, H128_126::V101, H128_126::V102, H128_126::V103, H128_126::V104, H128_126::V105, H128_126::V106, H128_126::V107, H128_126::V108, H128_126::V109, H128_126::V110, H128_126::V111, H128_126::V112, H128_126::V113, H128_126::V114, H128_126::V115, H128_126::V116, H128_126::V117, H128_126::V118, H128_126::V119, H128_126::V120, H128_126::V121, H128_126::V122, H128_126::V123, H128_126::V124, H128_126::V125, H128_126::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H128_126_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 127 }
impl SCat for H128_126_deny { const NAME: &'static str = "H128_126_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H128_126_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 127]; const VARS: &'static [Self] = &[H128_126_deny::V0, H128_126_deny::V1, H128_126_deny::V2, H128_126_deny::V3, H128_126_deny::V4, H128_126_deny::V5, H128_126_deny::V6, H128_126_deny::V7, H128_126_deny::V8, H128_126_deny::V9, H128_126_deny::V10, H128_126_deny::V11, H128_126_deny::V12, H128_126_deny::V13, H128_126_deny::V14, H128_126_deny::V15, H128_126_deny::V16, H128_126_deny::V17, H128_126_deny::V18, H128_126_deny::V19, H128_126_deny::V20, H128_126_deny::V21, H128_126_deny::V22, H128_126_deny::V23, H128_126_deny::V24, H128_126_deny::V25, H128_126_deny::V26, H128_126_deny::V27, H128_126_deny::V28, H128_126_deny::V29, H128_126_deny::V30, H128_126_deny::V31, H128_126_deny::V32, H128_126_deny::V33, H128_126_deny::V34, H128_126_deny::V35, H128_126_deny::V36, H128_126_deny::V37, H128_126_deny::V38, H128_126_deny::V39, H128_126_deny::V40, H128_126_deny::V41, H128_126_deny::V42, H128_126_deny::V43, H128_126_deny::V44, H128_126_deny::V45, H128_126_deny::V46, H128_126_deny::V47, H128_126_deny::V48, H128_126_deny::V49, H128_126_deny::V50, H128_126_deny::V51, H128_126_deny::V52, H128_126_deny::V53, H128_126_deny::V54, H128_126_deny::V55, H128_126_deny::V56, H128_126_deny::V57, H128_126_deny::V58, H128_126_deny::V59, H128_126_deny::V60, H128_126_deny::V61, H128_126_deny::V62, H128_126_deny::V63, H128_126_deny::V64, H128_126_deny::V65, H128_126_deny::V66, H128_126_deny::V67, H128_126_deny::V68, H128_126_deny::V69, H128_126_deny::V70, H128_126_deny::V71, H128_126_deny::V72, H128_126_deny::V73, H128_126_deny::V74, H128_126_deny::V75, H128_126_deny::V76, H128_126_deny::V77, H128_126_deny::V78, H128_126_deny::V79, H128_126_deny::V80, H128_126_deny::V81, H128_126_deny::V82, H128_126_deny::V83, H128_126_deny::V84, H128_126_deny::V85, H128_126_deny::V86, H128_126_deny::V87, H128_126_deny::V88, H128_126_deny::V89, H128_126_deny::V90, H128_126_deny::V91, H128_126_deny::V92, H128_126_deny::V93, H128_126_deny::V94, H128_126_deny::V95, H128_126_deny::V96, H128_126_deny::V97, H128_126_deny::V98, H128_126_deny::V99, H128_126_deny::V100, H128_126_deny::V101, H128_126_deny::V102, H128_126_deny::V103, H128_126_deny::V104, H128_126_deny::V105, H128_126_deny::V106, H128_126_deny::V107, H128_126_deny::V108, H128_126_deny::V109, H128_126_deny::V110, H128_126_deny::V111, H128_126_deny::V112, H128_126_deny::V113, H128_126_deny::V114, H128_126_deny::V115, H128_126_deny::V116, H128_126_deny::V117, H128_126_deny::V118, H128_126_deny::V119, H128_126_deny::V120, H128_126_deny::V121, H128_126_deny::V122, H128_126_deny::V123, H128_126_deny::V124, H128_126_deny::V125, H128_126_deny::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H128_126_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 127 }
impl SCat for H128_126_array { const NAME: &'static str = "H128_126_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H128_126_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 127]; const VARS: &'static [Self] = &[H128_126_array::V0, H128_126_array::V1, H128_126_array::V2, H128_126_array::V3, H128_126_array::V4, H128_126_array::V5, H128_126_array::V6, H128_126_array::V7, H128_126_array::V8, H128_126_array::V9, H128_126_array::V10, H128_126_array::V11, H128_126_array::V12, H128_126_array::V13, H128_126_array::V14, H128_126_array::V15, H128_126_array::V16, H128_126_array::V17, H128_126_array::V18, H128_126_array::V19, H128_126_array::V20, H128_126_array::V21, H128_126_array::V22, H128_126_array::V23, H128_126_array::V24, H128_126_array::V25, H128_126_array::V26, H128_126_array::V27, H128_126_array::V28, H128_126_array::V29, H128_126_array::V30, H128_126_array::V31, H128_126_array::V32, H128_126_array::V33, H128_126_array::V34, H128_126_array::V35, H128_126_array::V36, H128_126_array::V37, H128_126_array::V38, H128_126_array::V39, H128_126_array::V40, H128_126_array::V41, H128_126_array::V42, H128_126_array::V43, H128_126_array::V44, H128_126_array::V45, H128_126_array::V46, H128_126_array::V47, H128_126_array::V48, H128_126_array::V49, H128_126_array::V50, H128_126_array::V51, H128_126_array::V52, H128_126_array::V53, H128_126_array::V54, H128_126_array::V55, H128_126_array::V56, H128_126_array::V57, H128_126_array::V58, H128_126_array::V59, H128_126_array::V60, H128_126_array::V61, H128_126_array::V62, H128_126_array::V63, H128_126_array::V64, H128_126_array::V65, H128_126_array::V66, H128_126_array::V67, H128_126_array::V68, H128_126_array::V69, H128_126_array::V70, H128_126_array::V71, H128_126_array::V72, H128_126_array::V73, H128_126_array::V74, H128_126_array::V75, H128_126_array::V76, H128_126_array::V77, H128_126_array::V78, H128_126_array::V79, H128_126_array::V80, H128_126_array::V81, H128_126_array::V82, H128_126_array::V83, H128_126_array::V84, H128_126_array::V85, H128_126_array::V86, H128_126_array::V87, H128_126_array::V88, H128_126_array::V89, H128_126_array::V90, H128_126_array::V91, H128_126_array::V92, H128_126_array::V93, H128_126_array::V94, H128_126_array::V95, H128_126_array::V96, H128_126_array::V97, H128_126_array::V98, H128_126_array::V99, H128_126_array::V100, H128_126_array::V101, H128_126_array::V102, H128_126_array::V103, H128_126_array::V104, H128_126_array::V105, H128_126_array::V106, H128_126_array::V107, H128_126_array::V108, H128_126_array::V109, H128_126_array::V110, H128_126_array::V111, H128_126_array::V112, H128_126_array::V113, H128_126_array::V114, H128_126_array::V115, H128_126_array::V116, H128_126_array::V117, H128_126_array::V118, H128_126_array::V119, H128_126_array::V120, H128_126_array::V121, H128_126_array::V122, H128_126_array::V123, H128_126_array::V124, H128_126_array::V125, H128_126_array::V126]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H192_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 85, V85 = 86, V86 = 87, V87 = 88, V88 = 89, V89 = 90, V90 = 91, V91 = 92, V92 = 93, V93 = 94, V94 = 95, V95 = 96, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl SCat for H192_0_deny { const NAME: &'static str = "H192_0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H192_0_deny { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V ... }"####; const DISCR: &'static [u32] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191]; const VARS: &'static [Self] = &[H192_0_deny::V0, H192_0_deny::V1, H192_0_deny::V2, H192_0_deny::V3, H192_0_deny::V4, H192_0_deny::V5, H192_0_deny::V6, H192_0_deny::V7, H192_0_deny::V8, H192_0_deny::V9, H192_0_deny::V10, H192_0_deny::V11, H192_0_deny::V12, H192_0_deny::V13, H192_0_deny::V14, H192_0_deny::V15, H192_0_deny::V16, H192_0_deny::V17, H192_0_deny::V18, H192_0_deny::V19, H192_0_deny::V20, H192_0_deny::V21, H192_0_deny::V22, H192_0_deny::V23, H192_0_deny::V24, H192_0_deny::V25, H192_0_deny::V26, H192_0_deny::V27, H192_0_deny::V28, H192_0_deny::V29, H192_0_deny::V30, H192_0_deny::V31, H192_0_deny::V32, H192_0_deny::V33, H192_0_deny::V34, H192_0_deny::V35, H192_0_deny::V36, H192_0_deny::V37, H192_0_deny::V38, H192_0_deny::V39, H192_0_deny::V40, H192_0_deny::V41, H192_0_deny::V42, H192_0_deny::V43, H192_0_deny::V44, H192_0_deny::V45, H192_0_deny::V46, H192_0_deny::V47, H192_0_deny::V48, H192_0_deny::V49, H192_0_deny::V50, H192_0_deny::V51, H192_0_deny::V52, H192_0_deny::V53, H192_0_deny::V54, H192_0_deny::V55, H192_0_deny::V56, H192_0_deny::V57, H192_0_deny::V58, H192_0_deny::V59, H192_0_deny::V60, H192_0_deny::V61, H192_0_deny::V62, H192_0_deny::V63, H192_0_deny::V64, H192_0_deny::V65, H192_0_deny::V66, H192_0_deny::V67, H192_0_deny::V68, H192_0_deny::V69, H192_0_deny::V70, H192_0_deny::V71, H192_0_deny::V72, H192_0_deny::V73, H192_0_deny::V74, H192_0_deny::V75, H192_0_deny::V76, H192_0_deny::V77, H192_0_deny::V78, H192_0_deny::V79, H192_0_deny::V80, H192_0_deny::V81, H192_0_deny::V82, H192_0_deny::V83, H192_0_deny::V84, H192_0_deny::V85, H192_0_deny::V86, H192_0_deny::V87, H192_0_deny::V88, H192_0_deny::V89, H192_0_deny::V90, H192_0_deny::V91, H192_0_deny::V92, H192_0_deny::V93, H192_0_deny::V94, H192_0_deny::V95, H192_0_deny::V96, H192_0_deny::V97, H192_0_deny::V98, H192_0_deny::V99, H192_0_deny::V100, H192_0_deny::V101, H192_0_deny::V102, H192_0_deny::V103, H192_0_deny::V104, H192_0_deny::V105, H192_0_deny::V106, H192_0_deny::V107, H192_0_deny::V108, H192_0_deny::V109, H192_0_deny::V110, H192_0_deny::V111, H192_0_deny::V112, H192_0_deny::V113, H192_0_deny::V114, H192_0_deny::V115, H192_0_deny::V116, H192_0_deny::V117, H192_0_deny::V118, H192_0_deny::V119, H192_0_deny::V120, H192_0_deny::V121, H192_0_deny::V122, H192_0_deny::V123, H192_0_deny::V124, H192_0_deny::V125, H192_0_deny::V126, H192_0_deny::V127, H192_0_deny::V128, H192_0_deny::V129, H192_0_deny::V130, H192_0_deny::V131, H192_0_deny::V132, H192_0_deny::V133, H192_0_deny::V134, H192_0_deny::V135, H192_0_deny::V136, H192_0_deny::V137, H192_0_deny::V138, H192_0_deny::V139, H192_0_deny::V140, H192_0_deny::V141, H192_0_deny::V142, H192_0_deny::V143, H192_0_deny::V144, H192_0_deny::V145, H192_0_deny::V146, H192_0_deny::V147, H192_0_deny::V148, H192_0_deny::V149, H192_0_deny::V150, H192_0_deny::V151, H192_0_deny::V152, H192_0_deny::V153, H192_0_deny::V154, H192_0_deny::V155, H192_0_deny::V156, H192_0_deny::V157, H192_0_deny::V158, H192_0_deny::V159, H192_0_deny::V160, H192_0_deny::V161, H192_0_deny::V162, H192_0_deny::V163, H192_0_deny::V164, H192_0_deny::V165, H192_0_deny::V166, H192_0_deny::V167, H192_0_deny::V168, H192_0_deny::V169, H192_0_deny::V170, H192_0_deny::V171, H192_0_deny::V172, H192_0_deny::V173, H192_0_deny::V174, H192_0_deny::V175, H192_0_deny::V176, H192_0_deny::V177, H192_0_deny::V178, H192_0_deny::V179, H192_0_deny::V180, H192_0_deny::V181, H192_0_deny::V182, H192_0_deny::V183, H192_0_deny::V184, H192_0_deny::V185, H192_0_deny::V186, H192_0_deny::V187, H192_0_deny::V188, H192_0_deny::V189, H192_0_deny::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H192_96 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl SCat for H192_96 { const NAME: &'static str = "H192_96"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_96 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191]; const VARS: &'static [Self] = &[H192_96::V0, H192_96::V1, H192_96::V2, H192_96::V3, H192_96::V4, H192_96::V5, H192_96::V6, H192_96::V7, H192_96::V8, H192_96::V9, H192_96::V10, H192_96::V11, H192_96::V12, H192_96::V13, H192_96::V14, H192_96::V15, H192_96::V16, H192_96::V17, H192_96::V18, H192_96::V19, H192_96::V20, H192_96::V21, H192_96::V22, H192_96::V23, H192_96::V24, H192_96::V25, H192_96::V26, H192_96::V27, H192_96::V28, H192_96::V29, H192_96::V30, H192_96::V31, H192_96::V32, H192_96::V33, H192_96::V34, H192_96::V35, H192_96::V36, H192_96::V37, H192_96::V38, H192_96::V39, H192_96::V40, H192_96::V41, H192_96::V42, H192_96::V43, H192_96::V44, H192_96::V45, H192_96::V46, H192_96::V47, H192_96::V48, H192_96::V49, H192_96::V50, H192_96::V51, H192_96::V52, H192_96::V53, H192_96::V54, H192_96::V55, H192_96::V56, H192_96::V57, H192_96::V58, H192_96::V59, H192_96::V60, H192_96::V61, H192_96::V62, H192_96::V63, H192_96::V64, H192_96::V65, H192_96::V66, H192_96::V67, H192_96::V68, H192_96::V69, H192_96::V70, H192_96::V71, H192_96::V72, H192_96::V73, H192_96::V74, H192_96::V75, H192_96::V76, H192_96::V77, H192_96::V78, H192_96::V79, H192_96::V80, H192_96::V81, H192_96::V82, H192_96::V83, H192_96::V84, H192_96::V85, H192_96::V86, H192_96::V87, H192_96::V88, H192_96::V89, H192_96::V90, H192_96::V91, H192_96::V92, H192_96::V93, H192_96::V94, H192_96::V95, H192_96::V96, H192_96::V97, H192_96::V98, H192_96::V99, H192_96::V100, H192_96::V101, H192_96::V102, H192_96::V103, H192_96::V104, H192_96::V105, H192_96::V106, H192_96::V107, H192_96::V108, H192_96::V109, H192_96::V110, H192_96::V111, H192_96::V112, H192_96::V113, H192_96::V114, H192_96::V115, H192_96::V116, H192_96::V117, H192_96::V118, H192_96::V119, H192_96::V120, H192_96::V121, H192_96::V122, H192_96::V123, H192_96::V124, H192_96::V125, H192_96::V126, H192_96::V127, H192_96::V128, H192_96::V129, H192_96::V130, H192_96::V131, H192_96::V132, H192_96::V133, H192_96::V134, H192_96::V135, H192_96::V136, H192_96::V137, H192_96::V138, H192_96::V139, H192_96::V140, H192_96::V141, H192_96::V142, H192_96::V143, H192_96::V144, H192_96::V145, H192_96::V146, H192_96::V147, H192_96::V148, H192_96::V149, H192_96::V150, H192_96::V151, H192_96::V152, H192_96::V153, H192_96::V154, H192_96::V155, H192_96::V156, H192_96::V157, H192_96::V158, H192_96::V159, H192_96::V160, H192_96::V161, H192_96::V162, H192_96::V163, H192_96::V164, H192_96::V165, H192_96::V166, H192_96::V167, H192_96::V168, H192_96::V169, H192_96::V170, H192_96::V171, H192_96::V172, H192_96::V173, H192_96::V174, H192_96::V175, H192_96::V176, H192_96::V177, H192_96::V178, H192_96::V179, H192_96::V180, H192_96::V181, H192_96::V182, H192_96::V183, H192_96::V184, H192_96::V185, H192_96::V186, H192_96::V187, H192_96::V188, H192_96::V189, H192_96::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H192_96_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl SCat for H192_96_deny { const NAME: &'static str = "H192_96_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H192_96_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191]; const VARS: &'static [Self] = &[H192_96_deny::V0, H192_96_deny::V1, H192_96_deny::V2, H192_96_deny::V3, H192_96_deny::V4, H192_96_deny::V5, H192_96_deny::V6, H192_96_deny::V7, H192_96_deny::V8, H192_96_deny::V9, H192_96_deny::V10, H192_96_deny::V11, H192_96_deny::V12, H192_96_deny::V13, H192_96_deny::V14, H192_96_deny::V15, H192_96_deny::V16, H192_96_deny::V17, H192_96_deny::V18, H192_96_deny::V19, H192_96_deny::V20, H192_96_deny::V21, H192_96_deny::V22, H192_96_deny::V23, H192_96_deny::V24, H192_96_deny::V25, H192_96_deny::V26, H192_96_deny::V27, H192_96_deny::V28, H192_96_deny::V29, H192_96_deny::V30, H192_96_deny::V31, H192_96_deny::V32, H192_96_deny::V33, H192_96_deny::V34, H192_96_deny::V35, H192_96_deny::V36, H192_96_deny::V37, H192_96_deny::V38, H192_96_deny::V39, H192_96_deny::V40, H192_96_deny::V41, H192_96_deny::V42, H192_96_deny::V43, H192_96_deny::V44, H192_96_deny::V45, H192_96_deny::V46, H192_96_deny::V47, H192_96_deny::V48, H192_96_deny::V49, H192_96_deny::V50, H192_96_deny::V51, H192_96_deny::V52, H192_96_deny::V53, H192_96_deny::V54, H192_96_deny::V55, H192_96_deny::V56, H192_96_deny::V57, H192_96_deny::V58, H192_96_deny::V59, H192_96_deny::V60, H192_96_deny::V61, H192_96_deny::V62, H192_96_deny::V63, H192_96_deny::V64, H192_96_deny::V65, H192_96_deny::V66, H192_96_deny::V67, H192_96_deny::V68, H192_96_deny::V69, H192_96_deny::V70, H192_96_deny::V71, H192_96_deny::V72, H192_96_deny::V73, H192_96_deny::V74, H192_96_deny::V75, H192_96_deny::V76, H192_96_deny::V77, H192_96_deny::V78, H192_96_deny::V79, H192_96_deny::V80, H192_96_deny::V81, H192_96_deny::V82, H192_96_deny::V83, H192_96_deny::V84, H192_96_deny::V85, H192_96_deny::V86, H192_96_deny::V87, H192_96_deny::V88, H192_96_deny::V89, H192_96_deny::V90, H192_96_deny::V91, H192_96_deny::V92, H192_96_deny::V93, H192_96_deny::V94, H192_96_deny::V95, H192_96_deny::V96, H192_96_deny::V97, H192_96_deny::V98, H192_96_deny::V99, H192_96_deny::V100, H192_96_deny::V101, H192_96_deny::V102, H192_96_deny::V103, H192_96_deny::V104, H192_96_deny::V105, H192_96_deny::V106, H192_96_deny::V107, H192_96_deny::V108, H192_96_deny::V109, H192_96_deny::V110, H192_96_deny::V111, H192_96_deny::V112, H192_96_deny::V113, H192_96_deny::V114, H192_96_deny::V115, H192_96_deny::V116, H192_96_deny::V117, H192_96_deny::V118, H192_96_deny::V119, H192_96_deny::V120, H192_96_deny::V121, H192_96_deny::V122, H192_96_deny::V123, H192_96_deny::V124, H192_96_deny::V125, H192_96_deny::V126, H192_96_deny::V127, H192_96_deny::V128, H192_96_deny::V129, H192_96_deny::V130, H192_96_deny::V131, H192_96_deny::V132, H192_96_deny::V133, H192_96_deny::V134, H192_96_deny::V135, H192_96_deny::V136, H192_96_deny::V137, H192_96_deny::V138, H192_96_deny::V139, H192_96_deny::V140, H192_96_deny::V141, H192_96_deny::V142, H192_96_deny::V143, H192_96_deny::V144, H192_96_deny::V145, H192_96_deny::V146, H192_96_deny::V147, H192_96_deny::V148, H192_96_deny::V149, H192_96_deny::V150, H192_96_deny::V151, H192_96_deny::V152, H192_96_deny::V153, H192_96_deny::V154, H192_96_deny::V155, H192_96_deny::V156, H192_96_deny::V157, H192_96_deny::V158, H192_96_deny::V159, H192_96_deny::V160, H192_96_deny::V161, H192_96_deny::V162, H192_96_deny::V163, H192_96_deny::V164, H192_96_deny::V165, H192_96_deny::V166, H192_96_deny::V167, H192_96_deny::V168, H192_96_deny::V169, H192_96_deny::V170, H192_96_deny::V171, H192_96_deny::V172, H192_96_deny::V173, H192_96_deny::V174, H192_96_deny::V175, H192_96_deny::V176, H192_96_deny::V177, H192_96_deny::V178, H192_96_deny::V179, H192_96_deny::V180, H192_96_deny::V181, H192_96_deny::V182, H192_96_deny::V183, H192_96_deny::V184, H192_96_deny::V185, H192_96_deny::V186, H192_96_deny::V187, H192_96_deny::V188, H192_96_deny::V189, H192_96_deny::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H192_96_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 97, V97 = 98, V98 = 99, V99 = 100, V100 = 101, V101 = 102, V102 = 103, V103 = 104, V104 = 105, V105 = 106, V106 = 107, V107 = 108, V108 = 109, V109 = 110, V110 = 111, V111 = 112, V112 = 113, V113 = 114, V114 = 115, V115 = 116, V116 = 117, V117 = 118, V118 = 119, V119 = 120, V120 = 121, V121 = 122, V122 = 123, V123 = 124, V124 = 125, V125 = 126, V126 = 127, V127 = 128, V128 = 129, V129 = 130, V130 = 131, V131 = 132, V132 = 133, V133 = 134, V134 = 135, V135 = 136, V136 = 137, V137 = 138, V138 = 139, V139 = 140, V140 = 141, V141 = 142, V142 = 143, V143 = 144, V144 = 145, V145 = 146, V146 = 147, V147 = 148, V148 = 149, V149 = 150, V150 = 151, V151 = 152, V152 = 153, V153 = 154, V154 = 155, V155 = 156, V156 = 157, V157 = 158, V158 = 159, V159 = 160, V160 = 161, V161 = 162, V162 = 163, V163 = 164, V164 = 165, V165 = 166, V166 = 167, V167 = 168, V168 = 169, V169 = 170, V170 = 171, V171 = 172, V172 = 173, V173 = 174, V174 = 175, V175 = 176, V176 = 177, V177 = 178, V178 = 179, V179 = 180, V180 = 181, V181 = 182, V182 = 183, V183 = 184, V184 = 185, V185 = 186, V186 = 187, V187 = 188, V188 = 189, V189 = 190, V190 = 191 }
impl SCat for H192_96_array_deny { const NAME: &'static str = "H192_96_array_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] pub enum H192_96_array_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191]; const VARS: &'static [Self] = &[H192_96_array_deny::V0, H192_96_array_deny::V1, H192_96_array_deny::V2, H192_96_array_deny::V3, H192_96_array_deny::V4, H192_96_array_deny::V5, H192_96_array_deny::V6, H192_96_array_deny::V7, H192_96_array_deny::V8, H192_96_array_deny::V9, H192_96_array_deny::V10, H192_96_array_deny::V11, H192_96_array_deny::V12, H192_96_array_deny::V13, H192_96_array_deny::V14, H192_96_array_deny::V15, H192_96_array_deny::V16, H192_96_array_deny::V17, H192_96_array_deny::V18, H192_96_array_deny::V19, H192_96_array_deny::V20, H192_96_array_deny::V21, H192_96_array_deny::V22, H192_96_array_deny::V23, H192_96_array_deny::V24, H192_96_array_deny::V25, H192_96_array_deny::V26, H192_96_array_deny::V27, H192_96_array_deny::V28, H192_96_array_deny::V29, H192_96_array_deny::V30, H192_96_array_deny::V31, H192_96_array_deny::V32, H192_96_array_deny::V33, H192_96_array_deny::V34, H192_96_array_deny::V35, H192_96_array_deny::V36, H192_96_array_deny::V37, H192_96_array_deny::V38, H192_96_array_deny::V39, H192_96_array_deny::V40, H192_96_array_deny::V41, H192_96_array_deny::V42, H192_96_array_deny::V43, H192_96_array_deny::V44, H192_96_array_deny::V45, H192_96_array_deny::V46, H192_96_array_deny::V47, H192_96_array_deny::V48, H192_96_array_deny::V49, H192_96_array_deny::V50, H192_96_array_deny::V51, H192_96_array_deny::V52, H192_96_array_deny::V53, H192_96_array_deny::V54, H192_96_array_deny::V55, H192_96_array_deny::V56, H192_96_array_deny::V57, H192_96_array_deny::V58, H192_96_array_deny::V59, H192_96_array_deny::V60, H192_96_array_deny::V61, H192_96_array_deny::V62, H192_96_array_deny::V63, H192_96_array_deny::V64, H192_96_array_deny::V65, H192_96_array_deny::V66, H192_96_array_deny::V67, H192_96_array_deny::V68, H192_96_array_deny::V69, H192_96_array_deny::V70, H192_96_array_deny::V71, H192_96_array_deny::V72, H192_96_array_deny::V73, H192_96_array_deny::V74, H192_96_array_deny::V75, H192_96_array_deny::V76, H192_96_array_deny::V77, H192_96_array_deny::V78, H192_96_array_deny::V79, H192_96_array_deny::V80, H192_96_array_deny::V81, H192_96_array_deny::V82, H192_96_array_deny::V83, H192_96_array_deny::V84, H192_96_array_deny::V85, H192_96_array_deny::V86, H192_96_array_deny::V87, H192_96_array_deny::V88, H192_96_array_deny::V89, H192_96_array_deny::V90, H192_96_array_deny::V91, H192_96_array_deny::V92, H192_96_array_deny::V93, H192_96_array_deny::V94, H192_96_array_deny::V95, H192_96_array_deny::V96, H192_96_array_deny::V97, H192_96_array_deny::V98, H192_96_array_deny::V99, H192_96_array_deny::V100, H192_96_array_deny::V101, H192_96_array_deny::V102, H192_96_array_deny::V103, H192_96_array_deny::V104, H192_96_array_deny::V105, H192_96_array_deny::V106, H192_96_array_deny::V107, H192_96_array_deny::V108, H192_96_array_deny::V109, H192_96_array_deny::V110, H192_96_array_deny::V111, H192_96_array_deny::V112, H192_96_array_deny::V113, H192_96_array_deny::V114, H192_96_array_deny::V115, H192_96_array_deny::V116, H192_96_array_deny::V117, H192_96_array_deny::V118, H192_96_array_deny::V119, H192_96_array_deny::V120, H192_96_array_deny::V121, H192_96_array_deny::V122, H192_96_array_deny::V123, H192_96_array_deny::V124, H192_96_array_deny::V125, H192_96_array_deny::V126, H192_96_array_deny::V127, H192_96_array_deny::V128, H192_96_array_deny::V129, H192_96_array_deny::V130, H192_96_array_deny::V131, H192_96_array_deny::V132, H192_96_array_deny::V133, H192_96_array_deny::V134, H192_96_array_deny::V135, H192_96_array_deny::V136, H192_96_array_deny::V137, H192_96_array_deny::V138, H192_96_array_deny::V139, H192_96_array_deny::V140, H192_96_array_deny::V141, H192_96_array_deny::V142, H192_96_array_deny::V143, H192_96_array_deny::V144, H192_96_array_deny::V145, H192_96_array_deny::V146, H192_96_array_deny::V147, H192_96_array_deny::V148, H192_96_array_deny::V149, H192_96_array_deny::V150, H192_96_array_deny::V151, H192_96_array_deny::V152, H192_96_array_deny::V153, H192_96_array_deny::V154, H192_96_array_deny::V155, H192_96_array_deny::V156, H192_96_array_deny::V157, H192_96_array_deny::V158, H192_96_array_deny::V159, H192_96_array_deny::V160, H192_96_array_deny::V161, H192_96_array_deny::V162, H192_96_array_deny::V163, H192_96_array_deny::V164, H192_96_array_deny::V165, H192_96_array_deny::V166, H192_96_array_deny::V167, H192_96_array_deny::V168, H192_96_array_deny::V169, H192_96_array_deny::V170, H192_96_array_deny::V171, H192_96_array_deny::V172, H192_96_array_deny::V173, H192_96_array_deny::V174, H192_96_array_deny::V175, H192_96_array_deny::V176, H192_96_array_deny::V177, H192_96_array_deny::V178, H192_96_array_deny::V179, H192_96_array_deny::V180, H192_96_array_deny::V181, H192_96_array_deny::V182, H192_96_array_deny::V183, H192_96_array_deny::V184, H192_96_array_deny::V185, H192_96_array_deny::V186, H192_96_array_deny::V187, H192_96_array_deny::V188, H192_96_array_deny::V189, H192_96_array_deny::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum H192_190 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 191 }
impl SCat for H192_190 { const NAME: &'static str = "H192_190"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum H192_190 { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 191]; const VARS: &'static [Self] = &[H192_190::V0, H192_190::V1, H192_190::V2, H192_190::V3, H192_190::V4, H192_190::V5, H192_190::V6, H192_190::V7, H192_190::V8, H192_190::V9, H192_190::V10, H192_190::V11, H192_190::V12, H192_190::V13, H192_190::V14, H192_190::V15, H192_190::V16, H192_190::V17, H192_190::V18, H192_190::V19, H192_190::V20, H192_190::V21, H192_190::V22, H192_190::V23, H192_190::V24, H192_190::V25, H192_190::V26, H192_190::V27, H192_190::V28, H192_190::V29, H192_190::V30, H192_190::V31, H192_190::V32, H192_190::V33, H192_190::V34, H192_190::V35, H192_190::V36, H192_190::V37, H192_190::V38, H192_190::V39, H192_190::V40, H192_190::V41, H192_190::V42, H192_190::V43, H192_190::V44, H192_190::V45, H192_190::V46, H192_190::V47, H192_190::V48, H192_190::V49, H192_190::V50, H192_190::V51, H192_190::V52, H192_190::V53, H192_190::V54, H192_190::V55, H192_190::V56, H192_190::V57, H192_190::V58, H192_190::V59, H192_190::V60, H192_190::V61, H192_190::V62, H192_190::V63, H192_190::V64, H192_190::V65, H192_190::V66, H192_190::V67, H192_190::V68, H192_190::V69, H192_190::V70, H192_190::V71, H192_190::V72, H192_190::V73, H192_190::V74, H192_190::V75, H192_190::V76, H192_190::V77, H192_190::V78, H192_190::V79, H192_190::V80, H192_190::V81, H192_190::V82, H192_190::V83, H192_190::V84, H192_190::V85, H192_190::V86, H192_190::V87, H192_190::V88, H192_190::V89, H192_190::V90, H192_190::V91, H192_190::V92, H192_190::V93, H192_190::V94, H192_190::V95, H192_190::V96, H192_190::V97, H192_190::V98, H192_190::V99, H192_190::V100, H192_190::V101, H192_190::V102, H192_190::V103, H192_190::V104, H192_190::V105, H192_190::V106, H192_190::V107, H192_190::V108, H192_190::V109, H192_190::V110, H192_190::V111, H192_190::V112, H192_190::V113, H192_190::V114, H192_190::V115, H192_190::V116, H192_190::V117, H192_190::V118, H192_190::V119, H192_190::V120, H192_190::V121, H192_190::V122, H192_190::V123, H192_190::V124, H192_190::V125, H192_190::V126, H192_190::V127, H192_190::V128, H192_190::V129, H192_190::V130, H192_190::V131, H192_190::V132, H192_190::V133, H192_190::V134, H192_190::V135, H192_190::V136, H192_190::V137, H192_190::V138, H192_190::V139, H192_190::V140, H192_190::V141, H192_190::V142, H192_190::V143, H192_190::V144, H192_190::V145, H192_190::V146, H192_190::V147, H192_190::V148, H192_190::V149, H192_190::V150, H192_190::V151, H192_190::V152, H192_190::V153, H192_190::V154, H192_190::V155, H192_190::V156, H192_190::V157, H192_190::V158, H192_190::V159, H192_190::V160, H192_190::V161, H192_190::V162, H192_190::V163, H192_190::V164, H192_190::V165, H192_190::V166, H192_190::V167, H192_190::V168, H192_190::V169, H192_190::V170, H192_190::V171, H192_190::V172, H192_190::V173, H192_190::V174, H192_190::V175, H192_190::V176, H192_190::V177, H192_190::V178, H192_190::V179, H192_190::V180, H192_190::V181, H192_190::V182, H192_190::V183, H192_190::V184, H192_190::V185, H192_190::V186, H192_190::V187, H192_190::V188, H192_190::V189, H192_190::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H192_190_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 191 }
impl SCat for H192_190_deny { const NAME: &'static str = "H192_190_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum H192_190_deny { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30,  ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 191]; const VARS: &'static [Self] = &[H192_190_deny::V0, H192_190_deny::V1, H192_190_deny::V2, H192_190_deny::V3, H192_190_deny::V4, H192_190_deny::V5, H192_190_deny::V6, H192_190_deny::V7, H192_190_deny::V8, H192_190_deny::V9, H192_190_deny::V10, H192_190_deny::V11, H192_190_deny::V12, H192_190_deny::V13, H192_190_deny::V14, H192_190_deny::V15, H192_190_deny::V16, H192_190_deny::V17, H192_190_deny::V18, H192_190_deny::V19, H192_190_deny::V20, H192_190_deny::V21, H192_190_deny::V22, H192_190_deny::V23, H192_190_deny::V24, H192_190_deny::V25, H192_190_deny::V26, H192_190_deny::V27, H192_190_deny::V28, H192_190_deny::V29, H192_190_deny::V30, H192_190_deny::V31, H192_190_deny::V32, H192_190_deny::V33, H192_190_deny::V34, H192_190_deny::V35, H192_190_deny::V36, H192_190_deny::V37, H192_190_deny::V38, H192_190_deny::V39, H192_190_deny::V40, H192_190_deny::V41, H192_190_deny::V42, H192_190_deny::V43, H192_190_deny::V44, H192_190_deny::V45, H192_190_deny::V46, H192_190_deny::V47, H192_190_deny::V48, H192_190_deny::V49, H192_190_deny::V50, H192_190_deny::V51, H192_190_deny::V52, H192_190_deny::V53, H192_190_deny::V54, H192_190_deny::V55, H192_190_deny::V56, H192_190_deny::V57, H192_190_deny::V58, H192_190_deny::V59, H192_190_deny::V60, H192_190_deny::V61, H192_190_deny::V62, H192_190_deny::V63, H192_190_deny::V64, H192_190_deny::V65, H192_190_deny::V66, H192_190_deny::V67, H192_190_deny::V68, H192_190_deny::V69, H192_190_deny::V70, H192_190_deny::V71, H192_190_deny::V72, H192_190_deny::V73, H192_190_deny::V74, H192_190_deny::V75, H192_190_deny::V76, H192_190_deny::V77, H192_190_deny::V78, H192_190_deny::V79, H192_190_deny::V80, H192_190_deny::V81, H192_190_deny::V82, H192_190_deny::V83, H192_190_deny::V84, H192_190_deny::V85, H192_190_deny::V86, H192_190_deny::V87, H192_190_deny::V88, H192_190_deny::V89, H192_190_deny::V90, H192_190_deny::V91, H192_190_deny::V92, H192_190_deny::V93, H192_190_deny::V94, H192_190_deny::V95, H192_190_deny::V96, H192_190_deny::V97, H192_190_deny::V98, H192_190_deny::V99, H192_190_deny::V100, H192_190_deny::V101, H192_190_deny::V102, H192_190_deny::V103, H192_190_deny::V104, H192_190_deny::V105, H192_190_deny::V106, H192_190_deny::V107, H192_190_deny::V108, H192_190_deny::V109, H192_190_deny::V110, H192_190_deny::V111, H192_190_deny::V112, H192_190_deny::V113, H192_190_deny::V114, H192_190_deny::V115, H192_190_deny::V116, H192_190_deny::V117, H192_190_deny::V118, H192_190_deny::V119, H192_190_deny::V120, H192_190_deny::V121, H192_190_deny::V122, H192_190_deny::V123, H192_190_deny::V124, H192_190_deny::V125, H192_190_deny::V126, H192_190_deny::V127, H192_190_deny::V128, H192_190_deny::V129, H192_190_deny::V130, H192_190_deny::V131, H192_190_deny::V132, H192_190_deny::V133, H192_190_deny::V134, H192_190_deny::V135, H192_190_deny::V136, H192_190_deny::V137, H192_190_deny::V138, H192_190_deny::V139, H192_190_deny::V140, H192_190_deny::V141, H192_190_deny::V142, H192_190_deny::V143, H192_190_deny::V144, H192_190_deny::V145, H192_190_deny::V146, H192_190_deny::V147, H192_190_deny::V148, H192_190_deny::V149, H192_190_deny::V150, H192_190_deny::V151, H192_190_deny::V152, H192_190_deny::V153, H192_190_deny::V154, H192_190_deny::V155, H192_190_deny::V156, H192_190_deny::V157, H192_190_deny::V158, H192_190_deny::V159, H192_190_deny::V160, H192_190_deny::V161, H192_190_deny::V162, H192_190_deny::V163, H192_190_deny::V164, H192_190_deny::V165, H192_190_deny::V166, H192_190_deny::V167, H192_190_deny::V168, H192_190_deny::V169, H192_190_deny::V170, H192_190_deny::V171, H192_190_deny::V172, H192_190_deny::V173, H192_190_deny::V174, H192_190_deny::V175, H192_190_deny::V176, H192_190_deny::V177, H192_190_deny::V178, H192_190_deny::V179, H192_190_deny::V180, H192_190_deny::V181, H192_190_deny::V182, H192_190_deny::V183, H192_190_deny::V184, H192_190_deny::V185, H192_190_deny::V186, H192_190_deny::V187, H192_190_deny::V188, H192_190_deny::V189, H192_190_deny::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H192_190_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63, V64 = 64, V65 = 65, V66 = 66, V67 = 67, V68 = 68, V69 = 69, V70 = 70, V71 = 71, V72 = 72, V73 = 73, V74 = 74, V75 = 75, V76 = 76, V77 = 77, V78 = 78, V79 = 79, V80 = 80, V81 = 81, V82 = 82, V83 = 83, V84 = 84, V85 = 85, V86 = 86, V87 = 87, V88 = 88, V89 = 89, V90 = 90, V91 = 91, V92 = 92, V93 = 93, V94 = 94, V95 = 95, V96 = 96, V97 = 97, V98 = 98, V99 = 99, V100 = 100, V101 = 101, V102 = 102, V103 = 103, V104 = 104, V105 = 105, V106 = 106, V107 = 107, V108 = 108, V109 = 109, V110 = 110, V111 = 111, V112 = 112, V113 = 113, V114 = 114, V115 = 115, V116 = 116, V117 = 117, V118 = 118, V119 = 119, V120 = 120, V121 = 121, V122 = 122, V123 = 123, V124 = 124, V125 = 125, V126 = 126, V127 = 127, V128 = 128, V129 = 129, V130 = 130, V131 = 131, V132 = 132, V133 = 133, V134 = 134, V135 = 135, V136 = 136, V137 = 137, V138 = 138, V139 = 139, V140 = 140, V141 = 141, V142 = 142, V143 = 143, V144 = 144, V145 = 145, V146 = 146, V147 = 147, V148 = 148, V149 = 149, V150 = 150, V151 = 151, V152 = 152, V153 = 153, V154 = 154, V155 = 155, V156 = 156, V157 = 157, V158 = 158, V159 = 159, V160 = 160, V161 = 161, V162 = 162, V163 = 163, V164 = 164, V165 = 165, V166 = 166, V167 = 167, V168 = 168, V169 = 169, V170 = 170, V171 = 171, V172 = 172, V173 = 173, V174 = 174, V175 = 175, V176 = 176, V177 = 177, V178 = 178, V179 = 179, V180 = 180, V181 = 181, V182 = 182, V183 = 183, V184 = 184, V185 = 185, V186 = 186, V187 = 187, V188 = 188, V189 = 189, V190 = 191 }
impl SCat for H192_190_array { const NAME: &'static str = "H192_190_array"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] pub enum H192_190_array { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 3 ... }"####; const DISCR: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 191]; const VARS: &'static [Self] = &[H192_190_array::V0, H192_190_array::V1, H192_190_array::V2, H192_190_array::V3, H192_190_array::V4, H192_190_array::V5, H192_190_array::V6, H192_190_array::V7, H192_190_array::V8, H192_190_array::V9, H192_190_array::V10, H192_190_array::V11, H192_190_array::V12, H192_190_array::V13, H192_190_array::V14, H192_190_array::V15, H192_190_array::V16, H192_190_array::V17, H192_190_array::V18, H192_190_array::V19, H192_190_array::V20, H192_190_array::V21, H192_190_array::V22, H192_190_array::V23, H192_190_array::V24, H192_190_array::V25, H192_190_array::V26, H192_190_array::V27, H192_190_array::V28, H192_190_array::V29, H192_190_array::V30, H192_190_array::V31, H192_190_array::V32, H192_190_array::V33, H192_190_array::V34, H192_190_array::V35, H192_190_array::V36, H192_190_array::V37, H192_190_array::V38, H192_190_array::V39, H192_190_array::V40, H192_190_array::V41, H192_190_array::V42, H192_190_array::V43, H192_190_array::V44, H192_190_array::V45, H192_190_array::V46, H192_190_array::V47, H192_190_array::V48, H192_190_array::V49, H192_190_array::V50, H192_190_array::V51, H192_190_array::V52, H192_190_array::V53, H192_190_array::V54, H192_190_array::V55, H192_190_array::V56, H192_190_array::V57, H192_190_array::V58, H192_190_array::V59, H192_190_array::V60, H192_190_array::V61, H192_190_array::V62, H192_190_array::V63, H192_190_array::V64, H192_190_array::V65, H192_190_array::V66, H192_190_array::V67, H192_190_array::V68, H192_190_array::V69, H192_190_array::V70, H192_190_array::V71, H192_190_array::V72, H192_190_array::V73, H192_190_array::V74, H192_190_array::V75, H192_190_array::V76, H192_190_array::V77, H192_190_array::V78, H192_190_array::V79, H192_190_array::V80, H192_190_array::V81, H192_190_array::V82, H192_190_array::V83, H192_190_array::V84, H192_190_array::V85, H192_190_array::V86, H192_190_array::V87, H192_190_array::V88, H192_190_array::V89, H192_190_array::V90, H192_190_array::V91, H192_190_array::V92, H192_190_array::V93, H192_190_array::V94, H192_190_array::V95, H192_190_array::V96, H192_190_array::V97, H192_190_array::V98, H192_190_array::V99, H192_190_array::V100, H192_190_array::V101, H192_190_array::V102, H192_190_array::V103, H192_190_array::V104, H192_190_array::V105, H192_190_array::V106, H192_190_array::V107, H192_190_array::V108, H192_190_array::V109, H192_190_array::V110, H192_190_array::V111, H192_190_array::V112, H192_190_array::V113, H192_190_array::V114, H192_190_array::V115, H192_190_array::V116, H192_190_array::V117, H192_190_array::V118, H192_190_array::V119, H192_190_array::V120, H192_190_array::V121, H192_190_array::V122, H192_190_array::V123, H192_190_array::V124, H192_190_array::V125, H192_190_array::V126, H192_190_array::V127, H192_190_array::V128, H192_190_array::V129, H192_190_array::V130, H192_190_array::V131, H192_190_array::V132, H192_190_array::V133, H192_190_array::V134, H192_190_array::V135, H192_190_array::V136, H192_190_array::V137, H192_190_array::V138, H192_190_array::V139, H192_190_array::V140, H192_190_array::V141, H192_190_array::V142, H192_190_array::V143, H192_190_array::V144, H192_190_array::V145, H192_190_array::V146, H192_190_array::V147, H192_190_array::V148, H192_190_array::V149, H192_190_array::V150, H192_190_array::V151, H192_190_array::V152, H192_190_array::V153, H192_190_array::V154, H192_190_array::V155, H192_190_array::V156, H192_190_array::V157, H192_190_array::V158, H192_190_array::V159, H192_190_array::V160, H192_190_array::V161, H192_190_array::V162, H192_190_array::V163, H192_190_array::V164, H192_190_array::V165, H192_190_array::V166, H192_190_array::V167, H192_190_array::V168, H192_190_array::V169, H192_190_array::V170, H192_190_array::V171, H192_190_array::V172, H192_190_array::V173, H192_190_array::V174, H192_190_array::V175, H192_190_array::V176, H192_190_array::V177, H192_190_array::V178, H192_190_array::V179, H192_190_array::V180, H192_190_array::V181, H192_190_array::V182, H192_190_array::V183, H192_190_array::V184, H192_190_array::V185, H192_190_array::V186, H192_190_array::V187, H192_190_array::V188, H192_190_array::V189, H192_190_array::V190]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18", "V19", "V20", "V21", "V22", "V23", "V24", "V25", "V26", "V27", "V28", "V29", "V30", "V31", "V32", "V33", "V34", "V35", "V36", "V37", "V38", "V39", "V40", "V41", "V42", "V43", "V44", "V45", "V46", "V47", "V48", "V49", "V50", "V51", "V52", "V53", "V54", "V55", "V56", "V57", "V58", "V59", "V60", "V61", "V62", "V63", "V64", "V65", "V66", "V67", "V68", "V69", "V70", "V71", "V72", "V73", "V74", "V75", "V76", "V77", "V78", "V79", "V80", "V81", "V82", "V83", "V84", "V85", "V86", "V87", "V88", "V89", "V90", "V91", "V92", "V93", "V94", "V95", "V96", "V97", "V98", "V99", "V100", "V101", "V102", "V103", "V104", "V105", "V106", "V107", "V108", "V109", "V110", "V111", "V112", "V113", "V114", "V115", "V116", "V117", "V118", "V119", "V120", "V121", "V122", "V123", "V124", "V125", "V126", "V127", "V128", "V129", "V130", "V131", "V132", "V133", "V134", "V135", "V136", "V137", "V138", "V139", "V140", "V141", "V142", "V143", "V144", "V145", "V146", "V147", "V148", "V149", "V150", "V151", "V152", "V153", "V154", "V155", "V156", "V157", "V158", "V159", "V160", "V161", "V162", "V163", "V164", "V165", "V166", "V167", "V168", "V169", "V170", "V171", "V172", "V173", "V174", "V175", "V176", "V177", "V178", "V179", "V180", "V181", "V182", "V183", "V184", "V185", "V186", "V187", "V188", "V189", "V190"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum M3 { V0 = 1, V1 = 3, V2 = 9, V3 = 11, V4 = 19 }
impl SCat for M3 { const NAME: &'static str = "M3"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M3 { V0 = 1, V1 = 3, V2 = 9, V3 = 11, V4 = 19 }"####; const DISCR: &'static [u32] = &[1, 3, 9, 11, 19]; const VARS: &'static [Self] = &[M3::V0, M3::V1, M3::V2, M3::V3, M3::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M3_list { V0 = 1, V1 = 3, V2 = 9, V3 = 11, V4 = 19 }
impl SCat for M3_list { const NAME: &'static str = "M3_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M3_list { V0 = 1, V1 = 3, V2 = 9, V3 = 11, V4 = 19 }"####; const DISCR: &'static [u32] = &[1, 3, 9, 11, 19]; const VARS: &'static [Self] = &[M3_list::V0, M3_list::V1, M3_list::V2, M3_list::V3, M3_list::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum M4_deny { V0 = 1, V1 = 3, V2 = 17, V3 = 19, V4 = 35 }
impl SCat for M4_deny { const NAME: &'static str = "M4_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum M4_deny { V0 = 1, V1 = 3, V2 = 17, V3 = 19, V4 = 35 }"####; const DISCR: &'static [u32] = &[1, 3, 17, 19, 35]; const VARS: &'static [Self] = &[M4_deny::V0, M4_deny::V1, M4_deny::V2, M4_deny::V3, M4_deny::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M4_list { V0 = 1, V1 = 3, V2 = 17, V3 = 19, V4 = 35 }
impl SCat for M4_list { const NAME: &'static str = "M4_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M4_list { V0 = 1, V1 = 3, V2 = 17, V3 = 19, V4 = 35 }"####; const DISCR: &'static [u32] = &[1, 3, 17, 19, 35]; const VARS: &'static [Self] = &[M4_list::V0, M4_list::V1, M4_list::V2, M4_list::V3, M4_list::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum M5 { V0 = 1, V1 = 3, V2 = 33, V3 = 35, V4 = 67 }
impl SCat for M5 { const NAME: &'static str = "M5"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M5 { V0 = 1, V1 = 3, V2 = 33, V3 = 35, V4 = 67 }"####; const DISCR: &'static [u32] = &[1, 3, 33, 35, 67]; const VARS: &'static [Self] = &[M5::V0, M5::V1, M5::V2, M5::V3, M5::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M5_list { V0 = 1, V1 = 3, V2 = 33, V3 = 35, V4 = 67 }
impl SCat for M5_list { const NAME: &'static str = "M5_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M5_list { V0 = 1, V1 = 3, V2 = 33, V3 = 35, V4 = 67 }"####; const DISCR: &'static [u32] = &[1, 3, 33, 35, 67]; const VARS: &'static [Self] = &[M5_list::V0, M5_list::V1, M5_list::V2, M5_list::V3, M5_list::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum M6_deny { V0 = 1, V1 = 3, V2 = 65, V3 = 67, V4 = 131 }
impl SCat for M6_deny { const NAME: &'static str = "M6_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum M6_deny { V0 = 1, V1 = 3, V2 = 65, V3 = 67, V4 = 131 }"####; const DISCR: &'static [u32] = &[1, 3, 65, 67, 131]; const VARS: &'static [Self] = &[M6_deny::V0, M6_deny::V1, M6_deny::V2, M6_deny::V3, M6_deny::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M6_list { V0 = 1, V1 = 3, V2 = 65, V3 = 67, V4 = 131 }
impl SCat for M6_list { const NAME: &'static str = "M6_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M6_list { V0 = 1, V1 = 3, V2 = 65, V3 = 67, V4 = 131 }"####; const DISCR: &'static [u32] = &[1, 3, 65, 67, 131]; const VARS: &'static [Self] = &[M6_list::V0, M6_list::V1, M6_list::V2, M6_list::V3, M6_list::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 3; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum M7 { V0 = 1, V1 = 3, V2 = 129, V3 = 131, V4 = 259 }
impl SCat for M7 { const NAME: &'static str = "M7"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum M7 { V0 = 1, V1 = 3, V2 = 129, V3 = 131, V4 = 259 }"####; const DISCR: &'static [u32] = &[1, 3, 129, 131, 259]; const VARS: &'static [Self] = &[M7::V0, M7::V1, M7::V2, M7::V3, M7::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 5; const FMT: Fmt = Fmt::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M7_list { V0 = 1, V1 = 3, V2 = 129, V3 = 131, V4 = 259 }
impl SCat for M7_list { const NAME: &'static str = "M7_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M7_list { V0 = 1, V1 = 3, V2 = 129, V3 = 131, V4 = 259 }"####; const DISCR: &'static [u32] = &[1, 3, 129, 131, 259]; const VARS: &'static [Self] = &[M7_list::V0, M7_list::V1, M7_list::V2, M7_list::V3, M7_list::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 5; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum M8_deny { V0 = 1, V1 = 3, V2 = 257, V3 = 259, V4 = 515 }
impl SCat for M8_deny { const NAME: &'static str = "M8_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum M8_deny { V0 = 1, V1 = 3, V2 = 257, V3 = 259, V4 = 515 }"####; const DISCR: &'static [u32] = &[1, 3, 257, 259, 515]; const VARS: &'static [Self] = &[M8_deny::V0, M8_deny::V1, M8_deny::V2, M8_deny::V3, M8_deny::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M8_list { V0 = 1, V1 = 3, V2 = 257, V3 = 259, V4 = 515 }
impl SCat for M8_list { const NAME: &'static str = "M8_list"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] pub enum M8_list { V0 = 1, V1 = 3, V2 = 257, V3 = 259, V4 = 515 }"####; const DISCR: &'static [u32] = &[1, 3, 257, 259, 515]; const VARS: &'static [Self] = &[M8_list::V0, M8_list::V1, M8_list::V2, M8_list::V3, M8_list::V4]; const VNAMES: &'static [&'static str] = &["V0", "V1", "V2", "V3", "V4"]; const NUM: bool = false; const WORDS: usize = 9; const FMT: Fmt = Fmt::List; const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T0_deny { V0 = 0 }
impl SCat for T0_deny { const NAME: &'static str = "T0_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T0_deny { V0 = 0 }"####; const DISCR: &'static [u32] = &[0]; const VARS: &'static [Self] = &[T0_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T1 { V0 = 1 }
impl SCat for T1 { const NAME: &'static str = "T1"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T1 { V0 = 1 }"####; const DISCR: &'static [u32] = &[1]; const VARS: &'static [Self] = &[T1::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T2 { V0 = 1, V1 = 2 }
impl SCat for T2 { const NAME: &'static str = "T2"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T2 { V0 = 1, V1 = 2 }"####; const DISCR: &'static [u32] = &[1, 2]; const VARS: &'static [Self] = &[T2::V0, T2::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T3_deny { V0 = 3 }
impl SCat for T3_deny { const NAME: &'static str = "T3_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T3_deny { V0 = 3 }"####; const DISCR: &'static [u32] = &[3]; const VARS: &'static [Self] = &[T3_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T4 { V0 = 2, V1 = 4 }
impl SCat for T4 { const NAME: &'static str = "T4"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T4 { V0 = 2, V1 = 4 }"####; const DISCR: &'static [u32] = &[2, 4]; const VARS: &'static [Self] = &[T4::V0, T4::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T5 { V0 = 5 }
impl SCat for T5 { const NAME: &'static str = "T5"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T5 { V0 = 5 }"####; const DISCR: &'static [u32] = &[5]; const VARS: &'static [Self] = &[T5::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T6_deny { V0 = 3, V1 = 6 }
impl SCat for T6_deny { const NAME: &'static str = "T6_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T6_deny { V0 = 3, V1 = 6 }"####; const DISCR: &'static [u32] = &[3, 6]; const VARS: &'static [Self] = &[T6_deny::V0, T6_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T7 { V0 = 7 }
impl SCat for T7 { const NAME: &'static str = "T7"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T7 { V0 = 7 }"####; const DISCR: &'static [u32] = &[7]; const VARS: &'static [Self] = &[T7::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T8 { V0 = 4, V1 = 8 }
impl SCat for T8 { const NAME: &'static str = "T8"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T8 { V0 = 4, V1 = 8 }"####; const DISCR: &'static [u32] = &[4, 8]; const VARS: &'static [Self] = &[T8::V0, T8::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T9_deny { V0 = 9 }
impl SCat for T9_deny { const NAME: &'static str = "T9_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T9_deny { V0 = 9 }"####; const DISCR: &'static [u32] = &[9]; const VARS: &'static [Self] = &[T9_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T10 { V0 = 5, V1 = 10 }
impl SCat for T10 { const NAME: &'static str = "T10"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T10 { V0 = 5, V1 = 10 }"####; const DISCR: &'static [u32] = &[5, 10]; const VARS: &'static [Self] = &[T10::V0, T10::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T11 { V0 = 11 }
impl SCat for T11 { const NAME: &'static str = "T11"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T11 { V0 = 11 }"####; const DISCR: &'static [u32] = &[11]; const VARS: &'static [Self] = &[T11::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T12_deny { V0 = 6, V1 = 12 }
impl SCat for T12_deny { const NAME: &'static str = "T12_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T12_deny { V0 = 6, V1 = 12 }"####; const DISCR: &'static [u32] = &[6, 12]; const VARS: &'static [Self] = &[T12_deny::V0, T12_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T13 { V0 = 13 }
impl SCat for T13 { const NAME: &'static str = "T13"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T13 { V0 = 13 }"####; const DISCR: &'static [u32] = &[13]; const VARS: &'static [Self] = &[T13::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T14 { V0 = 7, V1 = 14 }
impl SCat for T14 { const NAME: &'static str = "T14"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T14 { V0 = 7, V1 = 14 }"####; const DISCR: &'static [u32] = &[7, 14]; const VARS: &'static [Self] = &[T14::V0, T14::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T15_deny { V0 = 15 }
impl SCat for T15_deny { const NAME: &'static str = "T15_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T15_deny { V0 = 15 }"####; const DISCR: &'static [u32] = &[15]; const VARS: &'static [Self] = &[T15_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T16 { V0 = 8, V1 = 16 }
impl SCat for T16 { const NAME: &'static str = "T16"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T16 { V0 = 8, V1 = 16 }"####; const DISCR: &'static [u32] = &[8, 16]; const VARS: &'static [Self] = &[T16::V0, T16::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T17 { V0 = 17 }
impl SCat for T17 { const NAME: &'static str = "T17"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T17 { V0 = 17 }"####; const DISCR: &'static [u32] = &[17]; const VARS: &'static [Self] = &[T17::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T18_deny { V0 = 9, V1 = 18 }
impl SCat for T18_deny { const NAME: &'static str = "T18_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T18_deny { V0 = 9, V1 = 18 }"####; const DISCR: &'static [u32] = &[9, 18]; const VARS: &'static [Self] = &[T18_deny::V0, T18_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T19 { V0 = 19 }
impl SCat for T19 { const NAME: &'static str = "T19"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T19 { V0 = 19 }"####; const DISCR: &'static [u32] = &[19]; const VARS: &'static [Self] = &[T19::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T20 { V0 = 10, V1 = 20 }
impl SCat for T20 { const NAME: &'static str = "T20"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T20 { V0 = 10, V1 = 20 }"####; const DISCR: &'static [u32] = &[10, 20]; const VARS: &'static [Self] = &[T20::V0, T20::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T21_deny { V0 = 21 }
impl SCat for T21_deny { const NAME: &'static str = "T21_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T21_deny { V0 = 21 }"####; const DISCR: &'static [u32] = &[21]; const VARS: &'static [Self] = &[T21_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T22 { V0 = 11, V1 = 22 }
impl SCat for T22 { const NAME: &'static str = "T22"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T22 { V0 = 11, V1 = 22 }"####; const DISCR: &'static [u32] = &[11, 22]; const VARS: &'static [Self] = &[T22::V0, T22::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T23 { V0 = 23 }
impl SCat for T23 { const NAME: &'static str = "T23"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T23 { V0 = 23 }"####; const DISCR: &'static [u32] = &[23]; const VARS: &'static [Self] = &[T23::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T24_deny { V0 = 12, V1 = 24 }
impl SCat for T24_deny { const NAME: &'static str = "T24_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T24_deny { V0 = 12, V1 = 24 }"####; const DISCR: &'static [u32] = &[12, 24]; const VARS: &'static [Self] = &[T24_deny::V0, T24_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T25 { V0 = 25 }
impl SCat for T25 { const NAME: &'static str = "T25"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T25 { V0 = 25 }"####; const DISCR: &'static [u32] = &[25]; const VARS: &'static [Self] = &[T25::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T26 { V0 = 13, V1 = 26 }
impl SCat for T26 { const NAME: &'static str = "T26"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T26 { V0 = 13, V1 = 26 }"####; const DISCR: &'static [u32] = &[13, 26]; const VARS: &'static [Self] = &[T26::V0, T26::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T27_deny { V0 = 27 }
impl SCat for T27_deny { const NAME: &'static str = "T27_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T27_deny { V0 = 27 }"####; const DISCR: &'static [u32] = &[27]; const VARS: &'static [Self] = &[T27_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T28 { V0 = 14, V1 = 28 }
impl SCat for T28 { const NAME: &'static str = "T28"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T28 { V0 = 14, V1 = 28 }"####; const DISCR: &'static [u32] = &[14, 28]; const VARS: &'static [Self] = &[T28::V0, T28::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T29 { V0 = 29 }
impl SCat for T29 { const NAME: &'static str = "T29"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T29 { V0 = 29 }"####; const DISCR: &'static [u32] = &[29]; const VARS: &'static [Self] = &[T29::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T30_deny { V0 = 15, V1 = 30 }
impl SCat for T30_deny { const NAME: &'static str = "T30_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T30_deny { V0 = 15, V1 = 30 }"####; const DISCR: &'static [u32] = &[15, 30]; const VARS: &'static [Self] = &[T30_deny::V0, T30_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T31 { V0 = 31 }
impl SCat for T31 { const NAME: &'static str = "T31"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T31 { V0 = 31 }"####; const DISCR: &'static [u32] = &[31]; const VARS: &'static [Self] = &[T31::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T32 { V0 = 16, V1 = 32 }
impl SCat for T32 { const NAME: &'static str = "T32"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T32 { V0 = 16, V1 = 32 }"####; const DISCR: &'static [u32] = &[16, 32]; const VARS: &'static [Self] = &[T32::V0, T32::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T33_deny { V0 = 33 }
impl SCat for T33_deny { const NAME: &'static str = "T33_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T33_deny { V0 = 33 }"####; const DISCR: &'static [u32] = &[33]; const VARS: &'static [Self] = &[T33_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T34 { V0 = 17, V1 = 34 }
impl SCat for T34 { const NAME: &'static str = "T34"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T34 { V0 = 17, V1 = 34 }"####; const DISCR: &'static [u32] = &[17, 34]; const VARS: &'static [Self] = &[T34::V0, T34::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T35 { V0 = 35 }
impl SCat for T35 { const NAME: &'static str = "T35"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T35 { V0 = 35 }"####; const DISCR: &'static [u32] = &[35]; const VARS: &'static [Self] = &[T35::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T36_deny { V0 = 18, V1 = 36 }
impl SCat for T36_deny { const NAME: &'static str = "T36_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T36_deny { V0 = 18, V1 = 36 }"####; const DISCR: &'static [u32] = &[18, 36]; const VARS: &'static [Self] = &[T36_deny::V0, T36_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T37 { V0 = 37 }
impl SCat for T37 { const NAME: &'static str = "T37"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T37 { V0 = 37 }"####; const DISCR: &'static [u32] = &[37]; const VARS: &'static [Self] = &[T37::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T38 { V0 = 19, V1 = 38 }
impl SCat for T38 { const NAME: &'static str = "T38"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T38 { V0 = 19, V1 = 38 }"####; const DISCR: &'static [u32] = &[19, 38]; const VARS: &'static [Self] = &[T38::V0, T38::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T39_deny { V0 = 39 }
impl SCat for T39_deny { const NAME: &'static str = "T39_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T39_deny { V0 = 39 }"####; const DISCR: &'static [u32] = &[39]; const VARS: &'static [Self] = &[T39_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T40 { V0 = 20, V1 = 40 }
impl SCat for T40 { const NAME: &'static str = "T40"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T40 { V0 = 20, V1 = 40 }"####; const DISCR: &'static [u32] = &[20, 40]; const VARS: &'static [Self] = &[T40::V0, T40::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T41 { V0 = 41 }
impl SCat for T41 { const NAME: &'static str = "T41"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T41 { V0 = 41 }"####; const DISCR: &'static [u32] = &[41]; const VARS: &'static [Self] = &[T41::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T42_deny { V0 = 21, V1 = 42 }
impl SCat for T42_deny { const NAME: &'static str = "T42_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T42_deny { V0 = 21, V1 = 42 }"####; const DISCR: &'static [u32] = &[21, 42]; const VARS: &'static [Self] = &[T42_deny::V0, T42_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T43 { V0 = 43 }
impl SCat for T43 { const NAME: &'static str = "T43"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T43 { V0 = 43 }"####; const DISCR: &'static [u32] = &[43]; const VARS: &'static [Self] = &[T43::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T44 { V0 = 22, V1 = 44 }
impl SCat for T44 { const NAME: &'static str = "T44"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T44 { V0 = 22, V1 = 44 }"####; const DISCR: &'static [u32] = &[22, 44]; const VARS: &'static [Self] = &[T44::V0, T44::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T45_deny { V0 = 45 }
impl SCat for T45_deny { const NAME: &'static str = "T45_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T45_deny { V0 = 45 }"####; const DISCR: &'static [u32] = &[45]; const VARS: &'static [Self] = &[T45_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T46 { V0 = 23, V1 = 46 }
impl SCat for T46 { const NAME: &'static str = "T46"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T46 { V0 = 23, V1 = 46 }"####; const DISCR: &'static [u32] = &[23, 46]; const VARS: &'static [Self] = &[T46::V0, T46::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T47 { V0 = 47 }
impl SCat for T47 { const NAME: &'static str = "T47"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T47 { V0 = 47 }"####; const DISCR: &'static [u32] = &[47]; const VARS: &'static [Self] = &[T47::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T48_deny { V0 = 24, V1 = 48 }
impl SCat for T48_deny { const NAME: &'static str = "T48_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T48_deny { V0 = 24, V1 = 48 }"####; const DISCR: &'static [u32] = &[24, 48]; const VARS: &'static [Self] = &[T48_deny::V0, T48_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T49 { V0 = 49 }
impl SCat for T49 { const NAME: &'static str = "T49"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T49 { V0 = 49 }"####; const DISCR: &'static [u32] = &[49]; const VARS: &'static [Self] = &[T49::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T50 { V0 = 25, V1 = 50 }
impl SCat for T50 { const NAME: &'static str = "T50"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T50 { V0 = 25, V1 = 50 }"####; const DISCR: &'static [u32] = &[25, 50]; const VARS: &'static [Self] = &[T50::V0, T50::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T51_deny { V0 = 51 }
impl SCat for T51_deny { const NAME: &'static str = "T51_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T51_deny { V0 = 51 }"####; const DISCR: &'static [u32] = &[51]; const VARS: &'static [Self] = &[T51_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T52 { V0 = 26, V1 = 52 }
impl SCat for T52 { const NAME: &'static str = "T52"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T52 { V0 = 26, V1 = 52 }"####; const DISCR: &'static [u32] = &[26, 52]; const VARS: &'static [Self] = &[T52::V0, T52::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T53 { V0 = 53 }
impl SCat for T53 { const NAME: &'static str = "T53"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T53 { V0 = 53 }"####; const DISCR: &'static [u32] = &[53]; const VARS: &'static [Self] = &[T53::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T54_deny { V0 = 27, V1 = 54 }
impl SCat for T54_deny { const NAME: &'static str = "T54_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T54_deny { V0 = 27, V1 = 54 }"####; const DISCR: &'static [u32] = &[27, 54]; const VARS: &'static [Self] = &[T54_deny::V0, T54_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T55 { V0 = 55 }
impl SCat for T55 { const NAME: &'static str = "T55"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T55 { V0 = 55 }"####; const DISCR: &'static [u32] = &[55]; const VARS: &'static [Self] = &[T55::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T56 { V0 = 28, V1 = 56 }
impl SCat for T56 { const NAME: &'static str = "T56"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T56 { V0 = 28, V1 = 56 }"####; const DISCR: &'static [u32] = &[28, 56]; const VARS: &'static [Self] = &[T56::V0, T56::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T57_deny { V0 = 57 }
impl SCat for T57_deny { const NAME: &'static str = "T57_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T57_deny { V0 = 57 }"####; const DISCR: &'static [u32] = &[57]; const VARS: &'static [Self] = &[T57_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T58 { V0 = 29, V1 = 58 }
impl SCat for T58 { const NAME: &'static str = "T58"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T58 { V0 = 29, V1 = 58 }"####; const DISCR: &'static [u32] = &[29, 58]; const VARS: &'static [Self] = &[T58::V0, T58::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T59 { V0 = 59 }
impl SCat for T59 { const NAME: &'static str = "T59"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T59 { V0 = 59 }"####; const DISCR: &'static [u32] = &[59]; const VARS: &'static [Self] = &[T59::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T60_deny { V0 = 30, V1 = 60 }
impl SCat for T60_deny { const NAME: &'static str = "T60_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T60_deny { V0 = 30, V1 = 60 }"####; const DISCR: &'static [u32] = &[30, 60]; const VARS: &'static [Self] = &[T60_deny::V0, T60_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T61 { V0 = 61 }
impl SCat for T61 { const NAME: &'static str = "T61"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T61 { V0 = 61 }"####; const DISCR: &'static [u32] = &[61]; const VARS: &'static [Self] = &[T61::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T62 { V0 = 31, V1 = 62 }
impl SCat for T62 { const NAME: &'static str = "T62"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T62 { V0 = 31, V1 = 62 }"####; const DISCR: &'static [u32] = &[31, 62]; const VARS: &'static [Self] = &[T62::V0, T62::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T63_deny { V0 = 63 }
impl SCat for T63_deny { const NAME: &'static str = "T63_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T63_deny { V0 = 63 }"####; const DISCR: &'static [u32] = &[63]; const VARS: &'static [Self] = &[T63_deny::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 1; const FMT: Fmt = Fmt::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T64 { V0 = 32, V1 = 64 }
impl SCat for T64 { const NAME: &'static str = "T64"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T64 { V0 = 32, V1 = 64 }"####; const DISCR: &'static [u32] = &[32, 64]; const VARS: &'static [Self] = &[T64::V0, T64::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T65 { V0 = 65 }
impl SCat for T65 { const NAME: &'static str = "T65"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T65 { V0 = 65 }"####; const DISCR: &'static [u32] = &[65]; const VARS: &'static [Self] = &[T65::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T72_deny { V0 = 36, V1 = 72 }
impl SCat for T72_deny { const NAME: &'static str = "T72_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T72_deny { V0 = 36, V1 = 72 }"####; const DISCR: &'static [u32] = &[36, 72]; const VARS: &'static [Self] = &[T72_deny::V0, T72_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T80 { V0 = 40, V1 = 80 }
impl SCat for T80 { const NAME: &'static str = "T80"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T80 { V0 = 40, V1 = 80 }"####; const DISCR: &'static [u32] = &[40, 80]; const VARS: &'static [Self] = &[T80::V0, T80::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T88 { V0 = 44, V1 = 88 }
impl SCat for T88 { const NAME: &'static str = "T88"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T88 { V0 = 44, V1 = 88 }"####; const DISCR: &'static [u32] = &[44, 88]; const VARS: &'static [Self] = &[T88::V0, T88::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T96_deny { V0 = 48, V1 = 96 }
impl SCat for T96_deny { const NAME: &'static str = "T96_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T96_deny { V0 = 48, V1 = 96 }"####; const DISCR: &'static [u32] = &[48, 96]; const VARS: &'static [Self] = &[T96_deny::V0, T96_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T104 { V0 = 52, V1 = 104 }
impl SCat for T104 { const NAME: &'static str = "T104"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T104 { V0 = 52, V1 = 104 }"####; const DISCR: &'static [u32] = &[52, 104]; const VARS: &'static [Self] = &[T104::V0, T104::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] pub enum T112 { V0 = 56, V1 = 112 }
impl SCat for T112 { const NAME: &'static str = "T112"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T112 { V0 = 56, V1 = 112 }"####; const DISCR: &'static [u32] = &[56, 112]; const VARS: &'static [Self] = &[T112::V0, T112::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T120_deny { V0 = 60, V1 = 120 }
impl SCat for T120_deny { const NAME: &'static str = "T120_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T120_deny { V0 = 60, V1 = 120 }"####; const DISCR: &'static [u32] = &[60, 120]; const VARS: &'static [Self] = &[T120_deny::V0, T120_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)] pub enum T125 { V0 = 125 }
impl SCat for T125 { const NAME: &'static str = "T125"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] pub enum T125 { V0 = 125 }"####; const DISCR: &'static [u32] = &[125]; const VARS: &'static [Self] = &[T125::V0]; const VNAMES: &'static [&'static str] = &["V0"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T126_deny { V0 = 63, V1 = 126 }
impl SCat for T126_deny { const NAME: &'static str = "T126_deny"; const DECL: &'static str = r####"#[derive(EnumSetType, Debug)] #[enumset(serialize_deny_unknown)] pub enum T126_deny { V0 = 63, V1 = 126 }"####; const DISCR: &'static [u32] = &[63, 126]; const VARS: &'static [Self] = &[T126_deny::V0, T126_deny::V1]; const VNAMES: &'static [&'static str] = &["V0", "V1"]; const NUM: bool = false; const WORDS: usize = 2; const FMT: Fmt = Fmt::Int(128); const DENY: bool = true; }
pub const NAMES: &[&str] = &["D0", "D0_array", "D0_u8", "D0_u16", "D0_u32", "D0_u64", "D0_u128", "D0_list", "D0_map", "D0_deny", "D0_array_deny", "D0_u8_deny", "D0_u16_deny", "D0_u32_deny", "D0_u64_deny", "D0_u128_deny", "D0_list_deny", "D0_map_deny", "D1", "D1_array", "D1_u8", "D1_u128", "D1_list", "D1_map", "D1_deny", "D1_array_deny", "D1_u8_deny", "D1_u128_deny", "D3", "D3_array", "D3_u8", "D3_u16", "D3_u32", "D3_u64", "D3_u128", "D3_list", "D3_map", "D3_deny", "D3_array_deny", "D3_u8_deny", "D3_u16_deny", "D3_u32_deny", "D3_u64_deny", "D3_u128_deny", "D3_list_deny", "D3_map_deny", "D8", "D8_array", "D8_u8", "D8_u128", "D8_list", "D8_map", "D8_deny", "D8_array_deny", "D8_u8_deny", "D8_u128_deny", "D9", "D9_array", "D9_u16", "D9_u32", "D9_u64", "D9_u128", "D9_list", "D9_map", "D9_deny", "D9_array_deny", "D9_u16_deny", "D9_u32_deny", "D9_u64_deny", "D9_u128_deny", "D9_list_deny", "D9_map_deny", "D16", "D16_array", "D16_u128", "D16_deny", "D16_array_deny", "D16_u128_deny", "D33", "D33_array", "D33_u128", "D33_deny", "D33_array_deny", "D33_u128_deny", "D64", "D64_array", "D64_u128", "D64_deny", "D64_array_deny", "D64_u128_deny", "D65", "D65_array", "D65_u128", "D65_list", "D65_map", "D65_deny", "D65_array_deny", "D65_u128_deny", "D128", "D128_array", "D128_u128", "D128_deny", "D128_array_deny", "D128_u128_deny", "D129", "D129_array", "D129_list", "D129_map", "D129_deny", "D129_array_deny", "D193", "D193_array", "D193_deny", "D193_array_deny", "Sa", "Sa_array", "Sa_u8", "Sa_u16", "Sa_u32", "Sa_u64", "Sa_u128", "Sa_list", "Sa_map", "Sa_deny", "Sa_array_deny", "Sa_u8_deny", "Sa_u16_deny", "Sa_u32_deny", "Sa_u64_deny", "Sa_u128_deny", "Sb", "Sb_array", "Sb_u8", "Sb_u128", "Sb_list", "Sb_map", "Sb_deny", "Sb_array_deny", "Sb_u8_deny", "Sb_u128_deny", "Sc", "Sc_array", "Sc_u16", "Sc_u32", "Sc_u64", "Sc_u128", "Sc_list", "Sc_map", "Sc_deny", "Sc_array_deny", "Sc_u16_deny", "Sc_u32_deny", "Sc_u64_deny", "Sc_u128_deny", "Sd", "Sd_array", "Sd_u32", "Sd_u64", "Sd_u128", "Sd_list", "Sd_map", "Sd_deny", "Sd_array_deny", "Sd_u32_deny", "Sd_u64_deny", "Sd_u128_deny", "Se", "Se_array", "Se_u64", "Se_u128", "Se_list", "Se_map", "Se_deny", "Se_array_deny", "Se_u64_deny", "Se_u128_deny", "Sf", "Sf_array", "Sf_u64", "Sf_u128", "Sf_list", "Sf_map", "Sf_deny", "Sf_array_deny", "Sf_u64_deny", "Sf_u128_deny", "Sg", "Sg_array", "Sg_u128", "Sg_list", "Sg_map", "Sg_deny", "Sg_array_deny", "Sg_u128_deny", "Sh", "Sh_array", "Sh_u128", "Sh_list", "Sh_map", "Sh_deny", "Sh_array_deny", "Sh_u128_deny", "Sh_list_deny", "Sh_map_deny", "Si", "Si_array", "Si_u128", "Si_list", "Si_map", "Si_deny", "Si_array_deny", "Si_u128_deny", "Sj", "Sj_array", "Sj_list", "Sj_map", "Sj_deny", "Sj_array_deny", "Sk", "Sk_array", "Sk_list", "Sk_map", "Sk_deny", "Sk_array_deny", "Sk_list_deny", "Sk_map_deny", "Sl", "Sl_array", "Sl_list", "Sl_map", "Sl_deny", "Sl_array_deny", "Sm", "Sm_array", "Sm_list", "Sm_map", "Sm_deny", "Sm_array_deny", "Sn", "Sn_array", "Sn_u128", "Sn_list", "Sn_map", "Sn_deny", "Sn_array_deny", "Sn_u128_deny", "So", "So_array", "So_list", "So_map", "So_deny", "So_array_deny", "Sp", "Sp_array", "Sp_list", "Sp_map", "Sp_deny", "Sp_array_deny", "Sq", "Sq_array", "Sq_list", "Sq_map", "Sq_deny", "Sq_array_deny", "D3_in_u8", "D3_array_in_u8", "D3_u128_in_u8", "D3_deny_in_u8", "D3_array_deny_in_u8", "D3_u128_deny_in_u8", "D3_list_in_u8", "D3_in_u16", "D3_array_in_u16", "D3_u128_in_u16", "D3_deny_in_u16", "D3_array_deny_in_u16", "D3_u128_deny_in_u16", "D3_list_in_u16", "D3_in_u32", "D3_array_in_u32", "D3_u128_in_u32", "D3_deny_in_u32", "D3_array_deny_in_u32", "D3_u128_deny_in_u32", "D3_list_in_u32", "D3_in_u64", "D3_array_in_u64", "D3_u128_in_u64", "D3_deny_in_u64", "D3_array_deny_in_u64", "D3_u128_deny_in_u64", "D3_list_in_u64", "D3_in_u128", "D3_array_in_u128", "D3_u128_in_u128", "D3_deny_in_u128", "D3_array_deny_in_u128", "D3_u128_deny_in_u128", "D3_list_in_u128", "D3_in_array", "D3_array_in_array", "D3_u128_in_array", "D3_deny_in_array", "D3_array_deny_in_array", "D3_u128_deny_in_array", "D3_list_in_array", "Sc_in_u16", "Sc_array_in_u16", "Sc_u128_in_u16", "Sc_deny_in_u16", "Sc_array_deny_in_u16", "Sc_u128_deny_in_u16", "Sc_list_in_u16", "Sc_in_u32", "Sc_array_in_u32", "Sc_u128_in_u32", "Sc_deny_in_u32", "Sc_array_deny_in_u32", "Sc_u128_deny_in_u32", "Sc_list_in_u32", "Sc_in_u64", "Sc_array_in_u64", "Sc_u128_in_u64", "Sc_deny_in_u64", "Sc_array_deny_in_u64", "Sc_u128_deny_in_u64", "Sc_list_in_u64", "Sc_in_u128", "Sc_array_in_u128", "Sc_u128_in_u128", "Sc_deny_in_u128", "Sc_array_deny_in_u128", "Sc_u128_deny_in_u128", "Sc_list_in_u128", "Sc_in_array", "Sc_array_in_array", "Sc_u128_in_array", "Sc_deny_in_array", "Sc_array_deny_in_array", "Sc_u128_deny_in_array", "Sc_list_in_array", "Sf_in_u64", "Sf_array_in_u64", "Sf_u128_in_u64", "Sf_deny_in_u64", "Sf_array_deny_in_u64", "Sf_u128_deny_in_u64", "Sf_list_in_u64", "Sf_in_u128", "Sf_array_in_u128", "Sf_u128_in_u128", "Sf_deny_in_u128", "Sf_array_deny_in_u128", "Sf_u128_deny_in_u128", "Sf_list_in_u128", "Sf_in_array", "Sf_array_in_array", "Sf_u128_in_array", "Sf_deny_in_array", "Sf_array_deny_in_array", "Sf_u128_deny_in_array", "Sf_list_in_array", "Si_in_u128", "Si_array_in_u128", "Si_u128_in_u128", "Si_deny_in_u128", "Si_array_deny_in_u128", "Si_u128_deny_in_u128", "Si_list_in_u128", "Si_in_array", "Si_array_in_array", "Si_u128_in_array", "Si_deny_in_array", "Si_array_deny_in_array", "Si_u128_deny_in_array", "Si_list_in_array", "D0_in_u8", "D0_array_in_u8", "D0_u128_in_u8", "D0_deny_in_u8", "D0_array_deny_in_u8", "D0_u128_deny_in_u8", "D0_list_in_u8", "D0_in_u16", "D0_array_in_u16", "D0_u128_in_u16", "D0_deny_in_u16", "D0_array_deny_in_u16", "D0_u128_deny_in_u16", "D0_list_in_u16", "D0_in_u32", "D0_array_in_u32", "D0_u128_in_u32", "D0_deny_in_u32", "D0_array_deny_in_u32", "D0_u128_deny_in_u32", "D0_list_in_u32", "D0_in_u64", "D0_array_in_u64", "D0_u128_in_u64", "D0_deny_in_u64", "D0_array_deny_in_u64", "D0_u128_deny_in_u64", "D0_list_in_u64", "D0_in_u128", "D0_array_in_u128", "D0_u128_in_u128", "D0_deny_in_u128", "D0_array_deny_in_u128", "D0_u128_deny_in_u128", "D0_list_in_u128", "D0_in_array", "D0_array_in_array", "D0_u128_in_array", "D0_deny_in_array", "D0_array_deny_in_array", "D0_u128_deny_in_array", "D0_list_in_array", "D3_serialize_as_list", "D3_serialize_as_map", "Sk_serialize_as_list", "Sk_serialize_as_map", "D3_list_num", "D3_map_num", "Sh_list_num", "Sh_map_num", "Sk_list_num", "Sk_map_num", "D2", "D4", "D5", "D6", "D7", "D10", "D11", "D12", "D13", "D14", "D15", "D17", "D18", "D19", "D20", "D21", "D22", "D23", "D24_deny", "D24", "D25", "D26", "D27", "D28", "D29", "D30", "D31", "D32_deny", "D32", "D34", "D35", "D36", "D37", "D38", "D39", "D40_deny", "D40", "D41", "D42", "D43", "D44", "D45", "D46", "D47", "D48_deny", "D48", "D49", "D50", "D51", "D52", "D53", "D54", "D55", "D56_deny", "D56", "D57", "D58", "D59", "D60", "D61", "D62", "D63", "D66", "D72_deny", "D72", "D80_deny", "D80", "D88_deny", "D88", "D96_deny", "D96", "D104_deny", "D104", "D112_deny", "D112", "D120_deny", "D120", "D126", "D127", "D136_deny", "D136", "D144_deny", "D144", "D160_deny", "D160", "D256_deny", "D256", "H8_0_deny", "H8_4", "H8_4_deny", "H8_4_array_deny", "H8_6", "H8_6_deny", "H8_6_array", "H16_0_deny", "H16_8", "H16_8_deny", "H16_8_array_deny", "H16_14", "H16_14_deny", "H16_14_array", "H32_0_deny", "H32_16", "H32_16_deny", "H32_16_array_deny", "H32_30", "H32_30_deny", "H32_30_array", "H64_0_deny", "H64_32", "H64_32_deny", "H64_32_array_deny", "H64_62", "H64_62_deny", "H64_62_array", "H128_0_deny", "H128_64", "H128_64_deny", "H128_64_array_deny", "H128_126", "H128_126_deny", "H128_126_array", "H192_0_deny", "H192_96", "H192_96_deny", "H192_96_array_deny", "H192_190", "H192_190_deny", "H192_190_array", "M3", "M3_list", "M4_deny", "M4_list", "M5", "M5_list", "M6_deny", "M6_list", "M7", "M7_list", "M8_deny", "M8_list", "T0_deny", "T1", "T2", "T3_deny", "T4", "T5", "T6_deny", "T7", "T8", "T9_deny", "T10", "T11", "T12_deny", "T13", "T14", "T15_deny", "T16", "T17", "T18_deny", "T19", "T20", "T21_deny", "T22", "T23", "T24_deny", "T25", "T26", "T27_deny", "T28", "T29", "T30_deny", "T31", "T32", "T33_deny", "T34", "T35", "T36_deny", "T37", "T38", "T39_deny", "T40", "T41", "T42_deny", "T43", "T44", "T45_deny", "T46", "T47", "T48_deny", "T49", "T50", "T51_deny", "T52", "T53", "T54_deny", "T55", "T56", "T57_deny", "T58", "T59", "T60_deny", "T61", "T62", "T63_deny", "T64", "T65", "T72_deny", "T80", "T88", "T96_deny", "T104", "T112", "T120_deny", "T125", "T126_deny"];
pub fn get(name: &str) -> crate::S { match name {
    "D0" => crate::erase::<D0>(),
    "D0_array" => crate::erase::<D0_array>(),
    "D0_u8" => crate::erase::<D0_u8>(),
    "D0_u16" => crate::erase::<D0_u16>(),
    "D0_u32" => crate::erase::<D0_u32>(),
    "D0_u64" => crate::erase::<D0_u64>(),
    "D0_u128" => crate::erase::<D0_u128>(),
    "D0_list" => crate::erase::<D0_list>(),
    "D0_map" => crate::erase::<D0_map>(),
    "D0_deny" => crate::erase::<D0_deny>(),
    "D0_array_deny" => crate::erase::<D0_array_deny>(),
    "D0_u8_deny" => crate::erase::<D0_u8_deny>(),
    "D0_u16_deny" => crate::erase::<D0_u16_deny>(),
    "D0_u32_deny" => crate::erase::<D0_u32_deny>(),
    "D0_u64_deny" => crate::erase::<D0_u64_deny>(),
    "D0_u128_deny" => crate::erase::<D0_u128_deny>(),
    "D0_list_deny" => crate::erase::<D0_list_deny>(),
    "D0_map_deny" => crate::erase::<D0_map_deny>(),
    "D1" => crate::erase::<D1>(),
    "D1_array" => crate::erase::<D1_array>(),
    "D1_u8" => crate::erase::<D1_u8>(),
    "D1_u128" => crate::erase::<D1_u128>(),
    "D1_list" => crate::erase::<D1_list>(),
    "D1_map" => crate::erase::<D1_map>(),
    "D1_deny" => crate::erase::<D1_deny>(),
    "D1_array_deny" => crate::erase::<D1_array_deny>(),
    "D1_u8_deny" => crate::erase::<D1_u8_deny>(),
    "D1_u128_deny" => crate::erase::<D1_u128_deny>(),
    "D3" => crate::erase::<D3>(),
    "D3_array" => crate::erase::<D3_array>(),
    "D3_u8" => crate::erase::<D3_u8>(),
    "D3_u16" => crate::erase::<D3_u16>(),
    "D3_u32" => crate::erase::<D3_u32>(),
    "D3_u64" => crate::erase::<D3_u64>(),
    "D3_u128" => crate::erase::<D3_u128>(),
    "D3_list" => crate::erase::<D3_list>(),
    "D3_map" => crate::erase::<D3_map>(),
    "D3_deny" => crate::erase::<D3_deny>(),
    "D3_array_deny" => crate::erase::<D3_array_deny>(),
    "D3_u8_deny" => crate::erase::<D3_u8_deny>(),
    "D3_u16_deny" => crate::erase::<D3_u16_deny>(),
    "D3_u32_deny" => crate::erase::<D3_u32_deny>(),
    "D3_u64_deny" => crate::erase::<D3_u64_deny>(),
    "D3_u128_deny" => crate::erase::<D3_u128_deny>(),
    "D3_list_deny" => crate::erase::<D3_list_deny>(),
    "D3_map_deny" => crate::erase::<D3_map_deny>(),
    "D8" => crate::erase::<D8>(),
    "D8_array" => crate::erase::<D8_array>(),
    "D8_u8" => crate::erase::<D8_u8>(),
    "D8_u128" => crate::erase::<D8_u128>(),
    "D8_list" => crate::erase::<D8_list>(),
    "D8_map" => crate::erase::<D8_map>(),
    "D8_deny" => crate::erase::<D8_deny>(),
    "D8_array_deny" => crate::erase::<D8_array_deny>(),
    "D8_u8_deny" => crate::erase::<D8_u8_deny>(),
    "D8_u128_deny" => crate::erase::<D8_u128_deny>(),
    "D9" => crate::erase::<D9>(),
    "D9_array" => crate::erase::<D9_array>(),
    "D9_u16" => crate::erase::<D9_u16>(),
    "D9_u32" => crate::erase::<D9_u32>(),
    "D9_u64" => crate::erase::<D9_u64>(),
    "D9_u128" => crate::erase::<D9_u128>(),
    "D9_list" => crate::erase::<D9_list>(),
    "D9_map" => crate::erase::<D9_map>(),
    "D9_deny" => crate::erase::<D9_deny>(),
    "D9_array_deny" => crate::erase::<D9_array_deny>(),
    "D9_u16_deny" => crate::erase::<D9_u16_deny>(),
    "D9_u32_deny" => crate::erase::<D9_u32_deny>(),
    "D9_u64_deny" => crate::erase::<D9_u64_deny>(),
    "D9_u128_deny" => crate::erase::<D9_u128_deny>(),
    "D9_list_deny" => crate::erase::<D9_list_deny>(),
    "D9_map_deny" => crate::erase::<D9_map_deny>(),
    "D16" => crate::erase::<D16>(),
    "D16_array" => crate::erase::<D16_array>(),
    "D16_u128" => crate::erase::<D16_u128>(),
    "D16_deny" => crate::erase::<D16_deny>(),
    "D16_array_deny" => crate::erase::<D16_array_deny>(),
    "D16_u128_deny" => crate::erase::<D16_u128_deny>(),
    "D33" => crate::erase::<D33>(),
    "D33_array" => crate::erase::<D33_array>(),
    "D33_u128" => crate::erase::<D33_u128>(),
    "D33_deny" => crate::erase::<D33_deny>(),
    "D33_array_deny" => crate::erase::<D33_array_deny>(),
    "D33_u128_deny" => crate::erase::<D33_u128_deny>(),
    "D64" => crate::erase::<D64>(),
    "D64_array" => crate::erase::<D64_array>(),
    "D64_u128" => crate::erase::<D64_u128>(),
    "D64_deny" => crate::erase::<D64_deny>(),
    "D64_array_deny" => crate::erase::<D64_array_deny>(),
    "D64_u128_deny" => crate::erase::<D64_u128_deny>(),
    "D65" => crate::erase::<D65>(),
    "D65_array" => crate::erase::<D65_array>(),
    "D65_u128" => crate::erase::<D65_u128>(),
    "D65_list" => crate::erase::<D65_list>(),
    "D65_map" => crate::erase::<D65_map>(),
    "D65_deny" => crate::erase::<D65_deny>(),
    "D65_array_deny" => crate::erase::<D65_array_deny>(),
    "D65_u128_deny" => crate::erase::<D65_u128_deny>(),
    "D128" => crate::erase::<D128>(),
    "D128_array" => crate::erase::<D128_array>(),
    "D128_u128" => crate::erase::<D128_u128>(),
    "D128_deny" => crate::erase::<D128_deny>(),
    "D128_array_deny" => crate::erase::<D128_array_deny>(),
    "D128_u128_deny" => crate::erase::<D128_u128_deny>(),
    "D129" => crate::erase::<D129>(),
    "D129_array" => crate::erase::<D129_array>(),
    "D129_list" => crate::erase::<D129_list>(),
    "D129_map" => crate::erase::<D129_map>(),
    "D129_deny" => crate::erase::<D129_deny>(),
    "D129_array_deny" => crate::erase::<D129_array_deny>(),
    "D193" => crate::erase::<D193>(),
    "D193_array" => crate::erase::<D193_array>(),
    "D193_deny" => crate::erase::<D193_deny>(),
    "D193_array_deny" => crate::erase::<D193_array_deny>(),
    "Sa" => crate::erase::<Sa>(),
    "Sa_array" => crate::erase::<Sa_array>(),
    "Sa_u8" => crate::erase::<Sa_u8>(),
    "Sa_u16" => crate::erase::<Sa_u16>(),
    "Sa_u32" => crate::erase::<Sa_u32>(),
    "Sa_u64" => crate::erase::<Sa_u64>(),
    "Sa_u128" => crate::erase::<Sa_u128>(),
    "Sa_list" => crate::erase::<Sa_list>(),
    "Sa_map" => crate::erase::<Sa_map>(),
    "Sa_deny" => crate::erase::<Sa_deny>(),
    "Sa_array_deny" => crate::erase::<Sa_array_deny>(),
    "Sa_u8_deny" => crate::erase::<Sa_u8_deny>(),
    "Sa_u16_deny" => crate::erase::<Sa_u16_deny>(),
    "Sa_u32_deny" => crate::erase::<Sa_u32_deny>(),
    "Sa_u64_deny" => crate::erase::<Sa_u64_deny>(),
    "Sa_u128_deny" => crate::erase::<Sa_u128_deny>(),
    "Sb" => crate::erase::<Sb>(),
    "Sb_array" => crate::erase::<Sb_array>(),
    "Sb_u8" => crate::erase::<Sb_u8>(),
    "Sb_u128" => crate::erase::<Sb_u128>(),
    "Sb_list" => crate::erase::<Sb_list>(),
    "Sb_map" => crate::erase::<Sb_map>(),
    "Sb_deny" => crate::erase::<Sb_deny>(),
    "Sb_array_deny" => crate::erase::<Sb_array_deny>(),
    "Sb_u8_deny" => crate::erase::<Sb_u8_deny>(),
    "Sb_u128_deny" => crate::erase::<Sb_u128_deny>(),
    "Sc" => crate::erase::<Sc>(),
    "Sc_array" => crate::erase::<Sc_array>(),
    "Sc_u16" => crate::erase::<Sc_u16>(),
    "Sc_u32" => crate::erase::<Sc_u32>(),
    "Sc_u64" => crate::erase::<Sc_u64>(),
    "Sc_u128" => crate::erase::<Sc_u128>(),
    "Sc_list" => crate::erase::<Sc_list>(),
    "Sc_map" => crate::erase::<Sc_map>(),
    "Sc_deny" => crate::erase::<Sc_deny>(),
    "Sc_array_deny" => crate::erase::<Sc_array_deny>(),
    "Sc_u16_deny" => crate::erase::<Sc_u16_deny>(),
    "Sc_u32_deny" => crate::erase::<Sc_u32_deny>(),
    "Sc_u64_deny" => crate::erase::<Sc_u64_deny>(),
    "Sc_u128_deny" => crate::erase::<Sc_u128_deny>(),
    "Sd" => crate::erase::<Sd>(),
    "Sd_array" => crate::erase::<Sd_array>(),
    "Sd_u32" => crate::erase::<Sd_u32>(),
    "Sd_u64" => crate::erase::<Sd_u64>(),
    "Sd_u128" => crate::erase::<Sd_u128>(),
    "Sd_list" => crate::erase::<Sd_list>(),
    "Sd_map" => crate::erase::<Sd_map>(),
    "Sd_deny" => crate::erase::<Sd_deny>(),
    "Sd_array_deny" => crate::erase::<Sd_array_deny>(),
    "Sd_u32_deny" => crate::erase::<Sd_u32_deny>(),
    "Sd_u64_deny" => crate::erase::<Sd_u64_deny>(),
    "Sd_u128_deny" => crate::erase::<Sd_u128_deny>(),
    "Se" => crate::erase::<Se>(),
    "Se_array" => crate::erase::<Se_array>(),
    "Se_u64" => crate::erase::<Se_u64>(),
    "Se_u128" => crate::erase::<Se_u128>(),
    "Se_list" => crate::erase::<Se_list>(),
    "Se_map" => crate::erase::<Se_map>(),
    "Se_deny" => crate::erase::<Se_deny>(),
    "Se_array_deny" => crate::erase::<Se_array_deny>(),
    "Se_u64_deny" => crate::erase::<Se_u64_deny>(),
    "Se_u128_deny" => crate::erase::<Se_u128_deny>(),
    "Sf" => crate::erase::<Sf>(),
    "Sf_array" => crate::erase::<Sf_array>(),
    "Sf_u64" => crate::erase::<Sf_u64>(),
    "Sf_u128" => crate::erase::<Sf_u128>(),
    "Sf_list" => crate::erase::<Sf_list>(),
    "Sf_map" => crate::erase::<Sf_map>(),
    "Sf_deny" => crate::erase::<Sf_deny>(),
    "Sf_array_deny" => crate::erase::<Sf_array_deny>(),
    "Sf_u64_deny" => crate::erase::<Sf_u64_deny>(),
    "Sf_u128_deny" => crate::erase::<Sf_u128_deny>(),
    "Sg" => crate::erase::<Sg>(),
    "Sg_array" => crate::erase::<Sg_array>(),
    "Sg_u128" => crate::erase::<Sg_u128>(),
    "Sg_list" => crate::erase::<Sg_list>(),
    "Sg_map" => crate::erase::<Sg_map>(),
    "Sg_deny" => crate::erase::<Sg_deny>(),
    "Sg_array_deny" => crate::erase::<Sg_array_deny>(),
    "Sg_u128_deny" => crate::erase::<Sg_u128_deny>(),
    "Sh" => crate::erase::<Sh>(),
    "Sh_array" => crate::erase::<Sh_array>(),
    "Sh_u128" => crate::erase::<Sh_u128>(),
    "Sh_list" => crate::erase::<Sh_list>(),
    "Sh_map" => crate::erase::<Sh_map>(),
    "Sh_deny" => crate::erase::<Sh_deny>(),
    "Sh_array_deny" => crate::erase::<Sh_array_deny>(),
    "Sh_u128_deny" => crate::erase::<Sh_u128_deny>(),
    "Sh_list_deny" => crate::erase::<Sh_list_deny>(),
    "Sh_map_deny" => crate::erase::<Sh_map_deny>(),
    "Si" => crate::erase::<Si>(),
    "Si_array" => crate::erase::<Si_array>(),
    "Si_u128" => crate::erase::<Si_u128>(),
    "Si_list" => crate::erase::<Si_list>(),
    "Si_map" => crate::erase::<Si_map>(),
    "Si_deny" => crate::erase::<Si_deny>(),
    "Si_array_deny" => crate::erase::<Si_array_deny>(),
    "Si_u128_deny" => crate::erase::<Si_u128_deny>(),
    "Sj" => crate::erase::<Sj>(),
    "Sj_array" => crate::erase::<Sj_array>(),
    "Sj_list" => crate::erase::<Sj_list>(),
    "Sj_map" => crate::erase::<Sj_map>(),
    "Sj_deny" => crate::erase::<Sj_deny>(),
    "Sj_array_deny" => crate::erase::<Sj_array_deny>(),
    "Sk" => crate::erase::<Sk>(),
    "Sk_array" => crate::erase::<Sk_array>(),
    "Sk_list" => crate::erase::<Sk_list>(),
    "Sk_map" => crate::erase::<Sk_map>(),
    "Sk_deny" => crate::erase::<Sk_deny>(),
    "Sk_array_deny" => crate::erase::<Sk_array_deny>(),
    "Sk_list_deny" => crate::erase::<Sk_list_deny>(),
    "Sk_map_deny" => crate::erase::<Sk_map_deny>(),
    "Sl" => crate::erase::<Sl>(),
    "Sl_array" => crate::erase::<Sl_array>(),
    "Sl_list" => crate::erase::<Sl_list>(),
    "Sl_map" => crate::erase::<Sl_map>(),
    "Sl_deny" => crate::erase::<Sl_deny>(),
    "Sl_array_deny" => crate::erase::<Sl_array_deny>(),
    "Sm" => crate::erase::<Sm>(),
    "Sm_array" => crate::erase::<Sm_array>(),
    "Sm_list" => crate::erase::<Sm_list>(),
    "Sm_map" => crate::erase::<Sm_map>(),
    "Sm_deny" => crate::erase::<Sm_deny>(),
    "Sm_array_deny" => crate::erase::<Sm_array_deny>(),
    "Sn" => crate::erase::<Sn>(),
    "Sn_array" => crate::erase::<Sn_array>(),
    "Sn_u128" => crate::erase::<Sn_u128>(),
    "Sn_list" => crate::erase::<Sn_list>(),
    "Sn_map" => crate::erase::<Sn_map>(),
    "Sn_deny" => crate::erase::<Sn_deny>(),
    "Sn_array_deny" => crate::erase::<Sn_array_deny>(),
    "Sn_u128_deny" => crate::erase::<Sn_u128_deny>(),
    "So" => crate::erase::<So>(),
    "So_array" => crate::erase::<So_array>(),
    "So_list" => crate::erase::<So_list>(),
    "So_map" => crate::erase::<So_map>(),
    "So_deny" => crate::erase::<So_deny>(),
    "So_array_deny" => crate::erase::<So_array_deny>(),
    "Sp" => crate::erase::<Sp>(),
    "Sp_array" => crate::erase::<Sp_array>(),
    "Sp_list" => crate::erase::<Sp_list>(),
    "Sp_map" => crate::erase::<Sp_map>(),
    "Sp_deny" => crate::erase::<Sp_deny>(),
    "Sp_array_deny" => crate::erase::<Sp_array_deny>(),
    "Sq" => crate::erase::<Sq>(),
    "Sq_array" => crate::erase::<Sq_array>(),
    "Sq_list" => crate::erase::<Sq_list>(),
    "Sq_map" => crate::erase::<Sq_map>(),
    "Sq_deny" => crate::erase::<Sq_deny>(),
    "Sq_array_deny" => crate::erase::<Sq_array_deny>(),
    "D3_in_u8" => crate::erase::<D3_in_u8>(),
    "D3_array_in_u8" => crate::erase::<D3_array_in_u8>(),
    "D3_u128_in_u8" => crate::erase::<D3_u128_in_u8>(),
    "D3_deny_in_u8" => crate::erase::<D3_deny_in_u8>(),
    "D3_array_deny_in_u8" => crate::erase::<D3_array_deny_in_u8>(),
    "D3_u128_deny_in_u8" => crate::erase::<D3_u128_deny_in_u8>(),
    "D3_list_in_u8" => crate::erase::<D3_list_in_u8>(),
    "D3_in_u16" => crate::erase::<D3_in_u16>(),
    "D3_array_in_u16" => crate::erase::<D3_array_in_u16>(),
    "D3_u128_in_u16" => crate::erase::<D3_u128_in_u16>(),
    "D3_deny_in_u16" => crate::erase::<D3_deny_in_u16>(),
    "D3_array_deny_in_u16" => crate::erase::<D3_array_deny_in_u16>(),
    "D3_u128_deny_in_u16" => crate::erase::<D3_u128_deny_in_u16>(),
    "D3_list_in_u16" => crate::erase::<D3_list_in_u16>(),
    "D3_in_u32" => crate::erase::<D3_in_u32>(),
    "D3_array_in_u32" => crate::erase::<D3_array_in_u32>(),
    "D3_u128_in_u32" => crate::erase::<D3_u128_in_u32>(),
    "D3_deny_in_u32" => crate::erase::<D3_deny_in_u32>(),
    "D3_array_deny_in_u32" => crate::erase::<D3_array_deny_in_u32>(),
    "D3_u128_deny_in_u32" => crate::erase::<D3_u128_deny_in_u32>(),
    "D3_list_in_u32" => crate::erase::<D3_list_in_u32>(),
    "D3_in_u64" => crate::erase::<D3_in_u64>(),
    "D3_array_in_u64" => crate::erase::<D3_array_in_u64>(),
    "D3_u128_in_u64" => crate::erase::<D3_u128_in_u64>(),
    "D3_deny_in_u64" => crate::erase::<D3_deny_in_u64>(),
    "D3_array_deny_in_u64" => crate::erase::<D3_array_deny_in_u64>(),
    "D3_u128_deny_in_u64" => crate::erase::<D3_u128_deny_in_u64>(),
    "D3_list_in_u64" => crate::erase::<D3_list_in_u64>(),
    "D3_in_u128" => crate::erase::<D3_in_u128>(),
    "D3_array_in_u128" => crate::erase::<D3_array_in_u128>(),
    "D3_u128_in_u128" => crate::erase::<D3_u128_in_u128>(),
    "D3_deny_in_u128" => crate::erase::<D3_deny_in_u128>(),
    "D3_array_deny_in_u128" => crate::erase::<D3_array_deny_in_u128>(),
    "D3_u128_deny_in_u128" => crate::erase::<D3_u128_deny_in_u128>(),
    "D3_list_in_u128" => crate::erase::<D3_list_in_u128>(),
    "D3_in_array" => crate::erase::<D3_in_array>(),
    "D3_array_in_array" => crate::erase::<D3_array_in_array>(),
    "D3_u128_in_array" => crate::erase::<D3_u128_in_array>(),
    "D3_deny_in_array" => crate::erase::<D3_deny_in_array>(),
    "D3_array_deny_in_array" => crate::erase::<D3_array_deny_in_array>(),
    "D3_u128_deny_in_array" => crate::erase::<D3_u128_deny_in_array>(),
    "D3_list_in_array" => crate::erase::<D3_list_in_array>(),
    "Sc_in_u16" => crate::erase::<Sc_in_u16>(),
    "Sc_array_in_u16" => crate::erase::<Sc_array_in_u16>(),
    "Sc_u128_in_u16" => crate::erase::<Sc_u128_in_u16>(),
    "Sc_deny_in_u16" => crate::erase::<Sc_deny_in_u16>(),
    "Sc_array_deny_in_u16" => crate::erase::<Sc_array_deny_in_u16>(),
    "Sc_u128_deny_in_u16" => crate::erase::<Sc_u128_deny_in_u16>(),
    "Sc_list_in_u16" => crate::erase::<Sc_list_in_u16>(),
    "Sc_in_u32" => crate::erase::<Sc_in_u32>(),
    "Sc_array_in_u32" => crate::erase::<Sc_array_in_u32>(),
    "Sc_u128_in_u32" => crate::erase::<Sc_u128_in_u32>(),
    "Sc_deny_in_u32" => crate::erase::<Sc_deny_in_u32>(),
    "Sc_array_deny_in_u32" => crate::erase::<Sc_array_deny_in_u32>(),
    "Sc_u128_deny_in_u32" => crate::erase::<Sc_u128_deny_in_u32>(),
    "Sc_list_in_u32" => crate::erase::<Sc_list_in_u32>(),
    "Sc_in_u64" => crate::erase::<Sc_in_u64>(),
    "Sc_array_in_u64" => crate::erase::<Sc_array_in_u64>(),
    "Sc_u128_in_u64" => crate::erase::<Sc_u128_in_u64>(),
    "Sc_deny_in_u64" => crate::erase::<Sc_deny_in_u64>(),
    "Sc_array_deny_in_u64" => crate::erase::<Sc_array_deny_in_u64>(),
    "Sc_u128_deny_in_u64" => crate::erase::<Sc_u128_deny_in_u64>(),
    "Sc_list_in_u64" => crate::erase::<Sc_list_in_u64>(),
    "Sc_in_u128" => crate::erase::<Sc_in_u128>(),
    "Sc_array_in_u128" => crate::erase::<Sc_array_in_u128>(),
    "Sc_u128_in_u128" => crate::erase::<Sc_u128_in_u128>(),
    "Sc_deny_in_u128" => crate::erase::<Sc_deny_in_u128>(),
    "Sc_array_deny_in_u128" => crate::erase::<Sc_array_deny_in_u128>(),
    "Sc_u128_deny_in_u128" => crate::erase::<Sc_u128_deny_in_u128>(),
    "Sc_list_in_u128" => crate::erase::<Sc_list_in_u128>(),
    "Sc_in_array" => crate::erase::<Sc_in_array>(),
    "Sc_array_in_array" => crate::erase::<Sc_array_in_array>(),
    "Sc_u128_in_array" => crate::erase::<Sc_u128_in_array>(),
    "Sc_deny_in_array" => crate::erase::<Sc_deny_in_array>(),
    "Sc_array_deny_in_array" => crate::erase::<Sc_array_deny_in_array>(),
    "Sc_u128_deny_in_array" => crate::erase::<Sc_u128_deny_in_array>(),
    "Sc_list_in_array" => crate::erase::<Sc_list_in_array>(),
    "Sf_in_u64" => crate::erase::<Sf_in_u64>(),
    "Sf_array_in_u64" => crate::erase::<Sf_array_in_u64>(),
    "Sf_u128_in_u64" => crate::erase::<Sf_u128_in_u64>(),
    "Sf_deny_in_u64" => crate::erase::<Sf_deny_in_u64>(),
    "Sf_array_deny_in_u64" => crate::erase::<Sf_array_deny_in_u64>(),
    "Sf_u128_deny_in_u64" => crate::erase::<Sf_u128_deny_in_u64>(),
    "Sf_list_in_u64" => crate::erase::<Sf_list_in_u64>(),
    "Sf_in_u128" => crate::erase::<Sf_in_u128>(),
    "Sf_array_in_u128" => crate::erase::<Sf_array_in_u128>(),
    "Sf_u128_in_u128" => crate::erase::<Sf_u128_in_u128>(),
    "Sf_deny_in_u128" => crate::erase::<Sf_deny_in_u128>(),
    "Sf_array_deny_in_u128" => crate::erase::<Sf_array_deny_in_u128>(),
    "Sf_u128_deny_in_u128" => crate::erase::<Sf_u128_deny_in_u128>(),
    "Sf_list_in_u128" => crate::erase::<Sf_list_in_u128>(),
    "Sf_in_array" => crate::erase::<Sf_in_array>(),
    "Sf_array_in_array" => crate::erase::<Sf_array_in_array>(),
    "Sf_u128_in_array" => crate::erase::<Sf_u128_in_array>(),
    "Sf_deny_in_array" => crate::erase::<Sf_deny_in_array>(),
    "Sf_array_deny_in_array" => crate::erase::<Sf_array_deny_in_array>(),
    "Sf_u128_deny_in_array" => crate::erase::<Sf_u128_deny_in_array>(),
    "Sf_list_in_array" => crate::erase::<Sf_list_in_array>(),
    "Si_in_u128" => crate::erase::<Si_in_u128>(),
    "Si_array_in_u128" => crate::erase::<Si_array_in_u128>(),
    "Si_u128_in_u128" => crate::erase::<Si_u128_in_u128>(),
    "Si_deny_in_u128" => crate::erase::<Si_deny_in_u128>(),
    "Si_array_deny_in_u128" => crate::erase::<Si_array_deny_in_u128>(),
    "Si_u128_deny_in_u128" => crate::erase::<Si_u128_deny_in_u128>(),
    "Si_list_in_u128" => crate::erase::<Si_list_in_u128>(),
    "Si_in_array" => crate::erase::<Si_in_array>(),
    "Si_array_in_array" => crate::erase::<Si_array_in_array>(),
    "Si_u128_in_array" => crate::erase::<Si_u128_in_array>(),
    "Si_deny_in_array" => crate::erase::<Si_deny_in_array>(),
    "Si_array_deny_in_array" => crate::erase::<Si_array_deny_in_array>(),
    "Si_u128_deny_in_array" => crate::erase::<Si_u128_deny_in_array>(),
    "Si_list_in_array" => crate::erase::<Si_list_in_array>(),
    "D0_in_u8" => crate::erase::<D0_in_u8>(),
    "D0_array_in_u8" => crate::erase::<D0_array_in_u8>(),
    "D0_u128_in_u8" => crate::erase::<D0_u128_in_u8>(),
    "D0_deny_in_u8" => crate::erase::<D0_deny_in_u8>(),
    "D0_array_deny_in_u8" => crate::erase::<D0_array_deny_in_u8>(),
    "D0_u128_deny_in_u8" => crate::erase::<D0_u128_deny_in_u8>(),
    "D0_list_in_u8" => crate::erase::<D0_list_in_u8>(),
    "D0_in_u16" => crate::erase::<D0_in_u16>(),
    "D0_array_in_u16" => crate::erase::<D0_array_in_u16>(),
    "D0_u128_in_u16" => crate::erase::<D0_u128_in_u16>(),
    "D0_deny_in_u16" => crate::erase::<D0_deny_in_u16>(),
    "D0_array_deny_in_u16" => crate::erase::<D0_array_deny_in_u16>(),
    "D0_u128_deny_in_u16" => crate::erase::<D0_u128_deny_in_u16>(),
    "D0_list_in_u16" => crate::erase::<D0_list_in_u16>(),
    "D0_in_u32" => crate::erase::<D0_in_u32>(),
    "D0_array_in_u32" => crate::erase::<D0_array_in_u32>(),
    "D0_u128_in_u32" => crate::erase::<D0_u128_in_u32>(),
    "D0_deny_in_u32" => crate::erase::<D0_deny_in_u32>(),
    "D0_array_deny_in_u32" => crate::erase::<D0_array_deny_in_u32>(),
    "D0_u128_deny_in_u32" => crate::erase::<D0_u128_deny_in_u32>(),
    "D0_list_in_u32" => crate::erase::<D0_list_in_u32>(),
    "D0_in_u64" => crate::erase::<D0_in_u64>(),
    "D0_array_in_u64" => crate::erase::<D0_array_in_u64>(),
    "D0_u128_in_u64" => crate::erase::<D0_u128_in_u64>(),
    "D0_deny_in_u64" => crate::erase::<D0_deny_in_u64>(),
    "D0_array_deny_in_u64" => crate::erase::<D0_array_deny_in_u64>(),
    "D0_u128_deny_in_u64" => crate::erase::<D0_u128_deny_in_u64>(),
    "D0_list_in_u64" => crate::erase::<D0_list_in_u64>(),
    "D0_in_u128" => crate::erase::<D0_in_u128>(),
    "D0_array_in_u128" => crate::erase::<D0_array_in_u128>(),
    "D0_u128_in_u128" => crate::erase::<D0_u128_in_u128>(),
    "D0_deny_in_u128" => crate::erase::<D0_deny_in_u128>(),
    "D0_array_deny_in_u128" => crate::erase::<D0_array_deny_in_u128>(),
    "D0_u128_deny_in_u128" => crate::erase::<D0_u128_deny_in_u128>(),
    "D0_list_in_u128" => crate::erase::<D0_list_in_u128>(),
    "D0_in_array" => crate::erase::<D0_in_array>(),
    "D0_array_in_array" => crate::erase::<D0_array_in_array>(),
    "D0_u128_in_array" => crate::erase::<D0_u128_in_array>(),
    "D0_deny_in_array" => crate::erase::<D0_deny_in_array>(),
    "D0_array_deny_in_array" => crate::erase::<D0_array_deny_in_array>(),
    "D0_u128_deny_in_array" => crate::erase::<D0_u128_deny_in_array>(),
    "D0_list_in_array" => crate::erase::<D0_list_in_array>(),
    "D3_serialize_as_list" => crate::erase::<D3_serialize_as_list>(),
    "D3_serialize_as_map" => crate::erase::<D3_serialize_as_map>(),
    "Sk_serialize_as_list" => crate::erase::<Sk_serialize_as_list>(),
    "Sk_serialize_as_map" => crate::erase::<Sk_serialize_as_map>(),
    "D3_list_num" => crate::erase::<D3_list_num>(),
    "D3_map_num" => crate::erase::<D3_map_num>(),
    "Sh_list_num" => crate::erase::<Sh_list_num>(),
    "Sh_map_num" => crate::erase::<Sh_map_num>(),
    "Sk_list_num" => crate::erase::<Sk_list_num>(),
    "Sk_map_num" => crate::erase::<Sk_map_num>(),
    "D2" => crate::erase::<D2>(),
    "D4" => crate::erase::<D4>(),
    "D5" => crate::erase::<D5>(),
    "D6" => crate::erase::<D6>(),
    "D7" => crate::erase::<D7>(),
    "D10" => crate::erase::<D10>(),
    "D11" => crate::erase::<D11>(),
    "D12" => crate::erase::<D12>(),
    "D13" => crate::erase::<D13>(),
    "D14" => crate::erase::<D14>(),
    "D15" => crate::erase::<D15>(),
    "D17" => crate::erase::<D17>(),
    "D18" => crate::erase::<D18>(),
    "D19" => crate::erase::<D19>(),
    "D20" => crate::erase::<D20>(),
    "D21" => crate::erase::<D21>(),
    "D22" => crate::erase::<D22>(),
    "D23" => crate::erase::<D23>(),
    "D24_deny" => crate::erase::<D24_deny>(),
    "D24" => crate::erase::<D24>(),
    "D25" => crate::erase::<D25>(),
    "D26" => crate::erase::<D26>(),
    "D27" => crate::erase::<D27>(),
    "D28" => crate::erase::<D28>(),
    "D29" => crate::erase::<D29>(),
    "D30" => crate::erase::<D30>(),
    "D31" => crate::erase::<D31>(),
    "D32_deny" => crate::erase::<D32_deny>(),
    "D32" => crate::erase::<D32>(),
    "D34" => crate::erase::<D34>(),
    "D35" => crate::erase::<D35>(),
    "D36" => crate::erase::<D36>(),
    "D37" => crate::erase::<D37>(),
    "D38" => crate::erase::<D38>(),
    "D39" => crate::erase::<D39>(),
    "D40_deny" => crate::erase::<D40_deny>(),
    "D40" => crate::erase::<D40>(),
    "D41" => crate::erase::<D41>(),
    "D42" => crate::erase::<D42>(),
    "D43" => crate::erase::<D43>(),
    "D44" => crate::erase::<D44>(),
    "D45" => crate::erase::<D45>(),
    "D46" => crate::erase::<D46>(),
    "D47" => crate::erase::<D47>(),
    "D48_deny" => crate::erase::<D48_deny>(),
    "D48" => crate::erase::<D48>(),
    "D49" => crate::erase::<D49>(),
    "D50" => crate::erase::<D50>(),
    "D51" => crate::erase::<D51>(),
    "D52" => crate::erase::<D52>(),
    "D53" => crate::erase::<D53>(),
    "D54" => crate::erase::<D54>(),
    "D55" => crate::erase::<D55>(),
    "D56_deny" => crate::erase::<D56_deny>(),
    "D56" => crate::erase::<D56>(),
    "D57" => crate::erase::<D57>(),
    "D58" => crate::erase::<D58>(),
    "D59" => crate::erase::<D59>(),
    "D60" => crate::erase::<D60>(),
    "D61" => crate::erase::<D61>(),
    "D62" => crate::erase::<D62>(),
    "D63" => crate::erase::<D63>(),
    "D66" => crate::erase::<D66>(),
    "D72_deny" => crate::erase::<D72_deny>(),
    "D72" => crate::erase::<D72>(),
    "D80_deny" => crate::erase::<D80_deny>(),
    "D80" => crate::erase::<D80>(),
    "D88_deny" => crate::erase::<D88_deny>(),
    "D88" => crate::erase::<D88>(),
    "D96_deny" => crate::erase::<D96_deny>(),
    "D96" => crate::erase::<D96>(),
    "D104_deny" => crate::erase::<D104_deny>(),
    "D104" => crate::erase::<D104>(),
    "D112_deny" => crate::erase::<D112_deny>(),
    "D112" => crate::erase::<D112>(),
    "D120_deny" => crate::erase::<D120_deny>(),
    "D120" => crate::erase::<D120>(),
    "D126" => crate::erase::<D126>(),
    "D127" => crate::erase::<D127>(),
    "D136_deny" => crate::erase::<D136_deny>(),
    "D136" => crate::erase::<D136>(),
    "D144_deny" => crate::erase::<D144_deny>(),
    "D144" => crate::erase::<D144>(),
    "D160_deny" => crate::erase::<D160_deny>(),
    "D160" => crate::erase::<D160>(),
    "D256_deny" => crate::erase::<D256_deny>(),
    "D256" => crate::erase::<D256>(),
    "H8_0_deny" => crate::erase::<H8_0_deny>(),
    "H8_4" => crate::erase::<H8_4>(),
    "H8_4_deny" => crate::erase::<H8_4_deny>(),
    "H8_4_array_deny" => crate::erase::<H8_4_array_deny>(),
    "H8_6" => crate::erase::<H8_6>(),
    "H8_6_deny" => crate::erase::<H8_6_deny>(),
    "H8_6_array" => crate::erase::<H8_6_array>(),
    "H16_0_deny" => crate::erase::<H16_0_deny>(),
    "H16_8" => crate::erase::<H16_8>(),
    "H16_8_deny" => crate::erase::<H16_8_deny>(),
    "H16_8_array_deny" => crate::erase::<H16_8_array_deny>(),
    "H16_14" => crate::erase::<H16_14>(),
    "H16_14_deny" => crate::erase::<H16_14_deny>(),
    "H16_14_array" => crate::erase::<H16_14_array>(),
    "H32_0_deny" => crate::erase::<H32_0_deny>(),
    "H32_16" => crate::erase::<H32_16>(),
    "H32_16_deny" => crate::erase::<H32_16_deny>(),
    "H32_16_array_deny" => crate::erase::<H32_16_array_deny>(),
    "H32_30" => crate::erase::<H32_30>(),
    "H32_30_deny" => crate::erase::<H32_30_deny>(),
    "H32_30_array" => crate::erase::<H32_30_array>(),
    "H64_0_deny" => crate::erase::<H64_0_deny>(),
    "H64_32" => crate::erase::<H64_32>(),
    "H64_32_deny" => crate::erase::<H64_32_deny>(),
    "H64_32_array_deny" => crate::erase::<H64_32_array_deny>(),
    "H64_62" => crate::erase::<H64_62>(),
    "H64_62_deny" => crate::erase::<H64_62_deny>(),
    "H64_62_array" => crate::erase::<H64_62_array>(),
    "H128_0_deny" => crate::erase::<H128_0_deny>(),
    "H128_64" => crate::erase::<H128_64>(),
    "H128_64_deny" => crate::erase::<H128_64_deny>(),
    "H128_64_array_deny" => crate::erase::<H128_64_array_deny>(),
    "H128_126" => crate::erase::<H128_126>(),
    "H128_126_deny" => crate::erase::<H128_126_deny>(),
    "H128_126_array" => crate::erase::<H128_126_array>(),
    "H192_0_deny" => crate::erase::<H192_0_deny>(),
    "H192_96" => crate::erase::<H192_96>(),
    "H192_96_deny" => crate::erase::<H192_96_deny>(),
    "H192_96_array_deny" => crate::erase::<H192_96_array_deny>(),
    "H192_190" => crate::erase::<H192_190>(),
    "H192_190_deny" => crate::erase::<H192_190_deny>(),
    "H192_190_array" => crate::erase::<H192_190_array>(),
    "M3" => crate::erase::<M3>(),
    "M3_list" => crate::erase::<M3_list>(),
    "M4_deny" => crate::erase::<M4_deny>(),
    "M4_list" => crate::erase::<M4_list>(),
    "M5" => crate::erase::<M5>(),
    "M5_list" => crate::erase::<M5_list>(),
    "M6_deny" => crate::erase::<M6_deny>(),
    "M6_list" => crate::erase::<M6_list>(),
    "M7" => crate::erase::<M7>(),
    "M7_list" => crate::erase::<M7_list>(),
    "M8_deny" => crate::erase::<M8_deny>(),
    "M8_list" => crate::erase::<M8_list>(),
    "T0_deny" => crate::erase::<T0_deny>(),
    "T1" => crate::erase::<T1>(),
    "T2" => crate::erase::<T2>(),
    "T3_deny" => crate::erase::<T3_deny>(),
    "T4" => crate::erase::<T4>(),
    "T5" => crate::erase::<T5>(),
    "T6_deny" => crate::erase::<T6_deny>(),
    "T7" => crate::erase::<T7>(),
    "T8" => crate::erase::<T8>(),
    "T9_deny" => crate::erase::<T9_deny>(),
    "T10" => crate::erase::<T10>(),
    "T11" => crate::erase::<T11>(),
    "T12_deny" => crate::erase::<T12_deny>(),
    "T13" => crate::erase::<T13>(),
    "T14" => crate::erase::<T14>(),
    "T15_deny" => crate::erase::<T15_deny>(),
    "T16" => crate::erase::<T16>(),
    "T17" => crate::erase::<T17>(),
    "T18_deny" => crate::erase::<T18_deny>(),
    "T19" => crate::erase::<T19>(),
    "T20" => crate::erase::<T20>(),
    "T21_deny" => crate::erase::<T21_deny>(),
    "T22" => crate::erase::<T22>(),
    "T23" => crate::erase::<T23>(),
    "T24_deny" => crate::erase::<T24_deny>(),
    "T25" => crate::erase::<T25>(),
    "T26" => crate::erase::<T26>(),
    "T27_deny" => crate::erase::<T27_deny>(),
    "T28" => crate::erase::<T28>(),
    "T29" => crate::erase::<T29>(),
    "T30_deny" => crate::erase::<T30_deny>(),
    "T31" => crate::erase::<T31>(),
    "T32" => crate::erase::<T32>(),
    "T33_deny" => crate::erase::<T33_deny>(),
    "T34" => crate::erase::<T34>(),
    "T35" => crate::erase::<T35>(),
    "T36_deny" => crate::erase::<T36_deny>(),
    "T37" => crate::erase::<T37>(),
    "T38" => crate::erase::<T38>(),
    "T39_deny" => crate::erase::<T39_deny>(),
    "T40" => crate::erase::<T40>(),
    "T41" => crate::erase::<T41>(),
    "T42_deny" => crate::erase::<T42_deny>(),
    "T43" => crate::erase::<T43>(),
    "T44" => crate::erase::<T44>(),
    "T45_deny" => crate::erase::<T45_deny>(),
    "T46" => crate::erase::<T46>(),
    "T47" => crate::erase::<T47>(),
    "T48_deny" => crate::erase::<T48_deny>(),
    "T49" => crate::erase::<T49>(),
    "T50" => crate::erase::<T50>(),
    "T51_deny" => crate::erase::<T51_deny>(),
    "T52" => crate::erase::<T52>(),
    "T53" => crate::erase::<T53>(),
    "T54_deny" => crate::erase::<T54_deny>(),
    "T55" => crate::erase::<T55>(),
    "T56" => crate::erase::<T56>(),
    "T57_deny" => crate::erase::<T57_deny>(),
    "T58" => crate::erase::<T58>(),
    "T59" => crate::erase::<T59>(),
    "T60_deny" => crate::erase::<T60_deny>(),
    "T61" => crate::erase::<T61>(),
    "T62" => crate::erase::<T62>(),
    "T63_deny" => crate::erase::<T63_deny>(),
    "T64" => crate::erase::<T64>(),
    "T65" => crate::erase::<T65>(),
    "T72_deny" => crate::erase::<T72_deny>(),
    "T80" => crate::erase::<T80>(),
    "T88" => crate::erase::<T88>(),
    "T96_deny" => crate::erase::<T96_deny>(),
    "T104" => crate::erase::<T104>(),
    "T112" => crate::erase::<T112>(),
    "T120_deny" => crate::erase::<T120_deny>(),
    "T125" => crate::erase::<T125>(),
    "T126_deny" => crate::erase::<T126_deny>(),
    _ => panic!("no such job: {name}"),
} }
