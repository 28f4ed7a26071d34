//! Exportable types: values written and read back, and documents read as values.
use super::*;
use super::gen_obj::text;
use crate::gen_ops::Rng;
use node_tree::prelude::*;
use node_tree::traits::exportable::Exportable;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use toml_edit as toml;

/// A type whose values can be written as JSON (for the specification), read from it, and made up.
pub trait Cx: Exportable + Sized {
    fn dec(v: &Value) -> Self;
    fn enc(&self) -> Value;
    fn rnd(r: &mut Rng, d: u32) -> Self;
}

fn bits(r: &mut Rng) -> u64 { let b = r.next(); match r.below(6) { 0 => 0, 1 => b >> 62, 2 => b >> (r.below(64)), 3 => 1u64 << r.below(64), 4 => (1u64 << r.below(64)).wrapping_sub(1), _ => b } }
macro_rules! ints { ($($t:ty)*) => { $(impl Cx for $t {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().parse().unwrap() }
    fn enc(&self) -> Value { json!(self.to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { match r.below(5) { 0 => <$t>::MAX, 1 => <$t>::MIN, _ => bits(r) as $t } }
})* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64);

pub fn f64text(x: f64) -> String { if x.is_nan() { "nan".into() } else if x == 0.0 { "0.0".into() } else { format!("{x:?}") } }
pub fn f32text(x: f32) -> String { if x.is_nan() { "nan".into() } else if x == 0.0 { "0.0".into() } else { format!("{x:?}") } }
fn f64of(t: &str) -> f64 { match t { "nan" => f64::NAN, _ => t.parse().unwrap() } }
impl Cx for f64 {
    fn dec(v: &Value) -> Self { f64of(v.as_str().unwrap()) }
    fn enc(&self) -> Value { json!(f64text(*self)) }
    fn rnd(r: &mut Rng, _: u32) -> Self {
        match r.below(8) { 0 => *r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e16, 1e-7, 9007199254740993.0]),
                           1 => r.below(100) as f64, 2 => (r.below(2000) as f64 - 1000.0) / 8.0, 3 => r.next() as i64 as f64, _ => f64::from_bits(r.next()) }
    }
}
impl Cx for f32 {
    fn dec(v: &Value) -> Self { match v.as_str().unwrap() { "nan" => f32::NAN, t => t.parse().unwrap() } }
    fn enc(&self) -> Value { json!(f32text(*self)) }
    fn rnd(r: &mut Rng, _: u32) -> Self {
        match r.below(6) { 0 => *r.pick(&[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777217.0]), 1 => r.below(100) as f32, _ => f32::from_bits(r.next() as u32) }
    }
}
impl Cx for bool {
    fn dec(v: &Value) -> Self { v.as_bool().unwrap() }
    fn enc(&self) -> Value { json!(self) }
    fn rnd(r: &mut Rng, _: u32) -> Self { r.chance(0.5) }
}
impl Cx for char {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().chars().next().unwrap() }
    fn enc(&self) -> Value { json!(self.to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { match r.below(4) { 0 => *r.pick(&['"', '\\', '\'', '\n', '\r', '\t', '\0', '\u{7f}', '\u{85}', '\u{1F600}', '\u{ffff}', '=', '#', ' ', '\u{301}']), 1 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'), _ => (32 + r.below(95) as u8) as char } }
}
fn wild(r: &mut Rng) -> String { if r.chance(0.4) { text(r) } else { let n = if r.chance(0.01) { 17 + r.below(600) } else { r.below(6) }; (0..n).map(|_| char::rnd(r, 0)).collect() } }
impl Cx for String {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().into() }
    fn enc(&self) -> Value { json!(self) }
    fn rnd(r: &mut Rng, _: u32) -> Self { match r.below(8) { 0 => "'''\"\"\"\n".into(), 1 => "\n\nx\r\n".into(), _ => wild(r) } }
}
impl Cx for NodePath {
    fn dec(v: &Value) -> Self { NodePath::from_str(v.as_str().unwrap()) }
    fn enc(&self) -> Value { json!(self.clone().to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { let n = r.below(5); NodePath::from_str(&(0..n).map(|_| r.pick(&["/", "a", "..", ".", "/b", "\u{c4}/", " "]).to_string()).collect::<String>()) }
}
impl Cx for PathBuf {
    fn dec(v: &Value) -> Self { PathBuf::from(v.as_str().unwrap()) }
    fn enc(&self) -> Value { json!(self.to_str().unwrap()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { PathBuf::from(wild(r)) }
}
impl Cx for Ipv4Addr {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().parse().unwrap() }
    fn enc(&self) -> Value { json!(self.to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { Ipv4Addr::from(bits(r) as u32) }
}
impl Cx for Ipv6Addr {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().parse().unwrap() }
    fn enc(&self) -> Value { json!(self.to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { let hi = if r.chance(0.5) { 0 } else { bits(r) }; Ipv6Addr::from(((hi as u128) << 64) | if r.chance(0.3) { 0xffff_0000_0000 | (bits(r) & 0xffff_ffff) as u128 } else { bits(r) as u128 }) }
}
impl Cx for IpAddr {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().parse().unwrap() }
    fn enc(&self) -> Value { json!(self.to_string()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { if r.chance(0.5) { IpAddr::V4(Ipv4Addr::rnd(r, d)) } else { IpAddr::V6(Ipv6Addr::rnd(r, d)) } }
}
const DAYS52: u64 = 52 * 86_400 * 1_000_000_000;
impl Cx for Duration {
    fn dec(v: &Value) -> Self { Duration::from_nanos(v.as_str().unwrap().parse().unwrap()) }
    fn enc(&self) -> Value { json!(self.as_nanos().to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self { let b = bits(r); Duration::from_nanos(match r.below(4) { 0 => DAYS52, 1 => (b % 1000) * 1_000_000_000, _ => b % (DAYS52 + 1) }) }
}
impl Cx for toml::Datetime {
    fn dec(v: &Value) -> Self { v.as_str().unwrap().parse().unwrap() }
    fn enc(&self) -> Value { json!(self.to_string()) }
    fn rnd(r: &mut Rng, _: u32) -> Self {
        let date = format!("{:04}-{:02}-{:02}", r.below(10000), 1 + r.below(12), 1 + r.below(28));
        let frac = match r.below(4) { 0 => String::new(), 1 => format!(".{:03}", 1 + r.below(999)), 2 => format!(".{:09}", r.below(1_000_000_000)), _ => ".000000001".into() };
        let time = format!("{:02}:{:02}:{:02}{frac}", r.below(24), r.below(60), r.below(60));
        let off = match r.below(3) { 0 => "Z".to_string(), 1 => format!("+{:02}:{:02}", r.below(24), r.below(60)), _ => format!("-{:02}:{:02}", r.below(24), r.below(60)) };
        match r.below(4) { 0 => date, 1 => time, 2 => format!("{date}T{time}"), _ => format!("{date}T{time}{off}") }.parse().unwrap()
    }
}
fn arr(v: &Value) -> &Vec<Value> { v.as_array().unwrap() }
pub fn ix(r: &mut Rng, n: usize) -> usize { r.below(n as u64) as usize }
fn len(r: &mut Rng, d: u32) -> usize { if d > 2 && r.chance(0.01) { 17 + ix(r, 300) } else { ix(r, if d == 0 { 2 } else { 4 }) } }
fn less(d: u32) -> u32 { d.saturating_sub(1) }
impl<T: Cx> Cx for Option<T> {
    fn dec(v: &Value) -> Self { arr(v).first().map(T::dec) }
    fn enc(&self) -> Value { json!(self.iter().map(T::enc).collect::<Vec<_>>()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { if r.chance(0.35) { None } else { Some(T::rnd(r, less(d))) } }
}
impl<T: Cx> Cx for Vec<T> {
    fn dec(v: &Value) -> Self { arr(v).iter().map(T::dec).collect() }
    fn enc(&self) -> Value { json!(self.iter().map(T::enc).collect::<Vec<_>>()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { (0..len(r, d)).map(|_| T::rnd(r, less(d))).collect() }
}
impl<T: Cx + std::hash::Hash + Eq> Cx for HashSet<T> {
    fn dec(v: &Value) -> Self { arr(v).iter().map(T::dec).collect() }
    fn enc(&self) -> Value { json!(self.iter().map(T::enc).collect::<Vec<_>>()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { (0..len(r, d)).map(|_| T::rnd(r, less(d))).collect() }
}
impl<T: Cx + Ord> Cx for BTreeSet<T> {
    fn dec(v: &Value) -> Self { arr(v).iter().map(T::dec).collect() }
    fn enc(&self) -> Value { json!(self.iter().map(T::enc).collect::<Vec<_>>()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { (0..len(r, d)).map(|_| T::rnd(r, less(d))).collect() }
}
macro_rules! maps { ($($m:ident $k:ty),*) => { $(impl<T: Cx> Cx for $m<$k, T> {
    fn dec(v: &Value) -> Self { arr(v).iter().map(|p| (<$k>::dec(&p[0]), T::dec(&p[1]))).collect() }
    fn enc(&self) -> Value { json!(self.iter().map(|(k, v)| json!([k.enc(), v.enc()])).collect::<Vec<_>>()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { (0..len(r, d)).map(|_| (<$k>::rnd(r, 0), T::rnd(r, less(d)))).collect() }
})* } }
maps!(HashMap char, HashMap String, BTreeMap char, BTreeMap String);
macro_rules! boxes { ($($b:ident),*) => { $(impl<T: Cx> Cx for $b<T> {
    fn dec(v: &Value) -> Self { $b::new(T::dec(v)) }
    fn enc(&self) -> Value { (**self).enc() }
    fn rnd(r: &mut Rng, d: u32) -> Self { $b::new(T::rnd(r, d)) }
})* } }
boxes!(Box, Rc, Arc);
impl<T: Cx> Cx for Mutex<T> {
    fn dec(v: &Value) -> Self { Mutex::new(T::dec(v)) }
    fn enc(&self) -> Value { self.lock().unwrap().enc() }
    fn rnd(r: &mut Rng, d: u32) -> Self { Mutex::new(T::rnd(r, d)) }
}
impl<const N: usize, T: Cx> Cx for [T; N] {
    fn dec(v: &Value) -> Self { std::array::from_fn(|i| T::dec(&v[i])) }
    fn enc(&self) -> Value { json!(self.iter().map(T::enc).collect::<Vec<_>>()) }
    fn rnd(r: &mut Rng, d: u32) -> Self { std::array::from_fn(|_| T::rnd(r, less(d))) }
}
macro_rules! tuples { ($($($x:ident $i:tt)*;)*) => { $(impl<$($x: Cx),*> Cx for ($($x,)*) {
    fn dec(v: &Value) -> Self { ($($x::dec(&v[$i]),)*) }
    fn enc(&self) -> Value { json!([$(self.$i.enc()),*]) }
    fn rnd(r: &mut Rng, d: u32) -> Self { ($($x::rnd(r, less(d)),)*) }
})* } }
tuples! { A 0; A 0 B 1; A 0 B 1 C 2; A 0 B 1 C 2 D 3; A 0 B 1 C 2 D 3 E 4; A 0 B 1 C 2 D 3 E 4 F 5; A 0 B 1 C 2 D 3 E 4 F 5 G 6;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9; }

macro_rules! gvec { ($($t:ident $n:literal $c:ty),*) => { $(impl Cx for glam::$t {
    fn dec(v: &Value) -> Self { let a: [$c; $n] = <[$c; $n]>::dec(v); Self::from_array(a) }
    fn enc(&self) -> Value { self.to_array().enc() }
    fn rnd(r: &mut Rng, d: u32) -> Self { Self::from_array(<[$c; $n]>::rnd(r, d)) }
})* } }
gvec!(U8Vec2 2 u8, U8Vec3 3 u8, U8Vec4 4 u8, U16Vec2 2 u16, U16Vec3 3 u16, U16Vec4 4 u16, UVec2 2 u32, UVec3 3 u32, UVec4 4 u32, U64Vec2 2 u64, U64Vec3 3 u64, U64Vec4 4 u64,
    I8Vec2 2 i8, I8Vec3 3 i8, I8Vec4 4 i8, I16Vec2 2 i16, I16Vec3 3 i16, I16Vec4 4 i16, IVec2 2 i32, IVec3 3 i32, IVec4 4 i32, I64Vec2 2 i64, I64Vec3 3 i64, I64Vec4 4 i64,
    Vec2 2 f32, Vec3 3 f32, Vec3A 3 f32, Vec4 4 f32, Quat 4 f32, DVec2 2 f64, DVec3 3 f64, DVec4 4 f64, DQuat 4 f64);
macro_rules! gbool { ($($t:ident $n:literal: $($x:ident)*),*) => { $(impl Cx for glam::$t {
    fn dec(v: &Value) -> Self { Self::from_array(<[bool; $n]>::dec(v)) }
    fn enc(&self) -> Value { json!([$(self.$x),*]) }
    fn rnd(r: &mut Rng, d: u32) -> Self { Self::from_array(<[bool; $n]>::rnd(r, d)) }
})* } }
gbool!(BVec2 2: x y, BVec3 3: x y z, BVec4 4: x y z w);
macro_rules! gmat { ($($t:ident $n:literal $c:ty: $($x:ident)*),*) => { $(impl Cx for glam::$t {
    fn dec(v: &Value) -> Self { Self::from_cols_array_2d(&<[[$c; $n]; $n]>::dec(v)) }
    fn enc(&self) -> Value { self.to_cols_array_2d().enc() }
    fn rnd(r: &mut Rng, d: u32) -> Self { Self::from_cols_array_2d(&<[[$c; $n]; $n]>::rnd(r, d)) }
})* } }
gmat!(Mat2 2 f32:, Mat3 3 f32:, Mat3A 3 f32:, Mat4 4 f32:, DMat2 2 f64:, DMat3 3 f64:, DMat4 4 f64:);
macro_rules! gaff { ($($t:ident $m:ident $mat:ty, $vec:ty;)*) => { $(impl Cx for glam::$t {
    fn dec(v: &Value) -> Self { Self { $m: <$mat>::dec(&v[0]), translation: <$vec>::dec(&v[1]) } }
    fn enc(&self) -> Value { json!([self.$m.enc(), self.translation.enc()]) }
    fn rnd(r: &mut Rng, d: u32) -> Self { Self { $m: <$mat>::rnd(r, d), translation: <$vec>::rnd(r, d) } }
})* } }
gaff! { Affine2 matrix2 glam::Mat2, glam::Vec2; Affine3A matrix3 glam::Mat3A, glam::Vec3A; DAffine2 matrix2 glam::DMat2, glam::DVec2; DAffine3 matrix3 glam::DMat3, glam::DVec3; }

/// A document value as the specification sees it.
pub fn describe(v: &toml::Value) -> Value {
    let n = |s: &str| s.chars().count();
    match v {
        toml::Value::String(s) => json!(["str", s.value(), n(s.value())]),
        toml::Value::Integer(i) => json!(["int", i.value().to_string()]),
        toml::Value::Float(f) => { let x = *f.value(); json!(["float", f64text(x), if x.is_finite() && (x as f32).is_infinite() { "over".into() } else { f32text(x as f32) }]) }
        toml::Value::Boolean(b) => json!(["bool", b.value()]),
        toml::Value::Datetime(d) => json!(["dt", d.value().to_string()]),
        toml::Value::Array(a) => json!(["arr", a.iter().map(describe).collect::<Vec<_>>()]),
        toml::Value::InlineTable(t) => json!(["tab", t.iter().map(|(k, v)| json!([k, n(k), describe(v)])).collect::<Vec<_>>()]),
    }
}
pub fn build(d: &Value) -> toml::Value {
    match d[0].as_str().unwrap() {
        "str" => d[1].as_str().unwrap().into(),
        "int" => d[1].as_str().unwrap().parse::<i64>().unwrap().into(),
        "float" => f64of(d[1].as_str().unwrap()).into(),
        "bool" => d[1].as_bool().unwrap().into(),
        "dt" => d[1].as_str().unwrap().parse::<toml::Datetime>().unwrap().into(),
        "arr" => toml::Value::Array(arr(&d[1]).iter().map(build).collect()),
        _ => toml::Value::InlineTable(arr(&d[1]).iter().map(|p| (p[0].as_str().unwrap().to_string(), build(&p[2]))).collect()),
    }
}
/// Writes a document value into a document, and reads it back.
fn reread(v: toml::Value) -> Option<toml::Value> {
    let mut doc = toml::DocumentMut::new();
    doc.insert("x", toml::Item::Value(v));
    doc.to_string().parse::<toml::DocumentMut>().ok()?.remove("x")?.into_value().ok()
}

/// A small random change of a document value.
pub fn damage(v: toml::Value, r: &mut Rng) -> toml::Value {
    let other = |r: &mut Rng| -> toml::Value { match r.below(9) { 0 => true.into(), 1 => (bits(r) as i64).into(), 2 => f64::rnd(r, 0).into(), 3 => wild(r).into(), 4 => toml::Datetime::rnd(r, 0).into(),
        5 => toml::Value::Array(toml::Array::new()), 6 => toml::Value::InlineTable(toml::InlineTable::new()), 7 => (r.below(300) as i64 - 20).into(), _ => "12".into() } };
    match v {
        toml::Value::Array(mut a) if r.chance(0.8) => {
            let n = a.len();
            match r.below(4) {
                0 => { let x = if n > 0 && r.chance(0.6) { a.get(ix(r, n)).unwrap().clone() } else { other(r) }; a.insert(ix(r, n + 1), x); }
                1 if n > 0 => { a.remove(ix(r, n)); }
                _ if n > 0 => { let k = ix(r, n); let x = a.get(k).unwrap().clone(); a.replace(k, damage(x, r)); }
                _ => return other(r),
            }
            toml::Value::Array(a)
        }
        toml::Value::InlineTable(t) if r.chance(0.8) => {
            let mut kv: Vec<(String, toml::Value)> = t.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let n = kv.len();
            match r.below(4) {
                0 => kv.push((r.pick(&["value", "x", "", "long key", "\u{1F600}"]).to_string(), other(r))),
                1 if n > 0 => { kv.remove(ix(r, n)); }
                2 if n > 0 => { let k = ix(r, n); kv[k].0 = r.pick(&["value", "y", "", "zz", "\u{c4}"]).to_string(); }
                _ if n > 0 => { let k = ix(r, n); let x = kv[k].1.clone(); kv[k].1 = damage(x, r); }
                _ => return other(r),
            }
            toml::Value::InlineTable(kv.into_iter().collect())
        }
        toml::Value::Integer(i) if r.chance(0.5) => { let i = *i.value(); (match r.below(5) { 0 => i.wrapping_add(1), 1 => i.wrapping_sub(1), 2 => i.wrapping_neg(), 3 => i ^ (1i64 << r.below(64)), _ => i.wrapping_mul(256) }).into() }
        toml::Value::String(s) if r.chance(0.5) => { let s = s.value().clone(); match r.below(3) { 0 => s + "x", 1 => { let mut c: Vec<char> = s.chars().collect(); c.pop(); c.into_iter().collect::<String>() } _ => format!(" {s}") }.into() }
        _ => other(r),
    }
}

pub struct Entry { pub name: &'static str, pub glam: bool, rt: fn(&Value) -> Value, dec: fn(&Value) -> Value, rnd: fn(&mut Rng) -> Value, doc: fn(&mut Rng) -> toml::Value }
fn answer<T: Cx>(f: impl FnOnce() -> Option<T>) -> Value {
    match catch_unwind(AssertUnwindSafe(|| f().map(|x| x.enc()))) { Ok(Some(v)) => json!(["yes", v]), Ok(None) => json!(["no"]), Err(_) => json!(["panic"]) }
}
fn rt<T: Cx>(v: &Value) -> Value {
    let x = T::dec(v);
    let text = answer(|| T::from_value(reread(x.to_value())?));
    let plain = answer(|| T::from_value(x.to_value()));
    json!([text, plain])
}
fn dec<T: Cx>(d: &Value) -> Value {
    let v = build(d);
    let text = answer(|| T::from_value(reread(v.clone()).expect("the document")));
    let plain = answer(|| T::from_value(v.clone()));
    json!([text, plain])
}
fn doc<T: Cx>(r: &mut Rng) -> toml::Value { T::rnd(r, 3).to_value() }
fn entry<T: Cx>(name: &'static str, glam: bool) -> Entry { Entry { name, glam, rt: rt::<T>, dec: dec::<T>, rnd: |r| T::rnd(r, 3).enc(), doc: doc::<T> } }
macro_rules! table { ($($n:literal $t:ty;)* glam: $($g:ident)*) => { vec![$(entry::<$t>($n, false),)* $(entry::<glam::$g>(stringify!($g), true),)*] } }

thread_local! { static TABLE: Vec<Entry> = table! {
    "bool" bool; "u8" u8; "u16" u16; "u32" u32; "u64" u64; "i8" i8; "i16" i16; "i32" i32; "i64" i64; "f32" f32; "f64" f64; "char" char; "String" String; "NodePath" NodePath; "PathBuf" PathBuf;
    "Ipv4Addr" Ipv4Addr; "Ipv6Addr" Ipv6Addr; "IpAddr" IpAddr; "Duration" Duration; "Datetime" toml::Datetime;
    "Option<i8>" Option<i8>; "Option<String>" Option<String>; "Option<Option<bool>>" Option<Option<bool>>; "Option<Vec<u16>>" Option<Vec<u16>>; "Option<BTreeMap<String,u8>>" Option<BTreeMap<String, u8>>; "Option<Box<char>>" Option<Box<char>>;
    "Vec<u8>" Vec<u8>; "Vec<f32>" Vec<f32>; "Vec<String>" Vec<String>; "Vec<Vec<i64>>" Vec<Vec<i64>>; "Vec<Option<u32>>" Vec<Option<u32>>; "Vec<(i8,char)>" Vec<(i8, char)>; "Vec<Datetime>" Vec<toml::Datetime>;
    "HashSet<u8>" HashSet<u8>; "HashSet<String>" HashSet<String>; "HashSet<Vec<bool>>" HashSet<Vec<bool>>; "BTreeSet<i16>" BTreeSet<i16>; "BTreeSet<char>" BTreeSet<char>; "BTreeSet<Option<u64>>" BTreeSet<Option<u64>>;
    "HashMap<char,u8>" HashMap<char, u8>; "HashMap<char,Vec<char>>" HashMap<char, Vec<char>>; "HashMap<String,i32>" HashMap<String, i32>; "HashMap<String,HashMap<String,bool>>" HashMap<String, HashMap<String, bool>>;
    "BTreeMap<char,f64>" BTreeMap<char, f64>; "BTreeMap<char,Option<i8>>" BTreeMap<char, Option<i8>>; "BTreeMap<String,u64>" BTreeMap<String, u64>; "BTreeMap<String,[u8;2]>" BTreeMap<String, [u8; 2]>;
    "Box<i32>" Box<i32>; "Rc<String>" Rc<String>; "Arc<Vec<u8>>" Arc<Vec<u8>>; "Mutex<Option<u16>>" Mutex<Option<u16>>; "Box<Rc<Arc<bool>>>" Box<Rc<Arc<bool>>>;
    "[u8;0]" [u8; 0]; "[i8;1]" [i8; 1]; "[u16;3]" [u16; 3]; "[String;2]" [String; 2]; "[[bool;2];2]" [[bool; 2]; 2]; "[Option<u8>;2]" [Option<u8>; 2]; "[char;5]" [char; 5]; "[f64;4]" [f64; 4];
    "(u8,)" (u8,); "(u8,i8)" (u8, i8); "(bool,char,String)" (bool, char, String); "(u16,f32,i64,bool)" (u16, f32, i64, bool); "(u8,u16,u32,u64,i8)" (u8, u16, u32, u64, i8);
    "(i8,i16,i32,i64,f32,f64)" (i8, i16, i32, i64, f32, f64); "(char,u8,char,u8,char,u8,char)" (char, u8, char, u8, char, u8, char);
    "(bool,u8,bool,u16,bool,u32,bool,u64)" (bool, u8, bool, u16, bool, u32, bool, u64); "(u8,u8,u8,u8,u8,u8,u8,u8,i16)" (u8, u8, u8, u8, u8, u8, u8, u8, i16);
    "(i8,u8,i16,u16,i32,u32,i64,u64,bool,char)" (i8, u8, i16, u16, i32, u32, i64, u64, bool, char); "((u8,bool),[i8;2])" ((u8, bool), [i8; 2]); "(Option<(i8,)>,Vec<Option<bool>>)" (Option<(i8,)>, Vec<Option<bool>>);
    glam: BVec2 BVec3 BVec4 U8Vec2 U8Vec3 U8Vec4 U16Vec2 U16Vec3 U16Vec4 UVec2 UVec3 UVec4 U64Vec2 U64Vec3 U64Vec4 I8Vec2 I8Vec3 I8Vec4 I16Vec2 I16Vec3 I16Vec4 IVec2 IVec3 IVec4 I64Vec2 I64Vec3 I64Vec4
          Vec2 Vec3 Vec3A Vec4 Quat DVec2 DVec3 DVec4 DQuat Mat2 Mat3 Mat3A Mat4 DMat2 DMat3 DMat4 Affine2 Affine3A DAffine2 DAffine3
}; }

pub fn run(rec: &mut Rec, start: &Value, ops: &[Value]) {
    TABLE.with(|t| {
        let e = t.iter().find(|e| e.name == s(start, "t")).unwrap_or_else(|| { eprintln!("unknown type {}", s(start, "t")); std::process::exit(2) });
        for op in ops {
            let got = match s(op, "op") { "rt" => (e.rt)(&op["v"]), _ => (e.dec)(&op["doc"]) };
            rec.put(event(op, json!({ "got": got })));
        }
    })
}

pub fn make(r: &mut Rng, glam: bool) -> (Value, Vec<Value>) {
    TABLE.with(|t| {
        let own: Vec<&Entry> = t.iter().filter(|e| e.glam == glam).collect();
        let e = *r.pick(&own);
        let ops = (0..12).map(|_| match r.below(5) {
            0 | 1 => json!({ "op": "rt", "v": (e.rnd)(r) }),
            k => {
                let mut v = if k == 2 { let o = *r.pick(&own); (o.doc)(r) } else { (e.doc)(r) };
                for _ in 0..r.below(3) + (k > 2) as u64 { v = damage(v, r); }
                json!({ "op": "dec", "doc": describe(&v) })
            }
        }).collect();
        (json!({ "t": e.name }), ops)
    })
}
