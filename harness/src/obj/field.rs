//! The kinds of node fields, on their own.
use super::*;
use node_tree::prelude::*;

/// What all kinds of fields can do, and what only some can (None where a kind cannot).
trait Kind: Sized {
    fn make(v: i32) -> Self;
    fn from(v: i32) -> Self;
    fn void() -> Self;
    fn get(&self) -> i32;
    fn set(&mut self, v: i32);
    fn write(&mut self, v: i32) -> Option<Option<i32>>;
    fn reach(&self) -> Option<bool>;
    fn is_void(&self) -> Option<bool>;
    fn take(&mut self) -> Option<Option<i32>>;
    fn force(self) -> Option<i32>;
    fn copy(&self) -> Self;
    fn with(&mut self, o: &str, v: i32);
    fn with_field(&mut self, o: &str, f: Self);
    fn ghost(&self) -> bool;
}

macro_rules! arith { () => {
    fn with(&mut self, o: &str, v: i32) {
        match o { "+" => *self += v, "-" => *self -= v, "*" => *self *= v, "/" => *self /= v, "%" => *self %= v,
                  "|" => *self |= v, "^" => *self ^= v, "&" => *self &= v, "<<" => *self <<= v, ">>" => *self >>= v, _ => unreachable!() }
    }
    fn with_field(&mut self, o: &str, f: Self) {
        match o { "+" => *self += f, "-" => *self -= f, "*" => *self *= f, "/" => *self /= f, "%" => *self %= f,
                  "|" => *self |= f, "^" => *self ^= f, "&" => *self &= f, "<<" => *self <<= f, ">>" => *self >>= f, _ => unreachable!() }
    }
    fn copy(&self) -> Self { self.clone() }
    fn from(v: i32) -> Self { v.into() }
    fn make(v: i32) -> Self { Self::new(v) }
    fn void() -> Self { <Self as Voidable>::void() }
    fn get(&self) -> i32 { **self }
    fn set(&mut self, v: i32) { **self = v; }
    fn ghost(&self) -> bool { unsafe { self.is_ghost_export() } }
} }
macro_rules! voidable { ($t:ty) => { impl Kind for $t {
    arith!();
    fn write(&mut self, v: i32) -> Option<Option<i32>> { Some(self.write_valid(v)) }
    fn reach(&self) -> Option<bool> { Some(self.is_reachable()) }
    fn is_void(&self) -> Option<bool> { Some(<$t>::is_void(self)) }
    fn take(&mut self) -> Option<Option<i32>> { Some(<$t>::take(self)) }
    fn force(self) -> Option<i32> { Some(self.force_take()) }
} } }
macro_rules! always { ($t:ty) => { impl Kind for $t {
    arith!();
    fn write(&mut self, _: i32) -> Option<Option<i32>> { None }
    fn reach(&self) -> Option<bool> { None }
    fn is_void(&self) -> Option<bool> { None }
    fn take(&mut self) -> Option<Option<i32>> { None }
    fn force(self) -> Option<i32> { None }
} } }
voidable!(Field<i32>);
voidable!(UniqueField<i32>);
always!(ExportableField<i32>);
always!(DefaultField<i32>);

fn content<K: Kind>(f: &K) -> Value { match catch_unwind(AssertUnwindSafe(|| f.get())) { Ok(v) => json!([v]), Err(_) => json!([]) } }

fn drive<K: Kind>(rec: &mut Rec, start: &Value, ops: &[Value]) {
    // Two fields, so that it shows if an operation acts on the wrong one.
    let first = |v: &Value| match v.as_array().and_then(|a| a.first()).and_then(|x| x.as_i64()) { Some(v) => K::make(v as i32), None => K::void() };
    let mut fs: Vec<K> = start["v"].as_array().unwrap().iter().map(first).collect();
    let obs = |fs: &Vec<K>| Value::Array(fs.iter().map(content).collect());
    rec.put(json!({ "e": "op", "op": "look", "f": 1, "got": "ok", "o": obs(&fs) }));
    for op in ops {
        let k = (i(op, "f").max(1) as usize - 1).min(fs.len() - 1);
        let v = i(op, "v") as i32;
        let got = guarded(|| {
            let na = || json!("n/a");
            match s(op, "op") {
                "get" => json!(fs[k].get()),
                "set" => { fs[k].set(v); json!("ok") }
                "write" => fs[k].write(v).map(opt).unwrap_or_else(na),
                "reach" => fs[k].reach().map(|x| json!(x)).unwrap_or_else(na),
                "isvoid" => fs[k].is_void().map(|x| json!(x)).unwrap_or_else(na),
                "take" => fs[k].take().map(opt).unwrap_or_else(na),
                "force" => { let f = std::mem::replace(&mut fs[k], K::void()); f.force().map(|x| json!(x)).unwrap_or_else(na) }
                "from" => { fs[k] = K::from(v); json!("ok") }
                "void" => { fs[k] = K::void(); json!("ok") }
                "copy" => { let c = fs[k].copy(); let o = 1 - k; fs[o] = c; json!("ok") }
                "with" => { fs[k].with(s(op, "o2"), v); json!("ok") }
                "withf" => { let r = if op["r"].as_array().unwrap().is_empty() { K::void() } else { K::make(op["r"][0].as_i64().unwrap() as i32) };
                             fs[k].with_field(s(op, "o2"), r); json!("ok") }
                "ghost" => json!(fs[k].ghost()),
                _ => json!("ok"),
            }
        });
        rec.put(event(op, json!({ "f": k + 1, "got": got, "o": obs(&fs) })));
    }
}

pub fn run(rec: &mut Rec, start: &Value, ops: &[Value]) {
    match s(start, "k") {
        "plain" => drive::<Field<i32>>(rec, start, ops),
        "unique" => drive::<UniqueField<i32>>(rec, start, ops),
        "export" => drive::<ExportableField<i32>>(rec, start, ops),
        _ => drive::<DefaultField<i32>>(rec, start, ops),
    }
}
