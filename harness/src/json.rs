//! unjson: typed access to JSON objects.
use crate::sx::*;
use serde_json::value::Value;
use std::collections::BTreeMap;
use unjson::error::Error;
use unjson::result::Result;
use unjson::ty::{Array, Object, Ty, TyOf};
use unjson::{ExtractField, GetField, Unjson};

#[derive(Clone)]
enum Out {
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    V(Value),
    None,
    Missing(&'static str),
    Type(&'static str, Ty),
    Other,
}

/// serde_json's own equality, except that doubles are compared bit by bit
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::F64(x), &Value::F64(y)) => x.to_bits() == y.to_bits(),
        (&Value::Array(ref x), &Value::Array(ref y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| same(a, b)),
        (&Value::Object(ref x), &Value::Object(ref y)) => same_obj(x, y),
        (a, b) => a == b,
    }
}
fn same_obj(x: &Object, y: &Object) -> bool {
    x.len() == y.len() && x.iter().zip(y.iter()).all(|((k, a), (l, b))| k == l && same(a, b))
}
fn same_f(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}
fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (&Out::Bool(x), &Out::Bool(y)) => x == y,
        (&Out::I(x), &Out::I(y)) => x == y,
        (&Out::U(x), &Out::U(y)) => x == y,
        (&Out::F(x), &Out::F(y)) => same_f(x, y),
        (&Out::V(ref x), &Out::V(ref y)) => same(x, y),
        (&Out::None, &Out::None) => true,
        (&Out::Missing(x), &Out::Missing(y)) => x == y,
        // the message names the wanted type first; "or null" may follow
        (&Out::Type(x, t), &Out::Type(y, u)) => x.starts_with(y) && t == u,
        _ => false,
    }
}

fn text() -> String {
    let n = choice(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(sym_char(&[[0x20, 0x7e], [0xe9, 0xe9], [0x1f600, 0x1f600]]));
    }
    s
}
fn scalar(kind: u64) -> Value {
    match kind {
        0 => Value::Null,
        1 => Value::Bool(sym_bool()),
        2 => Value::I64(sym(64, 0, u64::MAX) as i64),
        3 => Value::U64(sym(64, 0, u64::MAX)),
        4 => Value::F64(f64::from_bits(sym(64, 0, u64::MAX))),
        _ => Value::String(text()),
    }
}
fn value() -> Value {
    match choice(8) {
        6 => {
            let n = choice(3);
            let mut v = Vec::new();
            for i in 0..n {
                v.push(if i == 0 { Value::U64(sym(64, 0, u64::MAX)) } else { Value::Null });
            }
            Value::Array(v)
        }
        7 => {
            let mut o = BTreeMap::new();
            if sym_bool() {
                o.insert("k".to_string(), Value::Bool(sym_bool()));
            }
            if sym_bool() {
                o.insert("a".to_string(), Value::Null);
            }
            Value::Object(o)
        }
        k => scalar(k),
    }
}

const STRING: u64 = 0;
const ARRAY: u64 = 1;
const OBJECT: u64 = 2;
const BOOL: u64 = 3;
const I64: u64 = 4;
const U64: u64 = 5;
const F64: u64 = 6;
const NUMBER: u64 = 7;

fn kind_of(v: &Value) -> Ty {
    match *v {
        Value::Null => Ty::Null,
        Value::Bool(_) => Ty::Boolean,
        Value::I64(_) | Value::U64(_) | Value::F64(_) => Ty::Number,
        Value::String(_) => Ty::String,
        Value::Array(_) => Ty::Array,
        Value::Object(_) => Ty::Object,
    }
}

/// what converting `v` to the wanted type must give
fn convert(v: &Value, want: u64, opt: bool) -> Out {
    if opt {
        if let Value::Null = *v {
            return Out::None;
        }
    }
    let name = ["string", "array", "object", "boolean", "i64", "u64", "f64", "number"][want as usize];
    let bad = Out::Type(name, kind_of(v));
    match (want, v) {
        (STRING, &Value::String(_)) | (ARRAY, &Value::Array(_)) | (OBJECT, &Value::Object(_)) => Out::V(v.clone()),
        (BOOL, &Value::Bool(b)) => Out::Bool(b),
        (I64, &Value::I64(i)) => Out::I(i),
        (I64, &Value::U64(u)) if u < 1 << 63 => Out::I(u as i64),
        (U64, &Value::U64(u)) => Out::U(u),
        (U64, &Value::I64(i)) if i >= 0 => Out::U(i as u64),
        (F64, &Value::F64(f)) | (NUMBER, &Value::F64(f)) => Out::F(f),
        (F64, &Value::I64(i)) | (NUMBER, &Value::I64(i)) => Out::F(i as f64),
        (F64, &Value::U64(u)) | (NUMBER, &Value::U64(u)) => Out::F(u as f64),
        _ => bad,
    }
}

fn out<T, F: Fn(T) -> Out>(r: Result<T>, f: F) -> Out {
    match r {
        Ok(v) => f(v),
        Err(Error::MissingField(n)) => Out::Missing(n),
        Err(Error::TypeMismatch(e, t)) => Out::Type(e, t),
        Err(_) => Out::Other,
    }
}
fn oopt<T, F: Fn(T) -> Out>(r: Result<Option<T>>, f: F) -> Out {
    out(r, |v| match v {
        Some(v) => f(v),
        None => Out::None,
    })
}
fn get(o: &Object, n: &'static str, want: u64, opt: bool) -> Out {
    match (want, opt) {
        (STRING, false) => out(o.get_string(n), |s| Out::V(Value::String(s.to_string()))),
        (ARRAY, false) => out(o.get_array(n), |s| Out::V(Value::Array(s.clone()))),
        (OBJECT, false) => out(o.get_object(n), |s| Out::V(Value::Object(s.clone()))),
        (BOOL, false) => out(o.get_bool(n), Out::Bool),
        (I64, false) => out(o.get_i64(n), Out::I),
        (U64, false) => out(o.get_u64(n), Out::U),
        (F64, false) => out(o.get_f64(n), Out::F),
        (_, false) => out(o.get_number(n), Out::F),
        (STRING, true) => oopt(o.get_string_opt(n), |s| Out::V(Value::String(s.to_string()))),
        (ARRAY, true) => oopt(o.get_array_opt(n), |s| Out::V(Value::Array(s.clone()))),
        (OBJECT, true) => oopt(o.get_object_opt(n), |s| Out::V(Value::Object(s.clone()))),
        (BOOL, true) => oopt(o.get_bool_opt(n), Out::Bool),
        (I64, true) => oopt(o.get_i64_opt(n), Out::I),
        (U64, true) => oopt(o.get_u64_opt(n), Out::U),
        (F64, true) => oopt(o.get_f64_opt(n), Out::F),
        (_, true) => oopt(o.get_number_opt(n), Out::F),
    }
}
fn extract(o: &mut Object, n: &'static str, want: u64, opt: bool) -> Out {
    let arr = |a: Array| Out::V(Value::Array(a));
    let obj = |a: Object| Out::V(Value::Object(a));
    let st = |a: String| Out::V(Value::String(a));
    match (want, opt) {
        (STRING, false) => out(o.extract_string(n), st),
        (ARRAY, false) => out(o.extract_array(n), arr),
        (OBJECT, false) => out(o.extract_object(n), obj),
        (BOOL, false) => out(o.extract_bool(n), Out::Bool),
        (I64, false) => out(o.extract_i64(n), Out::I),
        (U64, false) => out(o.extract_u64(n), Out::U),
        (F64, false) => out(o.extract_f64(n), Out::F),
        (_, false) => out(o.extract_number(n), Out::F),
        (STRING, true) => oopt(o.extract_string_opt(n), st),
        (ARRAY, true) => oopt(o.extract_array_opt(n), arr),
        (OBJECT, true) => oopt(o.extract_object_opt(n), obj),
        (BOOL, true) => oopt(o.extract_bool_opt(n), Out::Bool),
        (I64, true) => oopt(o.extract_i64_opt(n), Out::I),
        (U64, true) => oopt(o.extract_u64_opt(n), Out::U),
        (F64, true) => oopt(o.extract_f64_opt(n), Out::F),
        (_, true) => oopt(o.extract_number_opt(n), Out::F),
    }
}
fn plain(v: Value, want: u64, opt: bool) -> Out {
    let arr = |a: Array| Out::V(Value::Array(a));
    let obj = |a: Object| Out::V(Value::Object(a));
    let st = |a: String| Out::V(Value::String(a));
    match (want, opt) {
        (STRING, false) => out(v.into_string(), st),
        (ARRAY, false) => out(v.into_array(), arr),
        (OBJECT, false) => out(v.into_object(), obj),
        (BOOL, false) => out(v.to_bool(), Out::Bool),
        (I64, false) => out(v.to_i64(), Out::I),
        (U64, false) => out(v.to_u64(), Out::U),
        (F64, false) => out(v.to_f64(), Out::F),
        (_, false) => out(v.to_number(), Out::F),
        (STRING, true) => oopt(v.into_string_opt(), st),
        (ARRAY, true) => oopt(v.into_array_opt(), arr),
        (OBJECT, true) => oopt(v.into_object_opt(), obj),
        (BOOL, true) => oopt(v.to_bool_opt(), Out::Bool),
        (I64, true) => oopt(v.to_i64_opt(), Out::I),
        (U64, true) => oopt(v.to_u64_opt(), Out::U),
        (F64, true) => oopt(v.to_f64_opt(), Out::F),
        (_, true) => oopt(v.to_number_opt(), Out::F),
    }
}

const NAMES: [&'static str; 4] = ["a", "ab", "b", ""];

/// params: check (1 plain getters, 2 optional ones, 3 what is left behind, 4 numbers),
/// wanted type
#[no_mangle]
pub fn h_json() {
    let what = param(0);
    let want = param(1);
    // an object with any of the four fields, the interesting one holding any value
    let name = NAMES[choice(4) as usize];
    let mut o: Object = BTreeMap::new();
    for n in NAMES.iter() {
        if sym_bool() {
            let v = if *n == name { value() } else { Value::U64(n.len() as u64 + 7) };
            o.insert(n.to_string(), v);
        }
    }
    let held = o.get(name).cloned();
    let opt = match what {
        1 => false,
        2 => true,
        _ => sym_bool(),
    };
    if what == 4 {
        // numbers only, but every way of asking must agree with the number itself
        match held {
            Some(Value::I64(_)) | Some(Value::U64(_)) | Some(Value::F64(_)) => {}
            _ => return,
        }
    }
    let expect = match held {
        None => Out::Missing(name),
        Some(ref v) => convert(v, want, opt),
    };
    let id = what * 100;
    guard(CLAIMED);
    let before = o.clone();
    if what == 3 {
        if sym_bool() {
            let _ = get(&o, name, want, opt);
            guard(HARNESS);
            check(same_obj(&o, &before), 301);
            reach(0);
        } else {
            let mut left = before.clone();
            left.remove(name);
            if sym_bool() {
                let _ = extract(&mut o, name, want, opt);
            } else {
                let r = o.extract_field(name);
                match (r, held) {
                    (Ok(ref v), Some(ref w)) => check(same(v, w), 302),
                    (Err(Error::MissingField(n)), None) => check(n == name, 303),
                    _ => fail(304),
                }
            }
            guard(HARNESS);
            check(same_obj(&o, &left), 305);
            reach(1);
        }
        return;
    }
    if let Some(ref v) = held {
        check(v.ty() == kind_of(v), id + 1);
        check(same_out(&plain(v.clone(), want, opt), &expect), id + 2);
    }
    match (o.get_field(name), &held) {
        (Ok(v), &Some(ref w)) => check(same(v, w), id + 3),
        (Err(Error::MissingField(n)), &None) => check(n == name, id + 4),
        _ => fail(id + 5),
    }
    check(same_out(&get(&o, name, want, opt), &expect), id + 6);
    check(same_out(&extract(&mut o, name, want, opt), &expect), id + 7);
    guard(HARNESS);
    match expect {
        Out::Missing(_) => reach(2),
        Out::Type(..) => reach(3),
        Out::None => reach(4),
        _ => reach(5),
    }
}
