//! C13: serialization round-trips, and malformed input is an error.
use std::fmt::Debug;

use harness::track::{self, Elem, Tr};
use harness::*;
use mdarray::{Array, ConstShape, Dense, Slice, Strided, Tensor};
use serde::de::{DeserializeOwned, DeserializeSeed, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer, forward_to_deserialize_any};
use serde_json::{Value, json};

/// Element with identity, for the balance of constructed and dropped elements.
struct El(Tr);

impl<'a> Deserialize<'a> for El {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        Ok(El(Tr::make(i32::deserialize(d)? as i64)))
    }
}

impl Serialize for El {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i32(self.0.val() as i32)
    }
}

/// Nested sequences of the elements.
fn nested(dims: &[usize], vals: &[i32]) -> Value {
    if dims.is_empty() {
        return json!(vals[0]);
    }
    let n = product(&dims[1..]);
    Value::Array((0..dims[0]).map(|k| nested(&dims[1..], &vals[k * n..(k + 1) * n])).collect())
}

/// Dimensions and elements of a value, if it is a valid array with the given constant sizes.
fn decode(v: &Value, pat: &[i64], vals: &mut Vec<i32>) -> Option<Vec<usize>> {
    if pat.is_empty() {
        vals.push(serde_json::from_value(v.clone()).ok()?);
        return Some(vec![]);
    }
    let list = v.as_array()?;
    if pat[0] >= 0 && pat[0] as usize != list.len() {
        return None;
    }
    let mut dims = vec![list.len()];
    let mut inner: Option<Vec<usize>> = None;
    for x in list {
        let d = decode(x, &pat[1..], vals)?;
        if inner.as_ref().is_some_and(|i| *i != d) {
            return None;
        }
        inner = Some(d);
    }
    dims.extend(inner.unwrap_or_else(|| pat[1..].iter().map(|&p| p.max(0) as usize).collect()));
    Some(dims)
}

/// Dimensions up to the first empty one, which are those that the sequences represent.
fn known_dims(dims: &[usize]) -> &[usize] {
    match dims.iter().position(|&d| d == 0) {
        Some(k) => &dims[..=k],
        None => dims,
    }
}

/// Deserializer over a JSON value whose sequences report inexact sizes.
struct Hinted<'a>(&'a Value, isize, bool);

struct HintedSeq<'a>(std::slice::Iter<'a, Value>, isize, bool);

impl<'a, 'de> Deserializer<'de> for Hinted<'a> {
    type Error = serde_json::Error;

    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
        match self.0 {
            Value::Array(a) => visitor.visit_seq(HintedSeq(a.iter(), self.1, self.2)),
            v => v.clone().deserialize_any(visitor),
        }
    }

    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'a, 'de> SeqAccess<'de> for HintedSeq<'a> {
    type Error = serde_json::Error;

    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        match self.0.next() {
            Some(v) => seed.deserialize(Hinted(v, self.1, self.2)).map(Some),
            None => Ok(None),
        }
    }

    fn size_hint(&self) -> Option<usize> {
        if self.2 { None } else { Some((self.0.len() as isize + self.1).max(0) as usize) }
    }
}

/// A damaged copy of the value.
fn damage(cx: &mut Ctx, v: &mut Value, depth: usize) {
    // Walk to a random node, preferably the last or the first of its siblings.
    if let Value::Array(a) = v {
        if !a.is_empty() && cx.src.chance(3, 4) {
            let k = match cx.src.below(3) {
                0 => a.len() - 1,
                1 => 0,
                _ => cx.src.below(a.len()),
            };
            return damage(cx, &mut a[k], depth + 1);
        }
    }
    let what = cx.src.below(12);
    cx.note(|| format!("change {what} at depth {depth} of {v}"));
    *v = match (what, v.take()) {
        (0, Value::Array(mut a)) => {
            a.pop();
            Value::Array(a)
        }
        (1, Value::Array(mut a)) => {
            let x = a.last().cloned().unwrap_or(json!(1));
            a.push(x);
            Value::Array(a)
        }
        (2, Value::Array(mut a)) => {
            a.push(json!(5));
            Value::Array(a)
        }
        (3, Value::Array(mut a)) => {
            a.push(json!([]));
            Value::Array(a)
        }
        (4, Value::Array(mut a)) => {
            if !a.is_empty() {
                a.remove(0);
            }
            Value::Array(a)
        }
        (5, Value::Array(a)) if a.len() == 1 => a.into_iter().next().unwrap(),
        (5 | 6, x) => json!([x]),
        (7, _) => json!([]),
        (8, _) => Value::Null,
        (9, _) => json!({"a": 1}),
        (10, _) => json!("7"),
        (11, _) => json!(1.5),
        (0, x) => json!([x, x]),
        (1, _) => json!(true),
        (2, _) => json!(i64::MAX),
        (_, _) => json!(77),
    };
}

/// Deserializes and compares with the expected outcome.
fn read<A: DeserializeOwned>(
    cx: &mut Ctx,
    what: &str,
    v: &Value,
    pat: &[i64],
    get: fn(&A) -> (Vec<usize>, Vec<i32>),
) -> Res {
    let mut vals = Vec::new();
    let want = decode(v, pat, &mut vals);
    cx.tag(if want.is_some() { "accepted" } else { "rejected" });
    let before = track::live();
    let kind = cx.src.below(4);
    let r = caught(|| match kind {
        0 => serde_json::from_str::<A>(&v.to_string()),
        1 => serde_json::from_value::<A>(v.clone()),
        2 => A::deserialize(Hinted(v, 0, true)),
        _ => A::deserialize(Hinted(v, cx.src.irange(-3, 3), false)),
    });
    let Some(r) = r else {
        return Err(format!("{what} of {v} panics: {}", last_panic()));
    };
    match (r, want) {
        (Ok(a), Some(d)) => {
            let (dims, got) = get(&a);
            ensure_eq!(known_dims(&dims), known_dims(&d), "{what} of {v}: dimensions");
            ensure_eq!(dims.len(), pat.len(), "{what} of {v}: rank");
            for (&x, &p) in dims.iter().zip(pat) {
                ensure!(p < 0 || p as usize == x, "{what} of {v}: dimensions {dims:?} with constant sizes {pat:?}");
            }
            ensure_eq!(got, vals, "{what} of {v}: elements");
        }
        (Ok(a), None) => return Err(format!("{what} accepts {v} as {:?}", get(&a))),
        (Err(e), Some(d)) => return Err(format!("{what} rejects {v} with dimensions {d:?}: {e}")),
        (Err(_), None) => (),
    }
    if let Some(e) = track::take_error() {
        return Err(format!("{what} of {v}: {e}"));
    }
    ensure_eq!(track::live(), before, "{what} of {v}: live elements afterwards");
    Ok(())
}

fn slice_get<S: TestShape>(s: &Slice<i32, S>) -> (Vec<usize>, Vec<i32>) {
    (shape_dims(s.shape()), s.iter().copied().collect())
}

fn slice_get_el<S: TestShape>(s: &Slice<El, S>) -> (Vec<usize>, Vec<i32>) {
    (shape_dims(s.shape()), s.iter().map(|x| x.0.val() as i32).collect())
}

fn gen_vals(cx: &mut Ctx, n: usize) -> Vec<i32> {
    let edge = [0, -1, i32::MAX, i32::MIN, 1 << 20];
    (0..n as i32).map(|k| if cx.src.chance(1, 10) { *cx.src.pick(&edge) } else { k * 3 + 1 }).collect()
}

fn serialize<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 50);
    let vals = gen_vals(cx, product(&dims));
    cx.note(|| format!("{dims:?} {vals:?}"));
    cx.nontrivial_if(vals.len() > 1);
    let want = nested(&dims, &vals);
    let geo = Strided::geo(&mut cx.src, &dims);
    let mut buf = Buf::new(geo.extent);
    for (p, v) in geo.model().pos.iter().zip(&vals) {
        buf.set(*p, *v);
    }
    let t = view::<S, Strided>(&buf, &geo).to_tensor();
    match cx.src.below(4) {
        0 => same(&t, &want)?,
        1 => same(&t.expr(), &want)?,
        2 => same(&view::<S, Strided>(&buf, &geo), &want)?,
        _ => {
            let mut t = t;
            same(&t.expr_mut(), &want)?;
            let s: &Slice<i32, S> = &t;
            same(s, &want)?;
            same(&view_mut::<S, Strided>(&mut buf, &geo), &want)?;
        }
    }
    // The length that is announced for each sequence, which some formats write.
    let t = view::<S, Strided>(&buf, &geo).to_tensor();
    let mut tokens = Vec::new();
    token_list(&dims, &vals, &mut tokens);
    ensure!(
        caught(|| serde_test::assert_ser_tokens(&t, &tokens)).is_some(),
        "serialized tokens of {want}: {}",
        last_panic()
    );
    let v = view::<S, Strided>(&buf, &geo);
    ensure!(
        caught(|| serde_test::assert_ser_tokens(&v, &tokens)).is_some(),
        "serialized tokens of the strided {want}: {}",
        last_panic()
    );
    // Round trip.
    let text = serde_json::to_string(&v).map_err(|e| format!("serialization of {want} fails: {e}"))?;
    read::<Tensor<i32, S>>(cx, "deserialization", &serde_json::from_str(&text).unwrap(), S::PAT, |t| slice_get(t))
}

fn token_list(dims: &[usize], vals: &[i32], out: &mut Vec<serde_test::Token>) {
    use serde_test::Token;
    if dims.is_empty() {
        out.push(Token::I32(vals[0]));
        return;
    }
    let n = product(&dims[1..]);
    out.push(Token::Seq { len: Some(dims[0]) });
    for k in 0..dims[0] {
        token_list(&dims[1..], &vals[k * n..(k + 1) * n], out);
    }
    out.push(Token::SeqEnd);
}

fn same<T: Serialize + ?Sized>(x: &T, want: &Value) -> Res {
    let got = serde_json::to_value(x).map_err(|e| format!("serialization of {want} fails: {e}"))?;
    ensure_eq!(got, *want, "serialized value");
    let text = serde_json::to_string(x).map_err(|e| format!("serialization of {want} fails: {e}"))?;
    ensure_eq!(text, want.to_string(), "serialized text");
    Ok(())
}

/// Input made from other dimensions, and damaged.
fn gen_input(cx: &mut Ctx, pat: &[i64], dynrank: bool) -> Value {
    let mut dims: Vec<usize> = pat.iter().map(|&p| if p < 0 { gen_size(&mut cx.src).min(5) } else { p as usize }).collect();
    if dynrank || cx.src.chance(1, 4) {
        // Other sizes, or another rank.
        match cx.src.below(4) {
            0 => {
                dims.pop();
            }
            1 => dims.push(cx.src.below(3)),
            _ if !dims.is_empty() => {
                let k = cx.src.below(dims.len());
                dims[k] = cx.src.below(4);
            }
            _ => (),
        }
    }
    while product(&dims) > 60 {
        let k = (0..dims.len()).max_by_key(|&k| dims[k]).unwrap();
        dims[k] -= 1;
    }
    let vals = gen_vals(cx, product(&dims));
    let mut v = nested(&dims, &vals);
    cx.note(|| format!("input {dims:?}"));
    for _ in 0..cx.src.below(3) {
        damage(cx, &mut v, 0);
    }
    v
}

fn input<S: TestShape>(cx: &mut Ctx) -> Res {
    let v = gen_input(cx, S::PAT, false);
    cx.note(|| format!("{v}"));
    cx.nontrivial_if(!v.is_null() && v.to_string().len() > 6);
    if cx.src.flip() {
        read::<Tensor<i32, S>>(cx, "deserialization", &v, S::PAT, |t| slice_get(t))
    } else {
        read::<Tensor<El, S>>(cx, "deserialization of tracked elements", &v, S::PAT, |t| slice_get_el(t))
    }
}

fn inline<S: TestShape + ConstShape>(cx: &mut Ctx) -> Res
where
    Array<i32, S>: Clone,
{
    let v = gen_input(cx, S::PAT, false);
    cx.note(|| format!("{v}"));
    cx.nontrivial_if(v.to_string().len() > 6);
    if cx.src.flip() {
        read::<Array<i32, S>>(cx, "deserialization of Array", &v, S::PAT, |t| slice_get(t))?;
    } else {
        read::<Array<El, S>>(cx, "deserialization of Array with tracked elements", &v, S::PAT, |t| slice_get_el(t))?;
    }
    let dims: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
    let vals = gen_vals(cx, product(&dims));
    let mut k = 0;
    let a = Array::<i32, S>::from_fn(|_| {
        k += 1;
        vals[k - 1]
    });
    let want = nested(&dims, &vals);
    same(&a, &want)?;
    read::<Array<i32, S>>(cx, "deserialization of Array", &serde_json::to_value(&a).unwrap(), S::PAT, |t| slice_get(t))
}

/// Damaged text: an error of the text is an error of the array.
fn text<S: TestShape>(cx: &mut Ctx) -> Res {
    let v = gen_input(cx, S::PAT, false);
    let mut t: Vec<u8> = v.to_string().into_bytes();
    for _ in 0..cx.src.range(1, 3) {
        if t.is_empty() {
            break;
        }
        let k = cx.src.below(t.len());
        match cx.src.below(4) {
            0 => {
                t.remove(k);
            }
            1 => t[k] = *cx.src.pick(b"[],1e-. {}\"n"),
            2 => t.insert(k, *cx.src.pick(b"[],1e-. {}\"n")),
            _ => t.truncate(k),
        }
    }
    let t = String::from_utf8(t).unwrap();
    cx.note(|| format!("text {t}"));
    cx.nontrivial_if(t.len() > 6);
    let mut vals = Vec::new();
    let want = serde_json::from_str::<Value>(&t).ok().and_then(|v| decode(&v, S::PAT, &mut vals));
    cx.tag(if want.is_some() { "accepted" } else { "rejected" });
    let before = track::live();
    match caught(|| serde_json::from_str::<Tensor<El, S>>(&t)) {
        None => return Err(format!("deserialization of {t} panics: {}", last_panic())),
        Some(Ok(a)) => {
            ensure!(want.is_some(), "deserialization accepts {t}");
            let (dims, got) = slice_get_el(&a);
            ensure_eq!(known_dims(&dims), known_dims(want.as_ref().unwrap()), "dimensions of {t}");
            ensure_eq!(got, vals, "elements of {t}");
        }
        Some(Err(e)) => ensure!(want.is_none(), "deserialization rejects {t}: {e}"),
    }
    ensure_eq!(track::live(), before, "live elements after deserialization of {t}");
    Ok(())
}

/// Elements that are sequences or other structures themselves.
fn structures(cx: &mut Ctx) -> Res {
    let dims = gen_rank_dims(&mut cx.src, 2, 30);
    let n = product(&dims);
    cx.note(|| format!("{dims:?}"));
    cx.nontrivial_if(n > 1);
    let v: Vec<Vec<u8>> = (0..n).map(|_| (0..cx.src.below(4)).map(|k| k as u8).collect()).collect();
    round("ragged element lists", v, &dims)?;
    let v: Vec<Option<(i64, String)>> =
        (0..n).map(|k| if cx.src.flip() { Some((k as i64, format!("s\"{k}"))) } else { None }).collect();
    round("optional pairs", v, &dims)?;
    round("elements without content", vec![(); n], &dims)?;
    round("floating point numbers", (0..n).map(|k| k as f64 * 0.25).collect(), &dims)?;
    // Arrays as elements of arrays.
    let v: Vec<Array<i32, (C3,)>> = (0..n as i32).map(|k| Array::from([k, k + 1, -k])).collect();
    round("array elements", v, &dims)
}

fn round<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(what: &str, v: Vec<T>, dims: &[usize]) -> Res {
    let rows: Vec<&[T]> = (0..dims[0]).map(|k| &v[k * dims[1]..(k + 1) * dims[1]]).collect();
    let want = serde_json::to_string(&rows).unwrap();
    let t: Tensor<T, (D, D)> = Tensor::<T, (D,)>::from(v.clone()).into_shape([dims[0], dims[1]]);
    ensure_eq!(serde_json::to_string(&t).map_err(|e| e.to_string())?, want, "{what}: serialized");
    let u: Tensor<T, (D, D)> = serde_json::from_str(&want).map_err(|e| format!("{what}: {e}"))?;
    let got = shape_dims(u.shape());
    ensure_eq!(known_dims(&got), known_dims(dims), "{what}: dimensions");
    ensure_eq!(u.into_vec(), v, "{what}: elements");
    Ok(())
}

fn main() {
    let mut s = Subs::default();
    macro_rules! one {
        ($s:ty) => {
            s.add(concat!("serialize ", stringify!($s)), 2, serialize::<$s>);
            s.add(concat!("input ", stringify!($s)), 4, input::<$s>);
        };
    }
    each_static_shape!(one);
    macro_rules! fixed {
        ($s:ty) => {
            s.add(concat!("array ", stringify!($s)), 2, inline::<$s>);
        };
    }
    each_const_shape!(fixed);
    s.add("text (D,)", 4, text::<(D,)>);
    s.add("text (D, D)", 8, text::<(D, D)>);
    s.add("text (C2, D, C3)", 8, text::<(C2, D, C3)>);
    s.add("structures", 6, structures);
    let _ = Dense::NAME;
    engine::main(Property {
        id: "C13",
        rule: "the array has at least two elements, or the input text is longer than six characters",
        subs: s.0,
    });
}
