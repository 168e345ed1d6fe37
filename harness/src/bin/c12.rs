//! C12: equality, hashing, formatting and search depend on shape and elements only.
use std::collections::HashMap;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Debug, Formatter};
use std::hash::{Hash, Hasher};

use harness::*;
use mdarray::expr::{Expression, IntoExpression};
use mdarray::{Array, Dense, DynRank, Slice, Strided, Tensor};

/// Nested lists with the given dimensions, formatted by the standard library.
struct Nested<'a, T>(&'a [usize], &'a [T]);

impl<T: Debug> Debug for Nested<'_, T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if self.0.is_empty() {
            return self.1[0].fmt(f);
        }
        let n = product(&self.0[1..]);
        f.debug_list().entries((0..self.0[0]).map(|k| Nested(&self.0[1..], &self.1[k * n..(k + 1) * n]))).finish()
    }
}

/// Hasher that depends on the kind and the boundaries of the writes.
#[derive(Default)]
struct Picky(u64);

impl Picky {
    fn add(&mut self, kind: u64, x: u64) {
        self.0 = mix(mix(self.0, kind), x);
    }
}

impl Hasher for Picky {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.add(1, bytes.len() as u64);
        for &b in bytes {
            self.add(2, b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(3, i as u64);
    }
    fn write_i32(&mut self, i: i32) {
        self.add(4, i as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.add(5, i as u64);
    }
}

fn hashes<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    x.hash(&mut a);
    let mut b = Picky::default();
    x.hash(&mut b);
    (a.finish(), b.finish())
}

/// Compared with `i32` by another relation than identity.
#[derive(Clone, Copy, Debug)]
struct Above(i32);

impl PartialEq<Above> for i32 {
    fn eq(&self, other: &Above) -> bool {
        *self > other.0
    }
}

/// A buffer with the values at the positions of a generated layout.
fn place<L: TestLayout>(cx: &mut Ctx, dims: &[usize], vals: &[i32]) -> (Buf, Geo) {
    let geo = L::geo(&mut cx.src, dims);
    let mut buf = Buf::new(geo.extent);
    if L::NAME == "strided" {
        cx.note(|| format!("strides {:?}", geo.strides));
    }
    for (p, v) in geo.model().pos.iter().zip(vals) {
        buf.set(*p, *v);
    }
    (buf, geo)
}

fn gen_vals(cx: &mut Ctx, n: usize) -> Vec<i32> {
    if cx.src.chance(1, 3) {
        let m = cx.src.range(1, 3);
        (0..n).map(|_| cx.src.below(m) as i32).collect()
    } else {
        (0..n as i32).map(|k| k * 5 + 3).collect()
    }
}

/// A second array: the same, with some elements changed, or with other dimensions.
fn relative(cx: &mut Ctx, dims: &[usize], vals: &[i32]) -> (Vec<usize>, Vec<i32>) {
    let (mut d, mut v) = (dims.to_vec(), vals.to_vec());
    match cx.src.below(8) {
        0 | 1 | 2 => (),
        3 | 4 => {
            if !v.is_empty() {
                let k = match cx.src.below(3) {
                    0 => v.len() - 1,
                    1 => 0,
                    _ => cx.src.below(v.len()),
                };
                v[k] += 1 + cx.src.below(2) as i32;
            }
        }
        5 => {
            // The same elements, with other dimensions.
            let p = cx.src.perm(d.len());
            d = p.iter().map(|&k| d[k]).collect();
        }
        6 => match cx.src.below(4) {
            0 => d.insert(cx.src.below(d.len() + 1), 1),
            1 => d = vec![v.len()],
            2 if d.len() > 1 => {
                let k = cx.src.below(d.len() - 1);
                d[k] *= d[k + 1];
                d[k + 1] = 1;
            }
            _ => {
                if let Some(k) = d.iter().position(|&x| x == 1) {
                    d.remove(k);
                }
            }
        },
        _ => {
            // More or fewer subarrays.
            if !d.is_empty() {
                let k = if cx.src.flip() { 0 } else { cx.src.below(d.len()) };
                d[k] = match cx.src.below(3) {
                    0 => d[k] + 1,
                    1 => d[k].saturating_sub(1),
                    _ => 0,
                };
                let n = product(&d);
                v = (0..n).map(|k| if vals.is_empty() { 0 } else { vals[k % vals.len()] }).collect();
            }
        }
    }
    (d, v)
}

fn pair<S: TestShape, R: TestShape, L: TestLayout, K: TestLayout>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 60);
    let vals = gen_vals(cx, product(&dims));
    let (mut d, mut v) = relative(cx, &dims, &vals);
    if !fits::<R>(&d) {
        (d, v) = (dims.clone(), vals.clone());
    }
    if !fits::<R>(&d) {
        // A shape type that cannot hold the dimensions of the first array.
        d = gen_dims::<R>(&mut cx.src, 60);
        v = (0..product(&d)).map(|k| vals.get(k).copied().unwrap_or(1)).collect();
    }
    cx.note(|| format!("{dims:?} {vals:?} {} and {d:?} {v:?} {}", L::NAME, K::NAME));
    cx.nontrivial_if(vals.len() > 1);
    let (ba, ga) = place::<L>(cx, &dims, &vals);
    let (bb, gb) = place::<K>(cx, &d, &v);
    let want = dims == d && vals == v;
    if want {
        cx.tag("equal");
    } else {
        cx.tag("different");
    }
    let a = view::<S, L>(&ba, &ga);
    let b = view::<R, K>(&bb, &gb);
    ensure_eq!(a == b, want, "equality");
    ensure_eq!(b == a, want, "equality with the operands exchanged");
    ensure_eq!(a != b, !want, "inequality");
    if want {
        ensure_eq!(hashes(&a), hashes(&b), "hashes of equal arrays");
    }
    Ok(())
}

/// One array: formatting, hashing and search in every kind of array.
fn single<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 60);
    let n = product(&dims);
    let vals = gen_vals(cx, n);
    cx.note(|| format!("{dims:?} {vals:?} {}", L::NAME));
    cx.nontrivial_if(n > 1);
    let (mut buf, geo) = place::<L>(cx, &dims, &vals);
    match cx.src.below(5) {
        0 => {
            let nested = Nested(&dims, &vals);
            let (alt, kind) = (cx.src.flip(), cx.src.below(3));
            let want = text(&nested, alt);
            let got = match kind {
                0 => text(&view::<S, L>(&buf, &geo), alt),
                1 => {
                    let v = view_mut::<S, L>(&mut buf, &geo);
                    let s: &Slice<i32, S, L> = &v;
                    ensure_eq!(text(s, alt), want, "formatted slice");
                    text(&v, alt)
                }
                _ => text(&view::<S, L>(&buf, &geo).to_tensor(), alt),
            };
            ensure_eq!(got, want, "formatted array");
            let w = format!("{:4?}|{:<3?}|{:+?}|{:#x?}|{:02x?}", nested, nested, nested, nested, nested);
            let v = view::<S, L>(&buf, &geo);
            let g = format!("{:4?}|{:<3?}|{:+?}|{:#x?}|{:02x?}", v, v, v, v, v);
            ensure_eq!(g, w, "formatted array with options");
        }
        1 => {
            let t = view::<S, L>(&buf, &geo).to_tensor();
            let h = hashes(&*t);
            ensure_eq!(hashes(&t), h, "hash of Tensor and Slice");
            ensure_eq!(hashes(&view::<S, L>(&buf, &geo)), h, "hash of View and of the dense copy");
            ensure_eq!(hashes(&view_mut::<S, L>(&mut buf, &geo)), h, "hash of ViewMut and of the dense copy");
            ensure_eq!(hashes(&t.clone().into_dyn()), h, "hash of the dynamic array");
            ensure_eq!(hashes(&t.expr()), h, "hash of the dense view");
            // Lookup by a borrowed form.
            let mut map = HashMap::new();
            map.insert(t.clone(), 1);
            ensure_eq!(map.get(&*t), Some(&1), "lookup of a slice among arrays");
            if n > 0 {
                let mut u = t.clone();
                let k = cx.src.below(n);
                u[k] ^= 64;
                ensure_eq!(map.get(&u), None, "lookup of another array");
            }
        }
        2 => {
            // Values of the array, values between its elements in memory, and others.
            let probe: Vec<i32> = match cx.src.below(3) {
                0 => vals.clone(),
                1 => buf.data.clone(),
                _ => (0..8).map(|_| cx.src.irange(-3, 300) as i32).collect(),
            };
            for x in probe.iter().take(80) {
                let want = vals.contains(x);
                ensure_eq!(view::<S, L>(&buf, &geo).contains(x), want, "contains({x}) of View");
                ensure_eq!(view::<S, L>(&buf, &geo).to_tensor().contains(x), want, "contains({x}) of Tensor");
            }
            let mut u = vals.clone();
            if n > 0 {
                // A value that occurs once.
                let k = cx.src.below(n);
                u[k] = -77;
                buf.set(geo.model().pos[k], -77);
                ensure!(view_mut::<S, L>(&mut buf, &geo).contains(&-77), "contains misses element {k}");
            }
        }
        3 => {
            let mut want = buf.clone();
            let x = cx.src.irange(-1000, -1) as i32;
            for p in geo.model().pos {
                want.set(p, x);
            }
            view_mut::<S, L>(&mut buf, &geo).fill(x);
            ensure!(buf.data == want.data, "memory after fill({x}): {:?}, expected {:?}", buf.data, want.data);
            let mut t: Tensor<i32, S> = view::<S, L>(&buf, &geo).to_tensor();
            t.fill(5);
            agree_vals("filled Tensor", &*t, &dims, &vec![5; n])?;
        }
        _ => {
            let mut want = buf.clone();
            for (k, p) in geo.model().pos.into_iter().enumerate() {
                want.set(p, -1 - k as i32);
            }
            let mut k = 0;
            view_mut::<S, L>(&mut buf, &geo).fill_with(|| {
                k -= 1;
                k
            });
            ensure_eq!(-k as usize, n, "number of values taken by fill_with");
            ensure!(buf.data == want.data, "memory after fill_with: {:?}, expected {:?}", buf.data, want.data);
        }
    }
    Ok(())
}

fn text<T: Debug + ?Sized>(x: &T, alt: bool) -> String {
    if alt { format!("{x:#?}") } else { format!("{x:?}") }
}

macro_rules! inline {
    ($name:ident, $s:ty) => {
        /// All combinations of array kinds for constant sizes.
        fn $name(cx: &mut Ctx) -> Res {
            type S = $s;
            let dims: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
            let vals = gen_vals(cx, product(&dims));
            let mut v = vals.clone();
            if cx.src.flip() && !v.is_empty() {
                let k = cx.src.below(v.len());
                v[k] ^= 1;
            }
            let want = v == vals;
            cx.note(|| format!("{dims:?} {vals:?} and {v:?}"));
            cx.nontrivial_if(vals.len() > 1);
            let (ba, ga) = place::<Strided>(cx, &dims, &vals);
            let (mut bb, gb) = place::<Strided>(cx, &dims, &v);
            let va = view::<S, Strided>(&ba, &ga);
            let ta = va.to_tensor();
            let a: Array<i32, S> = Array::from(&va);
            let sa: &Slice<i32, S> = &ta;
            let da: Tensor<i32, DynRank> = Tensor::<i32, (D,)>::from(vals.clone()).into_shape(&dims[..]);
            let mut tb = view::<S, Strided>(&bb, &gb).to_tensor();
            let b: Array<i32, S> = Array::from(&view::<S, Strided>(&bb, &gb));
            let b2 = b.clone();
            let tb2 = tb.clone();
            let db: Tensor<i32, DynRank> = Tensor::<i32, (D,)>::from(v.clone()).into_shape(&dims[..]);
            let sb: &Slice<i32, S> = &tb2;
            let vb = b2.expr();
            let mb = tb.expr_mut();
            let wb = view_mut::<S, Strided>(&mut bb, &gb);
            macro_rules! all {
                ($x:expr, $label:expr) => {
                    ensure_eq!($x == b, want, "{} == Array", $label);
                    ensure_eq!($x == tb2, want, "{} == Tensor", $label);
                    ensure_eq!($x == *sb, want, "{} == Slice", $label);
                    ensure_eq!($x == vb, want, "{} == View", $label);
                    ensure_eq!($x == mb, want, "{} == ViewMut", $label);
                    ensure_eq!($x == wb, want, "{} == strided ViewMut", $label);
                    ensure_eq!($x == db, want, "{} == dynamic-rank Tensor", $label);
                    ensure_eq!($x != b, !want, "{} != Array", $label);
                    ensure_eq!($x != wb, !want, "{} != ViewMut", $label);
                };
            }
            all!(a, "Array");
            all!(ta, "Tensor");
            all!(*sa, "Slice");
            all!(va, "View");
            all!(a.expr(), "dense View");
            all!(ta.clone().expr_mut(), "ViewMut");
            all!(da, "dynamic-rank Tensor");
            let h = hashes(&a);
            ensure_eq!(hashes(&ta), h, "hash of Tensor and Array");
            ensure_eq!(hashes(&va), h, "hash of View and Array");
            ensure_eq!(hashes(&da), h, "hash of dynamic-rank Tensor and Array");
            if want {
                ensure_eq!(hashes(&b), h, "hash of equal arrays");
                ensure_eq!(hashes(&wb), h, "hash of ViewMut and Array");
                ensure_eq!(hashes(&mb), h, "hash of dense ViewMut and Array");
            }
            ensure_eq!(text(&a, false), text(&Nested(&dims, &vals), false), "formatted Array");
            ensure_eq!(text(&a, true), text(&Nested(&dims, &vals), true), "formatted Array");
            let list = text(&Nested(&dims, &vals), false);
            ensure_eq!(text(&a.clone().into_expr(), false), format!("IntoExpr({list})"), "formatted expression");
            ensure_eq!(text(&ta.clone().into_expr(), false), format!("IntoExpr({list})"), "formatted expression");
            let x = cx.src.below(70) as i32;
            ensure_eq!(a.contains(&x), vals.contains(&x), "contains({x}) of Array");
            let mut a = a;
            a.fill(x);
            agree_vals("filled Array", &*a, &dims, &vec![x; vals.len()])
        }
    };
}

inline!(inline0, ());
inline!(inline1, (C3,));
inline!(inline2, (C2, C3));
inline!(inline2e, (C3, C0));
inline!(inline3, (C2, C3, C2));
inline!(inline4, (C2, C1, C3, C2));

/// Elements that are not equal to themselves, compared by another relation, or without size.
fn elements(cx: &mut Ctx) -> Res {
    let dims = gen_dyn_dims(&mut cx.src, 40, 4);
    let n = product(&dims);
    cx.nontrivial_if(n > 1);
    let special = [0.0, -0.0, f64::NAN, 1.0, f64::INFINITY, -1.5];
    let a: Vec<f64> = (0..n).map(|_| if cx.src.chance(1, 8) { *cx.src.pick(&special) } else { 2.0 }).collect();
    let mut b = a.clone();
    if n > 0 && cx.src.flip() {
        let k = cx.src.below(n);
        b[k] = if b[k] == 0.0 { -b[k] } else { 3.0 };
    }
    cx.note(|| format!("{dims:?} {a:?} and {b:?}"));
    let ta: Tensor<f64, DynRank> = Tensor::<f64, (D,)>::from(a.clone()).into_shape(&dims[..]);
    let tb: Tensor<f64, DynRank> = Tensor::<f64, (D,)>::from(b.clone()).into_shape(&dims[..]);
    ensure_eq!(ta == tb, a == b, "equality of floating point arrays");
    ensure_eq!(ta == ta, a == a, "equality of a floating point array with itself");
    let perm: Vec<usize> = (0..dims.len()).rev().collect();
    let back = ta.permute(&perm[..]).to_tensor();
    let strided = back.permute(&perm[..]);
    ensure_eq!(strided == tb, a == b, "equality of strided and dense floating point arrays");
    ensure_eq!(tb == strided, a == b, "equality of dense and strided floating point arrays");
    ensure_eq!(strided == strided, a == a, "equality of a strided floating point array with itself");
    for x in special {
        ensure_eq!(ta.contains(&x), a.contains(&x), "contains({x})");
        ensure_eq!(strided.contains(&x), a.contains(&x), "contains({x}) of a strided array");
    }
    ensure_eq!(text(&strided, false), text(&Nested(&dims, &a), false), "formatted floating point array");
    ensure_eq!(format!("{:.3?}", strided), format!("{:.3?}", Nested(&dims, &a)), "formatted with precision");

    // Elements of two types: the left operand's elements are on the left.
    let x: Vec<i32> = (0..n).map(|_| cx.src.below(6) as i32 + 4).collect();
    let y: Vec<Above> = (0..n).map(|_| Above(cx.src.below(5) as i32)).collect();
    let want = x.iter().zip(&y).all(|(x, y)| x == y);
    let tx: Tensor<i32, DynRank> = Tensor::<i32, (D,)>::from(x.clone()).into_shape(&dims[..]);
    let ty: Tensor<Above, DynRank> = Tensor::<Above, (D,)>::from(y.clone()).into_shape(&dims[..]);
    let tz = ty.permute(&perm[..]).to_tensor();
    ensure_eq!(tx == ty, want, "equality of arrays with two element types");
    ensure_eq!(tx == tz.permute(&perm[..]), want, "equality of dense and strided arrays with two element types");

    // Elements that own memory, and elements without size.
    let s: Vec<String> = x.iter().map(|x| format!("a\n\"{x}")).collect();
    let ts: Tensor<String, DynRank> = Tensor::<String, (D,)>::from(s.clone()).into_shape(&dims[..]);
    ensure_eq!(text(&ts, false), text(&Nested(&dims, &s), false), "formatted strings");
    ensure_eq!(text(&ts, true), text(&Nested(&dims, &s), true), "formatted strings");
    let hs = ts.permute(&perm[..]).to_tensor();
    ensure_eq!(hashes(&hs.permute(&perm[..])), hashes(&ts), "hashes of equal string arrays");
    ensure!(hs.permute(&perm[..]) == ts, "equality of string arrays");
    let mut fs = ts.clone();
    fs.fill("x".to_string());
    agree_vals("filled strings", &*fs, &dims, &vec!["x".to_string(); n])?;
    let tu: Tensor<(), DynRank> = Tensor::<(), (D,)>::from(vec![(); n]).into_shape(&dims[..]);
    let p = cx.src.perm(dims.len());
    let tv = tu.permute(&p[..]).to_tensor();
    let d: Vec<usize> = p.iter().map(|&k| dims[k]).collect();
    ensure_eq!(tu == tv, d == dims, "equality of arrays of elements without size");
    ensure_eq!(tu.contains(&()), n > 0, "contains of elements without size");
    ensure_eq!(text(&tu, false), text(&Nested(&dims, &vec![(); n]), false), "formatted elements without size");
    Ok(())
}

/// Formatted expressions name the arrays as nested lists.
fn expressions(cx: &mut Ctx) -> Res {
    let dims = gen_rank_dims(&mut cx.src, 2, 40);
    let n = product(&dims);
    let vals = gen_vals(cx, n);
    cx.note(|| format!("{dims:?} {vals:?}"));
    cx.nontrivial_if(n > 1);
    let (mut buf, geo) = place::<Strided>(cx, &dims, &vals);
    let list = text(&Nested(&dims, &vals), false);
    let mut t = view::<(D, D), Strided>(&buf, &geo).to_tensor();
    let v = view::<(D, D), Strided>(&buf, &geo);
    ensure_eq!(text(&v.outer_expr(), false), format!("AxisExpr(0, {list})"), "formatted expression");
    ensure_eq!(text(&v.axis_expr(1), false), format!("AxisExpr(1, {list})"), "formatted expression");
    ensure_eq!(text(&v.rows(), false), format!("Lanes(1, {list})"), "formatted expression");
    ensure_eq!(text(&v.cols(), false), format!("Lanes(0, {list})"), "formatted expression");
    ensure_eq!(text(&v.iter(), false), format!("Iter({list})"), "formatted expression");
    ensure_eq!(text(&t.iter_mut(), false), format!("Iter({list})"), "formatted expression");
    ensure_eq!(text(&v.expr().map(|x| *x), false), format!("Map {{ expr: {list} }}"), "formatted expression");
    ensure_eq!(text(&v.expr().zip(&t), false), format!("Zip {{ a: {list}, b: {list} }}"), "formatted expression");
    let mut w = view_mut::<(D, D), Strided>(&mut buf, &geo);
    ensure_eq!(text(&w.axis_expr_mut(1), false), format!("AxisExprMut(1, {list})"), "formatted expression");
    ensure_eq!(text(&w.cols_mut(), false), format!("LanesMut(0, {list})"), "formatted expression");
    // The drained part, and the rest of a moved array.
    let a = cx.src.below(dims[0] + 1);
    let b = a + cx.src.below(dims[0] - a + 1);
    let part = text(&Nested(&[b - a, dims[1]], &vals[a * dims[1]..b * dims[1]]), false);
    ensure_eq!(text(&t.drain(a..b), false), format!("IntoExpr({part})"), "formatted drained part");
    Ok(())
}

fn main() {
    let mut s = Subs::default();
    macro_rules! one {
        ($s:ty) => {
            s.add(concat!("single dense ", stringify!($s)), 2, single::<$s, Dense>);
            s.add(concat!("single strided ", stringify!($s)), 2, single::<$s, Strided>);
            two!($s, $s);
            two!($s, DynRank);
        };
    }
    macro_rules! two {
        ($s:ty, $r:ty) => {
            s.add(concat!("pair dd ", stringify!($s), " ", stringify!($r)), 1, pair::<$s, $r, Dense, Dense>);
            s.add(concat!("pair ds ", stringify!($s), " ", stringify!($r)), 1, pair::<$s, $r, Dense, Strided>);
            s.add(concat!("pair sd ", stringify!($s), " ", stringify!($r)), 1, pair::<$s, $r, Strided, Dense>);
            s.add(concat!("pair ss ", stringify!($s), " ", stringify!($r)), 1, pair::<$s, $r, Strided, Strided>);
        };
    }
    one!(());
    one!((D,));
    one!((C3,));
    one!((D, D));
    one!((D, C3));
    one!((C3, C0));
    one!((C2, C3));
    one!((D, D, D));
    one!((C2, D, C3));
    one!((D, D, D, D));
    one!((D, D, D, D, D));
    one!((D, D, D, D, D, D));
    two!((D, D), (C2, C3));
    two!((D, D), (D, C3));
    two!((D, D, D), (C2, C3, C2));
    two!((D, D, D), (D, D));
    two!((D,), (D, D));
    two!((), (D,));
    two!((D, D, D, D), (C2, C1, C3, C2));
    s.add("single dense DynRank", 8, single::<DynRank, Dense>);
    s.add("single strided DynRank", 8, single::<DynRank, Strided>);
    two!(DynRank, DynRank);
    s.add("inline ()", 2, inline0);
    s.add("inline (C3,)", 2, inline1);
    s.add("inline (C2, C3)", 2, inline2);
    s.add("inline (C3, C0)", 2, inline2e);
    s.add("inline (C2, C3, C2)", 2, inline3);
    s.add("inline (C2, C1, C3, C2)", 2, inline4);
    s.add("elements", 10, elements);
    s.add("expressions", 5, expressions);
    engine::main(Property {
        id: "C12",
        rule: "the array has at least two elements",
        subs: s.0,
    });
}
