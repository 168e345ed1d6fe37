//! The main operations of C01 to C05 with elements of other sizes than those of the detailed
//! checks: none, one byte, an odd size, large with an alignment, and elements that own memory.
use crate::engine::*;
use crate::model::*;
use crate::shapes::*;
use crate::track::Elem;
use crate::{ensure, ensure_eq};
use mdarray::expr::{Expression, IntoExpression};
use mdarray::index::{Cols, Rows};
use mdarray::*;

type S3 = (Dyn, Dyn, Dyn);

struct Store<T> {
    data: Vec<T>,
    geo: Geo,
    m: Model,
}

fn store<T: Elem, L: TestLayout>(cx: &mut Ctx, dims: &[usize]) -> Store<T> {
    let geo = L::geo(&mut cx.src, dims);
    cx.note(|| format!("dims {dims:?} strides {:?}", geo.strides));
    let m = geo.model();
    cx.nontrivial_if(m.len() > 1);
    Store { data: (0..geo.extent).map(|k| T::make(k as i64)).collect(), geo, m }
}

impl<T: Elem> Store<T> {
    fn view<S: Shape, L: TestLayout>(&self) -> View<'_, T, S, L> {
        unsafe { View::new_unchecked(self.data.as_ptr().offset(self.geo.base), L::mapping::<S>(&self.geo.dims, &self.geo.strides)) }
    }
    fn view_mut<S: Shape, L: TestLayout>(&mut self) -> ViewMut<'_, T, S, L> {
        unsafe {
            ViewMut::new_unchecked(self.data.as_mut_ptr().offset(self.geo.base), L::mapping::<S>(&self.geo.dims, &self.geo.strides))
        }
    }
    fn vals(&self) -> Vec<i64> {
        self.m.pos.iter().map(|&p| T::norm(p as i64)).collect()
    }
    fn all(&self) -> Vec<i64> {
        self.data.iter().map(|x| x.val()).collect()
    }
}

fn norms<T: Elem>(m: &Model) -> Vec<i64> {
    m.pos.iter().map(|&p| T::norm(p as i64)).collect()
}

/// The view has the dimensions of the model and shows its elements, in place.
fn same<T: Elem, S: Shape, L: Layout>(what: &str, v: &Slice<T, S, L>, base: *const T, m: &Model) -> Res {
    ensure_eq!(shape_dims(v.shape()), m.dims, "{what}: dimensions");
    for (k, i) in indices(&m.dims).iter().enumerate() {
        let x = &v[&i[..]];
        ensure_eq!(x.val(), T::norm(m.pos[k] as i64), "{what}: element {i:?}");
        if !T::ZST {
            let p = (x as *const T as isize - base as isize) / size_of::<T>() as isize;
            ensure_eq!(p, m.pos[k], "{what}: position of element {i:?}");
        }
    }
    Ok(())
}

fn dims3(cx: &mut Ctx) -> Vec<usize> {
    gen_rank_dims(&mut cx.src, 3, 200)
}

pub fn index<T: Elem, L: TestLayout>(cx: &mut Ctx) -> Res {
    let d = dims3(cx);
    let mut s = store::<T, L>(cx, &d);
    let base = s.data.as_ptr();
    same("index list", &s.view::<S3, L>(), base, &s.m)?;
    let v = s.view::<S3, L>();
    for (k, &p) in s.m.pos.iter().enumerate() {
        ensure_eq!(v[k].val(), T::norm(p as i64), "flat index {k}");
    }
    let n = s.m.len();
    must_panic(|| "flat index".into(), || v[n].val())?;
    let axis = cx.src.below(3);
    let mut i: Vec<usize> = d.iter().map(|&x| x.saturating_sub(1)).collect();
    i[axis] = d[axis] + cx.src.below(3);
    must_panic(|| format!("index {i:?}"), || v[[i[0], i[1], i[2]]].val())?;
    must_panic(|| format!("index {:?}", &i[..2]), || v[&i[..2]].val())?;
    let t = v.to_tensor();
    let (a, b) = (cx.src.below(n + 2), cx.src.below(n + 2));
    let want = norms::<T>(&s.m);
    match (caught(|| t[a..b].iter().map(|x| x.val()).collect::<Vec<_>>()), want.get(a..b)) {
        (Some(x), Some(w)) => ensure_eq!(x, w, "flat range {a}..{b}"),
        (None, None) => {}
        (x, _) => return Err(format!("flat range {a}..{b} of {n} gives {x:?}")),
    }
    if n > 0 {
        let k = cx.src.below(n);
        let mut want = s.all();
        want[s.m.pos[k] as usize] = T::norm(99);
        let idx = &indices(&d)[k];
        let flat = cx.src.flip();
        let mut w = s.view_mut::<S3, L>();
        if flat { w[k].set(99) } else { w[&idx[..]].set(99) }
        ensure_eq!(s.all(), want, "buffer after a write");
    }
    Ok(())
}

pub fn subarrays<T: Elem, L: TestLayout>(cx: &mut Ctx) -> Res {
    let d = dims3(cx);
    let mut s = store::<T, L>(cx, &d);
    let base = s.data.as_ptr();
    let (a, n) = (cx.src.below(d[0] + 1), cx.src.below(4));
    let b = (a + n).min(d[0]);
    let st = *cx.src.pick(&[-3isize, -2, -1, 1, 2, 3]);
    let (lo, hi) = (cx.src.below(d[2] + 1), d[2]);
    let mut list: Vec<usize> = if st > 0 { (lo..hi).collect() } else { (lo..hi).rev().collect() };
    list = list.into_iter().step_by(st.unsigned_abs()).collect();
    let all = |k: usize| Sel::List((0..d[k]).collect());
    cx.note(|| format!("{a}..{b}, step {st} from {lo}"));
    let m1 = s.m.select(&[Sel::List((a..b).collect()), all(1), Sel::List(list.clone())]);
    same("range and step", &s.view::<S3, L>().view(a..b, .., step(lo.., st)), base, &m1)?;
    let m2 = s.m.select(&[Sel::List((a..b).collect()), all(1), all(2)]);
    same("outer range", &s.view::<S3, L>().view(a..b, .., ..), base, &m2)?;
    if d[1] > 0 {
        let j = cx.src.below(d[1]);
        let m3 = s.m.select(&[all(0), Sel::At(j), Sel::List(list)]);
        same("integer and step", &s.view::<S3, L>().view(.., j, step(lo.., st)), base, &m3)?;
        let mut want = s.all();
        for &p in &m3.pos {
            want[p as usize] = T::norm(77);
        }
        let mut v = s.view_mut::<S3, L>();
        let mut w = v.view_mut(.., j, step(lo.., st));
        for x in w.iter_mut() {
            x.set(77);
        }
        ensure_eq!(s.all(), want, "buffer after writes");
    }
    let v = s.view::<S3, L>();
    must_panic(|| "integer".into(), || v.view(.., d[1], ..).len())?;
    must_panic(|| "range".into(), || v.view(.., .., ..=d[2]).len())?;
    Ok(())
}

pub fn parts<T: Elem, L: TestLayout>(cx: &mut Ctx) -> Res {
    let d = dims3(cx);
    let mut s = store::<T, L>(cx, &d);
    let base = s.data.as_ptr();
    let axis = cx.src.below(3);
    {
        let v = s.view::<S3, L>();
        for i in 0..d[axis] {
            same("axis_at", &v.axis_at(axis, i), base, &s.m.remove(axis, i))?;
        }
        must_panic(|| "axis_at".into(), || v.axis_at(axis, d[axis]).len())?;
        let parts: Vec<_> = v.axis_expr(axis).into_iter().collect();
        ensure_eq!(parts.len(), d[axis], "number of subarrays");
        for (i, p) in parts.iter().enumerate() {
            same("axis_expr", p, base, &s.m.remove(axis, i))?;
        }
        let mid = cx.src.range(0, d[axis]);
        let (a, b) = v.split_axis_at(axis, mid);
        let (ma, mb) = s.m.split(axis, mid);
        same("first part", &a, base, &ma)?;
        same("second part", &b, base, &mb)?;
        for (i, p) in v.outer_expr().into_iter().enumerate() {
            same("outer_expr", &p, base, &s.m.remove(0, i))?;
        }
        let mut rest = d.clone();
        rest.remove(axis);
        let lanes: Vec<_> = v.lanes(axis).into_iter().collect();
        ensure_eq!(lanes.len(), product(&rest), "number of lanes");
        for (i, p) in indices(&rest).iter().zip(&lanes) {
            same("lane", p, base, &s.m.lane(axis, i))?;
        }
        let rest = [d[0], d[1]];
        for (i, p) in indices(&rest).iter().zip(v.rows()) {
            same("row", &p, base, &s.m.lane(2, i))?;
        }
        let rest = [d[0], d[2]];
        for (i, p) in indices(&rest).iter().zip(v.cols()) {
            same("column", &p, base, &s.m.lane(1, i))?;
        }
        _ = (Rows, Cols);
    }
    // Disjoint mutable parts.
    let mid = cx.src.range(0, d[axis]);
    let (ma, mb) = s.m.split(axis, mid);
    let mut want = s.all();
    for (k, &p) in ma.pos.iter().enumerate() {
        want[p as usize] = T::norm(500 + k as i64);
    }
    for (k, &p) in mb.pos.iter().enumerate() {
        want[p as usize] = T::norm(700 + k as i64);
    }
    let mut v = s.view_mut::<S3, L>();
    let (mut a, mut b) = v.split_axis_at_mut(axis, mid);
    for (k, (x, add)) in a.iter_mut().map(|x| (x, 500)).enumerate() {
        x.set(k as i64 + add);
    }
    for (k, x) in b.iter_mut().enumerate() {
        x.set(k as i64 + 700);
    }
    ensure_eq!(s.all(), want, "buffer after writes to both parts");
    Ok(())
}

pub fn rearranged<T: Elem, L: TestLayout>(cx: &mut Ctx) -> Res {
    let d = dims3(cx);
    let s = store::<T, L>(cx, &d);
    let base = s.data.as_ptr();
    let v = s.view::<S3, L>();
    let p = cx.src.perm(3);
    same("permute", &v.permute([p[0], p[1], p[2]]), base, &s.m.permute(&p))?;
    same("reorder", &v.reorder(), base, &s.m.reversed())?;
    same("remap", &v.remap::<DynRank, Strided>(), base, &s.m)?;
    same("into_dyn", &v.clone().into_dyn(), base, &s.m)?;
    let t = v.to_tensor();
    let dense = Model::dense(&d);
    let vals = s.vals();
    let check = |what: &str, got: Vec<i64>, dims: Vec<usize>, want: &[usize]| -> Res {
        ensure_eq!(got, vals, "{what}: elements");
        ensure_eq!(dims, want, "{what}: dimensions");
        Ok(())
    };
    let n = dense.len();
    let flat = t.flatten();
    check("flatten", flat.iter().map(|x| x.val()).collect(), shape_dims(flat.shape()), &[n])?;
    let r = t.reshape([d[0] * d[1], d[2]]);
    check("reshape", r.iter().map(|x| x.val()).collect(), shape_dims(r.shape()), &[d[0] * d[1], d[2]])?;
    let r = t.reshape([d[0], 1, d[1] * d[2]]);
    check("reshape", r.iter().map(|x| x.val()).collect(), shape_dims(r.shape()), &[d[0], 1, d[1] * d[2]])?;
    must_panic(|| "reshape".into(), || t.reshape([n, 2, 1]).len() + if n == 0 { panic!() } else { 0 })?;
    let p = t.as_ptr();
    let u = t.into_shape([d[0], d[1] * d[2]]);
    check("into_shape", u.iter().map(|x| x.val()).collect(), shape_dims(u.shape()), &[d[0], d[1] * d[2]])?;
    ensure!(n == 0 || u.as_ptr() == p, "into_shape copied the elements");
    let u = u.into_dyn();
    check("into_dyn", u.iter().map(|x| x.val()).collect(), shape_dims(u.shape()), &[d[0], d[1] * d[2]])?;
    let x = u.into_vec();
    ensure_eq!(x.iter().map(|x| x.val()).collect::<Vec<_>>(), vals, "into_vec");
    Ok(())
}

pub fn iterated<T: Elem, L: TestLayout>(cx: &mut Ctx) -> Res {
    let d = dims3(cx);
    let mut s = store::<T, L>(cx, &d);
    let vals = s.vals();
    let n = vals.len();
    let take = cx.src.range(0, n + 1);
    fn rest<I: ExactSizeIterator>(it: &mut I, vals: &[i64], take: usize, f: impl Fn(I::Item) -> i64) -> Res {
        for k in 0..take {
            ensure_eq!(it.len(), vals.len().saturating_sub(k), "remaining length after {k}");
            ensure_eq!(it.next().map(&f), vals.get(k).copied(), "element {k}");
        }
        Ok(())
    }
    let v = s.view::<S3, L>();
    let mut it = v.iter();
    rest(&mut it, &vals, take, |x| x.val())?;
    let got: Vec<i64> = it.map(|x| x.val()).collect();
    ensure_eq!(got, vals[take.min(n)..], "rest of the elements");
    let t = v.to_tensor();
    let mut it = t.clone().into_iter();
    rest(&mut it, &vals, take, |x| x.val())?;
    let got = it.fold(Vec::new(), |mut l, x| {
        l.push(x.val());
        l
    });
    ensure_eq!(got, vals[take.min(n)..], "rest of the moved elements");
    let mut got = Vec::new();
    t.into_expr().for_each(|x| got.push(x.val()));
    ensure_eq!(got, vals, "moved elements");
    let got: Vec<(i64, Vec<usize>)> =
        v.expr().zip(expr::from_fn([d[0], d[1], d[2]], |i| i.to_vec())).map(|(x, i)| (x.val(), i)).into_iter().collect();
    let want: Vec<(i64, Vec<usize>)> = vals.iter().copied().zip(indices(&d)).collect();
    ensure_eq!(got, want, "elements with their index");
    let mut want = s.all();
    for (k, &p) in s.m.pos.clone().iter().enumerate() {
        want[p as usize] = T::norm(300 + k as i64);
    }
    let mut v = s.view_mut::<S3, L>();
    for (k, x) in v.iter_mut().enumerate() {
        x.set(300 + k as i64);
    }
    ensure_eq!(s.all(), want, "buffer after writes");
    Ok(())
}

/// Adds an operation for all kinds of elements.
#[macro_export]
macro_rules! add_elems {
    ($subs:ident, $w:expr, $f:ident) => {
        $subs.add("elements without size, dense", $w, $crate::elems::$f::<(), mdarray::Dense>);
        $subs.add("elements without size, strided", $w, $crate::elems::$f::<(), mdarray::Strided>);
        $subs.add("bytes, dense", $w, $crate::elems::$f::<u8, mdarray::Dense>);
        $subs.add("bytes, strided", $w, $crate::elems::$f::<u8, mdarray::Strided>);
        $subs.add("three bytes, strided", $w, $crate::elems::$f::<[u8; 3], mdarray::Strided>);
        $subs.add("large elements, dense", $w, $crate::elems::$f::<$crate::track::Big, mdarray::Dense>);
        $subs.add("large elements, strided", $w, $crate::elems::$f::<$crate::track::Big, mdarray::Strided>);
        $subs.add("strings, dense", $w, $crate::elems::$f::<String, mdarray::Dense>);
        $subs.add("strings, strided", $w, $crate::elems::$f::<String, mdarray::Strided>);
    };
}
