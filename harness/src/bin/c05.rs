//! C05: iteration protocol.
use harness::*;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;
use std::fmt::Debug;
use std::iter::FusedIterator;

/// Type-erased iterator with its items mapped to comparable values.
trait Steps<V> {
    fn next(&mut self) -> Option<V>;
    fn nth(&mut self, k: usize) -> Option<V>;
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn fold(self: Box<Self>, out: &mut Vec<V>);
    fn each(self: Box<Self>, out: &mut Vec<V>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<V>;
}

struct Wrap<I, F>(I, F);

impl<V, I: ExactSizeIterator + FusedIterator, F: FnMut(I::Item) -> V> Steps<V> for Wrap<I, F> {
    fn next(&mut self) -> Option<V> {
        self.0.next().map(&mut self.1)
    }
    fn nth(&mut self, k: usize) -> Option<V> {
        self.0.nth(k).map(&mut self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn fold(self: Box<Self>, out: &mut Vec<V>) {
        let mut f = self.1;
        self.0.fold((), |(), x| out.push(f(x)));
    }
    fn each(mut self: Box<Self>, out: &mut Vec<V>) {
        for x in self.0 {
            out.push((self.1)(x));
        }
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(mut self: Box<Self>) -> Option<V> {
        self.0.last().map(&mut self.1)
    }
}

fn sizes<V>(what: &str, it: &dyn Steps<V>, left: usize) -> Res {
    ensure_eq!(it.hint(), (left, Some(left)), "{what}: size hint with {left} elements left");
    ensure_eq!(it.len(), left, "{what}: length with {left} elements left");
    Ok(())
}

/// Drives an iterator by a generated script, mixing single steps, skips and whole-rest
/// consumption, against the expected items.
fn drive<I, V>(cx: &mut Ctx, what: &str, it: I, expect: &[V], f: impl FnMut(I::Item) -> V) -> Res
where
    I: ExactSizeIterator + FusedIterator,
    V: PartialEq + Debug,
{
    script(cx, what, Box::new(Wrap(it, f)), expect, 0)
}

fn script<V: PartialEq + Debug>(
    cx: &mut Ctx,
    what: &str,
    mut it: Box<dyn Steps<V> + '_>,
    expect: &[V],
    mut at: usize,
) -> Res {
    let n = expect.len();
    sizes(what, &*it, n - at)?;
    let steps = cx.src.below(4);
    for _ in 0..steps {
        let left = n - at;
        match cx.src.below(4) {
            0 => {
                let k = if cx.src.flip() { 1 } else { cx.src.range(0, left) };
                cx.note(|| format!("{k} next"));
                for _ in 0..k {
                    match it.next() {
                        Some(x) => {
                            ensure!(at < n, "{what}: item after the end");
                            ensure_eq!(x, expect[at], "{what}: item {at}");
                            at += 1;
                        }
                        None => ensure!(at == n, "{what}: ends after {at} of {n} items"),
                    }
                }
            }
            1 => {
                let k = cx.src.range(0, left + 1);
                cx.note(|| format!("nth({k})"));
                match it.nth(k) {
                    Some(x) => {
                        ensure!(at + k < n, "{what}: item after the end");
                        ensure_eq!(x, expect[at + k], "{what}: item {} by nth", at + k);
                        at += k + 1;
                    }
                    None => {
                        ensure!(at + k >= n, "{what}: nth({k}) at {at} of {n} is missing");
                        at = n;
                    }
                }
            }
            2 => {
                let k = cx.src.range(0, left);
                cx.note(|| format!("take({k})"));
                for i in at..at + k {
                    let x = it.next();
                    ensure_eq!(x.as_ref(), Some(&expect[i]), "{what}: item {i}");
                    sizes(what, &*it, n - i - 1)?;
                }
                at += k;
            }
            _ => {
                // To the last element exactly.
                cx.note(|| "to the end".into());
                while at < n {
                    let Some(x) = it.next() else {
                        return Err(format!("{what}: ends after {at} of {n} items"));
                    };
                    ensure_eq!(x, expect[at], "{what}: item {at}");
                    at += 1;
                    if at % 7 == 0 || at + 2 > n {
                        sizes(what, &*it, n - at)?;
                    }
                }
            }
        }
        sizes(what, &*it, n - at)?;
        cx.nontrivial_if(at > 0 && at < n);
    }
    let how = cx.src.below(6);
    cx.note(|| format!("rest from {at} by {how}"));
    match how {
        0 | 1 => {
            let mut got = Vec::new();
            it.fold(&mut got);
            ensure_eq!(got[..], expect[at..], "{what}: items by fold from {at}");
        }
        2 => ensure_eq!(it.count(), n - at, "{what}: count from {at}"),
        3 => {
            let last = it.last();
            ensure_eq!(last.as_ref(), if at < n { expect.last() } else { None }, "{what}: last from {at}");
        }
        4 => {
            let mut got = Vec::new();
            it.each(&mut got);
            ensure_eq!(got[..], expect[at..], "{what}: items by loop from {at}");
        }
        _ => {
            while let Some(x) = it.next() {
                ensure!(at < n, "{what}: item after the end");
                ensure_eq!(x, expect[at], "{what}: item {at}");
                at += 1;
            }
            ensure_eq!(at, n, "{what}: number of items");
            for _ in 0..3 {
                sizes(what, &*it, 0)?;
                ensure!(it.next().is_none(), "{what}: item after the end");
            }
            sizes(what, &*it, 0)?;
            let mut rest = Vec::new();
            it.fold(&mut rest);
            ensure!(rest.is_empty(), "{what}: {} items folded after the end", rest.len());
        }
    }
    Ok(())
}

/// As `drive`, and clones the iterator at some position.
fn drive_clone<I, V>(cx: &mut Ctx, what: &str, mut it: I, expect: &[V], mut f: impl FnMut(I::Item) -> V) -> Res
where
    I: ExactSizeIterator + FusedIterator + Clone,
    V: PartialEq + Debug,
{
    let at = if cx.src.chance(1, 3) { expect.len() } else { cx.src.range(0, expect.len()) };
    cx.note(|| format!("clone at {at}"));
    for k in 0..at {
        let x = it.next().map(&mut f);
        ensure_eq!(x.as_ref(), expect.get(k), "{what}: item {k}");
    }
    let other = it.clone();
    script(cx, what, Box::new(Wrap(it, &mut f)), expect, at)?;
    script(cx, &format!("clone of {what}"), Box::new(Wrap(other, &mut f)), expect, at)
}

fn shared<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (buf, geo, m) = gen_array::<S, L>(cx, 300);
    let base = buf.ptr();
    let v = view::<S, L>(&buf, &geo);
    let adr = |x: &i32| rel(x as *const i32, base);
    match cx.src.below(8) {
        6 | 7 => {
            // A view or iterator of another array is replaced by one of this array.
            let (buf2, geo2, _) = gen_array::<S, L>(cx, 50);
            let mut w = view::<S, L>(&buf2, &geo2);
            if cx.src.flip() {
                cx.note(|| "clone_from of a view".into());
                w.clone_from(&v);
                agree("view after clone_from", &w, base, &m)?;
                drive(cx, "iterator after clone_from", w.into_iter(), &m.pos, adr)?
            } else {
                let k = cx.src.range(0, m.len());
                cx.note(|| format!("clone_from of an iterator at {k}"));
                let mut a = v.iter();
                a.by_ref().take(k).for_each(|_| ());
                let mut b = w.iter();
                b.next();
                b.clone_from(&a);
                drive(cx, "iterator after clone_from", b, &m.pos[k..], adr)?;
                drive(cx, "iterator that was cloned", a, &m.pos[k..], adr)?
            }
        }
        0 => drive(cx, "iter", v.iter(), &m.pos, adr)?,
        1 => drive(cx, "into_iter", (&v).into_iter(), &m.pos, adr)?,
        2 => drive(cx, "into_iter of a view", v.clone().into_iter(), &m.pos, adr)?,
        3 => drive(cx, "iterator of an expression", v.expr().into_iter(), &m.pos, adr)?,
        4 => drive_clone(cx, "iter", v.iter(), &m.pos, adr)?,
        _ => {
            let mut got = Vec::new();
            let n = v.expr().fold(0, |n, x| {
                got.push(adr(x));
                n + 1
            });
            ensure_eq!(got, m.pos, "elements by Expression::fold");
            ensure_eq!(n, m.len(), "number of elements by Expression::fold");
            let mut got = Vec::new();
            v.expr().for_each(|x| got.push(adr(x)));
            ensure_eq!(got, m.pos, "elements by Expression::for_each");
            let mut got = Vec::new();
            expr::for_each(&v, |x| got.push(adr(x)));
            ensure_eq!(got, m.pos, "elements by expr::for_each");
            let got = expr::fold(&v, Vec::new(), |mut a, x| {
                a.push(adr(x));
                a
            });
            ensure_eq!(got, m.pos, "elements by expr::fold");
            cx.nontrivial_if(m.len() > 1);
        }
    }
    Ok(())
}

fn mutable<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    let base = buf.ptr();
    let mut expect = buf.clone();
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        let adr = |x: &mut i32| rel(x as *const i32, base);
        match cx.src.below(6) {
            5 => {
                let s: &mut Slice<i32, S, L> = &mut v;
                drive(cx, "into_iter of a mutable slice", s.into_iter(), &m.pos, adr)?
            }
            0 => drive(cx, "iter_mut", v.iter_mut(), &m.pos, adr)?,
            1 => drive(cx, "into_iter of a mutable reference", (&mut v).into_iter(), &m.pos, adr)?,
            2 => drive(cx, "iterator of a mutable expression", v.expr_mut().into_iter(), &m.pos, adr)?,
            3 => drive(cx, "into_iter of a mutable view", v.into_iter(), &m.pos, adr)?,
            _ => {
                // All references at once, then write through each of them.
                let all: Vec<&mut i32> = v.iter_mut().collect();
                ensure_eq!(all.len(), m.len(), "number of references");
                cx.nontrivial_if(m.len() > 1);
                for (k, x) in all.into_iter().enumerate() {
                    *x = -(k as i32) - 1;
                    expect.set(m.pos[k], -(k as i32) - 1);
                }
            }
        }
    }
    ensure_eq!(buf, expect, "buffer after mutable iteration");
    Ok(())
}

fn by_value<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 300);
    cx.note(|| format!("tensor dims {dims:?}"));
    let vals: Vec<String> = (0..product(&dims)).map(|k| format!("e{k}")).collect();
    let t: Tensor<String, S> = Tensor::from(vals.clone()).into_shape(S::from_dims(&dims));
    match cx.src.below(7) {
        5 => {
            let d = gen_dims::<S>(&mut cx.src, 30);
            let u: Tensor<String, S> = Tensor::from_elem(S::from_dims(&d), "other".to_string());
            let (a, mut b) = (t.into_expr(), u.into_expr());
            cx.note(|| format!("clone_from to {d:?}"));
            b.clone_from(&a);
            drive(cx, "iterator of an expression after clone_from", b.into_iter(), &vals, |x| x)?;
            drive(cx, "iterator of an expression that was cloned", a.into_iter(), &vals, |x| x)?
        }
        0 => drive(cx, "into_iter of a tensor", t.into_iter(), &vals, |x| x)?,
        1 => drive(cx, "iterator of a moving expression", t.into_expr().into_iter(), &vals, |x| x)?,
        2 => drive(cx, "into_iter of a tensor reference", (&t).into_iter(), &vals, |x| x.clone())?,
        3 => {
            let mut t = t;
            drive(cx, "into_iter of a mutable tensor reference", (&mut t).into_iter(), &vals, |x| x.clone())?
        }
        4 => {
            // The iterator can be cloned before it is used.
            let it = t.into_iter();
            let other = it.clone();
            drive(cx, "into_iter of a tensor", it, &vals, |x| x)?;
            drive(cx, "clone of an iterator", other, &vals, |x| x)?
        }
        _ => {
            let mut got = Vec::new();
            t.into_expr().for_each(|x| got.push(x));
            ensure_eq!(got, vals, "elements moved by for_each");
            cx.nontrivial_if(vals.len() > 1);
        }
    }
    Ok(())
}

fn array_value<S: TestShape + ConstShape>(cx: &mut Ctx) -> Res {
    let dims: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
    let vals: Vec<String> = (0..product(&dims)).map(|k| format!("e{k}")).collect();
    let mut k = 0;
    let mut a: Array<String, S> = Array::from_fn(|_| {
        k += 1;
        vals[k - 1].clone()
    });
    cx.note(|| format!("array dims {dims:?}"));
    match cx.src.below(4) {
        0 => drive(cx, "into_iter of an array", a.into_iter(), &vals, |x| x),
        1 => drive(cx, "into_iter of an array reference", (&a).into_iter(), &vals, |x| x.clone()),
        2 => drive(cx, "iterator of a moving expression", a.into_expr().into_iter(), &vals, |x| x),
        _ => drive(cx, "into_iter of a mutable array reference", (&mut a).into_iter(), &vals, |x| x.clone()),
    }
}

/// Cloned, replaced and default expressions of inline arrays.
fn array_copies<S>(cx: &mut Ctx) -> Res
where
    S: TestShape + ConstShape + Default + Clone,
    Array<std::mem::ManuallyDrop<String>, S>: Clone + Default,
{
    let n = product(&S::PAT.iter().map(|&p| p as usize).collect::<Vec<_>>());
    let vals: Vec<String> = (0..n).map(|k| format!("e{k}")).collect();
    let mut k = 0;
    let a: Array<String, S> = Array::from_fn(|_| {
        k += 1;
        vals[k - 1].clone()
    });
    let e = a.into_expr();
    let how = cx.src.below(3);
    cx.note(|| format!("array of {n}, copy {how}"));
    match how {
        0 => drive(cx, "iterator of a cloned expression", e.clone().into_iter(), &vals, |x| x)?,
        1 => {
            let mut f = <Array<String, S> as IntoExpression>::IntoExpr::default();
            f.clone_from(&e);
            drive(cx, "iterator of an expression after clone_from", f.into_iter(), &vals, |x| x)?
        }
        _ => {
            let f = <Array<String, S> as IntoExpression>::IntoExpr::default();
            drive(cx, "iterator of a default expression", f.into_iter(), &vec![String::new(); n], |x| x)?;
            if n == 0 {
                let f = <Tensor<String, S> as IntoExpression>::IntoExpr::default();
                drive(cx, "iterator of a default expression", f.into_iter(), &[], |x| x)?;
            }
        }
    }
    drive(cx, "iterator of a moving expression", e.into_iter(), &vals, |x| x)
}

fn drained<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 300);
    if dims.is_empty() {
        return Ok(());
    }
    let vals: Vec<String> = (0..product(&dims)).map(|k| format!("e{k}")).collect();
    let mut t: Tensor<String, S> = Tensor::from(vals.clone()).into_shape(S::from_dims(&dims));
    let a = cx.src.range(0, dims[0]);
    let b = a + cx.src.below(dims[0] - a + 1);
    cx.note(|| format!("tensor dims {dims:?} drain {a}..{b}"));
    let inner = product(&dims[1..]);
    drive(cx, "drain", t.drain(a..b).into_iter(), &vals[a * inner..b * inner], |x| x)?;
    let mut rest = vals[..a * inner].to_vec();
    rest.extend_from_slice(&vals[b * inner..]);
    let mut d = dims.clone();
    d[0] -= b - a;
    agree_vals("array after the drain", &t, &d, &rest)
}

fn metadata<E: Expression>(what: &str, e: &E, dims: &[usize]) -> Res {
    ensure_eq!(shape_dims(e.shape()), dims, "{what}: shape");
    ensure_eq!(e.rank(), dims.len(), "{what}: rank");
    for (i, &d) in dims.iter().enumerate() {
        ensure_eq!(e.dim(i), d, "{what}: dimension {i}");
    }
    ensure_eq!(e.len(), product(dims), "{what}: length");
    ensure_eq!(e.is_empty(), product(dims) == 0, "{what}: is_empty");
    Ok(())
}

/// Iterators of sources and adapters.
fn adapters<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (buf, geo, m) = gen_array::<S, L>(cx, 300);
    let v = view::<S, L>(&buf, &geo);
    let vals: Vec<i32> = m.pos.iter().map(|&p| buf.get(p)).collect();
    let d = &m.dims;
    match cx.src.below(11) {
        0 => {
            let e = if cx.src.flip() { v.expr().cloned() } else { expr::cloned(&v) };
            metadata("cloned", &e, d)?;
            drive_clone(cx, "cloned", e.into_iter(), &vals, |x| x)?
        }
        1 => {
            let e = if cx.src.flip() { v.expr().copied() } else { expr::copied(&v) };
            metadata("copied", &e, d)?;
            drive_clone(cx, "copied", e.into_iter(), &vals, |x| x)?
        }
        2 => {
            let e = v.expr().enumerate();
            metadata("enumerate", &e, d)?;
            let want: Vec<(usize, i32)> = vals.iter().copied().enumerate().collect();
            drive_clone(cx, "enumerate", e.into_iter(), &want, |(i, x)| (i, *x))?
        }
        3 => {
            let e = v.expr().map(|x| x * 3);
            metadata("map", &e, d)?;
            let want: Vec<i32> = vals.iter().map(|x| x * 3).collect();
            drive_clone(cx, "map", e.into_iter(), &want, |x| x)?
        }
        4 => {
            let e = expr::from_fn(S::from_dims(d), |i| i.to_vec());
            metadata("from_fn", &e, d)?;
            drive_clone(cx, "from_fn", e.into_iter(), &indices(d), |x| x)?
        }
        5 => {
            let e = expr::from_elem(S::from_dims(d), 5u8);
            metadata("from_elem", &e, d)?;
            drive_clone(cx, "from_elem", e.into_iter(), &vec![5u8; m.len()], |x| x)?
        }
        6 => {
            // Zip with indices, that count on being stepped in the right order.
            let e = v.expr().zip(expr::from_fn(S::from_dims(d), |i| i.to_vec()));
            metadata("zip", &e, d)?;
            let want: Vec<(i32, Vec<usize>)> = vals.iter().copied().zip(indices(d)).collect();
            drive_clone(cx, "zip with from_fn", e.into_iter(), &want, |(x, i)| (*x, i))?
        }
        7 => {
            let mut n = 0;
            let mut m2 = 0;
            let e = expr::fill(7i32).zip(expr::fill_with(|| {
                n += 1;
                n
            }));
            metadata("zip of fill", &e, &[])?;
            drive_clone(cx, "fill", expr::fill(7i32).into_iter(), &[7], |x| x)?;
            let mut calls = 0;
            drive(cx, "fill_with", expr::fill_with(|| { calls += 1; calls }).into_iter(), &[1], |x| x)?;
            drive(cx, "zip of fill", e.into_iter(), &[(7, 1)], |x| x)?;
            let e = v.expr().zip(expr::fill_with(|| {
                m2 += 1;
                m2
            }));
            metadata("zip with fill_with", &e, d)?;
            let want: Vec<(i32, i32)> = vals.iter().copied().zip(1..).collect();
            drive(cx, "zip with fill_with", e.into_iter(), &want, |(x, y)| (*x, y))?
        }
        8 => {
            // Zip with a moved array.
            let t: Tensor<i32, S> = Tensor::from(vals.clone()).into_shape(S::from_dims(d));
            let e = t.into_expr().zip(&v);
            metadata("zip of a moved array", &e, d)?;
            let want: Vec<(i32, i32)> = vals.iter().map(|&x| (x, x)).collect();
            drive(cx, "zip of a moved array", e.into_iter(), &want, |(x, y)| (x, *y))?
        }
        9 => {
            // Zip with an array of dynamic rank and another memory order.
            let g = strided_geo(&mut cx.src, d);
            cx.note(|| format!("other strides {:?}", g.strides));
            let buf2 = Buf::new(g.extent);
            let m2 = g.model();
            let w = view::<DynRank, Strided>(&buf2, &g);
            let want: Vec<(i32, i32)> = vals.iter().copied().zip(m2.pos.iter().map(|&p| buf2.get(p))).collect();
            let e = w.expr().zip(&v);
            metadata("zip", &e, d)?;
            drive_clone(cx, "zip", e.into_iter(), &want, |(x, y)| (*y, *x))?
        }
        _ => {
            // Zip with an array of lower rank.
            let k = cx.src.range(0, m.rank());
            let g = strided_geo(&mut cx.src, &d[k..]);
            cx.note(|| format!("other dims {:?} strides {:?}", g.dims, g.strides));
            let buf2 = Buf::new(g.extent);
            let m2 = g.model();
            let w = view::<DynRank, Strided>(&buf2, &g);
            let want: Vec<(i32, i32)> =
                vals.iter().enumerate().map(|(i, &x)| (x, buf2.get(m2.pos[i % m2.len()]))).collect();
            let e = v.expr().zip(&w);
            metadata("zip", &e, d)?;
            drive_clone(cx, "zip with broadcasting", e.into_iter(), &want, |(x, y)| (*x, *y))?
        }
    }
    Ok(())
}

/// Iterators over lanes and over an axis.
fn parts<S: TestShape, L: TestLayout, A: Axis + 'static>(cx: &mut Ctx, axis: A, dim: usize, other: A) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 200);
    if dim >= m.rank() {
        return Ok(());
    }
    let base = buf.ptr();
    fn list<S: Shape, L: Layout>(base: *const i32) -> impl FnMut(View<'_, i32, S, L>) -> Vec<isize> {
        move |v| indices(&shape_dims(v.shape())).iter().map(|i| rel(&v[&i[..]] as *const i32, base)).collect()
    }
    let mut rest = m.dims.clone();
    rest.remove(dim);
    let lanes: Vec<Vec<isize>> = indices(&rest).iter().map(|i| m.lane(dim, i).pos).collect();
    let parts: Vec<Vec<isize>> = (0..m.dims[dim]).map(|i| m.remove(dim, i).pos).collect();
    match cx.src.below(5) {
        4 => {
            let (buf2, geo2, m2) = gen_array::<S, L>(cx, 50);
            if dim >= m2.rank() {
                return Ok(());
            }
            let (v, w) = (view::<S, L>(&buf, &geo), view::<S, L>(&buf2, &geo2));
            let (mut a, mut b) = (w.lanes(other), w.axis_expr(other));
            cx.note(|| "clone_from of lanes and axis_expr".into());
            a.clone_from(&v.lanes(axis));
            b.clone_from(&v.axis_expr(axis));
            metadata("lanes", &a, &rest)?;
            metadata("axis_expr", &b, &m.dims[dim..dim + 1])?;
            drive(cx, "lanes after clone_from", a.into_iter(), &lanes, list(base))?;
            drive(cx, "axis_expr after clone_from", b.into_iter(), &parts, list(base))?;
        }
        0 => {
            let v = view::<S, L>(&buf, &geo);
            metadata("lanes", &v.lanes(axis), &rest)?;
            drive_clone(cx, "lanes", v.lanes(axis).into_iter(), &lanes, list(base))?;
        }
        1 => {
            let v = view::<S, L>(&buf, &geo);
            metadata("axis_expr", &v.axis_expr(axis), &m.dims[dim..dim + 1])?;
            drive_clone(cx, "axis_expr", v.axis_expr(axis).into_iter(), &parts, list(base))?;
        }
        2 => {
            let mut v = view_mut::<S, L>(&mut buf, &geo);
            let mut f = list(base);
            drive(cx, "lanes_mut", v.lanes_mut(axis).into_iter(), &lanes, |x| f(x.expr()))?;
        }
        _ => {
            let mut v = view_mut::<S, L>(&mut buf, &geo);
            let mut f = list(base);
            drive(cx, "axis_expr_mut", v.axis_expr_mut(axis).into_iter(), &parts, |x| f(x.expr()))?;
        }
    }
    Ok(())
}

fn parts_dyn<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let d = cx.src.below(S::PAT.len().max(1));
    let other = cx.src.below(S::PAT.len().max(1));
    cx.note(|| format!("axis {d}"));
    parts::<S, L, Dyn>(cx, d, d, other)
}

fn parts_rows<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    cx.note(|| "rows".into());
    parts::<S, L, Rows>(cx, Rows, S::PAT.len() - 1, Rows)
}

fn parts_cols<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    cx.note(|| "cols".into());
    parts::<S, L, Cols>(cx, Cols, S::PAT.len() - 2, Cols)
}

fn parts_first<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    cx.note(|| "first axis".into());
    parts::<S, L, C0>(cx, Const::<0>, 0, Const::<0>)
}

fn parts_second<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    cx.note(|| "second axis".into());
    parts::<S, L, C1>(cx, Const::<1>, 1, Const::<1>)
}

fn main() {
    let mut subs = Subs::default();
    harness::add_elems!(subs, 1, iterated);
    macro_rules! all {
        ($s:ty) => {
            subs.add(concat!("shared dense ", stringify!($s)), 2, shared::<$s, Dense>);
            subs.add(concat!("shared strided ", stringify!($s)), 3, shared::<$s, Strided>);
            subs.add(concat!("mutable dense ", stringify!($s)), 1, mutable::<$s, Dense>);
            subs.add(concat!("mutable strided ", stringify!($s)), 2, mutable::<$s, Strided>);
            subs.add(concat!("by value ", stringify!($s)), 1, by_value::<$s>);
        };
    }
    each_shape!(all);
    macro_rules! ad {
        ($($s:ty),*) => {$(
            subs.add(concat!("adapters dense ", stringify!($s)), 4, adapters::<$s, Dense>);
            subs.add(concat!("adapters strided ", stringify!($s)), 4, adapters::<$s, Strided>);
        )*};
    }
    ad!((), (D,), (D, D), (C2, C3), (C2, D, C3), DynRank);
    subs.add("adapters strided (D, D, D)", 6, adapters::<(D, D, D), Strided>);
    subs.add("adapters dense (D, D, D, D)", 6, adapters::<(D, D, D, D), Dense>);
    subs.add("adapters strided (D, D, D, D, D, D)", 6, adapters::<(D, D, D, D, D, D), Strided>);
    macro_rules! arr {
        ($s:ty) => {
            subs.add(concat!("array by value ", stringify!($s)), 1, array_value::<$s>);
        };
    }
    each_const_shape!(arr);
    macro_rules! cp { ($($s:ty),*) => {$( subs.add(concat!("array copies ", stringify!($s)), 1, array_copies::<$s>); )*} }
    cp!((), (C3,), (C2, C3), (C3, C0), (C2, C3, C2));
    macro_rules! dr { ($($s:ty),*) => {$( subs.add(concat!("drain ", stringify!($s)), 2, drained::<$s>); )*} }
    dr!((D,), (D, D), (D, C3), (D, D, D), (D, C2, D), (D, D, C1), (D, D, D, D, D, D), DynRank);
    macro_rules! pt {
        ($($s:ty),*) => {$(
            subs.add(concat!("parts dyn dense ", stringify!($s)), 1, parts_dyn::<$s, Dense>);
            subs.add(concat!("parts dyn strided ", stringify!($s)), 1, parts_dyn::<$s, Strided>);
            subs.add(concat!("parts rows dense ", stringify!($s)), 1, parts_rows::<$s, Dense>);
            subs.add(concat!("parts rows strided ", stringify!($s)), 1, parts_rows::<$s, Strided>);
            subs.add(concat!("parts cols dense ", stringify!($s)), 1, parts_cols::<$s, Dense>);
            subs.add(concat!("parts cols strided ", stringify!($s)), 1, parts_cols::<$s, Strided>);
        )*};
    }
    pt!((D, D), (D, D, D), (C2, D, C3));
    subs.add("parts first (D, D, D)", 1, parts_first::<(D, D, D), Strided>);
    subs.add("parts second (D, D, D)", 1, parts_second::<(D, D, D), Dense>);
    subs.add("parts second (C2, D, C3)", 1, parts_second::<(C2, D, C3), Strided>);
    subs.add("parts dyn (D, D, D, D)", 1, parts_dyn::<(D, D, D, D), Strided>);
    harness::main(Property {
        id: "C05",
        rule: "the iterator is left partly consumed at some point, or all of at least two elements are consumed at once",
        subs: subs.0,
    })
}
