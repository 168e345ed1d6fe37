//! C11: conversions keep dimensions and elements.
use std::borrow::{Borrow, BorrowMut, Cow};

use harness::*;
use mdarray::expr::{Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, ConstShape, Dense, DynRank, Shape, Slice, Strided, Tensor, View, ViewMut};
use mdarray::{array, tensor, view};

/// Nested Rust arrays, built and read in row-major order.
trait Nest: Sized + Clone + 'static {
    fn dims() -> Vec<usize>;
    fn build(f: &mut dyn FnMut() -> i32) -> Self;
    fn read(&self, out: &mut Vec<i32>);
}

impl Nest for i32 {
    fn dims() -> Vec<usize> {
        vec![]
    }
    fn build(f: &mut dyn FnMut() -> i32) -> Self {
        f()
    }
    fn read(&self, out: &mut Vec<i32>) {
        out.push(*self);
    }
}

impl<N: Nest, const K: usize> Nest for [N; K] {
    fn dims() -> Vec<usize> {
        let mut d = vec![K];
        d.extend(N::dims());
        d
    }
    fn build(f: &mut dyn FnMut() -> i32) -> Self {
        std::array::from_fn(|_| N::build(f))
    }
    fn read(&self, out: &mut Vec<i32>) {
        for x in self {
            x.read(out);
        }
    }
}

fn build<N: Nest>(vals: &[i32]) -> N {
    let mut k = 0;
    N::build(&mut || {
        k += 1;
        vals[k - 1]
    })
}

fn read<N: Nest>(n: &N) -> Vec<i32> {
    let mut v = Vec::new();
    n.read(&mut v);
    v
}

fn gen_vals(cx: &mut Ctx, n: usize) -> Vec<i32> {
    let base = cx.src.range(0, 1000) as i32;
    (0..n as i32).map(|k| base * 1000 + k * 3 + 1).collect()
}

/// Other dimensions than the given ones, mostly with the same number of elements.
fn other_dims(cx: &mut Ctx, dims: &[usize], fixed: &[i64]) -> Vec<usize> {
    let free: Vec<usize> = (0..dims.len()).filter(|&k| fixed[k] < 0).collect();
    let mut d = dims.to_vec();
    if free.is_empty() {
        return d;
    }
    match cx.src.below(5) {
        0 => (),
        1 | 2 if free.len() > 1 => {
            let (a, b) = (*cx.src.pick(&free), *cx.src.pick(&free));
            d.swap(a, b);
        }
        3 if free.len() > 1 => {
            // One dimension merged into another.
            let (a, b) = (*cx.src.pick(&free), *cx.src.pick(&free));
            if a != b {
                d[a] *= d[b];
                d[b] = 1;
            }
        }
        _ => {
            let k = *cx.src.pick(&free);
            d[k] = match cx.src.below(4) {
                0 => d[k] + 1,
                1 => d[k].saturating_sub(1),
                2 => 0,
                _ => d[k] * 2,
            };
        }
    }
    d
}

macro_rules! nested {
    ($name:ident, $n:ty, $s:ty, $k:ty, [$($p:expr),+]) => {
        fn $name(cx: &mut Ctx) -> Res {
            type N = $n;
            type S = $s;
            type K = $k;
            let pat: &[i64] = &[$($p),+];
            let dims = N::dims();
            let vals = gen_vals(cx, product(&dims));
            let n: N = build(&vals);
            let op = cx.src.below(16);
            cx.note(|| format!("nested array {dims:?}, conversion {op}, values from {:?}", vals.first()));
            cx.nontrivial_if(vals.len() > 1);
            match op {
                0 => {
                    agree_vals("Tensor::from(nested array)", &*Tensor::<i32, S>::from(n), &dims, &vals)?;
                }
                1 => {
                    agree_vals("Tensor::from(&nested array)", &*Tensor::<i32, S>::from(&n), &dims, &vals)?;
                    ensure_eq!(read(&n), vals, "the source of the copy");
                }
                2 => {
                    let a = Array::<i32, K>::from(n.clone());
                    agree_vals("Array::from(nested array)", &*a, &dims, &vals)?;
                    let m: N = a.into();
                    ensure_eq!(read(&m), vals, "nested array from Array");
                    agree_vals("Array::from(&nested array)", &*Array::<i32, K>::from(&n), &dims, &vals)?;
                }
                3 => {
                    let v = View::<i32, S>::from(&n);
                    ensure_eq!(v.as_ptr() as usize, &n as *const N as usize, "address of the view of a nested array");
                    agree_vals("View::from(&nested array)", &*v, &dims, &vals)?;
                }
                4 => {
                    let mut n = n;
                    let mut v = ViewMut::<i32, S>::from(&mut n);
                    agree_vals("ViewMut::from(&mut nested array)", &*v, &dims, &vals)?;
                    let mut want = vals.clone();
                    if !vals.is_empty() {
                        let k = cx.src.below(vals.len());
                        v[k] = -5;
                        want[k] = -5;
                    }
                    ensure_eq!(read(&n), want, "nested array written through a view");
                }
                5 | 6 | 7 => {
                    // Owned, to a nested array of other or the same dimensions.
                    let d = other_dims(cx, &dims, pat);
                    let v = gen_vals(cx, product(&d));
                    cx.note(|| format!("array {d:?}"));
                    let t: Tensor<i32, S> = Tensor::<i32, (D,)>::from(v.clone()).into_shape(S::from_dims(&d));
                    let p = t.as_ptr();
                    match N::try_from(t) {
                        Ok(m) => {
                            ensure!(d == dims, "array {d:?} was converted to a nested array {dims:?}");
                            ensure_eq!(read(&m), v, "nested array from Tensor");
                        }
                        Err(t) => {
                            ensure!(d != dims, "conversion of an array {d:?} to a nested array failed");
                            ensure_eq!(t.as_ptr(), p, "address of the returned array");
                            agree_vals("returned array", &*t, &d, &v)?;
                        }
                    }
                }
                8 | 9 => {
                    let d = other_dims(cx, &dims, pat);
                    let mut v = gen_vals(cx, product(&d));
                    cx.note(|| format!("view {d:?}"));
                    let p = v.as_mut_ptr();
                    if op == 8 {
                        let w = View::<i32, (D,)>::from(&v[..]).into_shape(S::from_dims(&d));
                        match <&N>::try_from(w) {
                            Ok(m) => {
                                ensure!(d == dims, "view {d:?} was converted to a nested array {dims:?}");
                                ensure_eq!(m as *const N as usize, p as usize, "address of the nested array");
                                ensure_eq!(read(m), v, "nested array from View");
                            }
                            Err(w) => {
                                ensure!(d != dims, "conversion of a view {d:?} to a nested array failed");
                                ensure_eq!(w.as_ptr() as usize, p as usize, "address of the returned view");
                                agree_vals("returned view", &*w, &d, &v)?;
                            }
                        }
                    } else {
                        let want = v.clone();
                        let w = ViewMut::<i32, (D,)>::from(&mut v[..]).into_shape(S::from_dims(&d));
                        match <&mut N>::try_from(w) {
                            Ok(m) => {
                                ensure!(d == dims, "mutable view {d:?} was converted to a nested array {dims:?}");
                                ensure_eq!(m as *const N as usize, p as usize, "address of the nested array");
                                ensure_eq!(read(m), want, "nested array from ViewMut");
                            }
                            Err(w) => {
                                ensure!(d != dims, "conversion of a mutable view {d:?} to a nested array failed");
                                ensure_eq!(w.as_ptr() as usize, p as usize, "address of the returned view");
                                agree_vals("returned view", &*w, &d, &want)?;
                            }
                        }
                    }
                }
                10 => {
                    let a = Array::<i32, K>::from(n.clone());
                    let t = Tensor::<i32, K>::from(a.clone());
                    agree_vals("Tensor::from(Array)", &*t, &dims, &vals)?;
                    agree_vals("Array::from(Tensor)", &*Array::<i32, K>::from(t), &dims, &vals)?;
                    agree_vals("to_array", &*a.to_array(), &dims, &vals)?;
                    ensure_eq!(a.to_vec(), vals, "to_vec of Array");
                    agree_vals("Array::from(View)", &*Array::<i32, K>::from(a.expr()), &dims, &vals)?;
                    agree_vals("Array::from(&Tensor)", &*Array::<i32, K>::from(&Tensor::<i32, K>::from(&a)), &dims, &vals)?;
                }
                11 => {
                    // References between nested arrays and inline arrays.
                    let mut n = n;
                    let a: &Array<i32, K> = n.as_ref();
                    ensure_eq!(a as *const _ as usize, &n as *const N as usize, "address of Array from as_ref");
                    agree_vals("Array from as_ref", &**a, &dims, &vals)?;
                    let b: &mut Array<i32, K> = n.as_mut();
                    b.fill(7);
                    ensure_eq!(read(&n), vec![7; vals.len()], "nested array written through Array");
                }
                12 => {
                    let mut a = Array::<i32, K>::from(n.clone());
                    let r: &N = AsRef::<N>::as_ref(&a);
                    ensure_eq!(r as *const N as usize, &a as *const _ as usize, "address of the nested array from as_ref");
                    ensure_eq!(read(r), vals, "nested array from as_ref of Array");
                    let m: &mut N = AsMut::<N>::as_mut(&mut a);
                    *m = build(&vals.iter().map(|x| x + 1).collect::<Vec<_>>());
                    agree_vals("Array written through a nested array", &*a, &dims, &vals.iter().map(|x| x + 1).collect::<Vec<_>>())?;
                    let t = Tensor::<i32, K>::from(n.clone());
                    let r: &N = t.as_ref();
                    ensure_eq!(read(r), vals, "nested array from as_ref of Tensor");
                    let w = View::<i32, K>::from(&n);
                    let r: &N = w.as_ref();
                    ensure_eq!(r as *const N as usize, &n as *const N as usize, "address of the nested array from as_ref of View");
                }
                13 => {
                    // Expressions.
                    let a = Array::<i32, K>::from(n.clone());
                    agree_vals("from_expr of a moved array", &*Tensor::<i32, K>::from_expr(a.clone().into_expr()), &dims, &vals)?;
                    agree_vals("from_expr to Array", &*Array::<i32, K>::from_expr(a.expr().copied()), &dims, &vals)?;
                    let t = Tensor::<i32, S>::from(n);
                    agree_vals("from_expr of a moved tensor", &*Tensor::<i32, S>::from_expr(t.clone().into_expr()), &dims, &vals)?;
                    agree_vals("from_expr of a view", &*Tensor::<i32, S>::from_expr(t.expr().cloned()), &dims, &vals)?;
                }
                14 => {
                    // Between shape types.
                    let t = Tensor::<i32, S>::from(n);
                    let p = t.as_ptr();
                    let t = t.into_dyn();
                    ensure_eq!(t.as_ptr(), p, "address after into_dyn");
                    agree_vals("into_dyn", &*t, &dims, &vals)?;
                    let t = t.into_mapping::<K>();
                    ensure_eq!(t.as_ptr(), p, "address after into_mapping");
                    agree_vals("into_mapping", &*t, &dims, &vals)?;
                    let v = t.into_vec();
                    ensure_eq!(v.as_ptr(), p, "address after into_vec");
                    ensure_eq!(v, vals, "into_vec");
                    agree_vals("into_flat", &*Tensor::<i32, (D,)>::from(v).into_flat(), &[vals.len()], &vals)?;
                }
                _ => {
                    // To constant sizes: success exactly if all sizes match.
                    let all = vec![-1; dims.len()];
                    let d = other_dims(cx, &dims, &all);
                    let v = gen_vals(cx, product(&d));
                    cx.note(|| format!("array {d:?}"));
                    let t: Tensor<i32, DynRank> = Tensor::<i32, (D,)>::from(v.clone()).into_shape(&d[..]);
                    match caught(|| t.into_mapping::<K>()) {
                        Some(t) => {
                            ensure!(d == dims, "array {d:?} was converted to constant sizes {dims:?}");
                            agree_vals("into_mapping", &*t, &d, &v)?;
                        }
                        None => ensure!(d != dims, "into_mapping panics: {}", last_panic()),
                    }
                }
            }
            Ok(())
        }
    };
}

nested!(n1a, [i32; 5], (D,), (Const<5>,), [-1]);
nested!(n1b, [i32; 1], (C1,), (Const<1>,), [1]);
nested!(n1c, [i32; 0], (D,), (Const<0>,), [-1]);
nested!(n2a, [[i32; 3]; 2], (D, D), (Const<2>, Const<3>), [-1, -1]);
nested!(n2b, [[i32; 2]; 4], (D, C2), (Const<4>, Const<2>), [-1, 2]);
nested!(n2c, [[i32; 0]; 3], (D, D), (Const<3>, Const<0>), [-1, -1]);
nested!(n2d, [[i32; 3]; 0], (D, D), (Const<0>, Const<3>), [-1, -1]);
nested!(n3a, [[[i32; 2]; 3]; 4], (D, D, D), (Const<4>, Const<3>, Const<2>), [-1, -1, -1]);
nested!(n3b, [[[i32; 3]; 1]; 2], (C2, D, D), (Const<2>, Const<1>, Const<3>), [2, -1, -1]);
nested!(n4a, [[[[i32; 2]; 3]; 1]; 4], (D, D, D, D), (Const<4>, Const<1>, Const<3>, Const<2>), [-1, -1, -1, -1]);
nested!(n4b, [[[[i32; 3]; 2]; 3]; 2], (D, D, C2, D), (Const<2>, Const<3>, Const<2>, Const<3>), [-1, -1, 2, -1]);
nested!(n5a, [[[[[i32; 2]; 1]; 3]; 2]; 3], (D, D, D, D, D), (Const<3>, Const<2>, Const<3>, Const<1>, Const<2>), [-1, -1, -1, -1, -1]);
nested!(n6a, [[[[[[i32; 2]; 3]; 1]; 2]; 1]; 3], (D, D, D, D, D, D), (Const<3>, Const<1>, Const<2>, Const<1>, Const<3>, Const<2>), [-1, -1, -1, -1, -1, -1]);
nested!(n6b, [[[[[[i32; 1]; 2]; 2]; 2]; 1]; 2], (D, D, D, C2, D, D), (Const<2>, Const<1>, Const<2>, Const<2>, Const<2>, Const<1>), [-1, -1, -1, 2, -1, -1]);

/// Copies of views of any layout.
fn copies<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, model) = gen_array::<S, L>(cx, 60);
    let vals: Vec<i32> = model.pos.iter().map(|&p| buf.get(p)).collect();
    let dims = model.dims.clone();
    let op = cx.src.below(9);
    cx.note(|| format!("copy {op}"));
    cx.nontrivial_if(vals.len() > 1);
    match op {
        0 => agree_vals("to_tensor", &*view::<S, L>(&buf, &geo).to_tensor(), &dims, &vals)?,
        1 => ensure_eq!(view::<S, L>(&buf, &geo).to_vec(), vals, "to_vec"),
        2 => agree_vals("Tensor::from(View)", &*Tensor::<i32, S>::from(view::<S, L>(&buf, &geo)), &dims, &vals)?,
        3 => {
            let v = view::<S, L>(&buf, &geo);
            let s: &Slice<i32, S, L> = &v;
            agree_vals("Tensor::from(&Slice)", &*Tensor::<i32, S>::from(s), &dims, &vals)?;
        }
        4 => {
            let v = view_mut::<S, L>(&mut buf, &geo);
            let s: &Slice<i32, S, L> = &v;
            agree_vals("Tensor::from(&Slice) of a mutable view", &*Tensor::<i32, S>::from(s), &dims, &vals)?;
        }
        5 => {
            let v = view::<S, L>(&buf, &geo);
            agree_vals("from_expr", &*Tensor::<i32, S>::from_expr(v.cloned()), &dims, &vals)?;
        }
        6 => {
            // Views of views.
            let v = view::<S, L>(&buf, &geo);
            let w = View::from(&v);
            agree("View::from(&View)", &*w, buf.ptr(), &model)?;
            let s: &Slice<i32, S, L> = v.borrow();
            agree("borrow", s, buf.ptr(), &model)?;
        }
        7 => {
            let p = buf.ptr();
            let mut v = view_mut::<S, L>(&mut buf, &geo);
            {
                let w = ViewMut::from(&mut v);
                agree("ViewMut::from(&mut ViewMut)", &*w, p, &model)?;
            }
            {
                let s: &mut Slice<i32, S, L> = v.borrow_mut();
                agree("borrow_mut", s, p, &model)?;
            }
            {
                let s: &mut Slice<i32, S, L> = AsMut::<Slice<i32, S, L>>::as_mut(&mut v);
                agree("as_mut of ViewMut", s, p, &model)?;
                let s: &mut Slice<i32, S, L> = AsMut::<Slice<i32, S, L>>::as_mut(s);
                agree("as_mut of Slice", s, p, &model)?;
                let s: &Slice<i32, S, L> = AsRef::<Slice<i32, S, L>>::as_ref(s);
                agree("as_ref of Slice", s, p, &model)?;
            }
            let s: &Slice<i32, S, L> = AsRef::<Slice<i32, S, L>>::as_ref(&v);
            agree("as_ref of ViewMut", s, p, &model)?;
            let w: View<i32, S, L> = View::from(&v);
            agree("View::from(&ViewMut)", &*w, p, &model)?;
            let s: &Slice<i32, S, L> = AsRef::<Slice<i32, S, L>>::as_ref(&w);
            agree("as_ref of View", s, p, &model)?;
        }
        _ => {
            let v = view::<S, L>(&buf, &geo);
            let t: Tensor<i32, S> = v.to_tensor();
            let s: &Slice<i32, S> = t.borrow();
            agree("borrow of Tensor", s, t.as_ptr(), &Model::dense(&dims))?;
            let mut t2 = t.clone();
            let p = t2.as_ptr();
            let s: &mut Slice<i32, S> = t2.borrow_mut();
            agree("borrow_mut of Tensor", s, p, &Model::dense(&dims))?;
            let s: &mut Slice<i32, S> = AsMut::<Slice<i32, S>>::as_mut(&mut t2);
            agree("as_mut of Tensor", s, p, &Model::dense(&dims))?;
            let s: &Slice<i32, S> = AsRef::<Slice<i32, S>>::as_ref(&t2);
            agree("as_ref of Tensor", s, p, &Model::dense(&dims))?;
            let w = View::from(&t);
            agree("View::from(&Tensor)", &*w, t.as_ptr(), &Model::dense(&dims))?;
        }
    }
    Ok(())
}

/// Owned copies of slices: ToOwned.
fn owned<S: TestShape>(cx: &mut Ctx) -> Res
where
    <S as Shape>::Owned<i32>: AsRef<Slice<i32, S>> + Borrow<Slice<i32, S>> + Clone,
{
    let d1 = gen_dims::<S>(&mut cx.src, 40);
    let d2 = gen_dims::<S>(&mut cx.src, 40);
    let (v1, v2) = (gen_vals(cx, product(&d1)), gen_vals(cx, product(&d2)));
    cx.note(|| format!("owned copies of {d1:?}, {d2:?}"));
    cx.nontrivial_if(v1.len() > 1);
    let t1: Tensor<i32, S> = Tensor::<i32, (D,)>::from(v1.clone()).into_shape(S::from_dims(&d1));
    let t2: Tensor<i32, S> = Tensor::<i32, (D,)>::from(v2.clone()).into_shape(S::from_dims(&d2));
    let (s1, s2): (&Slice<i32, S>, &Slice<i32, S>) = (&t1, &t2);
    let mut o = s1.to_owned();
    agree_vals::<i32, S, Dense>("to_owned", Borrow::<Slice<i32, S>>::borrow(&o), &d1, &v1)?;
    s2.clone_into(&mut o);
    agree_vals::<i32, S, Dense>("clone_into", Borrow::<Slice<i32, S>>::borrow(&o), &d2, &v2)?;
    let c: Cow<Slice<i32, S>> = Cow::Borrowed(s1);
    agree_vals::<i32, S, Dense>("Cow::into_owned", Borrow::<Slice<i32, S>>::borrow(&c.into_owned()), &d1, &v1)?;
    let e = s1.expr().cloned().eval();
    agree_vals::<i32, S, Dense>("eval", Borrow::<Slice<i32, S>>::borrow(&e), &d1, &v1)?;
    Ok(())
}

/// Vectors, slices and iterators.
fn vectors(cx: &mut Ctx) -> Res {
    let n = cx.src.range(0, 20);
    let vals = gen_vals(cx, n);
    let op = cx.src.below(12);
    cx.note(|| format!("vector of length {n}, conversion {op}"));
    cx.nontrivial_if(n > 1);
    match op {
        0 => {
            let v = vals.clone();
            let p = v.as_ptr();
            let t = Tensor::<i32, (D,)>::from(v);
            ensure_eq!(t.as_ptr(), p, "address of Tensor::from(Vec)");
            agree_vals("Tensor::from(Vec)", &*t, &[n], &vals)?;
            let v: Vec<i32> = t.into();
            ensure_eq!(v.as_ptr(), p, "address of the vector");
            ensure_eq!(v, vals, "Vec from Tensor");
        }
        1 => agree_vals("Tensor::from(&[T])", &*Tensor::<i32, (D,)>::from(&vals[..]), &[n], &vals)?,
        2 => {
            let v = View::<i32, (D,)>::from(&vals[..]);
            ensure_eq!(v.as_ptr(), vals.as_ptr(), "address of View::from(&[T])");
            agree_vals("View::from(&[T])", &*v, &[n], &vals)?;
            let s: &[i32] = v.into();
            ensure_eq!((s.as_ptr(), s.len()), (vals.as_ptr(), n), "slice from View");
        }
        3 => {
            let mut w = vals.clone();
            let p = w.as_ptr();
            let mut v = ViewMut::<i32, (D,)>::from(&mut w[..]);
            agree_vals("ViewMut::from(&mut [T])", &*v, &[n], &vals)?;
            if n > 0 {
                v[n - 1] = 5;
            }
            let s: &mut [i32] = v.into();
            ensure_eq!((s.as_ptr(), s.len()), (p, n), "slice from ViewMut");
            let mut want = vals.clone();
            if n > 0 {
                want[n - 1] = 5;
            }
            ensure_eq!(w, want, "vector written through a view");
        }
        4 => {
            let mut t: Tensor<i32, (D,)> = vals.iter().copied().collect();
            agree_vals("collect", &*t, &[n], &vals)?;
            let p = t.as_ptr();
            let s: &[i32] = t.as_ref();
            ensure_eq!((s.as_ptr(), s), (p, &vals[..]), "as_ref of Tensor");
            let s: &mut [i32] = t.as_mut();
            ensure_eq!((s.as_ptr(), s.len()), (p, n), "as_mut of Tensor");
        }
        5 => {
            let mut t: Tensor<i32, (D,)> = Tensor::from(vals.clone());
            t.extend(vals.iter());
            t.extend(vals.iter().copied());
            let want: Vec<i32> = vals.iter().chain(&vals).chain(&vals).copied().collect();
            agree_vals("extend", &*t, &[3 * n], &want)?;
        }
        6 => {
            // With a constant size.
            let d = [n];
            let r = caught(|| Tensor::<i32, (D,)>::from(vals.clone()).into_mapping::<(C3,)>());
            match r {
                Some(t) => {
                    ensure!(n == 3, "vector of length {n} was converted to a constant size 3");
                    let v: Vec<i32> = t.into();
                    ensure_eq!(v, vals, "vector from a constant-sized array");
                }
                None => ensure!(n != 3, "into_mapping panics for {d:?}"),
            }
        }
        7 => {
            let r = Const::<3>::try_from(n);
            ensure_eq!(r.is_ok(), n == 3, "Const::try_from({n})");
            if let Err(e) = r {
                ensure_eq!(e, n, "error of Const::try_from({n})");
            }
            ensure_eq!(usize::from(Const::<7>), 7, "Dyn::from(Const)");
        }
        8 => {
            let t = Tensor::<i32, (D,)>::from(&vals[..]);
            let v: Vec<i32> = t.clone().into_iter().collect();
            ensure_eq!(v, vals, "into_iter");
            let v: Vec<&i32> = (&t).into_iter().collect();
            ensure_eq!(v, vals.iter().collect::<Vec<_>>(), "iter");
        }
        9 => {
            // A single element.
            let t = Tensor::<i32, (D,)>::from(vals.clone());
            match caught(|| t.into_scalar()) {
                Some(x) => ensure!(n == 1 && x == vals[0], "into_scalar of {n} elements"),
                None => ensure!(n != 1, "into_scalar panics"),
            }
            let a = Array::<i32, ()>::from_fn(|_| 5);
            ensure_eq!(a.into_scalar(), 5, "into_scalar of Array");
            ensure_eq!(a.0, 5, "inner value of Array");
        }
        10 => {
            let (x, y, z) = (cx.src.below(100) as i32, cx.src.below(100) as i32, cx.src.below(100) as i32);
            macros(x, y, z)?;
        }
        _ => {
            // Dynamic rank to static rank.
            let rank = cx.src.range(0, 3);
            let d = gen_rank_dims(&mut cx.src, rank, 30);
            let v = gen_vals(cx, product(&d));
            let t: Tensor<i32, DynRank> = Tensor::<i32, (D,)>::from(v.clone()).into_shape(&d[..]);
            ensure_eq!(t.dims(), &d[..], "dims");
            match caught(|| t.into_mapping::<(D, D)>()) {
                Some(t) => {
                    ensure!(rank == 2, "rank {rank} was converted to rank 2");
                    agree_vals("into_mapping", &*t, &d, &v)?;
                }
                None => ensure!(rank != 2, "into_mapping panics for {d:?}"),
            }
        }
    }
    Ok(())
}

/// The macros for literals, with runtime values.
fn macros(x: i32, y: i32, z: i32) -> Res {
    let v = [x, y, z, y, x, z];
    agree_vals("tensor! rank 1", &*tensor![x, y, z], &[3], &v[..3])?;
    agree_vals("tensor! rank 2", &*tensor![[x, y, z], [y, x, z]], &[2, 3], &v)?;
    agree_vals("tensor! rank 3", &*tensor![[[x], [y], [z]], [[y], [x], [z]]], &[2, 3, 1], &v)?;
    agree_vals("tensor! rank 4", &*tensor![[[[x, y]], [[z, y]], [[x, z]]]], &[1, 3, 1, 2], &v)?;
    agree_vals("tensor! rank 5", &*tensor![[[[[x], [y], [z]]], [[[y], [x], [z]]]]], &[1, 2, 1, 3, 1], &v)?;
    agree_vals("tensor! rank 6", &*tensor![[[[[[x, y, z]], [[y, x, z]]]]]], &[1, 1, 1, 2, 1, 3], &v)?;
    agree_vals("array! rank 1", &*array![x, y, z], &[3], &v[..3])?;
    agree_vals("array! rank 2", &*array![[x, y, z], [y, x, z]], &[2, 3], &v)?;
    agree_vals("array! rank 3", &*array![[[x], [y], [z]], [[y], [x], [z]]], &[2, 3, 1], &v)?;
    agree_vals("array! rank 4", &*array![[[[x, y]], [[z, y]], [[x, z]]]], &[1, 3, 1, 2], &v)?;
    agree_vals("array! rank 5", &*array![[[[[x], [y], [z]]], [[[y], [x], [z]]]]], &[1, 2, 1, 3, 1], &v)?;
    agree_vals("array! rank 6", &*array![[[[[[x, y, z]], [[y, x, z]]]]]], &[1, 1, 1, 2, 1, 3], &v)?;
    agree_vals("view! rank 1", &*view![x, y, z], &[3], &v[..3])?;
    agree_vals("view! rank 2", &*view![[x, y, z], [y, x, z]], &[2, 3], &v)?;
    agree_vals("view! rank 3", &*view![[[x], [y], [z]], [[y], [x], [z]]], &[2, 3, 1], &v)?;
    agree_vals("view! rank 4", &*view![[[[x, y]], [[z, y]], [[x, z]]]], &[1, 3, 1, 2], &v)?;
    agree_vals("view! rank 5", &*view![[[[[x], [y], [z]]], [[[y], [x], [z]]]]], &[1, 2, 1, 3, 1], &v)?;
    agree_vals("view! rank 6", &*view![[[[[[x, y, z]], [[y, x, z]]]]]], &[1, 1, 1, 2, 1, 3], &v)?;
    let (a, b) = (x as usize % 4, y as usize % 4);
    let e = |n: usize| vec![z; n];
    agree_vals("tensor! repeat 1", &*tensor![z; a], &[a], &e(a))?;
    agree_vals("tensor! repeat 2", &*tensor![[z; a]; b], &[b, a], &e(a * b))?;
    agree_vals("tensor! repeat 3", &*tensor![[[z; a]; b]; 2], &[2, b, a], &e(2 * a * b))?;
    agree_vals("tensor! repeat 4", &*tensor![[[[z; a]; b]; 2]; 3], &[3, 2, b, a], &e(6 * a * b))?;
    agree_vals("tensor! repeat 5", &*tensor![[[[[z; a]; b]; 2]; 3]; 1], &[1, 3, 2, b, a], &e(6 * a * b))?;
    agree_vals("tensor! repeat 6", &*tensor![[[[[[z; a]; b]; 2]; 3]; 1]; 2], &[2, 1, 3, 2, b, a], &e(12 * a * b))?;
    agree_vals("array! repeat 1", &*array![z; 3], &[3], &e(3))?;
    agree_vals("array! repeat 2", &*array![[z; 3]; 2], &[2, 3], &e(6))?;
    agree_vals("array! repeat 3", &*array![[[z; 3]; 2]; 4], &[4, 2, 3], &e(24))?;
    agree_vals("array! repeat 4", &*array![[[[z; 3]; 2]; 4]; 1], &[1, 4, 2, 3], &e(24))?;
    agree_vals("array! repeat 5", &*array![[[[[z; 3]; 2]; 4]; 1]; 2], &[2, 1, 4, 2, 3], &e(48))?;
    agree_vals("array! repeat 6", &*array![[[[[[z; 3]; 2]; 4]; 1]; 2]; 1], &[1, 2, 1, 4, 2, 3], &e(48))?;
    agree_vals("view! repeat 1", &*view![z; 3], &[3], &e(3))?;
    agree_vals("view! repeat 2", &*view![[z; 3]; 2], &[2, 3], &e(6))?;
    agree_vals("view! repeat 3", &*view![[[z; 3]; 2]; 4], &[4, 2, 3], &e(24))?;
    agree_vals("view! repeat 4", &*view![[[[z; 3]; 2]; 4]; 1], &[1, 4, 2, 3], &e(24))?;
    agree_vals("view! repeat 5", &*view![[[[[z; 3]; 2]; 4]; 1]; 2], &[2, 1, 4, 2, 3], &e(48))?;
    agree_vals("view! repeat 6", &*view![[[[[[z; 3]; 2]; 4]; 1]; 2]; 1], &[1, 2, 1, 4, 2, 3], &e(48))?;
    Ok(())
}

/// Inline arrays from views and between shapes.
fn inline<S: TestShape + ConstShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (buf, geo, model) = gen_array::<S, L>(cx, 60);
    let vals: Vec<i32> = model.pos.iter().map(|&p| buf.get(p)).collect();
    let v = view::<S, L>(&buf, &geo);
    cx.nontrivial_if(vals.len() > 1);
    agree_vals("to_array", &*v.to_array(), &model.dims, &vals)?;
    agree_vals("Array::from(View)", &*Array::<i32, S>::from(v.clone()), &model.dims, &vals)?;
    let s: &Slice<i32, S, L> = &v;
    agree_vals("Array::from(&Slice)", &*Array::<i32, S>::from(s), &model.dims, &vals)?;
    let mut a = v.to_array();
    let n = vals.len();
    {
        let (p, dense) = (a.as_ptr(), Model::dense(&model.dims));
        let s: &Slice<i32, S> = a.borrow();
        agree("borrow of Array", s, p, &dense)?;
        let s: &Slice<i32, S> = AsRef::<Slice<i32, S>>::as_ref(&a);
        agree("as_ref of Array", s, p, &dense)?;
        let p = a.as_mut_ptr() as *const i32;
        let s: &mut Slice<i32, S> = a.borrow_mut();
        agree("borrow_mut of Array", s, p, &dense)?;
        let s: &mut Slice<i32, S> = AsMut::<Slice<i32, S>>::as_mut(&mut a);
        agree("as_mut of Array", s, p, &dense)?;
        agree("View::from(&Array)", &*View::from(&a), p, &dense)?;
        agree("ViewMut::from(&mut Array)", &*ViewMut::from(&mut a), p, &dense)?;
    }
    let r = match cx.src.below(4) {
        0 => (caught(|| a.into_shape::<(C3,)>().to_vec()), 3),
        1 => (caught(|| a.into_shape::<(C2, C3)>().to_vec()), 6),
        2 => (caught(|| a.into_shape::<(C2, C3, C2)>().to_vec()), 12),
        _ => (caught(|| a.into_shape::<(C1, C0)>().to_vec()), 0),
    };
    ensure_eq!(r.0.is_some(), n == r.1, "into_shape of {n} elements to {} succeeds", r.1);
    if let Some(r) = r.0 {
        ensure_eq!(r, vals, "elements after into_shape");
    }
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    macro_rules! nest {
        ($($f:ident),+) => { $(subs.add(concat!("nested ", stringify!($f)), 2, $f);)+ };
    }
    nest!(n1a, n1b, n1c, n2a, n2b, n2c, n2d, n3a, n3b, n4a, n4b, n5a, n6a, n6b);
    macro_rules! copy {
        ($t:ty) => {
            subs.add(concat!("copies dense ", stringify!($t)), 1, copies::<$t, Dense>);
            subs.add(concat!("copies strided ", stringify!($t)), 1, copies::<$t, Strided>);
        };
    }
    copy!(());
    copy!((D,));
    copy!((D, D));
    copy!((C2, D));
    copy!((D, D, D));
    copy!((C2, D, D, C3));
    copy!((D, D, D, D, D, D));
    copy!(DynRank);
    macro_rules! own {
        ($t:ty) => {
            subs.add(concat!("owned ", stringify!($t)), 1, owned::<$t>);
        };
    }
    own!((D,));
    own!((D, C3));
    own!((C2, C3));
    own!((C2, D, C3));
    own!((C2, C3, C2));
    own!(DynRank);
    own!(());
    macro_rules! inl {
        ($t:ty) => {
            subs.add(concat!("inline dense ", stringify!($t)), 1, inline::<$t, Dense>);
            subs.add(concat!("inline strided ", stringify!($t)), 1, inline::<$t, Strided>);
        };
    }
    inl!((C3,));
    inl!((C2, C3));
    inl!((C2, C3, C2));
    inl!((C3, C0));
    inl!((C2, C1, C3, C2));
    subs.add("vectors", 6, vectors);
    harness::main(Property {
        id: "C11",
        rule: "the converted array has at least two elements",
        subs: subs.0,
    });
}
