//! C16: static types of results carry the sizes and the layout they promise.
//!
//! The type of every result is read at run time (by its type name) and compared with the one that
//! the rules below give for the sizes that the operand types fix.
use harness::leaves::*;
use harness::*;
use mdarray::expr::{Apply, Expression, IntoExpression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;
use std::any::type_name;
use std::borrow::Borrow;
use std::ops::Bound;

/// Sizes that a shape type fixes (-1 for a dynamic one), or none for dynamic rank.
type Pat = Option<Vec<i64>>;

fn pat<S: Shape>() -> Pat {
    let name = type_name::<S>();
    let dims = name.trim().trim_start_matches('(').trim_end_matches(')');
    if !name.starts_with('(') {
        assert!(name.ends_with("DynRank"), "shape type {name}");
        return None;
    }
    let dims = dims.split(',').map(str::trim).filter(|d| !d.is_empty());
    Some(dims.map(|d| if d == "usize" { -1 } else { d.split(['<', '>']).nth(1).unwrap().parse().expect(name) }).collect())
}

fn test_pat<S: TestShape>() -> Pat {
    if S::DYNRANK { None } else { Some(S::PAT.to_vec()) }
}

trait Desc {
    fn kind(&self) -> &'static str;
    fn pat(&self) -> Pat;
    fn dense(&self) -> bool;
    fn dims(&self) -> Vec<usize>;
    fn consecutive(&self) -> bool;
}

fn consecutive<T, S: Shape, L: Layout>(v: &Slice<T, S, L>) -> bool {
    let dims = shape_dims(v.shape());
    let base = v.as_ptr();
    product(&dims) == 0 || indices(&dims).iter().enumerate().all(|(k, i)| rel(&v[&i[..]] as *const T, base) == k as isize)
}

macro_rules! desc {
    (($($g:tt)*), $t:ty, $name:literal, $s:ty, $dense:expr) => {
        impl<$($g)*> Desc for $t {
            fn kind(&self) -> &'static str {
                $name
            }
            fn pat(&self) -> Pat {
                pat::<$s>()
            }
            fn dense(&self) -> bool {
                $dense
            }
            fn dims(&self) -> Vec<usize> {
                shape_dims(self.shape())
            }
            fn consecutive(&self) -> bool {
                consecutive(self)
            }
        }
    };
}

desc!((T, S: Shape, L: Layout), View<'_, T, S, L>, "View", S, L::IS_DENSE);
desc!((T, S: Shape, L: Layout), ViewMut<'_, T, S, L>, "ViewMut", S, L::IS_DENSE);
desc!((T, S: Shape), Tensor<T, S>, "Tensor", S, true);
desc!((T, S: ConstShape), Array<T, S>, "Array", S, true);

/// Kind and shape of an owned array that is only known through its traits.
fn owned<T, S: Shape, O: Owned<T, S>>(o: &O) -> (&'static str, Pat, Vec<usize>, bool) {
    let name = type_name::<O>();
    let name = name.split('<').next().unwrap().rsplit("::").next().unwrap();
    let s: &Slice<T, S> = o.borrow();
    (if name == "Array" { "Array" } else if name == "Tensor" { "Tensor" } else { "other" }, pat::<S>(), shape_dims(s.shape()), consecutive(s))
}

fn fit(what: &str, p: &Pat, dims: &[usize]) -> Res {
    if let Some(p) = p {
        ensure!(
            p.len() == dims.len() && p.iter().zip(dims).all(|(&p, &d)| p < 0 || p as usize == d),
            "{what}: dimensions {dims:?} with the shape type {p:?}"
        );
    }
    Ok(())
}

fn same(what: &str, v: &impl Desc, kind: &str, p: &Pat, dense: bool) -> Res {
    ensure_eq!(v.kind(), kind, "{what}: kind of the result");
    ensure_eq!(v.pat(), *p, "{what}: shape type of the result");
    ensure_eq!(v.dense(), dense, "{what}: dense layout of the result");
    fit(what, p, &v.dims())?;
    ensure!(!dense || v.consecutive(), "{what}: elements of a dense result are not consecutive");
    Ok(())
}

/// An owned result: inline exactly if all sizes are constant.
fn same_owned<T, S: Shape, O: Owned<T, S>>(what: &str, o: &O, p: &Pat) -> Res {
    let (kind, q, dims, dense) = owned(o);
    let constant = p.as_ref().is_some_and(|p| p.iter().all(|&d| d >= 0));
    ensure_eq!(kind, if constant { "Array" } else { "Tensor" }, "{what}: kind of array for {p:?}");
    ensure_eq!(q, *p, "{what}: shape type of the result");
    fit(what, p, &dims)?;
    ensure!(dense, "{what}: elements of an owned array are not consecutive");
    Ok(())
}

fn evaluated<E: Expression>(what: &str, e: E, p: &Pat) -> Res {
    expr_shape(what, &e, p)?;
    same_owned::<E::Item, E::Shape, _>(what, &e.eval(), p)
}

fn expr_shape<E: Expression>(what: &str, e: &E, p: &Pat) -> Res {
    ensure_eq!(pat::<E::Shape>(), *p, "{what}: shape type of the expression");
    fit(what, p, &shape_dims(e.shape()))
}

fn remove(p: &Pat, k: usize) -> Pat {
    p.as_ref().map(|p| {
        let mut p = p.clone();
        p.remove(k);
        p
    })
}

fn set(p: &Pat, k: usize, d: i64) -> Pat {
    p.as_ref().map(|p| {
        let mut p = p.clone();
        p[k] = d;
        p
    })
}

fn dynamic(p: &Pat) -> Pat {
    p.as_ref().map(|p| vec![-1; p.len()])
}

fn dim(p: &Pat, k: usize) -> i64 {
    p.as_ref().map_or(-1, |p| p[k])
}

/// Operations along one axis that is known in the type (`fixed`) or at run time.
fn axis_ops<S: TestShape, L: TestLayout, A: Axis>(cx: &mut Ctx, m: &Model, buf: &mut Buf, geo: &Geo, axis: A, fixed: bool) -> Res {
    let n = m.rank();
    let k = axis.index(n);
    let p = test_pat::<S>();
    let (removed, resized) = if fixed {
        (remove(&p, k), set(&p, k, -1))
    } else {
        (dynamic(&remove(&p, k)), dynamic(&p))
    };
    // The remaining dimensions stay dense only without the first one, a lane only for the last one.
    let first = A::index(axis, n) == 0 && fixed && (!S::DYNRANK || type_name::<A>() == type_name::<Const<0>>());
    let rest = L::IS_DENSE && first;
    let lane = L::IS_DENSE && fixed && k + 1 == n && (!S::DYNRANK || type_name::<A>() == type_name::<Rows>());
    let d = if fixed { dim(&p, k) } else { -1 };
    let v = view::<S, L>(buf, geo);
    if m.dims[k] > 0 {
        let i = cx.src.below(m.dims[k]);
        same("axis_at", &v.axis_at(axis, i), "View", &removed, rest)?;
        same("into_axis_at", &v.clone().into_axis_at(axis, i), "View", &removed, rest)?;
        agree("axis_at", &v.axis_at(axis, i), buf.ptr(), &m.remove(k, i))?;
    }
    let mid = cx.src.range(0, m.dims[k]);
    let (a, b) = v.split_axis_at(axis, mid);
    same("first part", &a, "View", &resized, rest)?;
    same("second part", &b, "View", &resized, rest)?;
    let (a, b) = v.clone().into_split_axis_at(axis, mid);
    same("first part", &a, "View", &resized, rest)?;
    same("second part", &b, "View", &resized, rest)?;
    expr_shape("axis_expr", &v.axis_expr(axis), &Some(vec![d]))?;
    for x in v.axis_expr(axis) {
        same("element of axis_expr", &x, "View", &removed, rest)?;
    }
    expr_shape("lanes", &v.lanes(axis), &removed)?;
    for x in v.lanes(axis) {
        same("lane", &x, "View", &Some(vec![d]), lane)?;
    }
    let mut v = view_mut::<S, L>(buf, geo);
    if m.dims[k] > 0 {
        same("axis_at_mut", &v.axis_at_mut(axis, 0), "ViewMut", &removed, rest)?;
    }
    let (a, b) = v.split_axis_at_mut(axis, mid);
    same("first mutable part", &a, "ViewMut", &resized, rest)?;
    same("second mutable part", &b, "ViewMut", &resized, rest)?;
    expr_shape("axis_expr_mut", &v.axis_expr_mut(axis), &Some(vec![d]))?;
    for x in v.axis_expr_mut(axis) {
        same("element of axis_expr_mut", &x, "ViewMut", &removed, rest)?;
    }
    expr_shape("lanes_mut", &v.lanes_mut(axis), &removed)?;
    for x in v.lanes_mut(axis) {
        same("mutable lane", &x, "ViewMut", &Some(vec![d]), lane)?;
    }
    Ok(())
}

fn views<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 60);
    cx.nontrivial_if(m.len() > 1);
    let n = m.rank();
    let p = test_pat::<S>();
    let l = L::IS_DENSE;
    let how = cx.src.below(12);
    cx.note(|| format!("operation {how}"));
    match how {
        0 if n > 0 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Const::<0>, true)?,
        1 if n > 1 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Const::<1>, true)?,
        2 if n > 2 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Const::<2>, true)?,
        3 if n > 3 => {
            let k = cx.src.range(3, (n - 1).min(5));
            match k {
                3 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Const::<3>, true)?,
                4 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Const::<4>, true)?,
                _ => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Const::<5>, true)?,
            }
        }
        4 if n > 0 => {
            let k = cx.src.below(n);
            axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, k, false)?
        }
        5 if n > 0 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Rows, true)?,
        6 if n > 1 => axis_ops::<S, L, _>(cx, &m, &mut buf, &geo, Cols, true)?,
        7 => {
            let v = view::<S, L>(&buf, &geo);
            same("expr", &v.expr(), "View", &p, l)?;
            same("into_dyn", &v.clone().into_dyn(), "View", &None, l)?;
            let back = Some((0..n).rev().map(|k| dim(&p, k)).collect());
            let back = if S::DYNRANK { None } else { back };
            let dense = l && n < 2 && !S::DYNRANK;
            same("reorder", &v.reorder(), "View", &back, dense)?;
            same("into_reordered", &v.clone().into_reordered(), "View", &back, dense)?;
            let perm = cx.src.perm(n);
            same("permute", &v.permute(&perm[..]), "View", &dynamic(&p), false)?;
            same("into_permuted", &v.clone().into_permuted(perm.clone()), "View", &dynamic(&p), false)?;
            if n > 0 {
                let t = remove(&p, 0);
                if m.dims[0] > 0 {
                    same("at", &v.at(0), "View", &t, l)?;
                    same("into_at", &v.clone().into_at(0), "View", &t, l)?;
                }
                let r = set(&p, 0, -1);
                same("split_at", &v.split_at(0).1, "View", &r, l)?;
                same("into_split_at", &v.clone().into_split_at(0).1, "View", &r, l)?;
                expr_shape("outer_expr", &v.outer_expr(), &Some(vec![dim(&p, 0)]))?;
                for x in v.outer_expr() {
                    same("element of outer_expr", &x, "View", &t, l)?;
                }
                let last = Some(vec![dim(&p, n - 1)]);
                let init = remove(&p, n - 1);
                expr_shape("rows", &v.rows(), &init)?;
                for x in v.rows() {
                    same("row of rows", &x, "View", &last, l)?;
                }
            }
            if n > 1 {
                expr_shape("cols", &v.cols(), &remove(&p, n - 2))?;
                for x in v.cols() {
                    same("column of cols", &x, "View", &Some(vec![dim(&p, n - 2)]), false)?;
                }
            }
            if n == 2 {
                if m.dims[0] > 0 {
                    same("row", &v.row(0), "View", &Some(vec![dim(&p, 1)]), l)?;
                    same("into_row", &v.clone().into_row(0), "View", &Some(vec![dim(&p, 1)]), l)?;
                }
                if m.dims[1] > 0 {
                    same("col", &v.col(0), "View", &Some(vec![dim(&p, 0)]), false)?;
                    same("into_col", &v.clone().into_col(0), "View", &Some(vec![dim(&p, 0)]), false)?;
                }
                same("diag", &v.diag(0), "View", &Some(vec![-1]), false)?;
                same("into_diag", &v.clone().into_diag(0), "View", &Some(vec![-1]), false)?;
            }
        }
        8 => {
            let mut v = view_mut::<S, L>(&mut buf, &geo);
            same("expr_mut", &v.expr_mut(), "ViewMut", &p, l)?;
            let back = if S::DYNRANK { None } else { Some((0..n).rev().map(|k| dim(&p, k)).collect()) };
            same("reorder_mut", &v.reorder_mut(), "ViewMut", &back, l && n < 2 && !S::DYNRANK)?;
            let perm = cx.src.perm(n);
            same("permute_mut", &v.permute_mut(&perm[..]), "ViewMut", &dynamic(&p), false)?;
            if n > 0 {
                let t = remove(&p, 0);
                if m.dims[0] > 0 {
                    same("at_mut", &v.at_mut(0), "ViewMut", &t, l)?;
                }
                same("split_at_mut", &v.split_at_mut(0).0, "ViewMut", &set(&p, 0, -1), l)?;
                for x in v.outer_expr_mut() {
                    same("element of outer_expr_mut", &x, "ViewMut", &t, l)?;
                }
                for x in v.rows_mut() {
                    same("row of rows_mut", &x, "ViewMut", &Some(vec![dim(&p, n - 1)]), l)?;
                }
            }
            if n > 1 {
                for x in v.cols_mut() {
                    same("column of cols_mut", &x, "ViewMut", &Some(vec![dim(&p, n - 2)]), false)?;
                }
            }
            if n == 2 {
                if m.dims[0] > 0 {
                    same("row_mut", &v.row_mut(0), "ViewMut", &Some(vec![dim(&p, 1)]), l)?;
                }
                if m.dims[1] > 0 {
                    same("col_mut", &v.col_mut(0), "ViewMut", &Some(vec![dim(&p, 0)]), false)?;
                }
                same("diag_mut", &v.diag_mut(0), "ViewMut", &Some(vec![-1]), false)?;
            }
            same("into_dyn", &v.into_dyn(), "ViewMut", &None, l)?;
        }
        9 => {
            let v = view::<S, L>(&buf, &geo);
            if v.is_contiguous() {
                same("flatten", &v.flatten(), "View", &Some(vec![-1]), l)?;
                same("into_flat", &v.clone().into_flat(), "View", &Some(vec![-1]), l)?;
                same("reshape", &v.reshape([1, m.len()]), "View", &Some(vec![-1, -1]), l)?;
                same("reshape to dynamic rank", &v.reshape(&[m.len(), 1]), "View", &None, l)?;
                same("reshape to constant sizes", &v.reshape((Const::<1>, m.len(), Const::<1>)), "View", &Some(vec![1, -1, 1]), l)?;
                same("into_shape", &v.clone().into_shape((m.len(), Const::<1>)), "View", &Some(vec![-1, 1]), l)?;
                same("into_mapping", &v.clone().into_mapping::<S, Dense>(), "View", &p, true)?;
            }
            same("remap", &v.remap::<S, Strided>(), "View", &p, false)?;
            same("remap to dynamic rank", &v.remap::<DynRank, Strided>(), "View", &None, false)?;
        }
        10 => {
            let v = view::<S, L>(&buf, &geo);
            same("to_tensor", &v.to_tensor(), "Tensor", &p, true)?;
            same_owned::<i32, S, _>("to_owned", &std::borrow::ToOwned::to_owned(&*v.to_tensor()), &p)?;
            same_owned::<i32, S, _>("eval", &v.clone().cloned().eval(), &p)?;
            same_owned::<i64, S, _>("eval of map", &v.clone().map(|x| *x as i64).eval(), &p)?;
            same_owned::<(usize, &i32), S, _>("eval of enumerate", &v.clone().enumerate().eval(), &p)?;
            same_owned::<u8, S, _>("eval of apply", &v.clone().apply(|x| *x as u8).eval(), &p)?;
            expr_shape("copied", &v.copied(), &p)?;
        }
        _ => {
            let s = S::from_dims(&m.dims);
            same_owned::<u8, S, _>("eval of from_elem", &expr::from_elem(s.clone(), 1u8).eval(), &p)?;
            same_owned::<usize, S, _>("eval of from_fn", &expr::from_fn(s.clone(), |i| i.len()).eval(), &p)?;
            same_owned::<u8, (), _>("eval of fill", &expr::fill(1u8).eval(), &Some(vec![]))?;
            let t = Tensor::from_elem(s, 2i32);
            same("tensor", &t, "Tensor", &p, true)?;
            same("negated tensor", &-t.clone(), "Tensor", &p, true)?;
            same("tensor plus scalar", &(t.clone() + expr::fill(1)), "Tensor", &p, true)?;
            same("scalar plus tensor", &(expr::fill(1) + t.clone()), "Tensor", &p, true)?;
            same("mapped tensor", &t.clone().map(|x| x + 1), "Tensor", &p, true)?;
            evaluated("sum of references", &t + &t, &p)?;
            same_owned::<i32, S, _>("negated reference", &(-&t).eval(), &p)?;
            same_owned::<i32, S, _>("moved tensor", &t.clone().into_expr().eval(), &p)?;
            same("into_dyn", &t.clone().into_dyn(), "Tensor", &None, true)?;
            same("into_flat", &t.clone().into_flat(), "Tensor", &Some(vec![-1]), true)?;
            same("into_shape", &t.clone().into_shape([1, m.len()]), "Tensor", &Some(vec![-1, -1]), true)?;
            same("into_shape to constant sizes", &t.clone().into_shape((Const::<1>, m.len())), "Tensor", &Some(vec![1, -1]), true)?;
            same("view of a tensor", &t.expr(), "View", &p, true)?;
            if n > 0 {
                same("part of a tensor", &t.split_at(0).1, "View", &set(&p, 0, -1), true)?;
            }
        }
    }
    Ok(())
}

fn merge(a: &Pat, b: &Pat) -> Pat {
    let (a, b) = (a.as_ref()?, b.as_ref()?);
    let n = a.len().max(b.len());
    let at = |p: &Vec<i64>, k: usize| if k < p.len() { p[p.len() - 1 - k] } else { -1 };
    Some((0..n).rev().map(|k| if at(a, k) >= 0 { at(a, k) } else { at(b, k) }).collect())
}

/// Evaluation of two operands.
fn pairs<A: Leaf, B: Leaf>(cx: &mut Ctx) -> Res {
    let (ops, result) = operand_dims(cx, &[(A::S::PAT, A::S::DYNRANK), (B::S::PAT, B::S::DYNRANK)], 120);
    let Some(dims) = result else { return Ok(()) };
    if ops.iter().zip([A::REPEATABLE, B::REPEATABLE]).any(|(d, r)| !r && d.len() < dims.len()) {
        return Ok(());
    }
    cx.nontrivial_if(product(&dims) > 1);
    let want = merge(&test_pat::<A::S>(), &test_pat::<B::S>());
    let (mut a, mut b) = (A::make(cx, &ops[0]), B::make(cx, &ops[1]));
    {
        let e = a.expr().zip(b.expr());
        expr_shape("zip", &e, &want)?;
        let o = e.eval();
        same_owned("eval of zip", &o, &want)?;
    }
    let (mut a, mut b) = (A::make(cx, &ops[0]), B::make(cx, &ops[1]));
    let e = expr::map(expr::zip(a.expr(), b.expr()), |(x, y)| x as i64 - y as i64);
    same_owned("eval of map of zip", &e.eval(), &want)
}

/// Inline arrays.
fn inline<S: TestShape + ConstShape>(cx: &mut Ctx) -> Res {
    let p = test_pat::<S>();
    let x = cx.src.below(100) as i32;
    cx.nontrivial_if(product(&S::PAT.iter().map(|&d| d as usize).collect::<Vec<_>>()) > 1);
    cx.note(|| format!("element {x}"));
    let a = Array::<i32, S>::from_elem(x);
    let b = Array::<i32, S>::from_elem(x);
    same("array", &a, "Array", &p, true)?;
    same("view of an array", &a.expr(), "View", &p, true)?;
    same("to_array", &a.to_array(), "Array", &p, true)?;
    same("to_tensor", &a.to_tensor(), "Tensor", &p, true)?;
    same_owned("sum of references", &(&a + &b).eval(), &p)?;
    same("sum of array and reference", &(a.to_array() + &b), "Array", &p, true)?;
    same("sum of reference and array", &(&b + a.to_array()), "Array", &p, true)?;
    same("negated array", &-a.to_array(), "Array", &p, true)?;
    same("mapped array", &a.to_array().map(|x| x as i64), "Array", &p, true)?;
    same("applied array", &a.to_array().apply(|x| x as u8), "Array", &p, true)?;
    same("tensor of an array", &Tensor::<i32, S>::from(b), "Tensor", &p, true)?;
    same_owned("moved array", &a.into_expr().eval(), &p)
}

/// Associated types of the shape.
fn shapes<S: TestShape>(cx: &mut Ctx) -> Res {
    let p = test_pat::<S>();
    cx.nontrivial_if(true);
    cx.note(|| format!("shape {p:?}"));
    ensure_eq!(pat::<S>(), p, "shape");
    let n = S::PAT.len();
    let prepend = |d: i64| p.as_ref().and_then(|p| if n < 6 { Some([vec![d], p.clone()].concat()) } else { None });
    ensure_eq!(pat::<S::Prepend<Dyn>>(), prepend(-1), "prepended dynamic size");
    ensure_eq!(pat::<S::Prepend<Const<7>>>(), prepend(7), "prepended constant size");
    ensure_eq!(pat::<S::Dyn>(), dynamic(&p), "dynamic sizes");
    ensure_eq!(pat::<S::Reverse>(), p.as_ref().map(|p| p.iter().rev().copied().collect()), "reverse");
    if n > 0 {
        ensure_eq!(pat::<S::Tail>(), remove(&p, 0), "tail");
        ensure_eq!(<S::Head as Dim>::SIZE.map_or(-1, |d| d as i64), dim(&p, 0), "head");
    }
    ensure_eq!(<S::Layout<Dense> as Layout>::IS_DENSE, n == 0 && !S::DYNRANK, "layout");
    ensure!(!<S::Layout<Strided> as Layout>::IS_DENSE, "strided layout");
    macro_rules! merges {
        ($($t:ty),*) => {$(
            let q = test_pat::<$t>();
            // Dimensions are merged from the first one.
            let front = match (&p, &q) {
                (Some(a), Some(b)) => {
                    let at = |p: &Vec<i64>, k: usize| p.get(k).copied().unwrap_or(-1);
                    Some((0..a.len().max(b.len())).map(|k| if at(a, k) >= 0 { at(a, k) } else { at(b, k) }).collect())
                }
                _ => None,
            };
            ensure_eq!(pat::<S::Merge<$t>>(), front, "merge with {}", stringify!($t));
        )*};
    }
    merges!((), (D,), (C3,), (D, D), (C2, D), (D, C3), (D, C2, D), (C2, D, C3), DynRank, (D, D, D, D, D, D), (C2, D, C1, D, C2, D));
    macro_rules! axes {
        ($($k:literal),*) => {$(
            if $k < n {
                ensure_eq!(pat::<<Const<$k> as Axis>::Remove<S>>(), remove(&p, $k), "shape without dimension {}", $k);
                ensure_eq!(pat::<(<Const<$k> as Axis>::Dim<S>,)>(), Some(vec![dim(&p, $k)]), "dimension {}", $k);
                ensure_eq!(pat::<<Const<$k> as Axis>::Init<S>>(), p.as_ref().map(|p| p[..$k].to_vec()), "dimensions before {}", $k);
                ensure_eq!(pat::<<Const<$k> as Axis>::Rest<S>>(), p.as_ref().map(|p| p[$k + 1..].to_vec()), "dimensions after {}", $k);
            }
            if $k <= n && n < 6 && !S::DYNRANK {
                let mut q = S::PAT.to_vec();
                q.insert($k, 7);
                ensure_eq!(pat::<<Const<$k> as Axis>::Insert<Const<7>, S>>(), Some(q), "shape with a dimension at {}", $k);
            }
        )*};
    }
    axes!(0, 1, 2, 3, 4, 5);
    Ok(())
}

/// Index arguments: type pattern of a subarray.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Arg {
    At,
    Full,
    Range,
    Step,
}

fn sub_type(p: &[i64], args: &[Arg], dense: bool) -> (Pat, bool) {
    let shape = p.iter().zip(args).filter(|(_, a)| **a != Arg::At).map(|(&p, a)| if *a == Arg::Full { p } else { -1 }).collect();
    // Dense: integers first, then at most one range, then complete dimensions.
    let mut rest = args;
    while let [Arg::At, r @ ..] = rest {
        rest = r;
    }
    if let [Arg::Range, r @ ..] = rest {
        rest = r;
    }
    (Some(shape), dense && rest.iter().all(|a| *a == Arg::Full))
}

macro_rules! arg_kind {
    (at) => {
        Arg::At
    };
    (full) => {
        Arg::Full
    };
    (step) => {
        Arg::Step
    };
    ($other:ident) => {
        Arg::Range
    };
}

macro_rules! arg_val {
    (at, $a:expr, $b:expr) => {
        $a
    };
    (full, $a:expr, $b:expr) => {
        ..
    };
    (range, $a:expr, $b:expr) => {
        $a..$b
    };
    (from, $a:expr, $b:expr) => {
        $a..
    };
    (to, $a:expr, $b:expr) => {
        ..$b
    };
    (upto, $a:expr, $b:expr) => {
        ..=$a
    };
    (incl, $a:expr, $b:expr) => {
        $a..=$a
    };
    (bounds, $a:expr, $b:expr) => {
        (Bound::Included($a), Bound::Excluded($b))
    };
    (step, $a:expr, $b:expr) => {
        step($a..$b, -1)
    };
}

/// Positions in each dimension: an index and an end, both inside.
fn inside(cx: &mut Ctx, dims: &[usize]) -> Option<[(usize, usize); 6]> {
    let mut r = [(0, 0); 6];
    for (k, &d) in dims.iter().enumerate() {
        if d == 0 {
            return None;
        }
        let a = cx.src.below(d);
        r[k] = (a, cx.src.range(a + 1, d));
    }
    Some(r)
}

macro_rules! sub_case {
    ($cx:ident, $s:ty, $l:ty, $v:ident, $m:ident, $buf:ident, $geo:ident, $idx:tt, $how:ident, $(($($arg:ident),*))*) => {{
        let Some(r) = inside($cx, &$m.dims) else { return Ok(()) };
        let mut case = 0;
        $(
            if case == $how {
                let args = [$(arg_kind!($arg)),*];
                let (want, dense) = sub_type(<$s as TestShape>::PAT, &args, <$l>::IS_DENSE);
                sub_case!(@run $cx, $s, $l, $buf, $geo, $m, r, args, want, dense, $idx, ($($arg),*));
            }
            case += 1;
        )*
        let _ = case;
    }};
    (@run $cx:ident, $s:ty, $l:ty, $buf:ident, $geo:ident, $m:ident, $r:ident, $args:ident, $want:ident, $dense:ident, ($($i:literal),*), ($($arg:ident),*)) => {{
        let what = format!("subarray {:?}", $args);
        $cx.note(|| what.clone());
        {
            let v = view::<$s, $l>(&$buf, &$geo);
            same(&what, &v.view($(arg_val!($arg, $r[$i].0, $r[$i].1)),*), "View", &$want, $dense)?;
            same(&what, &v.tensor($(arg_val!($arg, $r[$i].0, $r[$i].1)),*), "Tensor", &$want, true)?;
            same(&what, &v.into_view($(arg_val!($arg, $r[$i].0, $r[$i].1)),*), "View", &$want, $dense)?;
        }
        let mut v = view_mut::<$s, $l>(&mut $buf, &$geo);
        same(&what, &v.view_mut($(arg_val!($arg, $r[$i].0, $r[$i].1)),*), "ViewMut", &$want, $dense)?;
        same(&what, &v.into_view($(arg_val!($arg, $r[$i].0, $r[$i].1)),*), "ViewMut", &$want, $dense)?;
    }};
}

macro_rules! sub_fn {
    ($name:ident, $s:ty, $l:ty, $idx:tt, $count:literal, $($args:tt)*) => {
        fn $name(cx: &mut Ctx) -> Res {
            let (mut buf, geo, m) = gen_array::<$s, $l>(cx, 80);
            cx.nontrivial_if(m.len() > 1);
            let how = cx.src.below($count);
            sub_case!(cx, $s, $l, v, m, buf, geo, $idx, how, $($args)*);
            Ok(())
        }
    };
}

macro_rules! subs1 { ($name:ident, $s:ty, $l:ty) => { sub_fn!($name, $s, $l, (0), 9, (at) (full) (range) (from) (to) (upto) (incl) (bounds) (step)); }; }
macro_rules! subs2 { ($name:ident, $s:ty, $l:ty) => { sub_fn!($name, $s, $l, (0, 1), 16,
    (at, at) (at, full) (at, range) (at, step) (full, at) (full, full) (full, from) (full, step)
    (to, at) (upto, full) (bounds, range) (incl, step) (step, at) (step, full) (step, range) (step, step)); }; }
macro_rules! subs3 { ($name:ident, $s:ty, $l:ty) => { sub_fn!($name, $s, $l, (0, 1, 2), 18,
    (at, at, at) (at, at, full) (at, at, range) (at, range, full) (at, full, full) (at, full, at) (range, at, at) (full, at, full)
    (full, full, full) (range, full, full) (full, range, full) (full, full, range) (full, full, at) (step, full, full)
    (full, step, full) (at, step, full) (at, full, step) (range, range, full)); }; }
macro_rules! subs4 { ($name:ident, $s:ty, $l:ty) => { sub_fn!($name, $s, $l, (0, 1, 2, 3), 8,
    (at, at, range, full) (at, range, full, full) (full, full, full, full) (full, at, full, full)
    (at, at, full, range) (range, full, full, full) (at, at, at, at) (full, full, full, step)); }; }
macro_rules! subs6 { ($name:ident, $s:ty, $l:ty) => { sub_fn!($name, $s, $l, (0, 1, 2, 3, 4, 5), 4,
    (at, at, range, full, full, full) (full, full, full, full, full, full) (at, full, at, full, range, step)
    (range, full, full, full, full, full)); }; }

subs1!(s1a, (D,), Dense);
subs1!(s1b, (C3,), Strided);
subs1!(s1c, (C3,), Dense);
subs2!(s2a, (D, D), Dense);
subs2!(s2b, (C2, C3), Dense);
subs2!(s2c, (C2, D), Strided);
subs3!(s3a, (D, D, D), Strided);
subs3!(s3b, (C2, C3, C2), Dense);
subs3!(s3c, (C2, D, C3), Dense);
subs4!(s4a, (C2, D, D, C3), Dense);
subs4!(s4b, (C2, C1, C3, C2), Strided);
subs6!(s6a, (C2, D, C1, D, C2, D), Dense);

/// Permutations known in the type.
macro_rules! perm_fn {
    ($name:ident, $s:ty, $l:ty, $(($($p:literal),*))*) => {
        fn $name(cx: &mut Ctx) -> Res {
            let (mut buf, geo, m) = gen_array::<$s, $l>(cx, 80);
            cx.nontrivial_if(m.len() > 1);
            $({
                let perm = [$($p),*];
                let want = Some(perm.iter().map(|&k| <$s as TestShape>::PAT[k]).collect());
                let dense = <$l>::IS_DENSE && perm.windows(2).all(|w| w[0] < w[1]);
                let what = format!("permutation {perm:?}");
                cx.note(|| what.clone());
                {
                    let v = view::<$s, $l>(&buf, &geo);
                    let q = v.permute(($(Const::<$p>,)*));
                    same(&what, &q, "View", &want, dense)?;
                    agree(&what, &q, buf.ptr(), &m.permute(&perm))?;
                    same(&what, &v.clone().into_permuted(($(Const::<$p>,)*)), "View", &want, dense)?;
                }
                let mut v = view_mut::<$s, $l>(&mut buf, &geo);
                same(&what, &v.permute_mut(($(Const::<$p>,)*)), "ViewMut", &want, dense)?;
            })*
            // Axes given at run time lose the sizes.
            Ok(())
        }
    };
}
perm_fn!(p1a, (C3,), Dense, (0));
perm_fn!(p2a, (C2, D), Dense, (0, 1) (1, 0));
perm_fn!(p2b, (C2, C3), Strided, (0, 1) (1, 0));
perm_fn!(p3a, (C2, D, C3), Dense, (0, 1, 2) (0, 2, 1) (1, 0, 2) (1, 2, 0) (2, 0, 1) (2, 1, 0));
perm_fn!(p4a, (C2, D, D, C3), Dense, (0, 1, 2, 3) (0, 1, 3, 2) (0, 2, 1, 3) (3, 2, 1, 0) (1, 0, 2, 3) (2, 3, 0, 1));
perm_fn!(p5a, (D, C2, D, C1, D), Dense, (0, 1, 2, 3, 4) (0, 1, 2, 4, 3) (1, 0, 2, 3, 4) (4, 0, 1, 2, 3));
perm_fn!(p6a, (C2, D, C1, D, C2, D), Dense, (0, 1, 2, 3, 4, 5) (1, 0, 2, 3, 4, 5) (5, 4, 3, 2, 1, 0));

/// Macros, conversions into shapes and inline subarrays.
fn fixed(cx: &mut Ctx) -> Res {
    let x = cx.src.below(100) as i32;
    cx.note(|| format!("element {x}"));
    cx.nontrivial_if(true);
    same("array!", &array![[x, 2, 3], [4, 5, 6]], "Array", &Some(vec![2, 3]), true)?;
    same("array!", &array![[x; 3]; 2], "Array", &Some(vec![2, 3]), true)?;
    same("array!", &array![x, 1], "Array", &Some(vec![2]), true)?;
    same("tensor!", &tensor![[x, 2, 3], [4, 5, 6]], "Tensor", &Some(vec![-1, -1]), true)?;
    same("tensor!", &tensor![[[x; 1]; 3]; 2], "Tensor", &Some(vec![-1, -1, -1]), true)?;
    same("view!", &view![[x, 2, 3], [4, 5, 6]], "View", &Some(vec![-1, -1]), true)?;
    macro_rules! into {
        ($($e:expr, $p:expr);* $(;)?) => {$({
            let s = $e.into_shape();
            fn p<S: Shape>(_: &S) -> Pat { pat::<S>() }
            ensure_eq!(p(&s), $p, "shape type of {}", stringify!($e));
        })*};
    }
    into!(
        [0usize; 0], Some(vec![]); [1usize, 2], Some(vec![-1, -1]); [1usize; 6], Some(vec![-1; 6]);
        &[1usize, 2], None; &[1usize, 2][..], None; vec![1usize, 2], None; vec![1usize].into_boxed_slice(), None;
        Const::<3>, Some(vec![3]); 4usize, Some(vec![-1]); (Const::<3>, 4usize), Some(vec![3, -1]);
    );
    let a = array![[[x, 2, 3], [4, 5, 6]], [[7, 8, 9], [1, 1, 1]]];
    let i = cx.src.below(2);
    same("inline subarray", &a.array(i, .., ..), "Array", &Some(vec![2, 3]), true)?;
    same("inline subarray", &a.array(.., i, ..), "Array", &Some(vec![2, 3]), true)?;
    same("inline subarray", &a.array(.., .., i), "Array", &Some(vec![2, 2]), true)?;
    same("inline subarray", &a.array(.., i, 1), "Array", &Some(vec![2]), true)?;
    same("inline subarray", &a.array(i, 0, 1), "Array", &Some(vec![]), true)?;
    let mut t = tensor![[x, 2], [3, 4], [5, 6]];
    same_owned("drained range", &t.drain(0..i + 1).eval(), &Some(vec![-1, -1]))?;
    let mut t = Tensor::<i32, (Dyn, Const<2>)>::from_elem((3, Const::<2>), x);
    same_owned("drained range", &t.drain(0..i + 1).eval(), &Some(vec![-1, 2]))?;
    same("collected", &(0..x).collect::<Tensor<i32, (Dyn,)>>(), "Tensor", &Some(vec![-1]), true)?;
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    macro_rules! v {
        ($s:ty) => {
            subs.add(concat!("view dense ", stringify!($s)), 5, views::<$s, Dense>);
            subs.add(concat!("view strided ", stringify!($s)), 4, views::<$s, Strided>);
            subs.add(concat!("shape ", stringify!($s)), 1, shapes::<$s>);
        };
    }
    v!(());
    v!((D,));
    v!((C3,));
    v!((D, D));
    v!((D, C3));
    v!((C2, D));
    v!((C2, C3));
    v!((C3, C0));
    v!((C0, D));
    v!((D, D, D));
    v!((C2, D, C3));
    v!((C2, C3, C2));
    v!((C2, D, D, C3));
    v!((D, C2, D, C1, D));
    v!((C2, D, C1, D, C2, D));
    v!((C1, C2, C1, C2, C2, C1));
    v!(DynRank);
    macro_rules! a {
        ($s:ty) => {
            subs.add(concat!("inline array ", stringify!($s)), 1, inline::<$s>);
        };
    }
    each_const_shape!(a);
    subs.add("macros and shapes", 2, fixed);
    macro_rules! f {
        ($($n:ident)*) => {$( subs.add(concat!("subarray ", stringify!($n)), 4, $n); )*};
    }
    f!(s1a s1b s1c s2a s2b s2c s3a s3b s3c s4a s4b s6a);
    macro_rules! g {
        ($($n:ident)*) => {$( subs.add(concat!("permutation ", stringify!($n)), 3, $n); )*};
    }
    g!(p1a p2a p2b p3a p4a p5a p6a);
    macro_rules! p {
        ($($a:ty, $b:ty);* $(;)?) => {$( subs.add(concat!("eval ", stringify!($a), " / ", stringify!($b)), 3, pairs::<$a, $b>); )*};
    }
    p!(
        ViewCopied<(D, D), Strided>, FromIndex<(D,)>; ViewCopied<(C3,), Dense>, FromIndex<(D, D, D)>;
        ViewCopied<DynRank, Strided>, FromIndex<(C2, C3)>; ViewCopied<(C2, D), Dense>, Elems<(D, C3)>;
        ViewCopied<(C2, C3), Dense>, ViewCopied<(C3,), Strided>; FromIndex<(C3,)>, ViewCopied<(C2, C3), Dense>;
        MovedArray<(C2, C3)>, Filled; Filled, Counted; MovedArray<(C2, C3)>, FromIndex<(D, D)>; FromIndex<()>, FromIndex<()>;
        FromIndex<(D, D)>, ViewCopied<(C2, C3), Strided>; ViewCopied<(C2, C3, C2), Dense>, FromIndex<(D, D)>;
        FromIndex<(C2, D, C3)>, ViewCopied<(C2, D), Strided>; Moved<(D, D)>, ViewCopied<(D, C3), Dense>;
        ViewCopied<(C1, C2, C1, C2, C2, C1), Dense>, FromIndex<(C2, C1)>; FromIndex<(D, D, D)>, ViewCopied<(C2, D), Dense>;
    );
    harness::main(Property {
        id: "C16",
        rule: "the operand or the result has at least two elements, or the case is about the shape types",
        subs: subs.0,
    })
}
