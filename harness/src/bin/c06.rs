//! C06: evaluation of expressions.
use harness::leaves::*;
use harness::*;
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::*;
use std::borrow::Borrow;
use std::cell::RefCell;

type P = (&'static [i64], bool);

fn pat<A: Leaf>() -> P {
    (A::S::PAT, A::S::DYNRANK)
}

fn mixi(a: i64, b: i64) -> i64 {
    a.wrapping_mul(1_000_003).wrapping_add(b).rotate_left(7)
}

/// Evaluates the expression in one of several ways and compares with the expected elements.
/// `log` holds the elements in the order in which they were computed.
fn sink<E: Expression<Item = i64>>(
    cx: &mut Ctx,
    e: E,
    log: &RefCell<Vec<i64>>,
    dims: &[usize],
    repeatable: Option<bool>,
    at: &dyn Fn(usize) -> i64,
) -> Res {
    let n = product(dims);
    ensure_eq!(shape_dims(e.shape()), dims, "shape of the expression");
    let mut want: Vec<i64> = (0..n).map(at).collect();
    let how = cx.src.below(9);
    cx.note(|| format!("sink {how}"));
    match how {
        0 => {
            let o = e.eval();
            let s: &Slice<i64, E::Shape> = o.borrow();
            agree_vals("eval", s, dims, &want)?;
        }
        1 => {
            let o = Tensor::<i64, E::Shape>::from_expr(e);
            agree_vals("from_expr", &o, dims, &want)?;
        }
        2 => {
            let got: Vec<i64> = e.into_iter().collect();
            ensure_eq!(got, want, "elements by iteration");
        }
        3 => {
            let mut got = Vec::new();
            let k = e.fold(0, |k, x| {
                got.push(x);
                k + 1
            });
            ensure_eq!(got, want, "elements by fold");
            ensure_eq!(k, n, "fold");
        }
        4 | 5 => {
            // Assign to an array in any memory order, possibly with more outer dimensions.
            let mut d = dims.to_vec();
            // Not decided for sources that count how often they are read.
            let extra = if how == 5 && repeatable.is_some() { cx.src.range(1, 2) } else { 0 };
            let repeatable = repeatable == Some(true);
            for _ in 0..extra {
                d.insert(0, cx.src.below(4));
            }
            let mut ok = extra == 0 || repeatable;
            if cx.src.chance(1, 8) && !d.is_empty() {
                if cx.src.flip() && dims.len() > 0 {
                    let i = cx.src.range(extra, d.len() - 1);
                    d[i] += 1;
                } else {
                    let i = cx.src.below(d.len());
                    d.remove(i);
                }
                ok = d.len() >= dims.len() && d[d.len() - dims.len()..] == *dims && (d.len() == dims.len() || repeatable);
            }
            let geo = strided_geo(&mut cx.src, &d);
            cx.note(|| format!("assign to {d:?} strides {:?}", geo.strides));
            let mut data: Vec<i64> = (0..geo.extent + 8).map(|k| -1 - k as i64).collect();
            let mut expect = data.clone();
            let m = geo.model();
            let r = caught(|| {
                let mut dest = unsafe {
                    ViewMut::<i64, DynRank, Strided>::new_unchecked(
                        data.as_mut_ptr().offset(4 + geo.base),
                        Strided::mapping::<DynRank>(&d, &geo.strides),
                    )
                };
                dest.assign(e);
            });
            match r {
                None => {
                    ensure!(!ok, "assign to {d:?} was rejected: {}", last_panic());
                    cx.tag("rejected assign");
                    return Ok(());
                }
                Some(()) => ensure!(ok, "assign to {d:?} was accepted"),
            }
            want = (0..m.len()).map(at).collect();
            for (k, &p) in m.pos.iter().enumerate() {
                expect[(p + 4) as usize] = want[k];
            }
            ensure_eq!(data, expect, "destination after assign");
        }
        6 | 7 => {
            // Append to an array.
            if dims.is_empty() {
                return Ok(());
            }
            let mut d = dims.to_vec();
            d[0] = cx.src.below(3);
            let empty = product(&d) == 0;
            let ok = if cx.src.chance(1, 8) && d.len() > 1 {
                let i = cx.src.range(1, d.len() - 1);
                d[i] += 1;
                n == 0 || product(&d) == 0
            } else {
                true
            };
            let empty = empty || product(&d) == 0;
            cx.note(|| format!("append to {d:?}"));
            let old: Vec<i64> = (0..product(&d)).map(|k| -1 - k as i64).collect();
            let mut t: Tensor<i64, DynRank> = Tensor::from(old.clone()).into_shape(&d[..]);
            let r = caught(|| {
                if how == 6 {
                    let u = e.eval_into(&mut t);
                    u.len()
                } else {
                    t.expand(e);
                    t.len()
                }
            });
            if n == 0 {
                // Nothing to append.
                return Ok(());
            }
            match r {
                None => {
                    ensure!(!ok, "appending to {d:?} was rejected: {}", last_panic());
                    return Ok(());
                }
                Some(l) => {
                    ensure!(ok, "appending to {d:?} was accepted");
                    ensure_eq!(l, old.len() + n, "length");
                }
            }
            if empty {
                d = dims.to_vec();
            } else {
                d[0] += dims[0];
            }
            let mut all = old;
            all.extend_from_slice(&want);
            agree_vals("array after appending", &t, &d, &all)?;
        }
        _ => {
            // Further adapters.
            let o = e.enumerate().map(|(i, x)| (x, i)).eval();
            let s: &Slice<(i64, usize), E::Shape> = o.borrow();
            let w: Vec<(i64, usize)> = want.iter().copied().zip(0..).collect();
            agree_vals("eval of enumerate and map", s, dims, &w)?;
        }
    }
    ensure_eq!(*log.borrow(), want, "calls of the closure in order");
    cx.nontrivial_if(want.len() > 1);
    Ok(())
}

/// A single source.
fn one<A: Leaf>(cx: &mut Ctx) -> Res {
    let (dims, top) = operand_dims(cx, &[pat::<A>()], 200);
    let mut a = A::make(cx, &dims[0]);
    if A::COUNTING && a_len(&dims[0]) == 0 {
        return Ok(());
    }
    let log = RefCell::new(Vec::new());
    let a = &mut a;
    let p: *const A = a;
    let e = a.expr().map(|x| {
        log.borrow_mut().push(x as i64);
        x as i64
    });
    // The model does not depend on what the expression borrows mutably.
    let at = |k: usize| unsafe { (*p).at(k) as i64 };
    sink(cx, e, &log, &top.unwrap(), if A::COUNTING { None } else { Some(A::REPEATABLE) }, &at)?;
    Ok(())
}

fn a_len(d: &[usize]) -> usize {
    product(d)
}

/// Two sources zipped, or with the second one inside of the first one.
fn two<A: Leaf, B: Leaf>(cx: &mut Ctx) -> Res {
    let (dims, top) = operand_dims(cx, &[pat::<A>(), pat::<B>()], 200);
    let mut a = A::make(cx, &dims[0]);
    let mut b = B::make(cx, &dims[1]);
    let (ra, rb) = (dims[0].len(), dims[1].len());
    if (A::COUNTING && ra < rb) || (B::COUNTING && rb < ra) {
        return Ok(());
    }
    let ok = top.is_some() && (A::REPEATABLE || ra >= rb) && (B::REPEATABLE || rb >= ra);
    let log = RefCell::new(Vec::new());
    let (pa, pb): (*const A, *const B) = (&a, &b);
    let at = |k: usize| unsafe { mixi((*pa).at(k) as i64, (*pb).at(k) as i64) };
    let repeatable = if A::COUNTING || B::COUNTING { None } else { Some(A::REPEATABLE && B::REPEATABLE) };
    let how = cx.src.below(3);
    cx.note(|| format!("zip {how}"));
    let (x, y) = (a.expr(), b.expr());
    macro_rules! go {
        ($make:expr) => {
            match caught(|| $make) {
                Some(e) => {
                    ensure!(ok, "operands {dims:?} were accepted");
                    if ra != rb {
                        cx.tag("broadcast");
                    }
                    sink(cx, e, &log, &top.unwrap(), repeatable, &at)?;
                }
                None => {
                    ensure!(!ok, "operands {dims:?} were rejected: {}", last_panic());
                    cx.tag("rejected operands");
                }
            }
        };
    }
    let f = |(x, y): (i32, i32)| {
        let r = mixi(x as i64, y as i64);
        log.borrow_mut().push(r);
        r
    };
    match how {
        0 => go!(x.zip(y).map(f)),
        1 => go!(expr::map(expr::zip(x, y), f)),
        _ => go!(x.zip_with(y, f)),
    }
    a.done()?;
    b.done()
}

/// Three sources in both groupings.
fn three<A: Leaf, B: Leaf, C: Leaf>(cx: &mut Ctx) -> Res {
    let (dims, top) = operand_dims(cx, &[pat::<A>(), pat::<B>(), pat::<C>()], 200);
    let mut a = A::make(cx, &dims[0]);
    let mut b = B::make(cx, &dims[1]);
    let mut c = C::make(cx, &dims[2]);
    let rank: Vec<usize> = dims.iter().map(|d| d.len()).collect();
    let max = *rank.iter().max().unwrap();
    if [A::COUNTING, B::COUNTING, C::COUNTING].iter().zip(&rank).any(|(&k, &r)| k && r < max) {
        return Ok(());
    }
    let rep = [A::REPEATABLE, B::REPEATABLE, C::REPEATABLE];
    let log = RefCell::new(Vec::new());
    let (pa, pb, pc): (*const A, *const B, *const C) = (&a, &b, &c);
    let at = |k: usize| unsafe {
        mixi((*pa).at(k) as i64, mixi((*pb).at(k) as i64, (*pc).at(k) as i64 + 1))
    };
    let repeatable = if A::COUNTING || B::COUNTING || C::COUNTING { None } else { Some(rep.iter().all(|&r| r)) };
    let ok = |i: usize, j: usize, k: usize| {
        // ((i, j), k)
        let r = rank[i].max(rank[j]);
        (rep[i] || rank[i] >= rank[j])
            && (rep[j] || rank[j] >= rank[i])
            && ((rep[i] && rep[j]) || r >= rank[k])
            && (rep[k] || rank[k] >= r)
    };
    let how = cx.src.below(3);
    cx.note(|| format!("grouping {how}"));
    macro_rules! go {
        ($ok:expr, $make:expr) => {
            match caught(|| $make) {
                Some(e) => {
                    ensure!($ok && top.is_some(), "operands {dims:?} were accepted");
                    sink(cx, e, &log, &top.unwrap(), repeatable, &at)?;
                }
                None => {
                    ensure!(!($ok && top.is_some()), "operands {dims:?} were rejected: {}", last_panic());
                    cx.tag("rejected operands");
                }
            }
        };
    }
    let f = |x: i32, y: i32, z: i32| {
        let r = mixi(x as i64, mixi(y as i64, z as i64 + 1));
        log.borrow_mut().push(r);
        r
    };
    let (x, y, z) = (a.expr(), b.expr(), c.expr());
    match how {
        0 => go!(ok(0, 1, 2), x.zip(y).zip(z).map(|((x, y), z)| f(x, y, z))),
        1 => go!(ok(1, 2, 0), x.zip(y.zip(z)).map(|(x, (y, z))| f(x, y, z))),
        _ => go!(ok(1, 2, 0), expr::zip(x, y.zip(z.map(|z| z + 1)).map(|(y, z)| (y, z - 1))).map(|(x, (y, z))| f(x, y, z))),
    }
    a.done()?;
    b.done()?;
    c.done()
}

/// Apply on owned and borrowed arrays, with in-place results for owned ones.
fn applied<S: TestShape, B: Leaf>(cx: &mut Ctx) -> Res {
    let (dims, top) = operand_dims(cx, &[(S::PAT, S::DYNRANK), pat::<B>()], 200);
    let vals: Vec<i64> = (0..product(&dims[0])).map(|k| value(k) as i64).collect();
    let mut t: Tensor<i64, S> = Tensor::from(vals.clone()).into_shape(S::from_dims(&dims[0]));
    let mut b = B::make(cx, &dims[1]);
    let (ra, rb) = (dims[0].len(), dims[1].len());
    if B::COUNTING && rb < ra {
        return Ok(());
    }
    let how = cx.src.below(13);
    cx.note(|| format!("tensor {:?} apply {how}", dims[0]));
    let repeat = matches!(how, 0 | 5 | 8);
    let ok = top.is_some() && (repeat || ra >= rb) && (B::REPEATABLE || rb >= ra);
    let pb: *const B = &b;
    let n = vals.len().max(1);
    let bin = |k: usize| unsafe { mixi(vals[k % n], (*pb).at(k) as i64) };
    let una = |k: usize| mixi(vals[k % n], 3);
    let log = RefCell::new(Vec::new());
    let f2 = |(x, y): (&i64, i32)| {
        let r = mixi(*x, y as i64);
        log.borrow_mut().push(r);
        r
    };
    let f1 = |x: &i64| {
        let r = mixi(*x, 3);
        log.borrow_mut().push(r);
        r
    };
    cx.nontrivial_if(vals.len() > 1);
    macro_rules! settle {
        ($make:expr) => {
            match caught(|| $make) {
                Some(e) => {
                    ensure!(ok, "operands {dims:?} were accepted");
                    let e = e.into_expr();
                    sink(cx, e, &log, &top.unwrap(), if B::COUNTING { None } else { Some(repeat && B::REPEATABLE) }, &bin)?;
                }
                None => ensure!(!ok, "operands {dims:?} were rejected: {}", last_panic()),
            }
        };
    }
    match how {
        0 => settle!((&t).zip_with(b.expr(), f2)),
        1 => settle!((&mut t).zip_with(b.expr(), |(x, y): (&mut i64, i32)| f2((&*x, y)))),
        2 => {
            let p = t.as_ptr();
            match caught(|| Apply::zip_with(t, b.expr(), |(x, y): (i64, i32)| f2((&x, y)))) {
                Some(u) => {
                    ensure!(ok, "operands {dims:?} were accepted");
                    let want: Vec<i64> = (0..vals.len()).map(bin).collect();
                    agree_vals("zip_with of a tensor", &u, &dims[0], &want)?;
                    ensure_eq!(*log.borrow(), want, "calls of the closure in order");
                    ensure!(u.is_empty() || u.as_ptr() == p, "zip_with of a tensor moved the elements to other memory");
                }
                None => ensure!(!ok, "operands {dims:?} were rejected: {}", last_panic()),
            }
        }
        3 => {
            let want: Vec<i64> = (0..vals.len()).map(una).collect();
            let u = if cx.src.flip() { t.map(|x| f1(&x)) } else { t.apply(|x| f1(&x)) };
            agree_vals("map of a tensor", &u, &dims[0], &want)?;
            ensure_eq!(*log.borrow(), want, "calls of the closure in order");
        }
        4 => {
            let e = (&t).apply(f1);
            sink(cx, e, &log, &dims[0], Some(true), &una)?;
        }
        5 => {
            let v = t.expr();
            settle!((&v).zip_with(b.expr(), f2))
        }
        6 => {
            let mut v = t.expr_mut();
            settle!((&mut v).zip_with(b.expr(), |(x, y): (&mut i64, i32)| f2((&*x, y))))
        }
        8 => {
            let s: &Slice<i64, S> = &t;
            settle!(s.zip_with(b.expr(), f2))
        }
        9 => {
            let s: &mut Slice<i64, S> = &mut t;
            settle!(s.zip_with(b.expr(), |(x, y): (&mut i64, i32)| f2((&*x, y))))
        }
        10 => {
            let s: &Slice<i64, S> = &t;
            if cx.src.flip() {
                sink(cx, s.apply(f1), &log, &dims[0], Some(true), &una)?;
            } else {
                sink(cx, s.expr().apply(f1), &log, &dims[0], Some(true), &una)?;
            }
        }
        _ => {
            let want: Vec<i64> = (0..vals.len()).map(una).collect();
            let mut f = |x: &mut i64| {
                *x += 1;
                f1(&(*x - 1))
            };
            let o = match how {
                7 => (&mut t.expr_mut()).apply(&mut f).eval(),
                11 => (&mut t).apply(&mut f).eval(),
                _ => {
                    let s: &mut Slice<i64, S> = &mut t;
                    s.apply(&mut f).eval()
                }
            };
            let s: &Slice<i64, S> = o.borrow();
            agree_vals("apply of a mutable view", s, &dims[0], &want)?;
            let plus: Vec<i64> = vals.iter().map(|x| x + 1).collect();
            agree_vals("array after apply of a mutable view", &t, &dims[0], &plus)?;
        }
    }
    Ok(())
}

/// Inline arrays: map and zip with by value.
fn array_apply<S: TestShape + ConstShape, B: Leaf>(cx: &mut Ctx) -> Res {
    let (dims, top) = operand_dims(cx, &[(S::PAT, false), pat::<B>()], 200);
    let vals: Vec<i64> = (0..product(&dims[0])).map(|k| value(k) as i64).collect();
    let mut k = 0;
    let a: Array<i64, S> = Array::from_fn(|_| {
        k += 1;
        vals[k - 1]
    });
    let mut b = B::make(cx, &dims[1]);
    let (ra, rb) = (dims[0].len(), dims[1].len());
    if B::COUNTING && rb < ra {
        return Ok(());
    }
    cx.nontrivial_if(vals.len() > 1);
    cx.note(|| format!("array {:?}", dims[0]));
    let log = RefCell::new(Vec::new());
    let pick = cx.src.below(6);
    if pick >= 2 {
        let mut a = a;
        let repeat = pick == 2;
        let ok = top.is_some() && (repeat || ra >= rb) && (B::REPEATABLE || rb >= ra);
        let pb: *const B = &b;
        let n = vals.len().max(1);
        let bin = |k: usize| unsafe { mixi(vals[k % n], (*pb).at(k) as i64) };
        let una = |k: usize| mixi(vals[k % n], 3);
        let f2 = |(x, y): (&i64, i32)| {
            let r = mixi(*x, y as i64);
            log.borrow_mut().push(r);
            r
        };
        let f1 = |x: &i64| {
            let r = mixi(*x, 3);
            log.borrow_mut().push(r);
            r
        };
        macro_rules! settle {
            ($make:expr) => {
                match caught(|| $make) {
                    Some(e) => {
                        ensure!(ok, "operands {dims:?} were accepted");
                        sink(cx, e, &log, &top.unwrap(), if B::COUNTING { None } else { Some(repeat && B::REPEATABLE) }, &bin)?;
                    }
                    None => ensure!(!ok, "operands {dims:?} were rejected: {}", last_panic()),
                }
            };
        }
        match pick {
            2 => settle!((&a).zip_with(b.expr(), f2)),
            3 if cx.src.flip() => settle!((&mut a).zip_with(b.expr(), |(x, y): (&mut i64, i32)| f2((&*x, y)))),
            3 => settle!((&mut a).into_expr().zip(b.expr()).map(|(x, y): (&mut i64, i32)| f2((&*x, y)))),
            4 => sink(cx, (&a).apply(f1), &log, &dims[0], Some(true), &una)?,
            _ => {
                sink(cx, (&mut a).apply(|x: &mut i64| {
                    *x += 1;
                    f1(&(*x - 1))
                }), &log, &dims[0], Some(false), &una)?;
            }
        }
        return Ok(());
    }
    if pick == 0 {
        let want: Vec<String> = vals.iter().map(|x| format!("{x}")).collect();
        let u = a.map(|x| {
            log.borrow_mut().push(x);
            format!("{x}")
        });
        agree_vals("map of an array", &u, &dims[0], &want)?;
        ensure_eq!(*log.borrow(), vals, "calls of the closure in order");
        return Ok(());
    }
    let ok = top.is_some() && ra >= rb && (B::REPEATABLE || rb >= ra);
    let pb: *const B = &b;
    match caught(|| Apply::zip_with(a, b.expr(), |(x, y): (i64, i32)| format!("{x}|{y}"))) {
        Some(u) => {
            ensure!(ok, "operands {dims:?} were accepted");
            let want: Vec<String> =
                (0..vals.len()).map(|k| format!("{}|{}", vals[k], unsafe { (*pb).at(k) })).collect();
            agree_vals("zip_with of an array", &u, &dims[0], &want)?;
        }
        None => ensure!(!ok, "operands {dims:?} were rejected: {}", last_panic()),
    }
    Ok(())
}

/// Assignment of borrowed and moved elements that own memory, to all kinds of destinations.
fn assign_owned(cx: &mut Ctx) -> Res {
    let dims = gen_dyn_dims(&mut cx.src, 100, 4);
    let n = product(&dims);
    let mk = |c: &str| -> Tensor<String, DynRank> {
        Tensor::from((0..n).map(|k| format!("{c}{k}")).collect::<Vec<_>>()).into_shape(&dims[..])
    };
    let mut t = mk("old");
    let other = mk("new");
    let want: Vec<String> = (0..n).map(|k| format!("new{k}")).collect();
    let how = cx.src.below(6);
    cx.note(|| format!("assign {how} to {dims:?}"));
    cx.nontrivial_if(n > 1);
    match how {
        0 => t.assign(&other),
        1 => t.assign(other),
        2 => t.assign(other.expr().cloned()),
        3 => t.assign(expr::from_fn(&dims[..], |i| other[i].clone())),
        4 => t.expr_mut().assign(&other),
        _ => {
            let mut v = t.expr_mut().into_reordered();
            v.assign(other.expr().into_reordered());
        }
    }
    agree_vals("destination", &t, &dims, &want)
}

fn main() {
    let mut subs = Subs::default();
    subs.add("assign owned", 8, assign_owned);
    macro_rules! ones {
        ($($a:ty),* $(,)?) => {$( subs.add(concat!("one ", stringify!($a)), 2, one::<$a>); )*};
    }
    ones!(
        ViewCopied<(D, D, D), Strided>, ViewCloned<DynRank, Strided>, ViewMap<(C2, D, C3), Dense>,
        ViewMutMap<(D, D), Strided>, Enumerated<(D, D, D), Strided>, Moved<(D, C3)>, Moved<DynRank>,
        MovedArray<(C2, C3)>, MovedArray<(C2, C3, C2)>, Drained<(D, D)>, FromIndex<()>, FromIndex<(D,)>, FromIndex<(C2, C3)>,
        FromIndex<(D, D, D)>, FromIndex<DynRank>, FromIndex<(D, D, D, D, D, D)>, Elems<(D, C3)>, Elems<DynRank>, Filled,
        Counted, LaneSums<Dense>, LaneSums<Strided>, AxisSums<Dense>, AxisSums<Strided>,
        ViewCopied<(C2, C3), Strided>, ViewCopied<(C1, C2, C1, C2, C2, C1), Strided>,
        Lanes2A0<Strided>, Lanes3A0<Dense>, Lanes3A2<Strided>, Lanes1A0<Dense>, LanesDyn<Strided>, LanesMut2A0<Dense>,
        LanesMut3A1<Strided>, Axis2A0<Dense>, Axis3A1<Strided>, AxisDyn<Strided>, AxisMut2A0<Dense>, AxisMut2A1<Strided>,
        LanesRank<Dense>, LanesRank<Strided>, AxisRank<Dense>,
    );
    macro_rules! twos {
        ($($a:ty, $b:ty);* $(;)?) => {$( subs.add(concat!("two ", stringify!($a), " / ", stringify!($b)), 3, two::<$a, $b>); )*};
    }
    twos!(
        ViewCopied<(D, D), Dense>, ViewCopied<(D, D), Strided>;
        ViewCopied<(D,), Dense>, ViewCopied<(D, D, D), Strided>;
        ViewCopied<(D, D, D), Strided>, ViewCloned<(D, D), Strided>;
        ViewCopied<(D, C2, D), Dense>, ViewMap<(C2, D), Dense>;
        ViewMap<(C2, D, C3), Strided>, ViewMap<(C3,), Strided>;
        ViewCopied<DynRank, Strided>, ViewCopied<DynRank, Dense>;
        ViewCopied<DynRank, Dense>, FromIndex<DynRank>;
        FromIndex<DynRank>, FromIndex<DynRank>;
        FromIndex<(D, D, D)>, ViewCopied<(D, D), Dense>;
        FromIndex<(D, D)>, ViewCopied<(D, D, D), Strided>;
        FromIndex<(D,)>, ViewCopied<(D, D, D), Dense>;
        FromIndex<(D,)>, FromIndex<(D, D)>;
        FromIndex<()>, ViewCopied<(D, D), Dense>;
        ViewCopied<(), Strided>, FromIndex<(D, D)>;
        ViewCopied<(), Dense>, Moved<(D, D)>;
        Moved<(D, D)>, ViewCopied<(D,), Strided>;
        Moved<(D,)>, ViewCopied<(D, D), Strided>;
        Moved<DynRank>, ViewCopied<DynRank, Strided>;
        Moved<DynRank>, Moved<DynRank>;
        Moved<(D, D)>, FromIndex<(D, D)>;
        MovedArray<(C2, C3)>, ViewCopied<(D, D), Strided>;
        MovedArray<(C3,)>, MovedArray<(C2, C3)>;
        ViewMutMap<(D, D), Strided>, FromIndex<(D,)>;
        ViewMutMap<(D, D), Dense>, ViewCopied<DynRank, Strided>;
        Drained<(D, D)>, ViewCopied<(D, D), Strided>;
        Drained<(D, C3)>, FromIndex<(C3,)>;
        Enumerated<(D, D), Strided>, ViewCopied<(D,), Strided>;
        Enumerated<(D, D), Dense>, FromIndex<(D, D)>;
        Elems<(D, D)>, ViewCopied<(D, D, D), Strided>;
        Elems<(D, D, D)>, ViewCopied<(D,), Strided>;
        Elems<DynRank>, FromIndex<DynRank>;
        Filled, ViewCopied<(D, D), Strided>;
        ViewCopied<DynRank, Strided>, Counted;
        Counted, FromIndex<(D, D, D)>;
        LaneSums<Strided>, ViewCopied<(D, D, D), Strided>;
        ViewCopied<(D, D), Strided>, LaneSums<Dense>;
        FromIndex<(D, D, D)>, LaneSums<Dense>;
        LaneSums<Dense>, LaneSums<Strided>;
        AxisSums<Dense>, ViewCopied<(D, D), Strided>;
        ViewCopied<(D, D, D), Dense>, AxisSums<Strided>;
        FromIndex<(D, D)>, AxisSums<Dense>;
        AxisSums<Strided>, LaneSums<Strided>;
        ViewCopied<(D, D, D, D), Strided>, ViewCopied<(D, D, D, D), Strided>;
        ViewCopied<(D, D, D, D, D), Dense>, ViewCopied<(D, D, D), Strided>;
        ViewCopied<(D, D, D, D, D, D), Strided>, FromIndex<(D, D)>;
        ViewCopied<(C2, C1, C2, C3, C1), Dense>, ViewCopied<(D, D, C1), Strided>;
        ViewCopied<(C3, C0), Dense>, ViewCopied<(D, D), Strided>;
        ViewCopied<(C0, D), Strided>, FromIndex<(D,)>;
        Lanes2A0<Dense>, Elems<(D, D)>;
        Elems<(D, D, D)>, Lanes2A0<Strided>;
        Lanes2A1<Dense>, Moved<(D, D)>;
        Moved<(D, D, D)>, Lanes3A0<Dense>;
        Lanes3A2<Dense>, Elems<(D, D, D)>;
        Lanes3A0<Strided>, Moved<(D, D, D)>;
        LaneSums<Dense>, Elems<(D, D, D)>;
        Lanes1A0<Strided>, Moved<(D, D)>;
        Lanes1A0<Dense>, ViewCopied<(D, D, D), Dense>;
        LanesDyn<Strided>, Elems<(D, D, D)>;
        LanesRank<Dense>, Moved<DynRank>;
        Elems<DynRank>, LanesRank<Strided>;
        LanesRank<Dense>, LanesRank<Dense>;
        LanesMut2A0<Dense>, Moved<(D, D)>;
        Elems<(D, D)>, LanesMut2A0<Strided>;
        LanesMut3A1<Strided>, Lanes2A0<Dense>;
        Moved<(D, D)>, Moved<(D, D, D)>;
        AxisSums<Dense>, Elems<(D, D, D)>;
        Moved<(D, D)>, AxisSums<Strided>;
        Axis2A0<Dense>, Elems<(D, D)>;
        Axis2A0<Dense>, MovedArray<(C2, C3)>;
        Axis1A0<Dense>, Moved<(D, D)>;
        Elems<(D, D)>, Axis3A1<Strided>;
        AxisDyn<Strided>, Moved<(D, D, D)>;
        AxisRank<Dense>, Elems<DynRank>;
        AxisRank<Strided>, Moved<DynRank>;
        AxisMut2A0<Dense>, Axis2A0<Dense>;
        AxisMut2A1<Strided>, Elems<(D, D)>;
        Moved<(D,)>, AxisMut2A1<Dense>;
        Axis2A0<Strided>, Lanes3A0<Dense>;
        Elems<(D, D)>, Elems<(D, D, D)>;
        FromIndex<(D, D)>, Moved<(D, D, D)>;
        ViewCopied<(D,), Dense>, Moved<(D, D)>;
        ViewCopied<(D,), Strided>, Elems<(D, D)>;
        ViewCopied<(D, D), Strided>, Moved<(D, D, D)>;
        ViewCopied<DynRank, Dense>, Elems<DynRank>;
        Moved<(D, D)>, Drained<(D, D)>;
    );
    macro_rules! threes {
        ($($a:ty, $b:ty, $c:ty);* $(;)?) => {$( subs.add(concat!("three ", stringify!($a), " / ", stringify!($b), " / ", stringify!($c)), 3, three::<$a, $b, $c>); )*};
    }
    threes!(
        ViewCopied<DynRank, Strided>, FromIndex<DynRank>, ViewCopied<DynRank, Dense>;
        ViewCopied<(D, D), Strided>, ViewCopied<(D,), Dense>, FromIndex<(D, D, D)>;
        FromIndex<(D,)>, LaneSums<Strided>, ViewCopied<(D, D, D), Strided>;
        Moved<(D, D)>, ViewCopied<(D, D), Strided>, FromIndex<(D,)>;
        Filled, Counted, FromIndex<(D, D)>;
        AxisSums<Dense>, ViewCopied<(C2, D), Strided>, Elems<(D, D, D)>;
        ViewMutMap<(D, D), Strided>, Filled, Moved<(D, D)>;
        Enumerated<DynRank, Strided>, FromIndex<DynRank>, ViewCopied<DynRank, Strided>;
    );
    macro_rules! apps {
        ($($s:ty, $b:ty);* $(;)?) => {$( subs.add(concat!("apply ", stringify!($s), " / ", stringify!($b)), 3, applied::<$s, $b>); )*};
    }
    apps!(
        (D, D), ViewCopied<(D, D), Strided>; (D, D, D), FromIndex<(D, D)>; DynRank, ViewCopied<DynRank, Strided>;
        (C2, D, C3), Moved<(C2, D, C3)>; (D,), FromIndex<(D, D)>; (D, D), LaneSums<Strided>; (), FromIndex<()>;
    );
    macro_rules! arr {
        ($($s:ty, $b:ty);* $(;)?) => {$( subs.add(concat!("array ", stringify!($s), " / ", stringify!($b)), 2, array_apply::<$s, $b>); )*};
    }
    arr!(
        (C2, C3), ViewCopied<(D, D), Strided>; (C2, C3, C2), FromIndex<(D, D)>; (C3,), ViewCopied<DynRank, Strided>;
        (C2, C3), MovedArray<(C2, C3)>; (), FromIndex<()>; (C3, C0), FromIndex<DynRank>; (C1, C2, C1, C2, C2, C1), FromIndex<(C2, C1)>;
    );
    harness::main(Property {
        id: "C06",
        rule: "the operands are accepted and the result has at least two elements",
        subs: subs.0,
    })
}
