//! Generated operations on inline arrays, nested arrays and owned expressions with tracked
//! elements, optionally with injected faults.
use crate::track::{self, CALL, DROP, Elem};
use crate::world::{Expect, Out, read_valid};
use crate::{Ctx, Res, TestShape, caught, ensure, ensure_eq, last_panic, product};
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, ConstShape, Dyn, DynRank, Slice, Tensor};

#[derive(Default)]
pub struct Faults {
    pub mask: u32,
    pub fired: bool,
    pub drop_fired: bool,
}

impl Faults {
    pub fn run<R>(&mut self, cx: &mut Ctx, n: usize, f: impl FnOnce() -> R) -> Out<R> {
        let mut armed = false;
        if self.mask != 0 && cx.src.chance(7, 8) {
            let bound = cx.src.below(2 * n + 3) + 1;
            let k = cx.src.below(bound);
            cx.note(|| format!("fault at event {k}"));
            track::arm(self.mask, k as u64);
            armed = true;
        }
        let r = caught(f);
        if armed && track::disarm() {
            self.fired = true;
            self.drop_fired |= self.mask & DROP != 0;
            cx.tag("faults");
            return Out::Fault;
        }
        match r {
            Some(r) => Out::Done(r),
            None => Out::Panicked,
        }
    }
}

pub fn settle<R>(what: &str, out: Out<R>, expect: Expect) -> Res<Option<R>> {
    if let Some(e) = track::take_error() {
        return Err(format!("{what}: {e}"));
    }
    match out {
        Out::Done(r) => {
            ensure!(expect != Expect::Panic, "{what}: expected a panic, but the call returned");
            Ok(Some(r))
        }
        Out::Panicked => {
            ensure!(expect != Expect::Value, "{what}: unexpected panic: {}", last_panic());
            Ok(None)
        }
        Out::Fault => Ok(None),
    }
}

fn vals_of<T: Elem, S: ConstShape>(a: &Array<T, S>) -> Vec<i64> {
    a[..].iter().map(|x| x.val()).collect()
}

fn norm<T: Elem>(v: impl IntoIterator<Item = i64>) -> Vec<i64> {
    v.into_iter().map(T::norm).collect()
}

fn make<T: Elem, S: ConstShape>(v: &[i64]) -> Array<T, S> {
    let mut k = 0;
    Array::from_fn(|_| {
        k += 1;
        T::make(v[k - 1])
    })
}

fn bump<T: Elem>(mut x: T, d: i64) -> T {
    track::tick(CALL);
    let y = x.val();
    x.set(y + d);
    x
}

fn join<T: Elem>(mut x: T, y: &T) -> T {
    track::tick(CALL);
    let z = x.val() + 3 * y.val();
    x.set(z);
    x
}

/// One generated operation on inline arrays of a shape.
pub fn array_op<T: Elem, S: TestShape + ConstShape>(cx: &mut Ctx, f: &mut Faults) -> Res
where
    Array<T, S>: Clone,
{
    let dims: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
    let n = product(&dims);
    let va: Vec<i64> = (0..n as i64).map(|k| 100 + k).collect();
    let vb: Vec<i64> = (0..n as i64).map(|k| 5000 + 7 * k).collect();
    let op = cx.src.below(28);
    let take = cx.src.range(0, n + 2);
    cx.note(|| format!("inline array {dims:?}, operation {op}, {take}"));
    cx.nontrivial_if(n > 0);
    let want_a = norm::<T>(va.clone());
    let joined = norm::<T>(va.iter().zip(&vb).map(|(a, b)| a + 3 * b));
    // Results: values of the array that comes out.
    let (out, want): (Out<Vec<i64>>, Vec<i64>) = match op {
        0 => (
            f.run(cx, n, || {
                let mut k = 0;
                let a = Array::<T, S>::from_fn(|_| {
                    track::tick(CALL);
                    k += 1;
                    T::make(va[k - 1])
                });
                vals_of(&a)
            }),
            want_a,
        ),
        1 => (
            f.run(cx, n, || vals_of(&Array::<T, S>::from_elem(T::make(9)))),
            norm::<T>(vec![9; n]),
        ),
        2 => {
            let a = make::<T, S>(&va);
            (f.run(cx, n, move || vals_of(&a.map(|x| bump(x, 5)))), norm::<T>(va.iter().map(|x| x + 5)))
        }
        3 => {
            // To another element type.
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let b: Array<Vec<i64>, S> = a.apply(|x: T| {
                        track::tick(CALL);
                        vec![x.val()]
                    });
                    b[..].iter().map(|x| x[0]).collect()
                }),
                want_a,
            )
        }
        4 => {
            let (a, b) = (make::<T, S>(&va), make::<T, S>(&vb));
            (f.run(cx, n, move || vals_of(&a.zip_with(&b, |(x, y): (T, &T)| join(x, y)))), joined)
        }
        5 => {
            let (a, b) = (make::<T, S>(&va), make::<T, S>(&vb));
            (f.run(cx, n, move || vals_of(&a.zip_with(b, |(x, y): (T, T)| join(x, &y)))), joined)
        }
        6 => {
            let (a, b) = (make::<T, S>(&va), make::<T, S>(&vb));
            (
                f.run(cx, n, move || {
                    let t = Tensor::from(b);
                    vals_of(&a.zip_with(t, |(x, y): (T, T)| join(x, &y)))
                }),
                joined,
            )
        }
        7 => {
            let a = make::<T, S>(&va);
            (f.run(cx, n, move || a.into_iter().map(|x| bump(x, 0).val()).collect()), want_a)
        }
        8 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let mut it = a.into_iter();
                    let mut v = Vec::new();
                    for _ in 0..take {
                        if let Some(x) = it.next() {
                            v.push(bump(x, 0).val());
                        }
                    }
                    v
                }),
                want_a[..take.min(n)].to_vec(),
            )
        }
        9 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let mut it = a.into_iter();
                    let mut v: Vec<i64> = it.by_ref().take(take).map(|x| x.val()).collect();
                    it.for_each(|x| v.push(bump(x, 0).val()));
                    v
                }),
                want_a,
            )
        }
        10 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let e = a.into_expr();
                    let text = format!("{e:?}");
                    assert!(text.len() > 5);
                    let t: Vec<T> = e.fold(Vec::new(), |mut v, x| {
                        v.push(bump(x, 0));
                        v
                    });
                    t.iter().map(|x| x.val()).collect()
                }),
                want_a,
            )
        }
        11 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let t = Tensor::<T, S>::from(a);
                    let (d, v) = read_valid("tensor", &t).unwrap();
                    assert_eq!(d.len(), S::PAT.len());
                    v
                }),
                want_a,
            )
        }
        12 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let t = Tensor::<T, S>::from(a);
                    vals_of(&Array::from(t))
                }),
                want_a,
            )
        }
        13 => {
            let a = make::<T, S>(&va);
            (f.run(cx, n, move || vals_of(&a.clone())), want_a)
        }
        14 => {
            let (mut a, b) = (make::<T, S>(&va), make::<T, S>(&vb));
            (
                f.run(cx, n, move || {
                    a.clone_from(&b);
                    vals_of(&a)
                }),
                norm::<T>(vb),
            )
        }
        15 => {
            let (mut a, b) = (make::<T, S>(&va), make::<T, S>(&vb));
            let kind = cx.src.below(3);
            (
                f.run(cx, n, move || {
                    match kind {
                        0 => a.assign(&b),
                        1 => a.assign(b),
                        _ => a.assign(b.expr().map(|x| bump(x.clone(), 0))),
                    }
                    vals_of(&a)
                }),
                norm::<T>(vb),
            )
        }
        16 => {
            let mut a = make::<T, S>(&va);
            let kind = cx.src.below(2);
            (
                f.run(cx, n, move || {
                    if kind == 0 {
                        a.fill(T::make(9))
                    } else {
                        a.fill_with(|| bump(T::make(9), 0))
                    }
                    vals_of(&a)
                }),
                norm::<T>(vec![9; n]),
            )
        }
        17 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let b: Array<T, S> = Array::from(a.expr());
                    let c: Array<T, S> = a.to_array();
                    let d = vals_of(&c);
                    assert_eq!(vals_of(&b), d);
                    d
                }),
                want_a,
            )
        }
        18 => {
            // Length one or a panic.
            let a = make::<T, S>(&va);
            let out = f.run(cx, n, move || vec![a.into_scalar().val()]);
            return match settle("into_scalar", out, if n == 1 { Expect::Value } else { Expect::Panic })? {
                Some(v) => {
                    ensure_eq!(v, want_a, "into_scalar");
                    Ok(())
                }
                None => Ok(()),
            };
        }
        19 => {
            let a = make::<T, S>(&va);
            let kind = cx.src.below(4);
            let out = f.run(cx, n, move || match kind {
                0 => vals_of(&a.into_shape::<(Const<6>,)>()),
                1 => vals_of(&a.into_shape::<(Const<3>, Const<2>)>()),
                2 => vals_of(&a.into_shape::<(Const<1>, Const<3>)>()),
                _ => vals_of(&a.into_shape::<(Const<0>,)>()),
            });
            let len = [6, 6, 3, 0][kind];
            return match settle("into_shape", out, if n == len { Expect::Value } else { Expect::Panic })? {
                Some(v) => {
                    ensure_eq!(v, want_a, "into_shape");
                    Ok(())
                }
                None => Ok(()),
            };
        }
        20 => {
            let (a, b) = (make::<T, S>(&va), make::<T, S>(&vb));
            (
                f.run(cx, n, move || {
                    let t = Tensor::from_expr(a.into_expr().zip(b).map(|(x, y)| join(x, &y)));
                    t[..].iter().map(|x| x.val()).collect()
                }),
                joined,
            )
        }
        21 => {
            // An operand that cannot be repeated, in a product of a higher rank.
            let a = make::<T, S>(&va);
            let m = cx.src.below(4);
            let mut d = vec![m];
            d.extend(&dims);
            let out = f.run(cx, n, move || {
                let t: Tensor<i64, DynRank> = Tensor::from_elem(&d[..], 1);
                let r = Tensor::from_expr(t.expr().zip(a).map(|(_, x)| bump(x, 0)));
                r.len()
            });
            settle("broadcast of a moved array", out, Expect::Panic)?;
            return Ok(());
        }
        22 => {
            // Nothing of the expression is evaluated.
            let a = make::<T, S>(&va);
            let kind = cx.src.below(3);
            let out = f.run(cx, n, move || match kind {
                0 => drop(a.into_expr()),
                1 => drop(a.into_expr().map(|x| bump(x, 0))),
                _ => drop(a.into_iter()),
            });
            settle("dropped expression", out, Expect::Value)?;
            return Ok(());
        }
        23 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let mut t: Tensor<T, S> = Tensor::from(make::<T, S>(&vb));
                    let s: &Slice<T, S> = &a;
                    t.assign(s);
                    t.into_vec().iter().map(|x| x.val()).collect()
                }),
                want_a,
            )
        }
        24 => {
            let mut a = make::<T, S>(&va);
            let slice_of = make::<T, S>(&vb);
            (
                f.run(cx, n, move || {
                    let s: &Slice<T, S> = &slice_of;
                    // The owned type of the shape is the inline array, except for large ranks.
                    if let Some(o) = (&mut a as &mut dyn std::any::Any).downcast_mut::<<S as mdarray::Shape>::Owned<T>>() {
                        s.clone_into(o);
                    } else {
                        a.assign(s);
                    }
                    vals_of(&a)
                }),
                norm::<T>(vb),
            )
        }
        25 => {
            // The expression is changed in place before it is consumed.
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let mut e = a.into_expr();
                    let s: &mut Slice<T, S> = e.as_mut();
                    for x in s.iter_mut() {
                        let v = x.val();
                        x.set(v + 5);
                    }
                    e.into_iter().map(|x| bump(x, 0).val()).collect()
                }),
                norm::<T>(va.iter().map(|x| x + 5)),
            )
        }
        26 => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let e = expr::enumerate(a).map(|(i, x)| {
                        track::tick(CALL);
                        x.val() + T::norm(i as i64)
                    });
                    e.into_iter().collect()
                }),
                norm::<T>(va.iter().enumerate().map(|(i, x)| x + i as i64)),
            )
        }
        _ => {
            let a = make::<T, S>(&va);
            (
                f.run(cx, n, move || {
                    let mut t = Tensor::<T, (Dyn,)>::from(vec![T::make(1)]);
                    t.expand(Tensor::from(a).into_flat());
                    t[1..].iter().map(|x| x.val()).collect()
                }),
                want_a,
            )
        }
    };
    if let Some(got) = settle(&format!("operation {op} on an inline array {dims:?}"), out, Expect::Value)? {
        ensure_eq!(got, want, "operation {op} on an inline array {dims:?}");
    }
    Ok(())
}

type N1<T> = [T; 4];
type N2<T> = [[T; 3]; 2];
type N3<T> = [[[T; 2]; 1]; 3];
type N6<T> = [[[[[[T; 1]; 2]; 1]; 3]; 1]; 2];

/// Conversions that move elements between nested arrays and other arrays.
pub fn nested_op<T: Elem>(cx: &mut Ctx, f: &mut Faults) -> Res {
    let op = cx.src.below(12);
    let wrong = cx.src.chance(1, 3);
    cx.note(|| format!("nested arrays, operation {op}, other size: {wrong}"));
    cx.nontrivial = true;
    fn t(k: i64) -> i64 {
        100 + k
    }
    fn n1<T: Elem>() -> N1<T> {
        std::array::from_fn(|i| T::make(t(i as i64)))
    }
    fn n2<T: Elem>() -> N2<T> {
        std::array::from_fn(|i| std::array::from_fn(|j| T::make(t((3 * i + j) as i64))))
    }
    fn n3<T: Elem>() -> N3<T> {
        std::array::from_fn(|i| [std::array::from_fn(|j| T::make(t((2 * i + j) as i64)))])
    }
    fn n6<T: Elem>() -> N6<T> {
        std::array::from_fn(|i| {
            [std::array::from_fn(|j| [std::array::from_fn(|k| [T::make(t((6 * i + 2 * j + k) as i64))])])]
        })
    }
    let want = |n: i64| norm::<T>((0..n).map(t));
    let (out, want): (Out<Vec<i64>>, Vec<i64>) = match op {
        0 => (
            f.run(cx, 4, || {
                let t = Tensor::<T, (Dyn,)>::from(n1::<T>());
                read_valid("tensor", &t).unwrap().1
            }),
            want(4),
        ),
        1 => (
            f.run(cx, 6, || {
                let t = Tensor::<T, (Dyn, Const<3>)>::from(n2::<T>());
                read_valid("tensor", &t).unwrap().1
            }),
            want(6),
        ),
        2 => (
            f.run(cx, 6, || {
                let a = n3::<T>();
                let t = Tensor::<T, (Dyn, Dyn, Dyn)>::from(&a);
                read_valid("tensor", &t).unwrap().1
            }),
            want(6),
        ),
        3 => (
            f.run(cx, 12, || {
                let t = Tensor::<T, (Dyn, Const<1>, Dyn, Dyn, Dyn, Dyn)>::from(n6::<T>());
                let a = N6::<T>::try_from(t).ok().unwrap();
                a.iter().flatten().flatten().flatten().flatten().flatten().map(|x| x.val()).collect()
            }),
            want(12),
        ),
        4 => (
            f.run(cx, 6, || {
                let t = Tensor::<T, (Dyn, Dyn)>::from(n2::<T>());
                if wrong {
                    let e = <[[T; 2]; 3]>::try_from(t).err().unwrap();
                    read_valid("returned array", &e).unwrap().1
                } else {
                    let a = N2::<T>::try_from(t).ok().unwrap();
                    a.iter().flatten().map(|x| x.val()).collect()
                }
            }),
            want(6),
        ),
        5 => (
            f.run(cx, 4, || {
                let mut t = Tensor::<T, (Dyn,)>::from(n1::<T>());
                t.reserve(10);
                if wrong {
                    let e = <[T; 3]>::try_from(t).err().unwrap();
                    e.into_vec().iter().map(|x| x.val()).collect()
                } else {
                    let a = N1::<T>::try_from(t).ok().unwrap();
                    a.iter().map(|x| x.val()).collect()
                }
            }),
            want(4),
        ),
        6 => (
            f.run(cx, 6, || {
                let a = Array::<T, (Const<2>, Const<3>)>::from(n2::<T>());
                let b: N2<T> = a.into();
                b.iter().flatten().map(|x| x.val()).collect()
            }),
            want(6),
        ),
        7 => (
            f.run(cx, 6, || {
                let n = n2::<T>();
                let a = Array::<T, (Const<2>, Const<3>)>::from(&n);
                vals_of(&a)
            }),
            want(6),
        ),
        8 => (
            f.run(cx, 4, || {
                let t = Tensor::<T, (Dyn,)>::from(n1::<T>());
                let v: Vec<T> = t.into();
                v.iter().map(|x| x.val()).collect()
            }),
            want(4),
        ),
        9 => (
            f.run(cx, 4, || {
                let v: Vec<T> = n1::<T>().into_iter().collect();
                let t = Tensor::<T, (Dyn,)>::from(&v[..]);
                t.into_iter().map(|x| x.val()).collect()
            }),
            want(4),
        ),
        10 => (
            // By-value nested arrays as expressions.
            f.run(cx, 6, || {
                let t = Tensor::from_expr(Array::<T, (Const<2>, Const<3>)>::from(n2::<T>()).into_expr().map(|x: T| bump(x, 0)));
                t.into_vec().iter().map(|x| x.val()).collect()
            }),
            want(6),
        ),
        _ => (
            f.run(cx, 4, || {
                let v: Vec<T> = n1::<T>().into_iter().collect();
                let t = Tensor::from_expr(Tensor::<T, (Dyn,)>::from(v).into_expr().map(|x: T| bump(x, 0)));
                t.into_vec().iter().map(|x| x.val()).collect()
            }),
            want(4),
        ),
    };
    if let Some(got) = settle(&format!("operation {op} on nested arrays"), out, Expect::Value)? {
        ensure_eq!(got, want, "operation {op} on nested arrays");
    }
    Ok(())
}

/// Clones of owned expressions (elements are cloned and not moved).
pub fn expr_clone_op<T: Elem>(cx: &mut Ctx, f: &mut Faults) -> Res {
    let n = cx.src.range(0, 6);
    let vals: Vec<i64> = (0..n as i64).map(|k| 100 + k).collect();
    let mk = |v: &[i64]| Tensor::<T, (Dyn,)>::from(v.iter().map(|&x| T::make(x)).collect::<Vec<T>>());
    let op = cx.src.below(6);
    let take = cx.src.range(0, n);
    cx.note(|| format!("clone of an owned expression, {n} elements, operation {op}, {take}"));
    cx.nontrivial_if(n > 0);
    let t = mk(&vals);
    let u = mk(&[7, 8]);
    let (out, expect, want): (Out<Vec<i64>>, Expect, Vec<i64>) = match op {
        0 => (
            f.run(cx, n, move || {
                let e = t.into_expr();
                let c = e.clone();
                drop(e);
                c.into_iter().map(|x| x.val()).collect()
            }),
            Expect::Value,
            norm::<T>(vals),
        ),
        1 => (
            f.run(cx, n, move || {
                let e = t.into_expr();
                let mut c = u.into_expr();
                c.clone_from(&e);
                drop(e);
                c.into_iter().map(|x| x.val()).collect()
            }),
            Expect::Value,
            norm::<T>(vals),
        ),
        2 => (
            // A partially consumed iterator: refused, or the rest is cloned.
            f.run(cx, n, move || {
                let mut it = t.into_iter();
                let mut v: Vec<i64> = it.by_ref().take(take).map(|x| x.val()).collect();
                let c = it.clone();
                drop(it);
                v.extend(c.map(|x| x.val()));
                v
            }),
            if take == 0 { Expect::Value } else { Expect::Any },
            norm::<T>(vals),
        ),
        3 => (
            f.run(cx, n, move || {
                let it = t.into_iter();
                let mut c = u.into_iter();
                let _ = c.next();
                c.clone_from(&it);
                drop(it);
                c.map(|x| x.val()).collect()
            }),
            Expect::Any,
            norm::<T>(vals),
        ),
        4 => (
            f.run(cx, n, move || {
                let a = Array::<T, (Const<4>,)>::from_fn(|i| T::make(i[0] as i64));
                let e = a.into_expr();
                let c = e.clone();
                drop(e);
                c.into_iter().map(|x| x.val()).collect()
            }),
            Expect::Value,
            norm::<T>(0..4),
        ),
        _ => (
            f.run(cx, n, move || {
                // Both halves are used.
                let e = t.into_expr();
                let c = e.clone();
                e.zip(c).into_iter().map(|(x, y)| {
                    assert!(x.val() == y.val());
                    x.val()
                }).collect()
            }),
            Expect::Value,
            norm::<T>(vals),
        ),
    };
    if let Some(got) = settle(&format!("operation {op} on clones of an owned expression"), out, expect)? {
        ensure_eq!(got, want, "operation {op} on clones of an owned expression");
    }
    Ok(())
}
