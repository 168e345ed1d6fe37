//! Stateful model: a pool of growable arrays driven by generated operation histories, each
//! compared with plain lists of dimensions and values. Optionally with injected faults.
use std::any::Any;
use std::fmt::Debug;
use std::ops::Bound;

use crate::track::{self, CALL, DROP, Elem};
use crate::{Ctx, Res, Src, TestShape, caught, ensure, ensure_eq, fits, last_panic, product};
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{DenseMapping, Dyn, DynRank, Shape, Slice, Tensor};

pub struct Slot<T: Elem, S: TestShape> {
    pub t: Tensor<T, S>,
    pub dims: Vec<usize>,
    pub vals: Vec<i64>,
}

pub struct World<T: Elem, S: TestShape> {
    pub slots: Vec<Slot<T, S>>,
    next: i64,
    /// Inner dimensions that most arrays of the world share.
    house: Vec<usize>,
    /// Kinds of faults to inject (0 = none).
    pub faults: u32,
    /// A fault was injected / one in a destructor.
    pub fired: bool,
    pub drop_fired: bool,
    /// Operations that changed or consumed a non-empty array.
    pub weighty: usize,
    pub max_elems: usize,
}

pub enum Out<R> {
    Done(R),
    Panicked,
    Fault,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    Value,
    Panic,
    Any,
}

pub fn can_grow<S: TestShape>(dims: &[usize]) -> bool {
    !dims.is_empty() && (S::DYNRANK || S::PAT[0] < 0)
}

/// Dimensions of the default shape.
pub fn default_dims<S: TestShape>() -> Vec<usize> {
    if S::DYNRANK { vec![0] } else { S::PAT.iter().map(|&p| p.max(0) as usize).collect() }
}

/// Result of appending along the first dimension: the new content, or None for a panic.
pub fn model_expand<S: TestShape>(
    dims: &[usize],
    vals: &[i64],
    sd: &[usize],
    sv: &[i64],
) -> Option<(Vec<usize>, Vec<i64>)> {
    if !can_grow::<S>(dims) {
        return None;
    }
    if product(sd) == 0 {
        return Some((dims.to_vec(), vals.to_vec()));
    }
    if vals.is_empty() {
        return if fits::<S>(sd) { Some((sd.to_vec(), sv.to_vec())) } else { None };
    }
    if sd.len() != dims.len() || sd[1..] != dims[1..] {
        return None;
    }
    let mut d = dims.to_vec();
    d[0] += sd[0];
    Some((d, vals.iter().chain(sv).copied().collect()))
}

/// Result of resizing: elements whose index exists before and after are kept, the others are
/// filled in row-major order.
pub fn model_resize(old: &[usize], vals: &[i64], new: &[usize], mut fill: impl FnMut() -> i64) -> Vec<i64> {
    crate::indices(new)
        .iter()
        .map(|i| {
            if i.iter().zip(old).all(|(a, b)| a < b) {
                let k = i.iter().zip(old).fold(0, |k, (a, d)| k * d + a);
                vals[k]
            } else {
                fill()
            }
        })
        .collect()
}

pub fn model_range(r: (Bound<usize>, Bound<usize>), len: usize) -> Option<(usize, usize)> {
    let s = match r.0 {
        Bound::Included(s) => s,
        Bound::Excluded(s) => s.checked_add(1)?,
        Bound::Unbounded => 0,
    };
    let e = match r.1 {
        Bound::Included(e) => e.checked_add(1)?,
        Bound::Excluded(e) => e,
        Bound::Unbounded => len,
    };
    (s <= e && e <= len).then_some((s, e))
}

pub fn gen_range(src: &mut Src, len: usize) -> (Bound<usize>, Bound<usize>) {
    let lim = if src.chance(1, 8) { len + 2 } else { len };
    let (mut a, mut b) = (src.range(0, lim), src.range(0, lim));
    if a > b && !src.chance(1, 10) {
        std::mem::swap(&mut a, &mut b);
    }
    let s = match src.below(5) {
        0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        2 if src.chance(1, 10) => Bound::Excluded(usize::MAX),
        _ => Bound::Included(a),
    };
    let e = match src.below(5) {
        0 => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        2 if src.chance(1, 10) => Bound::Included(usize::MAX),
        _ => Bound::Excluded(b),
    };
    (s, e)
}

/// Reads all elements of an array, and checks dimensions against length and capacity.
pub fn read_valid<T: Elem, S: Shape>(what: &str, t: &Tensor<T, S>) -> Res<(Vec<usize>, Vec<i64>)> {
    let dims: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    let n = dims.iter().try_fold(1usize, |a, &d| a.checked_mul(d));
    ensure_eq!(n, Some(t.len()), "{what}: number of elements of dimensions {dims:?}");
    ensure!(t.capacity() >= t.len(), "{what}: capacity {} below length {}", t.capacity(), t.len());
    ensure!(t.len() < 10_000_000, "{what}: implausible dimensions {dims:?}");
    let vals: Vec<i64> = t[..].iter().map(|x| x.val()).collect();
    if let Some(e) = track::take_error() {
        return Err(format!("{what}: {e}"));
    }
    Ok((dims, vals))
}

impl<T: Elem, S: TestShape> World<T, S> {
    pub fn new(cx: &mut Ctx, faults: u32, max_elems: usize) -> Self {
        let mut house = crate::gen_dims::<S>(&mut cx.src, 12);
        if !house.is_empty() {
            house.remove(0);
        }
        for h in house.iter_mut() {
            if *h == 0 && cx.src.chance(2, 3) && S::DYNRANK {
                *h = 1;
            }
        }
        // A bounded number of inner elements, also if there was a zero.
        let wide = max_elems > 100;
        for k in 0..house.len() {
            if wide && house[k] > 1 && (S::DYNRANK || S::PAT[k + 1] < 0) {
                house[k] = house[k].min(9);
            } else if house.iter().map(|&h| h.max(1)).product::<usize>() > 16 && (S::DYNRANK || S::PAT[k + 1] < 0) {
                house[k] = house[k].min(2);
            }
        }
        World {
            slots: Vec::new(),
            next: 1,
            house,
            faults,
            fired: false,
            drop_fired: false,
            weighty: 0,
            max_elems,
        }
    }

    fn fresh(&mut self) -> i64 {
        self.next += 1;
        self.next
    }

    /// Dimensions for a new array, mostly compatible with the others.
    pub fn gen_dims(&mut self, src: &mut Src) -> Vec<usize> {
        if src.chance(1, 5) {
            return crate::gen_dims::<S>(src, self.max_elems);
        }
        if S::DYNRANK || !S::PAT.is_empty() {
            let mut d = vec![0];
            d.extend(&self.house);
            d[0] = if !S::DYNRANK && S::PAT[0] >= 0 {
                S::PAT[0] as usize
            } else {
                let cap = (self.max_elems / product(&self.house).max(1)).max(1);
                match src.below(8) {
                    0 => 0,
                    1..=2 => 1,
                    3..=5 if self.max_elems > 100 => src.range(1, cap),
                    _ => src.range(1, cap.min(7)),
                }
            };
            if fits::<S>(&d) {
                return d;
            }
        }
        crate::gen_dims::<S>(src, self.max_elems)
    }

    /// Runs an operation on the pool, possibly with an injected fault.
    pub fn act<R>(&mut self, cx: &mut Ctx, f: impl FnOnce(&mut Vec<Slot<T, S>>) -> R) -> Out<R> {
        let mut mask = 0;
        if self.faults != 0 && cx.src.chance(4, 5) {
            let total: usize = self.slots.iter().map(|s| s.vals.len()).sum();
            let bound = if cx.src.flip() { 6 } else { total + 2 };
            let bound = cx.src.below(bound) + 1;
            let k = cx.src.below(bound);
            mask = self.faults;
            cx.note(|| format!("fault at event {k}"));
            track::arm(mask, k as u64);
        }
        let mut slots = std::mem::take(&mut self.slots);
        let r = caught(|| f(&mut slots));
        let fired = if mask != 0 { track::disarm() } else { false };
        self.slots = slots;
        if fired {
            self.fired = true;
            self.drop_fired |= mask & DROP != 0;
            cx.tag("faults");
            return Out::Fault;
        }
        match r {
            Some(r) => Out::Done(r),
            None => Out::Panicked,
        }
    }

    /// Compares the outcome with the expectation. After a panic or a fault the pool must be
    /// valid, and the models are read back from it.
    pub fn finish<R>(&mut self, what: &str, out: Out<R>, expect: Expect) -> Res<Option<R>> {
        if let Some(e) = track::take_error() {
            return Err(format!("{what}: {e}"));
        }
        match out {
            Out::Done(r) => {
                ensure!(expect != Expect::Panic, "{what}: expected a panic, but the call returned");
                Ok(Some(r))
            }
            Out::Panicked => {
                ensure!(expect != Expect::Value, "{what}: unexpected panic: {}", last_panic());
                self.resync(what)?;
                Ok(None)
            }
            Out::Fault => {
                self.resync(what)?;
                Ok(None)
            }
        }
    }

    pub fn resync(&mut self, what: &str) -> Res {
        for (i, s) in self.slots.iter_mut().enumerate() {
            let (d, v) = read_valid(&format!("{what}: array {i} after a panic"), &s.t)?;
            s.dims = d;
            s.vals = v;
        }
        Ok(())
    }

    /// Compares one array with its model.
    pub fn verify(&self, what: &str, i: usize) -> Res {
        let s = &self.slots[i];
        let (d, v) = read_valid(&format!("{what}: array {i}"), &s.t)?;
        ensure_eq!(d, s.dims, "{what}: dimensions of array {i}");
        ensure_eq!(v, s.vals, "{what}: elements of array {i} with dimensions {d:?}");
        Ok(())
    }

    pub fn verify_all(&self, what: &str) -> Res {
        for i in 0..self.slots.len() {
            self.verify(what, i)?;
        }
        Ok(())
    }

    fn push(&mut self, t: Tensor<T, S>, dims: Vec<usize>, vals: Vec<i64>) {
        self.slots.push(Slot { t, dims, vals: vals.into_iter().map(T::norm).collect() });
    }

    fn set(&mut self, i: usize, dims: Vec<usize>, vals: Vec<i64>) {
        let s = &mut self.slots[i];
        if !s.vals.is_empty() || !vals.is_empty() {
            self.weighty += 1;
        }
        s.dims = dims;
        s.vals = vals.into_iter().map(T::norm).collect();
    }

    /// Fresh values for an array.
    pub fn values(&mut self, n: usize) -> Vec<i64> {
        (0..n).map(|_| self.fresh()).collect()
    }

    /// Replaces or adds an array with known content (not an operation under test).
    pub fn add(&mut self, cx: &mut Ctx) -> usize {
        let dims = self.gen_dims(&mut cx.src);
        let vals = self.values(product(&dims));
        let v: Vec<T> = vals.iter().map(|&x| T::make(x)).collect();
        let t = Tensor::from(v).into_shape(S::from_dims(&dims));
        self.push(t, dims, vals);
        self.slots.len() - 1
    }

    fn pick(&self, cx: &mut Ctx) -> usize {
        cx.src.below(self.slots.len())
    }

    fn step_new(&mut self, cx: &mut Ctx) -> Res {
        let dims = self.gen_dims(&mut cx.src);
        let n = product(&dims);
        let dd = default_dims::<S>();
        let empty_default = product(&dd) == 0;
        match cx.src.below(9) {
            0 => {
                let cap = cx.src.below(40);
                let kind = cx.src.below(3);
                cx.note(|| format!("new empty array (kind {kind}, capacity {cap})"));
                let out = self.act(cx, |_| match kind {
                    0 => Tensor::<T, S>::new(),
                    1 => Tensor::with_capacity(cap),
                    _ => Default::default(),
                });
                let e = if empty_default { Expect::Value } else { Expect::Panic };
                if let Some(t) = self.finish("new", out, e)? {
                    ensure!(kind != 1 || t.capacity() >= cap, "with_capacity({cap}): capacity {}", t.capacity());
                    self.push(t, dd, vec![]);
                }
            }
            1 => {
                let x = self.fresh();
                cx.note(|| format!("from_elem {dims:?}"));
                let out = self.act(cx, |_| Tensor::<T, S>::from_elem(S::from_dims(&dims), T::make(x)));
                if let Some(t) = self.finish("from_elem", out, Expect::Value)? {
                    self.push(t, dims, vec![x; n]);
                }
            }
            2 => {
                let vals = self.values(n);
                cx.note(|| format!("from_fn {dims:?}"));
                let out = self.act(cx, |_| {
                    let mut k = 0;
                    Tensor::<T, S>::from_fn(S::from_dims(&dims), |_| {
                        track::tick(CALL);
                        k += 1;
                        T::make(vals[k - 1])
                    })
                });
                if let Some(t) = self.finish("from_fn", out, Expect::Value)? {
                    self.push(t, dims, vals);
                }
            }
            3 if !self.slots.is_empty() => {
                let i = self.pick(cx);
                let kind = cx.src.below(5);
                cx.note(|| format!("copy of array {i} (kind {kind})"));
                let out = self.act(cx, |s| {
                    let a = &s[i].t;
                    match kind {
                        0 => a.clone(),
                        1 => a.to_tensor(),
                        2 => Tensor::from(a.expr()),
                        3 => Tensor::from_expr(a.expr().cloned()),
                        _ => {
                            let slice: &Slice<T, S> = a;
                            Tensor::from(slice)
                        }
                    }
                });
                if let Some(t) = self.finish("copy", out, Expect::Value)? {
                    let (d, v) = (self.slots[i].dims.clone(), self.slots[i].vals.clone());
                    self.push(t, d, v);
                }
            }
            4 if !self.slots.is_empty() => {
                // Expression over an existing array.
                let i = self.pick(cx);
                cx.note(|| format!("mapped copy of array {i}"));
                let out = self.act(cx, |s| {
                    Tensor::<T, S>::from_expr(s[i].t.expr().map(|x| {
                        track::tick(CALL);
                        let mut y = x.clone();
                        y.set(x.val() + 1);
                        y
                    }))
                });
                if let Some(t) = self.finish("mapped copy", out, Expect::Value)? {
                    let d = self.slots[i].dims.clone();
                    let v = self.slots[i].vals.iter().map(|x| x + 1).collect();
                    self.push(t, d, v);
                }
            }
            5 => {
                // Elements written to the spare capacity.
                if empty_default {
                    let vals = self.values(n);
                    cx.note(|| format!("array from spare capacity {dims:?}"));
                    let out = self.act(cx, |_| {
                        let mut t = Tensor::<T, S>::with_capacity(n);
                        if T::ZST {
                            let v: Vec<T> = vals.iter().map(|&x| T::make(x)).collect();
                            std::mem::forget(v);
                        } else {
                            let spare = t.spare_capacity_mut();
                            assert!(spare.len() >= n);
                            for (k, &x) in vals.iter().enumerate() {
                                spare[k].write(T::make(x));
                            }
                        }
                        unsafe { t.set_mapping(DenseMapping::new(S::from_dims(&dims))) };
                        t
                    });
                    if let Some(t) = self.finish("set_mapping", out, Expect::Value)? {
                        self.push(t, dims, vals);
                    }
                }
            }
            6 => {
                let vals = self.values(n);
                cx.note(|| format!("collected from an iterator {n}, {dims:?}"));
                let out = self.act(cx, |_| {
                    let t: Tensor<T, (Dyn,)> = vals
                        .iter()
                        .map(|&x| {
                            track::tick(CALL);
                            T::make(x)
                        })
                        .collect();
                    t.into_shape(S::from_dims(&dims))
                });
                if let Some(t) = self.finish("from_iter", out, Expect::Value)? {
                    self.push(t, dims, vals);
                }
            }
            7 => {
                let x = self.fresh();
                cx.note(|| format!("evaluated from_elem zipped with fill_with {dims:?}"));
                let out = self.act(cx, |_| {
                    let mut k = 0;
                    Tensor::from_expr(
                        expr::from_elem(S::from_dims(&dims), T::make(x))
                            .zip(expr::fill_with(|| {
                                track::tick(CALL);
                                k += 1;
                                k
                            }))
                            .map(|(mut a, k)| {
                                let v = a.val();
                                a.set(v * 3 + k);
                                a
                            }),
                    )
                    .into_dyn()
                    .into_mapping::<S>()
                });
                if let Some(t) = self.finish("zipped from_elem", out, Expect::Value)? {
                    self.push(t, dims, (1..=n as i64).map(|k| T::norm(x) * 3 + k).collect());
                }
            }
            _ => {
                let vals = self.values(n);
                cx.note(|| format!("from vector {dims:?}"));
                let out = self.act(cx, |_| {
                    let v: Vec<T> = vals.iter().map(|&x| T::make(x)).collect();
                    let t = Tensor::from(v).into_shape(S::from_dims(&dims));
                    let (p, m, c) = t.into_raw_parts();
                    unsafe { Tensor::from_raw_parts(p, m, c) }
                });
                if let Some(t) = self.finish("from vec", out, Expect::Value)? {
                    self.push(t, dims, vals);
                }
            }
        }
        if !self.slots.is_empty() {
            self.verify("creation", self.slots.len() - 1)?;
        }
        Ok(())
    }

    fn step_append(&mut self, cx: &mut Ctx) -> Res {
        if self.slots.len() < 2 {
            return Ok(());
        }
        let i = self.pick(cx);
        let mut j = cx.src.below(self.slots.len() - 1);
        if j >= i {
            j += 1;
        }
        cx.note(|| format!("append array {j} to array {i}"));
        let out = self.act(cx, |s| {
            let (a, b) = pair(s, i, j);
            a.t.append(&mut b.t);
        });
        let (a, b) = (&self.slots[i], &self.slots[j]);
        let m = if can_grow::<S>(&b.dims) { model_expand::<S>(&a.dims, &a.vals, &b.dims, &b.vals) } else { None };
        let e = if m.is_some() { Expect::Value } else { Expect::Panic };
        if self.finish("append", out, e)?.is_some() {
            let (d, v) = m.unwrap();
            self.set(i, d, v);
            let mut d = self.slots[j].dims.clone();
            d[0] = 0;
            self.set(j, d, vec![]);
        }
        Ok(())
    }

    fn step_expand(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let kind = cx.src.below(7);
        // Source: another array of the pool, or a new one.
        let j = if cx.src.flip() && self.slots.len() > 1 {
            let j = cx.src.below(self.slots.len() - 1);
            if j >= i { j + 1 } else { j }
        } else {
            self.add(cx)
        };
        let (sd, mut sv) = (self.slots[j].dims.clone(), self.slots[j].vals.clone());
        cx.note(|| format!("expand array {i} by {sd:?} (array {j}, kind {kind})"));
        let mut consumed = false;
        let out = match kind {
            0 => self.act(cx, |s| {
                let (a, b) = pair(s, i, j);
                a.t.expand(&b.t);
            }),
            1 => self.act(cx, |s| {
                let (a, b) = pair(s, i, j);
                a.t.expand(b.t.expr().map(|x| {
                    track::tick(CALL);
                    x.clone()
                }));
            }),
            2 => {
                consumed = true;
                let b = self.slots.remove(j);
                let i = if j < i { i - 1 } else { i };
                self.act(cx, |s| s[i].t.expand(b.t))
            }
            3 => self.act(cx, |s| {
                let (a, b) = pair(s, i, j);
                // Strided view of the same shape.
                let w = b.t.remap::<S, mdarray::Strided>();
                a.t.expand(w);
            }),
            4 => {
                let x = self.fresh();
                for v in sv.iter_mut() {
                    *v = x;
                }
                let d = sd.clone();
                self.act(cx, |s| s[i].t.expand(expr::from_elem(S::from_dims(&d), T::make(x))))
            }
            5 => self.act(cx, |s| {
                let (a, b) = pair(s, i, j);
                b.t.expr().cloned().eval_into(&mut a.t);
            }),
            _ => self.act(cx, |s| {
                // Expression with dynamic rank.
                let (a, b) = pair(s, i, j);
                a.t.expand(b.t.remap::<DynRank, mdarray::Dense>());
            }),
        };
        let ii = if consumed && j < i { i - 1 } else { i };
        let a = &self.slots[ii];
        let m = model_expand::<S>(&a.dims, &a.vals, &sd, &sv);
        let mut e = if m.is_some() { Expect::Value } else { Expect::Panic };
        if S::DYNRANK && sd.is_empty() {
            e = Expect::Any;
        }
        if self.finish("expand", out, e)?.is_some() {
            match m {
                Some((d, v)) => self.set(ii, d, v),
                None => self.resync("expand")?,
            }
        }
        Ok(())
    }

    fn step_drain(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let dims = self.slots[i].dims.clone();
        let range = gen_range(&mut cx.src, dims.first().copied().unwrap_or(0));
        let ok = can_grow::<S>(&dims);
        let m = if ok { model_range(range, dims[0]) } else { None };
        let inner: usize = dims.iter().skip(1).product();
        let vals = self.slots[i].vals.clone();
        let removed: Vec<i64> = m.map(|(s, e)| vals[s * inner..e * inner].to_vec()).unwrap_or_default();
        let mut rdims = dims.clone();
        if let Some((s, e)) = m {
            rdims[0] = e - s;
        }
        let mode = cx.src.below(13);
        let take = cx.src.range(0, removed.len() + 1);
        cx.note(|| format!("drain {range:?} of array {i} {dims:?} (mode {mode}, {take})"));
        let mut target = None;
        if mode == 6 {
            let j = if self.slots.len() > 1 {
                let j = cx.src.below(self.slots.len() - 1);
                if j >= i { j + 1 } else { j }
            } else {
                self.add(cx)
            };
            target = Some(j);
        }
        let shown = |x: &T| x.val();
        // The values that came out, or None if they are not observed.
        let out = self.act(cx, |s| -> (Option<Vec<i64>>, Option<Tensor<T, S>>) {
            if let Some(j) = target {
                let (a, b) = pair(s, i, j);
                b.t.expand(a.t.drain(range));
                return (None, None);
            }
            let a = &mut s[i].t;
            match mode {
                0 => {
                    drop(a.drain(range));
                    (None, None)
                }
                1 => (Some(a.drain(range).into_iter().map(|x| shown(&x)).collect()), None),
                2 => {
                    let mut it = a.drain(range).into_iter();
                    let mut v = Vec::new();
                    for _ in 0..take {
                        if let Some(x) = it.next() {
                            track::tick(CALL);
                            v.push(x.val());
                        }
                    }
                    (Some(v), None)
                }
                3 => (None, Some(Tensor::from_expr(a.drain(range)))),
                4 => {
                    let mut v = Vec::new();
                    a.drain(range).for_each(|x| {
                        track::tick(CALL);
                        v.push(x.val());
                    });
                    (Some(v), None)
                }
                5 => {
                    // Elements changed in place before they are moved out.
                    let mut d = a.drain(range);
                    let slice: &mut Slice<T, S> = d.as_mut();
                    for x in slice.expr_mut() {
                        let y = x.val();
                        x.set(y + 1000);
                    }
                    (Some(d.into_iter().map(|x| T::norm(x.val() - 1000)).collect()), None)
                }
                7 => {
                    let t = Tensor::from_expr(a.drain(range).zip(expr::fill(())).map(|(x, ())| {
                        track::tick(CALL);
                        x
                    }));
                    (None, Some(t.into_dyn().into_mapping::<S>()))
                }
                8 => {
                    let v = a.drain(range).fold(Vec::new(), |mut v: Vec<T>, x| {
                        track::tick(CALL);
                        v.push(x);
                        v
                    });
                    (Some(v.iter().map(shown).collect()), None)
                }
                9 => {
                    // Stepped and then consumed as a whole.
                    let mut it = a.drain(range).into_iter();
                    let mut v: Vec<i64> = it.by_ref().take(take).map(|x| x.val()).collect();
                    let n = it.len();
                    let rest: Vec<T> = it.collect();
                    assert_eq!(n, rest.len(), "length of the rest");
                    v.extend(rest.iter().map(shown));
                    (Some(v), None)
                }
                10 => {
                    let d = a.drain(range);
                    let text = format!("{d:?}");
                    let slice: &Slice<T, S> = d.as_ref();
                    let v: Vec<i64> = slice.iter().map(shown).collect();
                    assert!(text.len() > 5);
                    (Some(v), None)
                }
                11 => {
                    let it = a.drain(range).into_iter();
                    let text = format!("{it:?}");
                    assert!(text.len() > 4);
                    (Some(it.map(|x| x.val()).collect()), None)
                }
                _ => {
                    let r = a.drain(range);
                    let dims: Vec<usize> = (0..r.rank()).map(|k| r.dim(k)).collect();
                    assert_eq!(dims, rdims, "dimensions of the drained range");
                    (Some(r.into_iter().map(|x| x.val()).collect()), None)
                }
            }
        });
        let mut e = if m.is_some() { Expect::Value } else { Expect::Panic };
        let mut em = None;
        if let (Some(j), Some(_)) = (target, m) {
            let b = &self.slots[j];
            em = model_expand::<S>(&b.dims, &b.vals, &rdims, &removed);
            if em.is_none() {
                e = Expect::Panic;
            }
        }
        if let Some((got, t)) = self.finish("drain", out, e)? {
            let (s, e) = m.unwrap();
            if let Some(got) = got {
                let want: &[i64] = if mode == 2 { &removed[..take.min(removed.len())] } else { &removed };
                ensure_eq!(&got[..], want, "drain {range:?} of {dims:?}: elements (mode {mode})");
            }
            let mut rest = vals[..s * inner].to_vec();
            rest.extend(&vals[e * inner..]);
            let mut d = dims.clone();
            d[0] -= e - s;
            self.set(i, d, rest);
            if let (Some(j), Some((d, v))) = (target, em) {
                self.set(j, d, v);
            }
            if let Some(t) = t {
                self.push(t, rdims, removed);
            }
        }
        Ok(())
    }

    fn step_resize(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let dims = self.slots[i].dims.clone();
        let mut new: Vec<usize> = match cx.src.below(6) {
            0 => self.gen_dims(&mut cx.src),
            1 => dims.clone(),
            _ => {
                // Changes of a few dimensions.
                let mut d = dims.clone();
                for _ in 0..cx.src.range(1, 2) {
                    if !d.is_empty() {
                        let k = cx.src.below(d.len());
                        d[k] = match cx.src.below(4) {
                            0 => d[k] + 1,
                            1 => d[k].saturating_sub(1),
                            _ => cx.src.range(0, 5),
                        };
                    }
                }
                d
            }
        };
        if cx.src.chance(1, 24) {
            new.push(1);
        }
        if product(&new) > 4 * self.max_elems {
            return Ok(());
        }
        let vals = self.slots[i].vals.clone();
        let valid = new.len() == dims.len() && fits::<S>(&new);
        let with = cx.src.flip();
        let x = self.fresh();
        self.next += 4 * self.max_elems as i64 + 10;
        cx.note(|| format!("resize array {i} {dims:?} to {new:?} (closure: {with})"));
        let out = self.act(cx, |s| {
            if with {
                let mut k = x;
                s[i].t.resize_with(&new, || {
                    track::tick(CALL);
                    k += 1;
                    T::make(k)
                });
                // Number of calls.
                Some(k - x)
            } else {
                s[i].t.resize(&new, T::make(x));
                None
            }
        });
        if let Some(calls) = self.finish("resize", out, if valid { Expect::Value } else { Expect::Panic })? {
            if new.is_empty() {
                return Ok(());
            }
            if let Some(calls) = calls {
                let kept = dims.iter().zip(&new).map(|(a, b)| a.min(b)).product::<usize>();
                ensure_eq!(calls as usize, product(&new) - kept, "resize {dims:?} to {new:?}: calls of the closure");
            }
            let mut k = x;
            let v = model_resize(&dims, &vals, &new, || {
                if with {
                    k += 1;
                }
                k
            });
            if with && !T::ZST {
                // The order in which new elements are created is not specified: compare as sets,
                // and take the order from the array.
                let (_, got) = read_valid("resize", &self.slots[i].t)?;
                let idx = crate::indices(&new);
                for (p, ix) in idx.iter().enumerate() {
                    let old = ix.iter().zip(&dims).all(|(a, b)| a < b);
                    if old {
                        ensure_eq!(got.get(p), Some(&v[p]), "resize {dims:?} to {new:?}: kept element {ix:?}");
                    }
                }
                let (mut a, mut b) = (got.clone(), v.iter().map(|&x| T::norm(x)).collect::<Vec<_>>());
                a.sort();
                b.sort();
                ensure_eq!(a, b, "resize {dims:?} to {new:?}: elements");
                self.set(i, new, got);
            } else {
                self.set(i, new, v);
            }
        }
        Ok(())
    }

    fn step_shrinking(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let dims = self.slots[i].dims.clone();
        let cap = self.slots[i].t.capacity();
        let ptr = self.slots[i].t.as_ptr();
        match cx.src.below(4) {
            0 => {
                cx.note(|| format!("clear array {i}"));
                let out = self.act(cx, |s| s[i].t.clear());
                let dd = default_dims::<S>();
                let e = if product(&dd) == 0 { Expect::Value } else { Expect::Panic };
                if self.finish("clear", out, e)?.is_some() {
                    self.set(i, dd, vec![]);
                    ensure_eq!(self.slots[i].t.capacity(), cap, "clear: capacity");
                }
            }
            _ => {
                let d0 = dims.first().copied().unwrap_or(2);
                let size = match cx.src.below(6) {
                    0 => usize::MAX,
                    1 => d0 + 1,
                    _ => cx.src.range(0, d0),
                };
                cx.note(|| format!("truncate array {i} {dims:?} to {size}"));
                let out = self.act(cx, |s| s[i].t.truncate(size));
                let ok = can_grow::<S>(&dims);
                if self.finish("truncate", out, if ok { Expect::Value } else { Expect::Panic })?.is_some() {
                    let mut d = dims.clone();
                    d[0] = d[0].min(size);
                    let v = self.slots[i].vals[..product(&d)].to_vec();
                    self.set(i, d, v);
                    ensure_eq!(self.slots[i].t.capacity(), cap, "truncate: capacity");
                    ensure_eq!(self.slots[i].t.as_ptr(), ptr, "truncate: storage");
                }
            }
        }
        Ok(())
    }

    fn step_capacity(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let n = match cx.src.below(8) {
            0 => 0,
            1 => *cx.src.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 16, 1 << 62]),
            _ => cx.src.below(50),
        };
        let huge = n > 1000;
        let op = cx.src.below(6);
        let len = self.slots[i].t.len();
        let cap = self.slots[i].t.capacity();
        cx.note(|| format!("capacity operation {op} with {n} on array {i} (length {len}, capacity {cap})"));
        let out = self.act(cx, |s| {
            let t = &mut s[i].t;
            match op {
                0 if !huge => t.reserve(n),
                1 if !huge => t.reserve_exact(n),
                0 | 2 => {
                    return Some(t.try_reserve(n).is_ok());
                }
                1 | 3 => {
                    return Some(t.try_reserve_exact(n).is_ok());
                }
                4 => t.shrink_to_fit(),
                _ => t.shrink_to(n),
            }
            None
        });
        if let Some(r) = self.finish("capacity operation", out, Expect::Value)? {
            let t = &self.slots[i].t;
            if op < 4 {
                let fits = len.checked_add(n).is_some_and(|n| t.capacity() >= n);
                match r {
                    None | Some(true) => ensure!(
                        fits,
                        "reserving {n}: capacity {} with length {len}",
                        t.capacity()
                    ),
                    Some(false) => ensure!(huge, "reserving {n} failed"),
                }
            } else {
                ensure!(t.capacity() <= cap, "shrinking: capacity grows from {cap} to {}", t.capacity());
                if op == 5 && !T::ZST {
                    ensure!(t.capacity() >= cap.min(n), "shrink_to({n}): capacity {} from {cap}", t.capacity());
                }
            }
        }
        // The spare capacity lies behind the elements, and can be overwritten.
        if !T::ZST {
            let t = &mut self.slots[i].t;
            let (p, cap, len) = (t.as_ptr(), t.capacity(), t.len());
            let spare = t.spare_capacity_mut();
            ensure_eq!(spare.len(), cap - len, "spare capacity with capacity {cap} and length {len}");
            if !spare.is_empty() {
                ensure_eq!(spare.as_ptr() as usize, p.wrapping_add(len) as usize, "place of the spare capacity with length {len}");
                unsafe { spare.as_mut_ptr().write_bytes(0xEE, spare.len()) };
            }
        }
        self.weighty += 1;
        Ok(())
    }

    /// After reserving, adding elements within the capacity keeps the storage.
    fn step_reserved(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let dims = self.slots[i].dims.clone();
        if !can_grow::<S>(&dims) || self.slots[i].vals.is_empty() || T::ZST || self.faults != 0 {
            return Ok(());
        }
        let mut sd = dims.clone();
        sd[0] = cx.src.range(1, 3);
        let n = product(&sd);
        if n > self.max_elems {
            return Ok(());
        }
        cx.note(|| format!("reserve and expand array {i} by {sd:?}"));
        let x = self.fresh();
        let s = &mut self.slots[i];
        s.t.reserve(n);
        let (p, c) = (s.t.as_ptr(), s.t.capacity());
        if cx.src.chance(1, 3) {
            let spare = s.t.spare_capacity_mut();
            ensure!(spare.len() >= n, "spare capacity after reserving {n}: {}", spare.len());
            for slot in &mut spare[..n] {
                slot.write(T::make(x));
            }
            let mut d = dims.clone();
            d[0] += sd[0];
            unsafe { s.t.set_mapping(DenseMapping::new(S::from_dims(&d))) };
        } else {
            s.t.expand(expr::from_elem(S::from_dims(&sd), T::make(x)));
        }
        ensure_eq!((s.t.as_ptr(), s.t.capacity()), (p, c), "storage and capacity after expanding within the reserved capacity");
        let mut d = dims;
        d[0] += sd[0];
        let mut v = self.slots[i].vals.clone();
        v.extend(vec![x; n]);
        self.set(i, d, v);
        Ok(())
    }

    fn step_clone_from(&mut self, cx: &mut Ctx) -> Res {
        if self.slots.len() < 2 {
            return Ok(());
        }
        let i = self.pick(cx);
        let mut j = cx.src.below(self.slots.len() - 1);
        if j >= i {
            j += 1;
        }
        let kind = cx.src.below(2);
        cx.note(|| format!("clone array {j} into array {i} (kind {kind})"));
        let out = self.act(cx, |s| {
            let (a, b) = pair(s, i, j);
            if kind == 0 {
                a.t.clone_from(&b.t);
            } else {
                // Through ToOwned, for Tensor as the owned type.
                let slice: &Slice<T, S> = &b.t;
                clone_into_tensor(slice, &mut a.t);
            }
        });
        if self.finish("clone_from", out, Expect::Value)?.is_some() {
            let (d, v) = (self.slots[j].dims.clone(), self.slots[j].vals.clone());
            self.set(i, d, v);
        }
        Ok(())
    }

    fn step_convert(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let op = cx.src.below(6);
        let dims = self.slots[i].dims.clone();
        let vals = self.slots[i].vals.clone();
        // New dimensions with the same length, of the same shape type.
        let mut nd = if S::DYNRANK || cx.src.flip() { dims.clone() } else { self.gen_dims(&mut cx.src) };
        let mut infer = false;
        if S::DYNRANK {
            let mut n = product(&nd);
            nd.clear();
            if n == 0 {
                nd = vec![3, 0];
            } else {
                for p in [2, 3, 5, 7] {
                    while n % p == 0 {
                        nd.push(p);
                        n /= p;
                    }
                }
                if n > 1 {
                    nd.push(n);
                }
                if nd.len() > 1 && cx.src.flip() {
                    let x = nd.pop().unwrap();
                    nd[0] *= x;
                }
            }
        } else {
            let dynamic: Vec<usize> = (0..nd.len()).filter(|&k| S::PAT[k] < 0).collect();
            if dynamic.len() > 1 {
                let (a, b) = (*cx.src.pick(&dynamic), *cx.src.pick(&dynamic));
                nd.swap(a, b);
            }
        }
        let mut arg = nd.clone();
        let mut ok = product(&nd) == vals.len();
        if ok && !nd.is_empty() && cx.src.chance(1, 4) {
            let k = cx.src.below(nd.len());
            if (S::DYNRANK || S::PAT[k] < 0) && nd.iter().enumerate().all(|(q, &d)| q == k || d > 0) {
                arg[k] = usize::MAX;
                infer = true;
            }
        }
        if cx.src.chance(1, 8) {
            if let Some(k) = (0..nd.len()).find(|&k| S::DYNRANK || S::PAT[k] < 0) {
                if !infer {
                    arg[k] += 1;
                    ok = product(&arg) == vals.len();
                    nd = arg.clone();
                }
            }
        }
        cx.note(|| format!("conversion {op} of array {i} {dims:?} to {arg:?}"));
        let (expect, res) = match op {
            0 => (Expect::Value, dims.clone()),
            1 => (if ok { Expect::Value } else { Expect::Panic }, nd.clone()),
            2 => (Expect::Value, dims.clone()),
            3 => (Expect::Value, dims.clone()),
            4 => (if vals.len() == 1 { Expect::Value } else { Expect::Panic }, dims.clone()),
            _ => (if ok { Expect::Value } else { Expect::Panic }, nd.clone()),
        };
        if res.iter().any(|&d| d > 1_000_000) {
            return Ok(());
        }
        let slot = self.slots.remove(i);
        let out = self.act(cx, |_| -> Tensor<T, S> {
            let t = slot.t;
            match op {
                0 => t.into_dyn().into_mapping::<S>(),
                1 => t.into_shape(S::from_dims(&arg)),
                2 => {
                    let v = t.into_vec();
                    Tensor::from(v).into_shape(S::from_dims(&dims))
                }
                3 => {
                    let (p, m, c) = t.into_raw_parts();
                    unsafe { Tensor::from_raw_parts(p, m, c) }
                }
                4 => {
                    let x = t.into_scalar();
                    Tensor::from(vec![x]).into_shape(S::from_dims(&dims))
                }
                _ => t.into_flat().into_shape(S::from_dims(&arg)),
            }
        });
        if let Some(t) = self.finish("conversion", out, expect)? {
            self.weighty += 1;
            self.push(t, res, vals);
            let k = self.slots.len() - 1;
            self.verify("conversion", k)?;
        }
        Ok(())
    }

    fn step_consume(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let slot = self.slots.remove(i);
        let n = slot.vals.len();
        let take = cx.src.range(0, n + 2);
        let mode = cx.src.below(11);
        let (dims, vals) = (slot.dims.clone(), slot.vals.clone());
        // Second operand for zipped forms.
        let other = if mode >= 7 && cx.src.chance(3, 4) {
            // The same shape.
            let v = self.values(n);
            let x: Vec<T> = v.iter().map(|&x| T::make(x)).collect();
            self.push(Tensor::from(x).into_shape(S::from_dims(&dims)), dims.clone(), v);
            Some(self.slots.len() - 1)
        } else if mode >= 7 {
            Some(self.add(cx))
        } else {
            None
        };
        cx.note(|| format!("consume array {i} {dims:?} (mode {mode}, {take}, operand {other:?})"));
        let mut used_other = None;
        if mode == 8 || mode == 9 {
            used_other = Some(self.slots.remove(other.unwrap()));
        }
        let odims = match &used_other {
            Some(o) => o.dims.clone(),
            None => other.map(|o| self.slots[o].dims.clone()).unwrap_or_default(),
        };
        let ovals = match &used_other {
            Some(o) => o.vals.clone(),
            None => other.map(|o| self.slots[o].vals.clone()).unwrap_or_default(),
        };
        let out = self.act(cx, move |s| -> (Option<Vec<i64>>, Option<Tensor<T, S>>) {
            let t = slot.t;
            match mode {
                0 => {
                    drop(t);
                    (None, None)
                }
                1 => (Some(t.into_iter().map(|x| x.val()).collect()), None),
                2 => {
                    let mut it = t.into_iter();
                    let mut v = Vec::new();
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => {
                                track::tick(CALL);
                                v.push(x.val());
                            }
                            None => assert!(it.next().is_none()),
                        }
                    }
                    (Some(v), None)
                }
                3 => {
                    let mut it = t.into_iter();
                    let mut v: Vec<i64> = it.by_ref().take(take).map(|x| x.val()).collect();
                    it.for_each(|x| {
                        track::tick(CALL);
                        v.push(x.val());
                    });
                    (Some(v), None)
                }
                4 => (None, Some(Tensor::from_expr(t.into_expr()))),
                5 => {
                    let e = t.into_expr();
                    let text = format!("{e:?}");
                    assert!(text.len() > 5);
                    drop(text);
                    let v = e.fold(Vec::new(), |mut v: Vec<T>, x| {
                        track::tick(CALL);
                        v.push(x);
                        v
                    });
                    (Some(v.iter().map(|x| x.val()).collect()), None)
                }
                6 => {
                    let r = t.apply(|mut x: T| {
                        track::tick(CALL);
                        let y = x.val();
                        x.set(y + 5);
                        x
                    });
                    (None, Some(r))
                }
                7 => {
                    let b = &s[other.unwrap()].t;
                    let r = t.zip_with(b, |(mut x, y): (T, &T)| {
                        track::tick(CALL);
                        let z = x.val() + 3 * y.val();
                        x.set(z);
                        x
                    });
                    (None, Some(r))
                }
                8 => {
                    let b = used_other.unwrap().t;
                    let r = t.zip_with(b, |(x, mut y): (T, T)| {
                        track::tick(CALL);
                        let z = x.val() + 3 * y.val();
                        y.set(z);
                        y
                    });
                    (None, Some(r))
                }
                9 => {
                    let b = used_other.unwrap().t;
                    let r = Tensor::from_expr(t.into_expr().zip(b).map(|(x, mut y)| {
                        track::tick(CALL);
                        let z = x.val() + 3 * y.val();
                        y.set(z);
                        y
                    }));
                    let r = r.into_dyn().into_mapping::<S>();
                    (None, Some(r))
                }
                _ => {
                    let b = &s[other.unwrap()].t;
                    let r = t.zip_with(b.expr().map(|y| {
                        track::tick(CALL);
                        y.val()
                    }), |(mut x, y): (T, i64)| {
                        track::tick(CALL);
                        let z = x.val() + 3 * y;
                        x.set(z);
                        x
                    });
                    (None, Some(r))
                }
            }
        });
        let mut expect = Expect::Value;
        if mode >= 7 && odims != dims {
            // Broadcasting: the shorter one is repeated, if it can be.
            let (a, b) = (&dims, &odims);
            let k = a.len().min(b.len());
            let same = a[a.len() - k..] == b[b.len() - k..];
            let by_ref = mode == 7 || mode == 10;
            let ok = same && b.len() <= a.len() && by_ref;
            expect = if ok {
                Expect::Value
            } else if same && mode == 9 {
                Expect::Any
            } else if same {
                Expect::Any
            } else {
                Expect::Panic
            };
        }
        if let Some((got, t)) = self.finish("consume", out, expect)? {
            self.weighty += 1;
            if let Some(got) = got {
                let want: &[i64] = if mode == 2 { &vals[..take.min(n)] } else { &vals };
                ensure_eq!(&got[..], want, "consuming {dims:?}: elements (mode {mode})");
            }
            if let Some(t) = t {
                let want: Vec<i64> = match mode {
                    6 => vals.iter().map(|x| x + 5).collect(),
                    7.. if expect == Expect::Value && !vals.is_empty() => vals
                        .iter()
                        .enumerate()
                        .map(|(k, x)| x + 3 * ovals[k % ovals.len()])
                        .collect(),
                    _ => vals.clone(),
                };
                if expect == Expect::Value {
                    self.push(t, dims, want);
                    let k = self.slots.len() - 1;
                    self.verify("consume", k)?;
                }
            }
        }
        Ok(())
    }

    fn step_assign(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let dims = self.slots[i].dims.clone();
        let n = product(&dims);
        let op = cx.src.below(7);
        let x = self.fresh();
        let vals = self.values(n);
        cx.note(|| format!("assignment {op} to array {i} {dims:?}"));
        let same = cx.src.chance(4, 5);
        let mut sd = dims.clone();
        let mut sv = vals.clone();
        if !same {
            sd = self.gen_dims(&mut cx.src);
            sv = self.values(product(&sd));
        }
        let mk = |d: &[usize], v: &[i64]| -> Tensor<T, S> {
            Tensor::from(v.iter().map(|&x| T::make(x)).collect::<Vec<T>>()).into_shape(S::from_dims(d))
        };
        let k = dims.len().min(sd.len());
        let inner_same = dims[dims.len() - k..] == sd[sd.len() - k..];
        let (out, expect, want): (Out<()>, Expect, Option<Vec<i64>>) = match op {
            0 => (self.act(cx, |s| s[i].t.fill(T::make(x))), Expect::Value, Some(vec![x; n])),
            1 => (
                self.act(cx, |s| {
                    let mut k = 0;
                    s[i].t.fill_with(|| {
                        track::tick(CALL);
                        k += 1;
                        T::make(vals[k - 1])
                    })
                }),
                Expect::Value,
                Some(vals.clone()),
            ),
            2 | 3 => {
                let b = mk(&sd, &sv);
                let by_ref = op == 2;
                let out = self.act(cx, move |s| if by_ref { s[i].t.assign(&b) } else { s[i].t.assign(b) });
                if sd == dims {
                    (out, Expect::Value, Some(sv.clone()))
                } else if !inner_same {
                    (out, Expect::Panic, None)
                } else {
                    (out, Expect::Any, None)
                }
            }
            4 => (
                self.act(cx, |s| {
                    s[i].t.expr_mut().for_each(|e| {
                        track::tick(CALL);
                        *e = T::make(x);
                    })
                }),
                Expect::Value,
                Some(vec![x; n]),
            ),
            5 => (self.act(cx, |s| s[i].t.assign(expr::fill(T::make(x)))), Expect::Value, Some(vec![x; n])),
            _ => {
                // Elements replaced one by one.
                let out = self.act(cx, |s| {
                    for (e, &v) in s[i].t.iter_mut().zip(&vals) {
                        track::tick(CALL);
                        *e = T::make(v);
                    }
                });
                (out, Expect::Value, Some(vals.clone()))
            }
        };
        if self.finish("assign", out, expect)?.is_some() {
            match want {
                Some(w) => self.set(i, dims, w),
                None => self.resync("assign")?,
            }
        }
        Ok(())
    }

    fn step_extend(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let n = cx.src.below(10);
        let vals = self.values(n);
        let lie = cx.src.chance(1, 6);
        let is_1d = (&self.slots[i].t as &dyn Any).is::<Tensor<T, (Dyn,)>>();
        if !is_1d {
            return Ok(());
        }
        cx.note(|| format!("extend array {i} by {n} elements"));
        let v = vals.clone();
        let out = self.act(cx, |s| {
            let t = (&mut s[i].t as &mut dyn Any).downcast_mut::<Tensor<T, (Dyn,)>>().unwrap();
            let it = v.iter().map(|&x| {
                track::tick(CALL);
                T::make(x)
            });
            // An iterator without a useful size hint, or one with an exact one.
            if lie { t.extend(it.filter(|_| true)) } else { t.extend(it) }
        });
        if self.finish("extend", out, Expect::Value)?.is_some() {
            let mut d = self.slots[i].dims.clone();
            d[0] += n;
            let mut w = self.slots[i].vals.clone();
            w.extend(vals);
            self.set(i, d, w);
        }
        Ok(())
    }

    /// Copies and owned results of parts of an array.
    fn step_parts(&mut self, cx: &mut Ctx) -> Res {
        let i = self.pick(cx);
        let dims = self.slots[i].dims.clone();
        let vals = self.slots[i].vals.clone();
        if dims.is_empty() || dims[0] == 0 {
            return Ok(());
        }
        let k = cx.src.below(dims[0]);
        let op = cx.src.below(4);
        let inner: usize = dims[1..].iter().product();
        cx.note(|| format!("part {k} of array {i} {dims:?} (operation {op})"));
        let out = self.act(cx, |s| -> Vec<i64> {
            let t = &mut s[i].t;
            match op {
                0 => {
                    let o = t.at(k).to_tensor();
                    o.into_vec().iter().map(|x| x.val()).collect()
                }
                1 => {
                    let v = t.at(k).to_vec();
                    v.iter().map(|x| x.val()).collect()
                }
                2 => {
                    // Rows of the pool array moved between each other.
                    let copy = t.at(k).to_tensor();
                    for mut row in t.outer_expr_mut() {
                        row.assign(&copy);
                    }
                    copy.iter().map(|x| x.val()).collect()
                }
                _ => {
                    let v: Vec<T> = t.outer_expr().map(|r| {
                        track::tick(CALL);
                        r.to_vec()
                    }).into_iter().flatten().collect();
                    v.iter().map(|x| x.val()).collect()
                }
            }
        });
        if let Some(got) = self.finish("parts", out, Expect::Value)? {
            let row = vals[k * inner..(k + 1) * inner].to_vec();
            let want = if op == 3 { vals.clone() } else { row.clone() };
            ensure_eq!(got, want, "part {k} of {dims:?}");
            if op == 2 {
                let mut v = Vec::new();
                for _ in 0..dims[0] {
                    v.extend(&row);
                }
                self.set(i, dims, v);
            }
        }
        Ok(())
    }

    pub fn step(&mut self, cx: &mut Ctx) -> Res {
        let total: usize = self.slots.iter().map(|s| s.vals.len()).sum();
        while self.slots.len() > 4 || total > 8 * self.max_elems && !self.slots.is_empty() {
            let i = if total > 8 * self.max_elems {
                // The largest array is dropped.
                (0..self.slots.len()).max_by_key(|&i| self.slots[i].vals.len()).unwrap()
            } else {
                self.pick(cx)
            };
            let s = self.slots.remove(i);
            drop(s);
            if total > 8 * self.max_elems {
                break;
            }
        }
        if self.slots.is_empty() {
            return self.step_new(cx);
        }
        match cx.src.below(32) {
            0..=3 => self.step_new(cx)?,
            4..=6 => self.step_append(cx)?,
            7..=9 => self.step_expand(cx)?,
            10..=14 => self.step_drain(cx)?,
            15..=18 => self.step_resize(cx)?,
            19..=20 => self.step_shrinking(cx)?,
            21 => self.step_capacity(cx)?,
            22 => self.step_reserved(cx)?,
            23..=24 => self.step_clone_from(cx)?,
            25..=26 => self.step_convert(cx)?,
            27 => self.step_consume(cx)?,
            28 => self.step_assign(cx)?,
            29 => self.step_extend(cx)?,
            30 => self.step_parts(cx)?,
            _ => self.step_consume(cx)?,
        }
        if let Some(e) = track::take_error() {
            return Err(e);
        }
        self.verify_all("after the operation")
    }
}

pub fn pair<A>(s: &mut [A], i: usize, j: usize) -> (&mut A, &mut A) {
    assert!(i != j);
    if i < j {
        let (a, b) = s.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = s.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

/// `ToOwned::clone_into` if the owned array type is `Tensor`, otherwise assignment of a copy.
fn clone_into_tensor<T: Elem, S: TestShape>(slice: &Slice<T, S>, target: &mut Tensor<T, S>) {
    if let Some(t) = (target as &mut dyn Any).downcast_mut::<<S as Shape>::Owned<T>>() {
        slice.clone_into(t);
    } else {
        *target = slice.to_tensor();
    }
}

/// A history of operations. Returns the world, for final checks.
pub fn history<T: Elem + Debug, S: TestShape>(
    cx: &mut Ctx,
    faults: u32,
    max_elems: usize,
    steps: usize,
) -> Res<World<T, S>> {
    // Few histories use large arrays.
    let max_elems = if cx.src.chance(1, 50) { max_elems * 10 } else { max_elems };
    let mut w = World::<T, S>::new(cx, faults, max_elems);
    for _ in 0..cx.src.range(1, 2) {
        w.add(cx);
    }
    let n = cx.src.range(1, steps);
    for _ in 0..n {
        w.step(cx)?;
    }
    Ok(w)
}
