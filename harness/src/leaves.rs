//! Expression sources with i32 elements, each with a model of its elements.
use crate::engine::*;
use crate::model::*;
use crate::shapes::*;
use mdarray::expr::*;
use mdarray::*;
use std::marker::PhantomData;

pub trait Leaf: Sized + 'static {
    type S: TestShape;
    type E<'a>: Expression<Item = i32, Shape = Self::S>;
    const NAME: &'static str;
    const REPEATABLE: bool = true;
    /// The elements depend on how often the source was read.
    const COUNTING: bool = false;
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self;
    fn expr(&mut self) -> Self::E<'_>;
    /// Element at a linear index of the result it is broadcast to.
    fn at(&self, k: usize) -> i32;
    /// Called after the expression is dropped.
    fn done(&self) -> Res {
        Ok(())
    }
}

pub struct Vals {
    pub buf: Buf,
    pub geo: Geo,
    pub vals: Vec<i32>,
}

impl Vals {
    pub fn new<L: TestLayout>(cx: &mut Ctx, dims: &[usize]) -> Vals {
        let geo = L::geo(&mut cx.src, dims);
        let mut buf = Buf::new(geo.extent);
        let off = cx.src.below(50) as i32;
        buf.data.iter_mut().for_each(|x| *x += 1000 * off);
        let vals = geo.model().pos.iter().map(|&p| buf.get(p)).collect();
        cx.note(|| format!("{} {dims:?} strides {:?}", L::NAME, geo.strides));
        Vals { buf, geo, vals }
    }
    pub fn at(&self, k: usize) -> i32 {
        self.vals[k % self.vals.len()]
    }
}

macro_rules! view_leaf {
    ($name:ident, $text:literal, $e:ty, |$v:ident| $make:expr, $rep:literal, $count:literal, |$at:ident, $k:ident| $val:expr) => {
        pub struct $name<S, L>(Vals, PhantomData<(S, L)>);

        impl<S: TestShape, L: TestLayout> Leaf for $name<S, L> {
            type S = S;
            type E<'a> = $e;
            const NAME: &'static str = $text;
            const REPEATABLE: bool = $rep;
            const COUNTING: bool = $count;
            fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
                cx.note(|| $text.into());
                $name(Vals::new::<L>(cx, dims), PhantomData)
            }
            fn expr(&mut self) -> Self::E<'_> {
                let $v = &mut self.0;
                $make
            }
            fn at(&self, $k: usize) -> i32 {
                let $at = &self.0;
                $val
            }
            fn done(&self) -> Res {
                let m = self.0.geo.model();
                for (k, &p) in m.pos.iter().enumerate() {
                    crate::ensure!(self.0.buf.get(p) == self.0.vals[k], "operand {} changed", $text);
                }
                Ok(())
            }
        }
    };
}

view_leaf!(ViewCopied, "copied view", Copied<View<'a, i32, S, L>>, |v| view::<S, L>(&v.buf, &v.geo).copied(), true, false, |v, k| v.at(k));
view_leaf!(ViewCloned, "cloned view", Cloned<View<'a, i32, S, L>>, |v| view::<S, L>(&v.buf, &v.geo).cloned(), true, false, |v, k| v.at(k));
view_leaf!(ViewMap, "mapped view", Map<View<'a, i32, S, L>, fn(&'a i32) -> i32>, |v| view::<S, L>(&v.buf, &v.geo).map((|x| *x + 1) as fn(&i32) -> i32), true, false, |v, k| v.at(k) + 1);
view_leaf!(ViewMutMap, "mapped mutable view", Map<ViewMut<'a, i32, S, L>, fn(&'a mut i32) -> i32>, |v| view_mut::<S, L>(&mut v.buf, &v.geo).map((|x| *x) as fn(&mut i32) -> i32), false, false, |v, k| v.at(k));
view_leaf!(Enumerated, "enumerated view", Map<Enumerate<View<'a, i32, S, L>>, fn((usize, &'a i32)) -> i32>, |v| view::<S, L>(&v.buf, &v.geo).enumerate().map((|(i, x)| 7 * i as i32 + *x) as fn((usize, &i32)) -> i32), true, true, |v, k| 7 * k as i32 + v.at(k));

/// Owned array that is moved.
pub struct Moved<S: TestShape>(Option<Tensor<i32, S>>, Vec<i32>);

impl<S: TestShape> Leaf for Moved<S> {
    type S = S;
    type E<'a> = <Tensor<i32, S> as IntoExpression>::IntoExpr;
    const NAME: &'static str = "moved tensor";
    const REPEATABLE: bool = false;
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        cx.note(|| format!("moved tensor {dims:?}"));
        let vals: Vec<i32> = (0..product(dims)).map(|k| value(k) - 5000).collect();
        Moved(Some(Tensor::from(vals.clone()).into_shape(S::from_dims(dims))), vals)
    }
    fn expr(&mut self) -> Self::E<'_> {
        self.0.take().unwrap().into_expr()
    }
    fn at(&self, k: usize) -> i32 {
        self.1[k % self.1.len()]
    }
}

/// Inline array that is moved.
pub struct MovedArray<S: TestShape + ConstShape>(Option<Array<i32, S>>, Vec<i32>);

impl<S: TestShape + ConstShape> Leaf for MovedArray<S> {
    type S = S;
    type E<'a> = <Array<i32, S> as IntoExpression>::IntoExpr;
    const NAME: &'static str = "moved array";
    const REPEATABLE: bool = false;
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        cx.note(|| format!("moved array {dims:?}"));
        let vals: Vec<i32> = (0..product(dims)).map(|k| value(k) - 9000).collect();
        let mut k = 0;
        let a = Array::from_fn(|_| {
            k += 1;
            vals[k - 1]
        });
        MovedArray(Some(a), vals)
    }
    fn expr(&mut self) -> Self::E<'_> {
        self.0.take().unwrap().into_expr()
    }
    fn at(&self, k: usize) -> i32 {
        self.1[k % self.1.len()]
    }
}

/// Drained range of an array.
pub struct Drained<S: TestShape>(Tensor<i32, S>, Vec<i32>, usize, usize);

impl<S: TestShape> Leaf for Drained<S> {
    type S = S;
    type E<'a> = IntoExpr<Drain<'a, i32, S>>;
    const NAME: &'static str = "drained range";
    const REPEATABLE: bool = false;
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        let (a, c) = (cx.src.below(3), cx.src.below(3));
        let mut d = dims.to_vec();
        let mut n = 0;
        let (mut from, mut to) = (0, 0);
        if d.len() > 0 {
            n = product(&d[1..]);
            (from, to) = (a, a + d[0]);
            d[0] += a + c;
        }
        cx.note(|| format!("drain {from}..{to} of {d:?}"));
        let vals: Vec<i32> = (0..product(&d)).map(|k| value(k) - 4000).collect();
        Drained(Tensor::from(vals.clone()).into_shape(S::from_dims(&d)), vals[from * n..to * n].to_vec(), from, to)
    }
    fn expr(&mut self) -> Self::E<'_> {
        self.0.drain(self.2..self.3)
    }
    fn at(&self, k: usize) -> i32 {
        self.1[k % self.1.len()]
    }
}

/// Elements from a function of the index.
pub struct FromIndex<S>(Vec<usize>, std::rc::Rc<std::cell::Cell<usize>>, PhantomData<S>);

fn of_index(i: &[usize]) -> i32 {
    i.iter().fold(17 + i.len() as i32, |a, &x| a * 19 + x as i32)
}

impl<S: TestShape> Leaf for FromIndex<S> {
    type S = S;
    type E<'a> = FromFn<S, Box<dyn FnMut(&[usize]) -> i32>>;
    const NAME: &'static str = "from_fn";
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        cx.note(|| format!("from_fn {dims:?}"));
        FromIndex(dims.to_vec(), Default::default(), PhantomData)
    }
    fn expr(&mut self) -> Self::E<'_> {
        let calls = self.1.clone();
        from_fn(
            S::from_dims(&self.0),
            Box::new(move |i: &[usize]| {
                calls.set(calls.get() + 1);
                of_index(i)
            }),
        )
    }
    fn at(&self, k: usize) -> i32 {
        let mut k = k % product(&self.0);
        let mut idx = vec![0; self.0.len()];
        for i in (0..self.0.len()).rev() {
            idx[i] = k % self.0[i];
            k /= self.0[i];
        }
        of_index(&idx)
    }
}

/// One element with a shape.
pub struct Elems<S>(Vec<usize>, i32, PhantomData<S>);

impl<S: TestShape> Leaf for Elems<S> {
    type S = S;
    type E<'a> = FromElem<i32, S>;
    const NAME: &'static str = "from_elem";
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        cx.note(|| format!("from_elem {dims:?}"));
        Elems(dims.to_vec(), cx.src.below(1000) as i32, PhantomData)
    }
    fn expr(&mut self) -> Self::E<'_> {
        from_elem(S::from_dims(&self.0), self.1)
    }
    fn at(&self, _: usize) -> i32 {
        self.1
    }
}

pub struct Filled(i32);

impl Leaf for Filled {
    type S = ();
    type E<'a> = Fill<i32>;
    const NAME: &'static str = "fill";
    fn make(cx: &mut Ctx, _: &[usize]) -> Self {
        cx.note(|| "fill".into());
        Filled(cx.src.below(1000) as i32)
    }
    fn expr(&mut self) -> Self::E<'_> {
        fill(self.0)
    }
    fn at(&self, _: usize) -> i32 {
        self.0
    }
}

/// Calls a counting closure for each element.
pub struct Counted;

impl Leaf for Counted {
    type S = ();
    type E<'a> = FillWith<Box<dyn FnMut() -> i32>>;
    const NAME: &'static str = "fill_with";
    fn make(cx: &mut Ctx, _: &[usize]) -> Self {
        cx.note(|| "fill_with".into());
        Counted
    }
    fn expr(&mut self) -> Self::E<'_> {
        let mut n = 0;
        fill_with(Box::new(move || {
            n += 1;
            n
        }))
    }
    fn at(&self, k: usize) -> i32 {
        k as i32 + 1
    }
}

/// Sums of lanes along the middle of three dimensions.
pub struct LaneSums<L>(Vals, Vec<i32>, PhantomData<L>);

impl<L: TestLayout> Leaf for LaneSums<L> {
    type S = (D, D);
    type E<'a> = Map<
        Lanes<'a, i32, (D, D, D), L, C1>,
        fn(<Lanes<'a, i32, (D, D, D), L, C1> as IntoIterator>::Item) -> i32,
    >;
    const NAME: &'static str = "lane sums";
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        let n = cx.src.below(4);
        let v = Vals::new::<L>(cx, &[dims[0], n, dims[1]]);
        let mut s = Vec::new();
        for i in 0..dims[0] {
            for j in 0..dims[1] {
                s.push((0..n).map(|k| v.vals[(i * n + k) * dims[1] + j]).sum());
            }
        }
        cx.note(|| "lane sums".into());
        LaneSums(v, s, PhantomData)
    }
    fn expr(&mut self) -> Self::E<'_> {
        // The lanes refer to a slice, so that the view must live as long as the operand.
        let v: &Slice<i32, (D, D, D), L> =
            Box::leak(Box::new(view::<(D, D, D), L>(unsafe { &*(&self.0.buf as *const Buf) }, &self.0.geo)));
        v.lanes(Const::<1>).map(|x| x.iter().sum())
    }
    fn at(&self, k: usize) -> i32 {
        self.1[k % self.1.len()]
    }
}

/// Sums of the parts along the second of two dimensions.
pub struct AxisSums<L>(Vals, Vec<i32>, PhantomData<L>);

impl<L: TestLayout> Leaf for AxisSums<L> {
    type S = (D,);
    type E<'a> = Map<
        AxisExpr<'a, i32, (D, D), L, C1>,
        fn(<AxisExpr<'a, i32, (D, D), L, C1> as IntoIterator>::Item) -> i32,
    >;
    const NAME: &'static str = "axis sums";
    fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
        let n = cx.src.below(4);
        let v = Vals::new::<L>(cx, &[n, dims[0]]);
        let s = (0..dims[0]).map(|j| (0..n).map(|i| v.vals[i * dims[0] + j]).sum()).collect();
        cx.note(|| "axis sums".into());
        AxisSums(v, s, PhantomData)
    }
    fn expr(&mut self) -> Self::E<'_> {
        let v: &Slice<i32, (D, D), L> =
            Box::leak(Box::new(view::<(D, D), L>(unsafe { &*(&self.0.buf as *const Buf) }, &self.0.geo)));
        v.axis_expr(Const::<1>).map(|x| x.iter().sum())
    }
    fn at(&self, k: usize) -> i32 {
        self.1[k % self.1.len()]
    }
}

/// Number of dimensions of the result, the source dimensions for result dimensions, and sums
/// over all source indices that agree with an index of the result.
fn split_dims<S: TestShape>(cx: &mut Ctx, dims: &[usize], axis: usize, keep: bool) -> Vec<usize> {
    let n = if S::DYNRANK { cx.src.range(axis + 1, 4).max(dims.len() + !keep as usize) } else { S::PAT.len() };
    let n = if keep { n } else { dims.len() + 1 };
    let mut d = Vec::new();
    let mut rest = dims.iter().copied();
    for i in 0..n {
        if (i == axis) == keep {
            d.push(rest.next().unwrap());
        } else if !S::DYNRANK && S::PAT[i] >= 0 {
            d.push(S::PAT[i] as usize);
        } else {
            d.push(*cx.src.pick(&[2, 3, 1, 0]));
        }
    }
    d
}

fn split_sums(v: &Vals, axis: usize, keep: bool) -> Vec<i32> {
    let d = &v.geo.dims;
    let inner = product(&d[axis + 1..]);
    let outer = product(&d[..axis]);
    let n = d[axis];
    let sum = |o: usize, k: usize, i: usize| v.vals[(o * n + k) * inner + i];
    if keep {
        (0..n).map(|k| (0..outer).flat_map(|o| (0..inner).map(move |i| (o, i))).map(|(o, i)| sum(o, k, i)).sum()).collect()
    } else {
        (0..outer)
            .flat_map(|o| (0..inner).map(move |i| (o, i)))
            .map(|(o, i)| (0..n).map(|k| sum(o, k, i)).sum())
            .collect()
    }
}

macro_rules! split_leaf {
    ($name:ident, $text:literal, $src:ident, $view:ident, $method:ident, $s:ty, $r:ty, $a:ty, $axis:literal, $ax:expr, $keep:literal, $rep:literal $(, $mut:tt)?) => {
        pub struct $name<L>(Vals, Vec<i32>, PhantomData<L>);

        impl<L: TestLayout> Leaf for $name<L> {
            type S = $r;
            type E<'a> = Map<
                $src<'a, i32, $s, L, $a>,
                fn(<$src<'a, i32, $s, L, $a> as IntoIterator>::Item) -> i32,
            >;
            const NAME: &'static str = $text;
            const REPEATABLE: bool = $rep;
            fn make(cx: &mut Ctx, dims: &[usize]) -> Self {
                let d = split_dims::<$s>(cx, dims, $axis, $keep);
                let v = Vals::new::<L>(cx, &d);
                cx.note(|| format!("{} {dims:?}", $text));
                let s = split_sums(&v, $axis, $keep);
                $name(v, s, PhantomData)
            }
            fn expr(&mut self) -> Self::E<'_> {
                // The source refers to a slice, so that the view must live as long as the operand.
                let b = unsafe { &$($mut)? *(&$($mut)? self.0.buf as *const Buf as *mut Buf) };
                let v: &$($mut)? Slice<i32, $s, L> = &$($mut)? **Box::leak(Box::new($view::<$s, L>(b, &self.0.geo)));
                v.$method($ax).map(|x| x.iter().sum())
            }
            fn at(&self, k: usize) -> i32 {
                self.1[k % self.1.len()]
            }
        }
    };
}

split_leaf!(Lanes2A0, "lanes 0 of 2", Lanes, view, lanes, (D, D), (D,), C0, 0, Const::<0>, false, true);
split_leaf!(Lanes2A1, "lanes 1 of 2", Lanes, view, lanes, (D, D), (D,), C1, 1, Const::<1>, false, true);
split_leaf!(Lanes3A0, "lanes 0 of 3", Lanes, view, lanes, (D, D, D), (D, D), C0, 0, Const::<0>, false, true);
split_leaf!(Lanes3A2, "lanes 2 of 3", Lanes, view, lanes, (D, D, D), (D, D), C2, 2, Const::<2>, false, true);
split_leaf!(Lanes1A0, "lanes 0 of 1", Lanes, view, lanes, (D,), (), C0, 0, Const::<0>, false, true);
split_leaf!(LanesDyn, "lanes of a dynamic axis", Lanes, view, lanes, (D, D, D), (D, D), Dyn, 1, 1, false, true);
split_leaf!(LanesMut2A0, "mutable lanes 0 of 2", LanesMut, view_mut, lanes_mut, (D, D), (D,), C0, 0, Const::<0>, false, false, mut);
split_leaf!(LanesMut3A1, "mutable lanes 1 of 3", LanesMut, view_mut, lanes_mut, (D, D, D), (D, D), C1, 1, Const::<1>, false, false, mut);
split_leaf!(Axis2A0, "axis 0 of 2", AxisExpr, view, axis_expr, (D, D), (D,), C0, 0, Const::<0>, true, true);
split_leaf!(Axis1A0, "axis 0 of 1", AxisExpr, view, axis_expr, (D,), (D,), C0, 0, Const::<0>, true, true);
split_leaf!(Axis3A1, "axis 1 of 3", AxisExpr, view, axis_expr, (D, D, D), (D,), C1, 1, Const::<1>, true, true);
split_leaf!(AxisDyn, "dynamic axis", AxisExpr, view, axis_expr, (D, D), (D,), Dyn, 1, 1, true, true);
split_leaf!(AxisMut2A0, "mutable axis 0 of 2", AxisExprMut, view_mut, axis_expr_mut, (D, D), (D,), C0, 0, Const::<0>, true, false, mut);
split_leaf!(AxisMut2A1, "mutable axis 1 of 2", AxisExprMut, view_mut, axis_expr_mut, (D, D), (D,), C1, 1, Const::<1>, true, false, mut);
split_leaf!(LanesRank, "lanes of dynamic rank", Lanes, view, lanes, DynRank, DynRank, C0, 0, Const::<0>, false, true);
split_leaf!(AxisRank, "axis of dynamic rank", AxisExpr, view, axis_expr, DynRank, (D,), C0, 0, Const::<0>, true, true);

/// Dimensions for operands of the given shape types that mostly agree in their common inner
/// dimensions. The result dimensions are those of the operand of highest rank, if they do agree.
pub fn operand_dims(cx: &mut Ctx, pats: &[(&'static [i64], bool)], max: usize) -> (Vec<Vec<usize>>, Option<Vec<usize>>) {
    let ranks: Vec<usize> =
        pats.iter().map(|&(p, dynamic)| if dynamic { cx.src.below(5) } else { p.len() }).collect();
    let n = ranks.iter().copied().max().unwrap_or(0);
    let mut full = gen_rank_dims(&mut cx.src, n, max);
    for (&(p, dynamic), &r) in pats.iter().zip(&ranks) {
        for i in 0..r {
            if !dynamic && p[i] >= 0 {
                full[n - r + i] = p[i] as usize;
            }
        }
    }
    let mut dims: Vec<Vec<usize>> = Vec::new();
    for (&(p, dynamic), &r) in pats.iter().zip(&ranks) {
        let d = (0..r).map(|i| if !dynamic && p[i] >= 0 { p[i] as usize } else { full[n - r + i] }).collect();
        dims.push(d);
    }
    if n > 0 && cx.src.chance(1, 8) {
        // One dimension that differs, often one or zero.
        let w = cx.src.below(dims.len());
        if !dims[w].is_empty() {
            let i = cx.src.below(dims[w].len());
            if pats[w].1 || pats[w].0[i] < 0 {
                let d = dims[w][i];
                dims[w][i] = *cx.src.pick(&[1, 0, d + 1, d.saturating_sub(1), 2 * d]);
            }
        }
    }
    let top = dims.iter().max_by_key(|d| d.len()).unwrap().clone();
    let ok = dims.iter().all(|d| d[..] == top[top.len() - d.len()..]);
    (dims, if ok { Some(top) } else { None })
}
