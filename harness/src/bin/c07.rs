//! C07: operators. The element type is symbolic: its operators give a value that identifies the
//! operator and both operands in order.
use harness::*;
use mdarray::expr::*;
use mdarray::*;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::ops::{Add, AddAssign, BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Div, DivAssign, Mul, MulAssign, Neg, Not, Rem, RemAssign, Shl, ShlAssign, Shr, ShrAssign, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Q(u64);

fn sym(op: usize, a: u64, b: u64) -> u64 {
    let mut h = a.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^= h >> 29;
    h = h.wrapping_add(b).wrapping_mul(0x94D0_49BB_1331_11EB);
    h ^= h >> 32;
    h.wrapping_add(op as u64 + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93)
}

macro_rules! ops {
    ($($n:literal $t:ident $f:ident $at:ident $af:ident;)*) => {
        $(
            impl $t<Q> for Q { type Output = Q; fn $f(self, y: Q) -> Q { Q(sym($n, self.0, y.0)) } }
            impl<'b> $t<&'b Q> for Q { type Output = Q; fn $f(self, y: &'b Q) -> Q { Q(sym($n, self.0, y.0)) } }
            impl<'b> $t<&'b mut Q> for Q { type Output = Q; fn $f(self, y: &'b mut Q) -> Q { Q(sym($n, self.0, y.0)) } }
            impl<'a> $t<Q> for &'a Q { type Output = Q; fn $f(self, y: Q) -> Q { Q(sym($n, self.0, y.0)) } }
            impl<'a, 'b> $t<&'b Q> for &'a Q { type Output = Q; fn $f(self, y: &'b Q) -> Q { Q(sym($n, self.0, y.0)) } }
            impl<'a, 'b> $t<&'b mut Q> for &'a Q { type Output = Q; fn $f(self, y: &'b mut Q) -> Q { Q(sym($n, self.0, y.0)) } }
            impl $at<Q> for Q { fn $af(&mut self, y: Q) { self.0 = sym($n + 20, self.0, y.0) } }
            impl<'b> $at<&'b Q> for Q { fn $af(&mut self, y: &'b Q) { self.0 = sym($n + 20, self.0, y.0) } }
            impl<'b> $at<&'b mut Q> for Q { fn $af(&mut self, y: &'b mut Q) { self.0 = sym($n + 20, self.0, y.0) } }
        )*
    };
}

ops! {
    0 Add add AddAssign add_assign;
    1 Sub sub SubAssign sub_assign;
    2 Mul mul MulAssign mul_assign;
    3 Div div DivAssign div_assign;
    4 Rem rem RemAssign rem_assign;
    5 BitAnd bitand BitAndAssign bitand_assign;
    6 BitOr bitor BitOrAssign bitor_assign;
    7 BitXor bitxor BitXorAssign bitxor_assign;
    8 Shl shl ShlAssign shl_assign;
    9 Shr shr ShrAssign shr_assign;
}

const NAMES: [&str; 10] = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"];

impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q(sym(40, self.0, 0)) } }
impl Neg for &Q { type Output = Q; fn neg(self) -> Q { Q(sym(40, self.0, 0)) } }
impl Not for Q { type Output = Q; fn not(self) -> Q { Q(sym(41, self.0, 0)) } }
impl Not for &Q { type Output = Q; fn not(self) -> Q { Q(sym(41, self.0, 0)) } }

/// Operand kind: how an array or expression with given elements is made and passed.
pub trait Opd: Sized {
    type E<'a> where Self: 'a;
    const NAME: &'static str;
    const REP: bool;
    const P: (&'static [i64], bool);
    fn make(cx: &mut Ctx, dims: &[usize], salt: u64) -> Self;
    fn get(&mut self) -> Self::E<'_>;
    /// Element at a linear index of the result.
    fn at(&self, k: usize) -> u64;
    /// Called after the operation: the operand is unchanged if it still exists.
    fn same(&self) -> bool { true }
}

fn q(salt: u64, k: usize) -> Q {
    Q(sym(50, salt, k as u64))
}

fn qs(salt: u64, n: usize) -> Vec<Q> {
    (0..n).map(|k| q(salt, k)).collect()
}

fn nth(v: &[Q], k: usize) -> u64 {
    v[k % v.len()].0
}

/// Elements in a buffer of any memory order.
pub struct Mem {
    data: Vec<Q>,
    geo: Geo,
    vals: Vec<Q>,
}

impl Mem {
    fn new<L: TestLayout>(cx: &mut Ctx, dims: &[usize], salt: u64) -> Mem {
        let geo = L::geo(&mut cx.src, dims);
        let data = qs(salt, geo.extent + 8);
        let vals = geo.model().pos.iter().map(|&p| data[(p + 4) as usize]).collect();
        cx.note(|| format!("{} strides {:?}", L::NAME, geo.strides));
        Mem { data, geo, vals }
    }
    fn view<S: Shape, L: TestLayout>(&self) -> View<'static, Q, S, L> {
        unsafe { View::new_unchecked(self.data.as_ptr().offset(4 + self.geo.base), L::mapping::<S>(&self.geo.dims, &self.geo.strides)) }
    }
    fn view_mut<S: Shape, L: TestLayout>(&mut self) -> ViewMut<'static, Q, S, L> {
        unsafe { ViewMut::new_unchecked(self.data.as_mut_ptr().offset(4 + self.geo.base), L::mapping::<S>(&self.geo.dims, &self.geo.strides)) }
    }
    fn same(&self, salt: u64) -> bool {
        self.data == qs(salt, self.data.len())
    }
}

macro_rules! kind {
    ($name:ident <$($g:ident: $b:path),*> $text:literal rep $rep:literal shape $s:ty;
     $e:ty; { $($fields:tt)* }
     make |$cx:ident, $dims:ident, $salt:ident| $make:expr;
     get |$me:ident| $get:expr;
     at |$at:ident, $k:ident| $val:expr;
     same |$sm:ident| $same:expr;) => {
        pub struct $name<$($g: $b),*> { $($fields)*, ph: PhantomData<($($g,)*)> }
        impl<$($g: $b),*> Opd for $name<$($g),*> {
            type E<'a> = $e where Self: 'a;
            const NAME: &'static str = $text;
            const REP: bool = $rep;
            const P: (&'static [i64], bool) = (<$s as TestShape>::PAT, <$s as TestShape>::DYNRANK);
            fn make($cx: &mut Ctx, $dims: &[usize], $salt: u64) -> Self { $cx.note(|| format!("{} {:?}", $text, $dims)); $make }
            fn get(&mut self) -> Self::E<'_> { let $me = self; $get }
            fn at(&self, $k: usize) -> u64 { let $at = self; $val }
            fn same(&self) -> bool { let $sm = self; $same }
        }
    };
}

fn tensor_of<S: Shape>(dims: &[usize], salt: u64) -> Tensor<Q, S> {
    Tensor::from(qs(salt, product(dims))).into_shape(S::from_dims(dims))
}

fn array_of<S: ConstShape>(salt: u64) -> Array<Q, S> {
    let mut k = 0;
    Array::from_fn(|_| { k += 1; q(salt, k - 1) })
}

pub trait CShape: TestShape + ConstShape {}
impl<S: TestShape + ConstShape> CShape for S {}

kind! { RefTensor<S: TestShape> "&Tensor" rep true shape S; &'a Tensor<Q, S>; { t: Tensor<Q, S>, v: Vec<Q> }
    make |cx, dims, salt| RefTensor { t: tensor_of(dims, salt), v: qs(salt, product(dims)), ph: PhantomData };
    get |me| &me.t; at |me, k| nth(&me.v, k); same |me| me.t[..] == me.v[..]; }
kind! { MutTensor<S: TestShape> "&mut Tensor" rep false shape S; &'a mut Tensor<Q, S>; { t: Tensor<Q, S>, v: Vec<Q> }
    make |cx, dims, salt| MutTensor { t: tensor_of(dims, salt), v: qs(salt, product(dims)), ph: PhantomData };
    get |me| &mut me.t; at |me, k| nth(&me.v, k); same |me| me.t[..] == me.v[..]; }
kind! { ByTensor<S: TestShape> "Tensor" rep false shape S; Tensor<Q, S>; { t: Option<Tensor<Q, S>>, v: Vec<Q> }
    make |cx, dims, salt| ByTensor { t: Some(tensor_of(dims, salt)), v: qs(salt, product(dims)), ph: PhantomData };
    get |me| me.t.take().unwrap(); at |me, k| nth(&me.v, k); same |me| true; }
kind! { Moving<S: TestShape> "IntoExpr" rep false shape S; IntoExpr<Tensor<ManuallyDrop<Q>, S>>; { t: Option<Tensor<Q, S>>, v: Vec<Q> }
    make |cx, dims, salt| Moving { t: Some(tensor_of(dims, salt)), v: qs(salt, product(dims)), ph: PhantomData };
    get |me| me.t.take().unwrap().into_expr(); at |me, k| nth(&me.v, k); same |me| true; }
kind! { RefArray<S: CShape> "&Array" rep true shape S; &'a Array<Q, S>; { t: Array<Q, S>, v: Vec<Q> }
    make |cx, dims, salt| RefArray { t: array_of(salt), v: qs(salt, product(dims)), ph: PhantomData };
    get |me| &me.t; at |me, k| nth(&me.v, k); same |me| me.t[..] == me.v[..]; }
kind! { ByArray<S: CShape> "Array" rep false shape S; Array<Q, S>; { t: Option<Array<Q, S>>, v: Vec<Q> }
    make |cx, dims, salt| ByArray { t: Some(array_of(salt)), v: qs(salt, product(dims)), ph: PhantomData };
    get |me| me.t.take().unwrap(); at |me, k| nth(&me.v, k); same |me| true; }
kind! { ByView<S: TestShape, L: TestLayout> "View" rep true shape S; View<'a, Q, S, L>; { m: Mem, salt: u64 }
    make |cx, dims, salt| ByView { m: Mem::new::<L>(cx, dims, salt), salt, ph: PhantomData };
    get |me| me.m.view(); at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { ByViewMut<S: TestShape, L: TestLayout> "ViewMut" rep false shape S; ViewMut<'a, Q, S, L>; { m: Mem, salt: u64 }
    make |cx, dims, salt| ByViewMut { m: Mem::new::<L>(cx, dims, salt), salt, ph: PhantomData };
    get |me| me.m.view_mut(); at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { RefView<S: TestShape, L: TestLayout> "&View" rep true shape S; &'a View<'static, Q, S, L>; { m: Mem, w: View<'static, Q, S, L>, salt: u64 }
    make |cx, dims, salt| { let m = Mem::new::<L>(cx, dims, salt); let w = m.view(); RefView { m, w, salt, ph: PhantomData } };
    get |me| &me.w; at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { RefViewMut<S: TestShape, L: TestLayout> "&ViewMut" rep true shape S; &'a ViewMut<'static, Q, S, L>; { m: Mem, w: ViewMut<'static, Q, S, L>, salt: u64 }
    make |cx, dims, salt| { let mut m = Mem::new::<L>(cx, dims, salt); let w = m.view_mut(); RefViewMut { m, w, salt, ph: PhantomData } };
    get |me| &me.w; at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { RefSlice<S: TestShape, L: TestLayout> "&Slice" rep true shape S; &'a Slice<Q, S, L>; { m: Mem, w: View<'static, Q, S, L>, salt: u64 }
    make |cx, dims, salt| { let m = Mem::new::<L>(cx, dims, salt); let w = m.view(); RefSlice { m, w, salt, ph: PhantomData } };
    get |me| &*me.w; at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { MutSlice<S: TestShape, L: TestLayout> "&mut Slice" rep false shape S; &'a mut Slice<Q, S, L>; { m: Mem, w: ViewMut<'static, Q, S, L>, salt: u64 }
    make |cx, dims, salt| { let mut m = Mem::new::<L>(cx, dims, salt); let w = m.view_mut(); MutSlice { m, w, salt, ph: PhantomData } };
    get |me| &mut *me.w; at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { Mapped<S: TestShape, L: TestLayout> "Map" rep true shape S; Map<View<'a, Q, S, L>, fn(&'a Q) -> Q>; { m: Mem, salt: u64 }
    make |cx, dims, salt| Mapped { m: Mem::new::<L>(cx, dims, salt), salt, ph: PhantomData };
    get |me| me.m.view().map((|x: &Q| Q(x.0 ^ 5)) as fn(&Q) -> Q); at |me, k| nth(&me.m.vals, k) ^ 5; same |me| me.m.same(me.salt); }
kind! { CopyOf<S: TestShape, L: TestLayout> "Copied" rep true shape S; Copied<View<'a, Q, S, L>>; { m: Mem, salt: u64 }
    make |cx, dims, salt| CopyOf { m: Mem::new::<L>(cx, dims, salt), salt, ph: PhantomData };
    get |me| me.m.view().copied(); at |me, k| nth(&me.m.vals, k); same |me| me.m.same(me.salt); }
kind! { Elem<S: TestShape> "FromElem" rep true shape S; FromElem<Q, S>; { d: Vec<usize>, e: Q }
    make |cx, dims, salt| Elem { d: dims.to_vec(), e: q(salt, 0), ph: PhantomData };
    get |me| from_elem(S::from_dims(&me.d), me.e); at |me, _k| me.e.0; same |me| true; }
kind! { Func<S: TestShape> "FromFn" rep true shape S; FromFn<S, Box<dyn FnMut(&[usize]) -> Q>>; { d: Vec<usize>, salt: u64 }
    make |cx, dims, salt| Func { d: dims.to_vec(), salt, ph: PhantomData };
    get |me| { let (d, salt) = (me.d.clone(), me.salt); from_fn(S::from_dims(&me.d), Box::new(move |i| q(salt, i.iter().zip(&d).fold(0, |a, (i, d)| a * d + i)))) };
    at |me, k| q(me.salt, k % product(&me.d)).0; same |me| true; }
kind! { Filled<> "Fill" rep true shape (); Fill<Q>; { e: Q }
    make |cx, dims, salt| Filled { e: q(salt, 0), ph: PhantomData };
    get |me| fill(me.e); at |me, _k| me.e.0; same |me| true; }
kind! { FilledWith<> "FillWith" rep true shape (); FillWith<Box<dyn FnMut() -> Q>>; { salt: u64 }
    make |cx, dims, salt| FilledWith { salt, ph: PhantomData };
    get |me| { let (salt, mut k) = (me.salt, 0); fill_with(Box::new(move || { k += 1; q(salt, k - 1) })) };
    at |me, k| q(me.salt, k).0; same |me| true; }

type Out = Option<(Vec<usize>, Vec<Q>)>;

/// Evaluates a result, by folding or by evaluation into an array.
fn settle<I: IntoExpression<Item = Q>>(e: I) -> (Vec<usize>, Vec<Q>) {
    let e = e.into_expr();
    let dims = shape_dims(e.shape());
    let mut v = Vec::new();
    e.for_each(|x| v.push(x));
    (dims, v)
}

fn verdict(cx: &mut Ctx, what: &str, got: Out, ok: bool, dims: &[Vec<usize>], top: &[usize], want: &dyn Fn(usize) -> u64) -> Res {
    match got {
        None => {
            ensure!(!ok, "{what} with operands {dims:?} was rejected: {}", last_panic());
            cx.tag("rejected");
        }
        Some((d, v)) => {
            ensure!(ok, "{what} with operands {dims:?} was accepted");
            ensure_eq!(d, top, "{what}: dimensions");
            ensure_eq!(v.len(), product(top), "{what}: length");
            for (k, x) in v.iter().enumerate() {
                ensure!(x.0 == want(k), "{what} with operands {dims:?}: wrong element at position {k}");
            }
            cx.nontrivial_if(v.len() > 1);
        }
    }
    Ok(())
}

struct Plan {
    op: usize,
    dims: Vec<Vec<usize>>,
    top: Option<Vec<usize>>,
    ok: bool,
}

fn plan<A: Opd, B: Opd>(cx: &mut Ctx, ops: &[usize]) -> Plan {
    let op = *cx.src.pick(ops);
    let (dims, top) = operand_dims2(cx, A::P, B::P);
    let (ra, rb) = (dims[0].len(), dims[1].len());
    let ok = top.is_some() && (A::REP || ra >= rb) && (B::REP || rb >= ra);
    if ra != rb && ok {
        cx.tag("broadcast");
    }
    Plan { op, dims, top, ok }
}

fn operand_dims2(cx: &mut Ctx, a: (&'static [i64], bool), b: (&'static [i64], bool)) -> (Vec<Vec<usize>>, Option<Vec<usize>>) {
    let (mut dims, mut top) = harness::leaves::operand_dims(cx, &[a, b], 100);
    // Bias to equal ranks where both are dynamic.
    if a.1 && b.1 && cx.src.flip() {
        dims[1] = dims[0].clone();
        top = Some(dims[0].clone());
    }
    (dims, top)
}

macro_rules! apply_ops {
    ($op:expr, $x:expr, $y:expr, all) => {
        match $op {
            0 => settle($x + $y),
            1 => settle($x - $y),
            2 => settle($x * $y),
            3 => settle($x / $y),
            4 => settle($x % $y),
            5 => settle($x & $y),
            6 => settle($x | $y),
            7 => settle($x ^ $y),
            8 => settle($x << $y),
            _ => settle($x >> $y),
        }
    };
    ($op:expr, $x:expr, $y:expr, one) => {
        settle($x - $y)
    };
}

macro_rules! bin {
    ($subs:ident, $w:literal, $set:ident, $ops:expr, $tag:literal, $a:ty, $b:ty) => {
        $subs.add(Box::leak(format!("{} {} {}", <$a as Opd>::NAME, $tag, <$b as Opd>::NAME).into_boxed_str()), $w, |cx| {
            let p = plan::<$a, $b>(cx, $ops);
            let mut a = <$a as Opd>::make(cx, &p.dims[0], 1);
            let mut b = <$b as Opd>::make(cx, &p.dims[1], 2);
            let got = {
                let (x, y) = (a.get(), b.get());
                caught(move || apply_ops!(p.op, x, y, $set))
            };
            let what = format!("{} {} {}", <$a as Opd>::NAME, NAMES[p.op], <$b as Opd>::NAME);
            verdict(cx, &what, got, p.ok, &p.dims, p.top.as_deref().unwrap_or(&[]), &|k| sym(p.op, a.at(k), b.at(k)))?;
            ensure!(a.same() && b.same(), "{what}: an operand changed");
            Ok(())
        });
    };
}

macro_rules! rhs_kinds {
    ($subs:ident, $w:literal, $set:ident, $ops:expr, $tag:literal, $a:ty, [$($b:ty),*]) => { $(bin!($subs, $w, $set, $ops, $tag, $a, $b);)* };
}

macro_rules! lhs {
    ($m:ident, $w:literal, $a:ty) => {
        mod $m {
            use super::*;
            pub fn add(subs: &mut Subs) {
                rhs_kinds!(subs, $w, all, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], "op", $a, [ByView<DynRank, Strided>, ByTensor<DynRank>, RefArray<(C2, C3)>]);
                rhs_kinds!(subs, $w, one, &[1], "-", $a, [
                    RefTensor<DynRank>, MutTensor<DynRank>, Moving<DynRank>, ByArray<(C3,)>, ByArray<(C2, C3)>, RefArray<()>,
                    ByViewMut<DynRank, Strided>, RefView<DynRank, Strided>, RefViewMut<DynRank, Dense>, RefSlice<DynRank, Strided>,
                    MutSlice<DynRank, Dense>, Mapped<DynRank, Dense>, CopyOf<DynRank, Strided>, Elem<DynRank>, Func<DynRank>, Filled, FilledWith
                ]);
                rhs_kinds!(subs, $w, one, &[1], "- static", $a, [ByView<(D, D), Strided>, ByTensor<(D, C3)>, Func<(D, D, D)>, RefTensor<(C2, D, C3)>]);
            }
        }
    };
}

lhs!(l0, 2, RefTensor<DynRank>);
lhs!(l1, 2, ByTensor<DynRank>);
lhs!(l2, 2, Moving<DynRank>);
lhs!(l3, 2, RefArray<(C2, C3)>);
lhs!(l4, 2, ByArray<(C2, C3)>);
lhs!(l5, 2, ByView<DynRank, Strided>);
lhs!(l6, 2, RefView<DynRank, Dense>);
lhs!(l7, 2, RefViewMut<DynRank, Strided>);
lhs!(l8, 2, RefSlice<DynRank, Strided>);
lhs!(l9, 2, Mapped<DynRank, Strided>);
lhs!(l10, 2, Elem<DynRank>);
lhs!(l11, 2, Func<DynRank>);
lhs!(l12, 1, Filled);
lhs!(l13, 1, FilledWith);
lhs!(l14, 1, ByTensor<(D, D)>);
lhs!(l15, 1, ByView<(D, C2, D), Strided>);
lhs!(l16, 1, ByArray<(C3,)>);
lhs!(l17, 1, RefTensor<(D, D, D)>);
lhs!(l18, 1, ByView<(C2, D), Dense>);

/// Assigning operators: the left operand is a place.
pub trait Place: Opd {
    type T<'a> where Self: 'a;
    fn now(&self) -> Vec<Q>;
}

macro_rules! assign {
    ($subs:ident, $w:literal, $a:ty, $b:ty, |$me:ident| $place:expr, |$mn:ident| $now:expr) => {
        $subs.add(Box::leak(format!("{} op= {}", <$a as Opd>::NAME, <$b as Opd>::NAME).into_boxed_str()), $w, |cx| {
            let mut p = plan::<$a, $b>(cx, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
            let (ra, rb) = (p.dims[0].len(), p.dims[1].len());
            p.ok = p.top.is_some() && ra >= rb && (<$b as Opd>::REP || rb >= ra);
            let mut $me = <$a as Opd>::make(cx, &p.dims[0], 1);
            let mut b = <$b as Opd>::make(cx, &p.dims[1], 2);
            let n = product(&p.dims[0]);
            let old: Vec<u64> = (0..n).map(|k| $me.at(k)).collect();
            let got = {
                let y = b.get();
                let x = $place;
                caught(move || match p.op {
                    0 => *x += y,
                    1 => *x -= y,
                    2 => *x *= y,
                    3 => *x /= y,
                    4 => *x %= y,
                    5 => *x &= y,
                    6 => *x |= y,
                    7 => *x ^= y,
                    8 => *x <<= y,
                    _ => *x >>= y,
                })
            };
            let what = format!("{} {}= {}", <$a as Opd>::NAME, NAMES[p.op], <$b as Opd>::NAME);
            let $mn = &$me;
            let now: Vec<Q> = $now;
            let mut expect: Vec<u64> = old.clone();
            match got {
                None => {
                    ensure!(!p.ok, "{what} with operands {:?} was rejected: {}", p.dims, last_panic());
                    cx.tag("rejected");
                }
                Some(()) => {
                    ensure!(p.ok, "{what} with operands {:?} was accepted", p.dims);
                    expect = (0..n).map(|k| sym(p.op + 20, old[k], b.at(k))).collect();
                    cx.nontrivial_if(n > 1);
                }
            }
            let now: Vec<u64> = now.iter().map(|x| x.0).collect();
            ensure!(now == expect, "{what} with operands {:?}: wrong elements in the left operand", p.dims);
            ensure!(b.same(), "{what}: the right operand changed");
            Ok(())
        });
    };
}

/// Elements of a buffer by the model; everything else in it must be unchanged.
fn mem_now(m: &Mem, salt: u64) -> Vec<Q> {
    let pos = m.geo.model().pos;
    let orig = qs(salt, m.data.len());
    for (i, (x, y)) in m.data.iter().zip(&orig).enumerate() {
        if x != y && !pos.contains(&(i as isize - 4)) {
            return vec![Q(0)]; // Changed outside of the array.
        }
    }
    pos.iter().map(|&p| m.data[(p + 4) as usize]).collect()
}

macro_rules! assigns {
    ($m:ident, $b:ty) => {
        mod $m {
            use super::*;
            pub fn add(subs: &mut Subs) {
                assign!(subs, 2, MutTensor<DynRank>, $b, |a| &mut a.t, |a| a.t.to_vec_flat());
                assign!(subs, 2, RefArray<(C2, C3)>, $b, |a| &mut a.t, |a| a.t[..].to_vec());
                assign!(subs, 2, RefViewMut<DynRank, Strided>, $b, |a| &mut a.w, |a| mem_now(&a.m, a.salt));
                assign!(subs, 2, MutSlice<DynRank, Strided>, $b, |a| &mut *a.w, |a| mem_now(&a.m, a.salt));
                assign!(subs, 1, RefViewMut<(D, C2, D), Strided>, $b, |a| &mut a.w, |a| mem_now(&a.m, a.salt));
                assign!(subs, 1, MutTensor<(D, D)>, $b, |a| &mut a.t, |a| a.t.to_vec_flat());
            }
        }
    };
}

trait Flat {
    fn to_vec_flat(&self) -> Vec<Q>;
}
impl<S: Shape> Flat for Tensor<Q, S> {
    fn to_vec_flat(&self) -> Vec<Q> {
        self[..].to_vec()
    }
}

assigns!(a0, ByView<DynRank, Strided>);
assigns!(a1, ByTensor<DynRank>);
assigns!(a2, RefTensor<(D, D)>);
assigns!(a3, ByArray<(C2, C3)>);
assigns!(a4, Filled);
assigns!(a5, FilledWith);
assigns!(a6, Func<DynRank>);
assigns!(a7, ByViewMut<DynRank, Strided>);
assigns!(a8, Mapped<DynRank, Dense>);
assigns!(a9, RefArray<(C3,)>);
assigns!(a10, Elem<(D,)>);
assigns!(a11, RefSlice<DynRank, Strided>);

macro_rules! una {
    ($subs:ident, $a:ty) => {
        $subs.add(Box::leak(format!("unary {}", <$a as Opd>::NAME).into_boxed_str()), 2, |cx| {
            let op = cx.src.below(2);
            let (dims, top) = harness::leaves::operand_dims(cx, &[<$a as Opd>::P], 100);
            let mut a = <$a as Opd>::make(cx, &dims[0], 1);
            let got = {
                let x = a.get();
                caught(move || if op == 0 { settle(-x) } else { settle(!x) })
            };
            let what = format!("{}{}", ["-", "!"][op], <$a as Opd>::NAME);
            verdict(cx, &what, got, true, &dims, &top.unwrap(), &|k| sym(40 + op, a.at(k), 0))?;
            ensure!(a.same(), "{what}: the operand changed");
            Ok(())
        });
    };
}

/// Compound expressions, with several operators and scalars.
fn compound(cx: &mut Ctx) -> Res {
    let dims = gen_dyn_dims(&mut cx.src, 60, 4);
    let k = cx.src.range(0, dims.len());
    let low = dims[k..].to_vec();
    type A = RefTensor<DynRank>;
    type V = ByView<DynRank, Strided>;
    let mut a = A::make(cx, &dims, 1);
    let mut b = V::make(cx, &low, 2);
    let mut c = A::make(cx, &dims, 3);
    let how = cx.src.below(5);
    cx.note(|| format!("compound {how}"));
    let x = Q(77);
    let (va, vb, vc) = (a.get(), b.get(), c.get());
    let got = caught(move || match how {
        0 => settle(va * vb - vc),
        1 => settle(-(vc / (vb + fill(x)))),
        2 => settle((fill(x) - va) << !vb),
        3 => settle(va.clone() + vb * vc),
        _ => settle((va % vb) ^ (vc.clone() | va)),
    });
    let want = |k: usize| {
        let (x1, x2, x3) = (a.at(k), b.at(k), c.at(k));
        match how {
            0 => sym(1, sym(2, x1, x2), x3),
            1 => sym(40, sym(3, x3, sym(0, x2, 77)), 0),
            2 => sym(8, sym(1, 77, x1), sym(41, x2, 0)),
            3 => sym(0, x1, sym(2, x2, x3)),
            _ => sym(7, sym(4, x1, x2), sym(6, x3, x1)),
        }
    };
    verdict(cx, "compound expression", got, true, &[dims.clone(), low], &dims, &want)
}

/// By-value operators reuse the memory of a tensor, and arrays may change the element type.
fn typed(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<(D, D)>(&mut cx.src, 60);
    let t: Tensor<f64, (D, D)> = Tensor::from_fn([dims[0], dims[1]], |i| (i[0] * 10 + i[1]) as f64);
    let s = cx.src.range(1, 9) as f64;
    let u = (t.clone() + fill(s)) * fill(2.0);
    let mut w = t.clone();
    w += fill(s);
    w *= fill(2.0);
    ensure!(u == w, "binary and assigning operators differ");
    let vals: Vec<f64> = (0..product(&dims)).map(|k| ((k / dims[1].max(1) * 10 + k % dims[1].max(1)) as f64 + s) * 2.0).collect();
    agree_vals("arithmetic with floating-point numbers", &u, &dims, &vals)?;
    let a: Array<u8, (C2, C3)> = Array::from_fn(|i| (i[0] * 3 + i[1]) as u8);
    let r: Array<u8, (C2, C3)> = a << fill(cx.src.below(4) as u32 * 0 + 1u32);
    agree_vals("shift of an array", &r, &[2, 3], &[0u8, 2, 4, 6, 8, 10])?;
    cx.nontrivial_if(vals.len() > 1);
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    for f in [
        l0::add, l1::add, l2::add, l3::add, l4::add, l5::add, l6::add, l7::add, l8::add, l9::add, l10::add, l11::add,
        l12::add, l13::add, l14::add, l15::add, l16::add, l17::add, l18::add,
        a0::add, a1::add, a2::add, a3::add, a4::add, a5::add, a6::add, a7::add, a8::add, a9::add, a10::add, a11::add,
    ] {
        f(&mut subs);
    }
    una!(subs, RefTensor<DynRank>);
    una!(subs, ByTensor<DynRank>);
    una!(subs, Moving<DynRank>);
    una!(subs, RefArray<(C2, C3)>);
    una!(subs, ByArray<(C2, C3)>);
    una!(subs, ByView<DynRank, Strided>);
    una!(subs, RefView<DynRank, Strided>);
    una!(subs, RefViewMut<DynRank, Strided>);
    una!(subs, RefSlice<DynRank, Strided>);
    una!(subs, Mapped<DynRank, Strided>);
    una!(subs, Elem<DynRank>);
    una!(subs, Func<DynRank>);
    una!(subs, Filled);
    una!(subs, FilledWith);
    una!(subs, ByTensor<(D, C3)>);
    una!(subs, RefView<(D, D, D), Strided>);
    subs.add("compound", 40, compound);
    subs.add("typed", 5, typed);
    harness::main(Property { id: "C07", rule: "the operation is accepted and the result has at least two elements", subs: subs.0 });
}
