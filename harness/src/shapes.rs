//! Catalogue of shape and layout types, and generators of dimensions and strides.
use crate::engine::*;
use crate::model::*;
use mdarray::{DenseMapping, StridedMapping};
use mdarray::{Const, Dense, Dyn, DynRank, Layout, Shape, Strided, View, ViewMut};

pub type D = Dyn;
pub type C0 = Const<0>;
pub type C1 = Const<1>;
pub type C2 = Const<2>;
pub type C3 = Const<3>;
pub type C4 = Const<4>;

/// Shape type with the sizes the type fixes (-1 for a dynamic size), stated independently.
pub trait TestShape: Shape + 'static {
    const PAT: &'static [i64];
    const DYNRANK: bool = false;
}

macro_rules! shapes {
    ($(($($d:ident),*) [$($p:expr),*]),* $(,)?) => {
        $(impl TestShape for ($($d,)*) { const PAT: &'static [i64] = &[$($p),*]; })*
    };
}

shapes! {
    () [],
    (D) [-1], (C0) [0], (C1) [1], (C3) [3],
    (D, D) [-1, -1], (D, C3) [-1, 3], (C2, D) [2, -1], (C2, C3) [2, 3], (C3, C0) [3, 0], (C2, C1) [2, 1], (C0, D) [0, -1],
    (D, D, D) [-1, -1, -1], (D, C2, D) [-1, 2, -1], (C2, D, C3) [2, -1, 3], (C2, C3, C2) [2, 3, 2],
    (D, D, C1) [-1, -1, 1], (C2, C0, C3) [2, 0, 3],
    (D, D, D, D) [-1, -1, -1, -1], (C2, D, D, C3) [2, -1, -1, 3], (C2, C1, C3, C2) [2, 1, 3, 2],
    (D, D, D, D, D) [-1, -1, -1, -1, -1], (D, C2, D, C1, D) [-1, 2, -1, 1, -1], (C2, C1, C2, C3, C1) [2, 1, 2, 3, 1],
    (D, D, D, D, D, D) [-1, -1, -1, -1, -1, -1], (C2, D, C1, D, C2, D) [2, -1, 1, -1, 2, -1],
    (C1, C2, C1, C2, C2, C1) [1, 2, 1, 2, 2, 1],
    (D, C0) [-1, 0], (D, C1) [-1, 1], (C1, D) [1, -1], (C0, C0) [0, 0], (C1, C1) [1, 1], (C0, C2) [0, 2], (C1, C0) [1, 0],
    (D, C0, D) [-1, 0, -1], (C2, D, C0) [2, -1, 0], (C0, D, D) [0, -1, -1], (D, D, C2) [-1, -1, 2], (C1, C1, C2) [1, 1, 2],
    (C2, D, D, D) [2, -1, -1, -1], (D, D, C2, C3) [-1, -1, 2, 3], (C0, D, C2, D, C4) [0, -1, 2, -1, 4],
}

impl TestShape for DynRank {
    const PAT: &'static [i64] = &[];
    const DYNRANK: bool = true;
}

/// Calls `$cb!(type)` for each shape type with static rank.
#[macro_export]
macro_rules! each_static_shape {
    ($cb:ident) => {
        $cb!(());
        $crate::each_ranked_shape!($cb);
    };
}

#[macro_export]
macro_rules! each_ranked_shape {
    ($cb:ident) => {
        $crate::each_shape1!($cb);
        $crate::each_shape2!($cb);
        $crate::each_shape3!($cb);
        $crate::each_shape4!($cb);
        $crate::each_shape5!($cb);
        $crate::each_shape6!($cb);
    };
}

#[macro_export]
macro_rules! each_shape {
    ($cb:ident) => {
        $crate::each_static_shape!($cb);
        $cb!(DynRank);
    };
}

#[macro_export]
macro_rules! each_shape1 {
    ($cb:ident) => {
        $cb!((D,));
        $cb!((C0,));
        $cb!((C1,));
        $cb!((C3,));
    };
}
#[macro_export]
macro_rules! each_shape2 {
    ($cb:ident) => {
        $cb!((D, D));
        $cb!((D, C3));
        $cb!((C2, D));
        $cb!((C2, C3));
        $cb!((C3, C0));
        $cb!((C0, D));
    };
}
#[macro_export]
macro_rules! each_shape3 {
    ($cb:ident) => {
        $cb!((D, D, D));
        $cb!((D, C2, D));
        $cb!((C2, D, C3));
        $cb!((C2, C3, C2));
        $cb!((D, D, C1));
        $cb!((C2, C0, C3));
    };
}
#[macro_export]
macro_rules! each_shape4 {
    ($cb:ident) => {
        $cb!((D, D, D, D));
        $cb!((C2, D, D, C3));
        $cb!((C2, C1, C3, C2));
    };
}
#[macro_export]
macro_rules! each_shape5 {
    ($cb:ident) => {
        $cb!((D, D, D, D, D));
        $cb!((D, C2, D, C1, D));
        $cb!((C2, C1, C2, C3, C1));
    };
}
#[macro_export]
macro_rules! each_shape6 {
    ($cb:ident) => {
        $cb!((D, D, D, D, D, D));
        $cb!((C2, D, C1, D, C2, D));
        $cb!((C1, C2, C1, C2, C2, C1));
    };
}

/// Shape types with all dimensions constant-sized.
#[macro_export]
macro_rules! each_const_shape {
    ($cb:ident) => {
        $cb!(());
        $cb!((C0,));
        $cb!((C1,));
        $cb!((C3,));
        $cb!((C2, C3));
        $cb!((C3, C0));
        $cb!((C2, C3, C2));
        $cb!((C2, C0, C3));
        $cb!((C2, C1, C3, C2));
        $cb!((C2, C1, C2, C3, C1));
        $cb!((C1, C2, C1, C2, C2, C1));
    };
}

/// Size of one dimension: mostly small, sometimes zero or one, rarely large.
pub fn gen_size(src: &mut Src) -> usize {
    match src.below(24) {
        0 => 2,
        1..=5 => 3,
        6..=9 => 1,
        10..=11 => 0,
        12..=15 => 2,
        16..=18 => 4,
        19..=20 => 5,
        21..=22 => src.range(6, 9),
        _ => *src.pick(&[10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]),
    }
}

/// Sizes for a number of dimensions; zeros only in a quarter of the cases.
fn gen_sizes(src: &mut Src, n: usize) -> Vec<usize> {
    let zeros = src.chance(1, 4);
    (0..n)
        .map(|_| match gen_size(src) {
            0 if !zeros => 2,
            d => d,
        })
        .collect()
}

fn limit(dims: &mut [usize], dynamic: &[bool], max: usize) {
    // Also without elements, the number of subarrays (and of formatted lists) stays bounded.
    let count = |dims: &[usize]| dims.iter().map(|&n| n.max(1)).product::<usize>();
    while product(dims) > max || count(dims) > max.max(3000) {
        let i = (0..dims.len()).filter(|&i| dynamic[i]).max_by_key(|&i| dims[i]);
        match i {
            Some(i) if dims[i] > 1 => dims[i] = (dims[i] + 1) / 2,
            _ => return,
        }
    }
}

/// Makes one of the dynamic dimensions large in few cases, with more elements than otherwise.
fn stretch(src: &mut Src, dims: &mut [usize], dynamic: &[bool], max: usize) -> usize {
    let free: Vec<usize> = (0..dims.len()).filter(|&i| dynamic[i]).collect();
    if free.is_empty() || !src.chance(1, 100) {
        return max;
    }
    let i = *src.pick(&free);
    dims[i] = *src.pick(&[20, 33, 64, 65, 128, 200, 257, 500, 513, 1000, 1025, 2000]);
    max.max((max * 20).min(3000))
}

/// Dimensions that are valid for the shape type, with a bounded number of elements.
pub fn gen_dims<S: TestShape>(src: &mut Src, max: usize) -> Vec<usize> {
    if S::DYNRANK {
        return gen_dyn_dims(src, max, 6);
    }
    let sizes = gen_sizes(src, S::PAT.len());
    let mut dims: Vec<usize> =
        S::PAT.iter().zip(sizes).map(|(&p, s)| if p < 0 { s } else { p as usize }).collect();
    let dynamic: Vec<bool> = S::PAT.iter().map(|&p| p < 0).collect();
    let max = stretch(src, &mut dims, &dynamic, max);
    limit(&mut dims, &dynamic, max);
    dims
}

/// Dimensions of any rank.
pub fn gen_dyn_dims(src: &mut Src, max: usize, max_rank: usize) -> Vec<usize> {
    let rank = if src.chance(1, 16) { src.range(0, max_rank + 4) } else { src.range(0, max_rank) };
    let mut dims = gen_sizes(src, rank);
    let max = stretch(src, &mut dims, &vec![true; rank], max);
    limit(&mut dims, &vec![true; rank], max);
    dims
}

/// Dimensions of a given rank.
pub fn gen_rank_dims(src: &mut Src, rank: usize, max: usize) -> Vec<usize> {
    let mut dims = gen_sizes(src, rank);
    let max = stretch(src, &mut dims, &vec![true; rank], max);
    limit(&mut dims, &vec![true; rank], max);
    dims
}

/// Row-major strides.
pub fn dense_strides(dims: &[usize]) -> Vec<isize> {
    let mut s = vec![0isize; dims.len()];
    let mut acc = 1isize;
    for i in (0..dims.len()).rev() {
        s[i] = acc;
        acc *= dims[i] as isize;
    }
    s
}

/// Memory geometry of an array: strides and position of the first element in the buffer.
#[derive(Clone, Debug)]
pub struct Geo {
    pub dims: Vec<usize>,
    pub strides: Vec<isize>,
    pub base: isize,
    pub extent: usize,
}

impl Geo {
    pub fn model(&self) -> Model {
        Model::strided(&self.dims, &self.strides, self.base)
    }
}

pub trait TestLayout: Layout + 'static {
    const NAME: &'static str;
    fn mapping<S: Shape>(dims: &[usize], strides: &[isize]) -> Self::Mapping<S>;
    fn geo(src: &mut Src, dims: &[usize]) -> Geo;
}

impl TestLayout for Dense {
    const NAME: &'static str = "dense";
    fn mapping<S: Shape>(dims: &[usize], _: &[isize]) -> DenseMapping<S> {
        DenseMapping::new(S::from_dims(dims))
    }
    fn geo(_: &mut Src, dims: &[usize]) -> Geo {
        Geo { dims: dims.to_vec(), strides: dense_strides(dims), base: 0, extent: product(dims) }
    }
}

impl TestLayout for Strided {
    const NAME: &'static str = "strided";
    fn mapping<S: Shape>(dims: &[usize], strides: &[isize]) -> StridedMapping<S> {
        StridedMapping::new(S::from_dims(dims), strides)
    }
    fn geo(src: &mut Src, dims: &[usize]) -> Geo {
        strided_geo(src, dims)
    }
}

/// Strides such that all elements have distinct positions: contiguous, stepped, padded,
/// reversed or with permuted memory order. Strides of unit dimensions are arbitrary.
pub fn strided_geo(src: &mut Src, dims: &[usize]) -> Geo {
    let n = dims.len();
    let kind = src.below(6);
    if kind == 0 {
        return Geo { dims: dims.to_vec(), strides: dense_strides(dims), base: 0, extent: product(dims) };
    }
    let order: Vec<usize> = if kind >= 3 { src.perm(n) } else { (0..n).collect() };
    let mut strides = vec![0isize; n];
    let mut span = 1isize; // Positions covered by the inner dimensions.
    let mut base = 0;
    for &i in order.iter().rev() {
        let d = dims[i] as isize;
        let extra = match src.below(4) {
            0 | 1 => 0,
            2 => 1,
            _ => src.range(1, 5) as isize,
        };
        let mut s = if span == 1 { 1 + extra } else { span + extra };
        if d <= 1 && src.flip() {
            // Never used to address elements of this dimension.
            strides[i] = src.irange(-9, 9);
            continue;
        }
        if kind >= 2 && src.chance(1, 3) {
            s = -s;
        }
        strides[i] = s;
        if d > 1 {
            if s < 0 {
                base += -s * (d - 1);
            }
            span += s.abs() * (d - 1);
            // Round up to a full block, so that merged dimensions occur often.
            if extra == 0 && src.chance(7, 8) {
                span = s.abs() * d;
            }
        }
    }
    let empty = product(dims) == 0;
    Geo {
        dims: dims.to_vec(),
        strides,
        base: if empty { 0 } else { base },
        extent: if empty { 0 } else { span as usize + 1 },
    }
}

pub fn view<'a, S: Shape, L: TestLayout>(buf: &'a Buf, g: &Geo) -> View<'a, i32, S, L> {
    unsafe { View::new_unchecked(buf.ptr().offset(g.base), L::mapping::<S>(&g.dims, &g.strides)) }
}

pub fn view_mut<'a, S: Shape, L: TestLayout>(buf: &'a mut Buf, g: &Geo) -> ViewMut<'a, i32, S, L> {
    unsafe {
        ViewMut::new_unchecked(buf.mut_ptr().offset(g.base), L::mapping::<S>(&g.dims, &g.strides))
    }
}

/// A generated array: buffer, geometry and model.
pub fn gen_array<S: TestShape, L: TestLayout>(cx: &mut Ctx, max: usize) -> (Buf, Geo, Model) {
    let dims = gen_dims::<S>(&mut cx.src, max);
    let geo = L::geo(&mut cx.src, &dims);
    let model = geo.model();
    cx.note(|| format!("dims {:?} strides {:?}", geo.dims, geo.strides));
    (Buf::new(geo.extent), geo, model)
}

/// Applies a static pattern of sizes to a list of dimensions: true if they are valid for `S`.
pub fn fits<S: TestShape>(dims: &[usize]) -> bool {
    S::DYNRANK
        || dims.len() == S::PAT.len()
            && dims.iter().zip(S::PAT).all(|(&d, &p)| p < 0 || p as usize == d)
}
