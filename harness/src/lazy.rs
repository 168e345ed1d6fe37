//! Shared views with a huge number of elements: some dimensions repeat the same elements with a
//! stride of zero. The model is the affine map from indices to positions, checked at sampled
//! indices.
use crate::engine::*;
use crate::model::*;
use crate::shapes::*;
use crate::{ensure, ensure_eq};
use mdarray::{Layout, Shape, Slice, Strided, StridedMapping, View};

#[derive(Clone, Debug)]
pub struct Lazy {
    pub dims: Vec<usize>,
    pub strides: Vec<isize>,
    pub base: isize,
}

pub const LARGE: [usize; 10] = [
    3 << 16,
    1 << 31,
    (1 << 31) + 5,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 3,
    (1 << 33) + 1,
    1 << 40,
    (1 << 45) - 1,
    (1 << 52) + 7,
];

impl Lazy {
    /// Dimensions for `rank`, at least one of them large, with less than 2^62 elements.
    pub fn generate(cx: &mut Ctx, rank: usize) -> (Lazy, Buf) {
        let mut dims: Vec<usize> = (0..rank).map(|_| cx.src.range(1, 4)).collect();
        let mut large = vec![false; rank];
        for _ in 0..cx.src.range(1, 2) {
            let i = cx.src.below(rank);
            let d = *cx.src.pick(&LARGE);
            let others: u128 = dims.iter().enumerate().map(|(k, &x)| if k == i { 1 } else { x as u128 }).product();
            if others * (d as u128) < 1 << 62 {
                dims[i] = d;
                large[i] = true;
            }
        }
        let small: Vec<usize> = (0..rank).filter(|&i| !large[i]).map(|i| dims[i]).collect();
        let geo = strided_geo(&mut cx.src, &small);
        let mut rest = geo.strides.iter().copied();
        let strides = (0..rank).map(|i| if large[i] { 0 } else { rest.next().unwrap() }).collect();
        cx.note(|| format!("dims {dims:?} strides {strides:?}"));
        (Lazy { dims, strides, base: geo.base }, Buf::new(geo.extent))
    }

    pub fn view<'a, S: Shape>(&self, buf: &'a Buf) -> View<'a, i32, S, Strided> {
        unsafe { View::new_unchecked(buf.ptr().offset(self.base), StridedMapping::new(S::from_dims(&self.dims), &self.strides)) }
    }

    pub fn len(&self) -> u128 {
        self.dims.iter().map(|&d| d as u128).product()
    }

    pub fn at(&self, idx: &[usize]) -> isize {
        self.base + idx.iter().zip(&self.strides).map(|(&i, &s)| if s == 0 { 0 } else { i as isize * s }).sum::<isize>()
    }

    pub fn index(&self, src: &mut Src) -> Vec<usize> {
        self.dims
            .iter()
            .map(|&d| match src.below(5) {
                0 => d - 1,
                1 => 0,
                2 => d / 2,
                3 => (src.below(1 << 30) << 22 | src.below(1 << 22)) % d,
                _ => (1usize << 32).wrapping_add(src.below(5)) % d,
            })
            .collect()
    }

    pub fn flat(&self, idx: &[usize]) -> usize {
        idx.iter().zip(&self.dims).fold(0, |k, (&i, &d)| k * d + i)
    }

    pub fn remove(&self, axis: usize, i: usize) -> Lazy {
        let mut r = self.clone();
        r.base += if self.strides[axis] == 0 { 0 } else { self.strides[axis] * i as isize };
        r.dims.remove(axis);
        r.strides.remove(axis);
        r
    }

    pub fn range(&self, axis: usize, start: usize, len: usize) -> Lazy {
        let mut r = self.clone();
        r.base += if self.strides[axis] == 0 { 0 } else { self.strides[axis] * start as isize };
        r.dims[axis] = len;
        r
    }

    pub fn permute(&self, perm: &[usize]) -> Lazy {
        Lazy {
            dims: perm.iter().map(|&i| self.dims[i]).collect(),
            strides: perm.iter().map(|&i| self.strides[i]).collect(),
            base: self.base,
        }
    }

    /// The view has these dimensions, and these elements at sampled indices.
    pub fn agree<S: Shape, L: Layout>(&self, cx: &mut Ctx, what: &str, v: &Slice<i32, S, L>, buf: &Buf) -> Res {
        ensure_eq!(shape_dims(v.shape()), self.dims, "{what}: dimensions");
        ensure_eq!(v.len() as u128, self.len(), "{what}: length");
        ensure_eq!(v.is_empty(), self.len() == 0, "{what}: is_empty");
        if self.len() == 0 {
            return Ok(());
        }
        for _ in 0..4 {
            let idx = self.index(&mut cx.src);
            let k = self.flat(&idx);
            ensure_eq!(rel(&v[&idx[..]], buf.ptr()), self.at(&idx), "{what}: index {idx:?}");
            ensure_eq!(rel(&v[k], buf.ptr()), self.at(&idx), "{what}: flat index {k} of index {idx:?}");
            let u = unsafe { v.get_unchecked(k) };
            ensure_eq!(rel(u, buf.ptr()), self.at(&idx), "{what}: unchecked flat index {k}");
        }
        let mut it = v.iter();
        ensure_eq!(it.len() as u128, self.len(), "{what}: length of the iterator");
        let first = vec![0; self.dims.len()];
        let x = it.next();
        ensure!(x.is_some_and(|x| rel(x, buf.ptr()) == self.at(&first)), "{what}: first element of the iterator");
        ensure_eq!(it.len() as u128, self.len() - 1, "{what}: length of the iterator after one element");
        Ok(())
    }
}
