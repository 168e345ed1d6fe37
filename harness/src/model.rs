//! Reference model: an array is its dimensions and, for each element in row-major order, the
//! position of that element in a backing buffer.
use crate::engine::*;
use crate::{ensure, ensure_eq};
use mdarray::{Layout, Shape, Slice};

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub dims: Vec<usize>,
    pub pos: Vec<isize>,
}

/// Selection along one dimension.
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    At(usize),
    List(Vec<usize>),
}

/// Advances a multi-index in row-major order; returns false after the last one.
pub fn advance(idx: &mut [usize], dims: &[usize]) -> bool {
    for i in (0..dims.len()).rev() {
        idx[i] += 1;
        if idx[i] < dims[i] {
            return true;
        }
        idx[i] = 0;
    }
    false
}

pub fn product(dims: &[usize]) -> usize {
    dims.iter().product()
}

/// All multi-indices in row-major order.
pub fn indices(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    if product(dims) == 0 {
        return out;
    }
    let mut idx = vec![0; dims.len()];
    loop {
        out.push(idx.clone());
        if !advance(&mut idx, dims) {
            return out;
        }
    }
}

impl Model {
    pub fn dense(dims: &[usize]) -> Self {
        Model { dims: dims.to_vec(), pos: (0..product(dims) as isize).collect() }
    }

    pub fn strided(dims: &[usize], strides: &[isize], base: isize) -> Self {
        let pos = indices(dims)
            .iter()
            .map(|i| base + i.iter().zip(strides).map(|(&i, &s)| i as isize * s).sum::<isize>())
            .collect();
        Model { dims: dims.to_vec(), pos }
    }

    pub fn len(&self) -> usize {
        self.pos.len()
    }

    pub fn rank(&self) -> usize {
        self.dims.len()
    }

    pub fn lin(&self, idx: &[usize]) -> usize {
        let mut k = 0;
        for (i, d) in idx.iter().zip(&self.dims) {
            k = k * d + i;
        }
        k
    }

    pub fn at(&self, idx: &[usize]) -> isize {
        self.pos[self.lin(idx)]
    }

    pub fn select(&self, sels: &[Sel]) -> Model {
        let lists: Vec<Vec<usize>> = sels
            .iter()
            .map(|s| match s {
                Sel::At(i) => vec![*i],
                Sel::List(l) => l.clone(),
            })
            .collect();
        let full: Vec<usize> = lists.iter().map(|l| l.len()).collect();
        let dims: Vec<usize> = sels
            .iter()
            .filter_map(|s| match s {
                Sel::At(_) => None,
                Sel::List(l) => Some(l.len()),
            })
            .collect();
        let mut pos = Vec::new();
        for i in indices(&full) {
            let idx: Vec<usize> = i.iter().zip(&lists).map(|(&k, l)| l[k]).collect();
            pos.push(self.at(&idx));
        }
        Model { dims, pos }
    }

    /// Selects a list along one dimension.
    pub fn take(&self, axis: usize, sel: Sel) -> Model {
        let sels: Vec<Sel> = (0..self.rank())
            .map(|i| if i == axis { sel.clone() } else { Sel::List((0..self.dims[i]).collect()) })
            .collect();
        self.select(&sels)
    }

    pub fn remove(&self, axis: usize, index: usize) -> Model {
        self.take(axis, Sel::At(index))
    }

    pub fn split(&self, axis: usize, mid: usize) -> (Model, Model) {
        (
            self.take(axis, Sel::List((0..mid).collect())),
            self.take(axis, Sel::List((mid..self.dims[axis]).collect())),
        )
    }

    /// Result dimension `i` is the dimension `perm[i]` of the input.
    pub fn permute(&self, perm: &[usize]) -> Model {
        let dims: Vec<usize> = perm.iter().map(|&p| self.dims[p]).collect();
        let mut pos = Vec::new();
        for i in indices(&dims) {
            let mut idx = vec![0; perm.len()];
            for (k, &p) in perm.iter().enumerate() {
                idx[p] = i[k];
            }
            pos.push(self.at(&idx));
        }
        Model { dims, pos }
    }

    pub fn reversed(&self) -> Model {
        let perm: Vec<usize> = (0..self.rank()).rev().collect();
        self.permute(&perm)
    }

    pub fn reshape(&self, dims: &[usize]) -> Model {
        assert_eq!(product(dims), self.len());
        Model { dims: dims.to_vec(), pos: self.pos.clone() }
    }

    pub fn lane(&self, axis: usize, rest: &[usize]) -> Model {
        let sels: Vec<Sel> = (0..self.rank())
            .map(|i| {
                if i == axis {
                    Sel::List((0..self.dims[i]).collect())
                } else {
                    Sel::At(rest[if i < axis { i } else { i - 1 }])
                }
            })
            .collect();
        self.select(&sels)
    }
}

/// Backing buffer with distinct values and guard zones on both sides.
#[derive(Clone, Debug, PartialEq)]
pub struct Buf {
    pub data: Vec<i32>,
}

pub const GUARD: usize = 16;

pub fn value(i: usize) -> i32 {
    i as i32 * 7 + 1001
}

impl Buf {
    pub fn new(len: usize) -> Self {
        Buf { data: (0..len + 2 * GUARD).map(value).collect() }
    }

    /// Pointer to position 0 of the model.
    pub fn ptr(&self) -> *const i32 {
        unsafe { self.data.as_ptr().add(GUARD) }
    }

    pub fn mut_ptr(&mut self) -> *mut i32 {
        unsafe { self.data.as_mut_ptr().add(GUARD) }
    }

    pub fn get(&self, pos: isize) -> i32 {
        self.data[(GUARD as isize + pos) as usize]
    }

    pub fn set(&mut self, pos: isize, v: i32) {
        self.data[(GUARD as isize + pos) as usize] = v;
    }
}

pub fn shape_dims<S: Shape>(s: &S) -> Vec<usize> {
    (0..s.rank()).map(|i| s.dim(i)).collect()
}

/// Position of an element relative to a base pointer.
pub fn rel<T>(p: *const T, base: *const T) -> isize {
    (p as isize).wrapping_sub(base as isize) / std::mem::size_of::<T>().max(1) as isize
}

/// Checks that the array has the dimensions of the model, and that each element is the one
/// at the buffer position of the model (compared by address).
pub fn agree<S: Shape, L: Layout>(
    what: &str,
    v: &Slice<i32, S, L>,
    base: *const i32,
    m: &Model,
) -> Res {
    ensure_eq!(v.rank(), m.rank(), "{what}: rank");
    let dims: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    ensure_eq!(dims, m.dims, "{what}: dimensions");
    ensure_eq!(shape_dims(v.shape()), m.dims, "{what}: shape");
    ensure_eq!(v.len(), m.len(), "{what}: length");
    ensure_eq!(v.is_empty(), m.len() == 0, "{what}: is_empty");
    if m.len() == 0 {
        return Ok(());
    }
    let mut idx = vec![0; m.rank()];
    for k in 0..m.len() {
        let p = rel(&v[&idx[..]] as *const i32, base);
        ensure!(
            p == m.pos[k],
            "{what}: element {idx:?} is at buffer position {p}, expected {}",
            m.pos[k]
        );
        advance(&mut idx, &m.dims);
    }
    Ok(())
}

/// Checks dimensions and element values (for owned arrays).
pub fn agree_vals<T: PartialEq + std::fmt::Debug, S: Shape, L: Layout>(
    what: &str,
    v: &Slice<T, S, L>,
    dims: &[usize],
    vals: &[T],
) -> Res {
    let got: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    ensure_eq!(got, dims, "{what}: dimensions");
    ensure_eq!(v.len(), vals.len(), "{what}: length");
    ensure_eq!(v.is_empty(), vals.is_empty(), "{what}: is_empty");
    if vals.is_empty() {
        return Ok(());
    }
    let mut idx = vec![0; dims.len()];
    for x in vals {
        let y = &v[&idx[..]];
        ensure!(y == x, "{what}: element {idx:?} is {y:?}, expected {x:?}");
        advance(&mut idx, dims);
    }
    Ok(())
}
