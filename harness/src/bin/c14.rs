//! C14: no memory error is reachable from safe code.
use std::cell::Cell;
use std::fmt::Debug;
use std::mem;
use std::ops::{Bound, RangeBounds};

use harness::inline::*;
use harness::track::{self, Bx, CALL, CLONE, DROP, Elem, Tr, Zt};
use harness::world::*;
use harness::*;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{Array, Const, DynRank, Layout, Shape, Slice, Tensor, View, ViewMut, step};

/// Plain element, with or without size.
trait Plain: Copy + PartialEq + Debug + 'static {
    fn make(k: usize) -> Self;
}

impl Plain for u32 {
    fn make(k: usize) -> u32 {
        k as u32 + 100
    }
}

impl Plain for () {
    fn make(_: usize) {}
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
struct Wide([u16; 3]);

impl Plain for Wide {
    fn make(k: usize) -> Wide {
        Wide([k as u16, 7, 9])
    }
}

const HUGE: usize = 1 << 12;

/// Number of elements by the dimensions, without overflow.
fn true_len(dims: &[usize]) -> u128 {
    if dims.contains(&0) {
        return 0;
    }
    dims.iter().fold(1u128, |a, &d| a.saturating_mul(d as u128))
}

/// Storage that views must stay inside of.
#[derive(Clone, Copy)]
struct Area<'a> {
    start: usize,
    end: usize,
    len: usize,
    /// Sorted addresses of the elements, if the storage has others next to them.
    only: Option<&'a [usize]>,
}

impl<'a> Area<'a> {
    fn of<T, S: Shape>(t: &Slice<T, S>) -> Area<'static> {
        let start = t.as_ptr() as usize;
        Area { start, end: start + t.len().wrapping_mul(mem::size_of::<T>()), len: t.len(), only: None }
    }

    /// The elements of a view, which those of its parts must be among.
    fn within<'b>(self, only: &'b [usize]) -> Area<'b>
    where
        'a: 'b,
    {
        if only.is_empty() { self } else { Area { len: only.len(), only: Some(only), ..self } }
    }

    fn contains<T>(&self, p: *const T) -> bool {
        let p = p as usize;
        let size = mem::size_of::<T>();
        size == 0
            || p >= self.start
                && p + size <= self.end
                && (p - self.start) % size == 0
                && self.only.is_none_or(|l| l.binary_search(&p).is_ok())
    }
}

/// Addresses of the elements of a view, if it has few of them.
fn places<T, S: Shape, L: Layout>(v: &Slice<T, S, L>) -> Vec<usize> {
    let dims = shape_dims(v.shape());
    if mem::size_of::<T>() == 0 || true_len(&dims) > HUGE as u128 {
        return Vec::new();
    }
    let mut l: Vec<usize> = indices(&dims).iter().map(|i| &v[&i[..]] as *const T as usize).collect();
    l.sort_unstable();
    l
}

/// The elements of the view lie inside the storage, and there are no more than it has.
fn inside<T: Plain, S: Shape, L: Layout>(what: &str, v: &Slice<T, S, L>, area: Area) -> Res {
    let dims = shape_dims(v.shape());
    let n = true_len(&dims);
    ensure!(n <= area.len as u128, "{what}: dimensions {dims:?} in a storage of {} elements", area.len);
    ensure_eq!(v.len() as u128, n, "{what}: length with dimensions {dims:?}");
    ensure_eq!(v.is_empty(), n == 0, "{what}: is_empty with dimensions {dims:?}");
    if mem::size_of::<T>() > 0 {
        // The pointer of a view without elements may be one past the end.
        let p = v.as_ptr() as usize;
        ensure!(p >= area.start && p <= area.end, "{what}: the pointer with dimensions {dims:?} is outside the storage");
    }
    let it = v.iter();
    ensure_eq!(it.len() as u128, n, "{what}: length of the iterator with dimensions {dims:?}");
    if n <= HUGE as u128 {
        let mut seen = Vec::new();
        for x in it {
            ensure!(area.contains(x as *const T), "{what}: an element with dimensions {dims:?} is outside the storage");
            std::hint::black_box(*x);
            seen.push(x as *const T as usize);
        }
        ensure_eq!(seen.len() as u128, n, "{what}: elements of the iterator with dimensions {dims:?}");
        if mem::size_of::<T>() > 0 {
            seen.sort_unstable();
            seen.dedup();
            ensure_eq!(seen.len() as u128, n, "{what}: distinct elements with dimensions {dims:?}");
            // By index.
            let mut idx = vec![0; dims.len()];
            for _ in 0..n {
                ensure!(area.contains(&v[&idx[..]] as *const T), "{what}: element {idx:?} is outside the storage");
                advance(&mut idx, &dims);
            }
        }
    } else {
        let mut it = it;
        for _ in 0..3 {
            ensure!(it.next().is_some(), "{what}: the iterator ends early");
        }
        let last: Vec<usize> = dims.iter().map(|d| d - 1).collect();
        std::hint::black_box(v[&last[..]]);
    }
    Ok(())
}

/// Strides beyond the address space overflow in debug builds, which is a panic and no memory error.
fn tolerant(cx: &mut Ctx, f: fn(&mut Ctx) -> Res) -> Res {
    match caught(|| f(cx)) {
        Some(r) => r,
        None => {
            let msg = last_panic();
            // A panic of the library or of std is not a memory error; one of the harness itself is a bug.
            ensure!(!msg.contains("harness/") && !msg.contains(" at src/"), "unexpected panic: {msg}");
            cx.tag(if msg.starts_with("attempt to ") { "arithmetic overflow" } else { "other panic" });
            Ok(())
        }
    }
}

/// Extreme or near values for a size.
fn extreme(src: &mut Src, size: usize) -> usize {
    match src.below(14) {
        0 | 1 => src.below(size.clamp(1, 1000)),
        2 => size.wrapping_sub(1),
        3 => size,
        4 => size.wrapping_add(1),
        5 => 0,
        6 => usize::MAX,
        7 => usize::MAX - 1,
        8 => isize::MAX as usize,
        9 => isize::MAX as usize + 1,
        10 => 1 << 32,
        11 => size.wrapping_neg(),
        12 => (usize::MAX / size.max(1)).wrapping_add(src.below(3)),
        _ => 1usize << src.below(64),
    }
}

fn extreme_step(src: &mut Src, size: usize) -> isize {
    match src.below(10) {
        0 => 1,
        1 => -1,
        2 => 0,
        3 => isize::MAX,
        4 => isize::MIN,
        5 => isize::MIN + 1,
        6 => size as isize,
        7 => -(size.min(1 << 40) as isize),
        8 => src.irange(-4, 4),
        _ => 1 << src.below(63),
    }
}

/// Dimensions whose product is not representable, but often small when it wraps around.
fn overflowing(src: &mut Src) -> Vec<usize> {
    let mut d = match src.below(8) {
        0 => vec![1 << 32, 1 << 32],
        1 => vec![1 << 63, 2],
        2 => vec![2, 1 << 63],
        3 => vec![1 << 62, 4],
        4 => vec![usize::MAX - 1, usize::MAX - 2],
        5 => vec![1 << 22, 1 << 21, 1 << 21],
        6 => vec![(1 << 63) + 1, 2],
        _ => vec![usize::MAX / 3 + 1, 3],
    };
    if src.flip() {
        d.push(1);
    }
    if src.flip() {
        d.insert(0, 1 + src.below(3));
    }
    let p = src.perm(d.len());
    p.iter().map(|&k| d[k]).collect()
}

/// Dimensions of a valid array: small, empty with huge sizes, or huge if elements have no size.
fn valid_dims<T>(src: &mut Src, rank: usize) -> Vec<usize> {
    let small = if cfg!(miri) { 8 } else { 40 };
    if rank == 0 {
        return vec![];
    }
    match src.below(4) {
        0 => {
            // Sizes after an empty dimension do not matter.
            let mut d: Vec<usize> = (0..rank).map(|_| extreme(src, 3)).collect();
            let k = src.below(rank);
            for x in &mut d[..=k] {
                *x = 1 + *x % 3;
            }
            d[k] = 0;
            d
        }
        1 if mem::size_of::<T>() == 0 => {
            let mut left = usize::MAX;
            let mut d = Vec::new();
            for _ in 0..rank {
                let x = match src.below(4) {
                    0 => left,
                    1 => 1 + src.below(3),
                    2 => 1 << 32,
                    _ => isize::MAX as usize + 1,
                };
                let x = x.clamp(1, left);
                left /= x;
                d.push(x);
            }
            let p = src.perm(rank);
            p.iter().map(|&k| d[k]).collect()
        }
        _ => gen_rank_dims(src, rank, small),
    }
}

fn storage<T: Plain>(n: usize) -> Vec<T> {
    if mem::size_of::<T>() == 0 {
        let mut v = Vec::new();
        // A vector of elements without size can have any length.
        unsafe { v.set_len(n) };
        v
    } else {
        (0..n).map(T::make).collect()
    }
}

/// Operations on a view with extreme arguments: a panic, or a result inside the storage.
fn poke<T: Plain, S: Shape, L: Layout>(cx: &mut Ctx, v: View<T, S, L>, area: Area, depth: usize) -> Res {
    let dims = shape_dims(v.shape());
    let rank = dims.len();
    let own = places(&v);
    let area = area.within(&own);
    let op = cx.src.below(21);
    macro_rules! attempt {
        ($what:expr, $e:expr) => {
            match caught(|| $e) {
                Some(x) => {
                    cx.tag("returned");
                    x
                }
                None => {
                    cx.tag("panicked");
                    cx.note(|| "panics".into());
                    return Ok(());
                }
            }
        };
    }
    macro_rules! next {
        ($what:expr, $w:expr) => {{
            let w = $w;
            inside($what, &*w, area)?;
            if depth > 0 { poke_dyn(cx, w.into_dyn(), area, depth - 1) } else { Ok(()) }
        }};
    }
    let axis = if cx.src.chance(1, 12) { extreme(&mut cx.src, rank) } else { cx.src.below(rank.max(1)) };
    let size = dims.get(axis).copied().unwrap_or(0);
    let i = extreme(&mut cx.src, size);
    match op {
        0 | 1 => {
            let idx: Vec<usize> = dims.iter().map(|&d| extreme(&mut cx.src, d)).collect();
            let idx = if cx.src.chance(1, 8) { idx[..rank.saturating_sub(1)].to_vec() } else { idx };
            cx.note(|| format!("index {idx:?}"));
            let p = attempt!("index", &v[&idx[..]] as *const T);
            ensure!(
                idx.len() == rank && idx.iter().zip(&dims).all(|(i, d)| i < d) && area.contains(p),
                "index {idx:?} of an array {dims:?} returns"
            );
            Ok(())
        }
        2 | 3 => {
            let k = extreme(&mut cx.src, v.len());
            cx.note(|| format!("flat index {k}"));
            let p = attempt!("flat index", &v[k] as *const T);
            ensure!((k as u128) < true_len(&dims) && area.contains(p), "flat index {k} of an array {dims:?} returns");
            Ok(())
        }
        4 => {
            cx.note(|| format!("axis_at({axis}, {i})"));
            let w = attempt!("axis_at", v.axis_at(axis, i).into_dyn());
            ensure!(axis < rank && i < size, "axis_at({axis}, {i}) of an array {dims:?} returns");
            next!("axis_at", w)
        }
        5 => {
            cx.note(|| format!("at({i})"));
            let i = extreme(&mut cx.src, dims.first().copied().unwrap_or(0));
            let w = attempt!("at", v.at(i).into_dyn());
            ensure!(rank > 0 && i < dims[0], "at({i}) of an array {dims:?} returns");
            next!("at", w)
        }
        6 | 7 => {
            cx.note(|| format!("split_axis_at({axis}, {i})"));
            let first = cx.src.flip();
            let (a, b) = attempt!("split_axis_at", {
                let (a, b) = v.split_axis_at(axis, i);
                (a.into_dyn(), b.into_dyn())
            });
            ensure!(axis < rank && i <= size, "split_axis_at({axis}, {i}) of an array {dims:?} returns");
            inside("split", &*a, area)?;
            inside("split", &*b, area)?;
            let other = places(&b);
            ensure!(
                places(&a).iter().all(|x| other.binary_search(x).is_err()),
                "split_axis_at({axis}, {i}) of an array {dims:?}: the parts overlap"
            );
            if first { next!("split", a) } else { next!("split", b) }
        }
        8 => {
            let p: Vec<usize> = match cx.src.below(3) {
                0 => (0..rank).map(|_| extreme(&mut cx.src, rank)).collect(),
                1 => vec![0; rank],
                _ => cx.src.perm(rank),
            };
            cx.note(|| format!("permute {p:?}"));
            let w = attempt!("permute", v.permute(&p[..]).into_dyn());
            next!("permute", w)
        }
        9 => {
            cx.note(|| "reorder".into());
            let w = attempt!("reorder", v.reorder().into_dyn());
            next!("reorder", w)
        }
        10 | 11 | 12 => {
            let r = cx.src.below(4);
            let n = v.len();
            let d: Vec<usize> = match cx.src.below(4) {
                0 => overflowing(&mut cx.src),
                1 => (0..r).map(|_| extreme(&mut cx.src, n)).collect(),
                2 => {
                    // With an inferred dimension.
                    let mut d: Vec<usize> = (0..r).map(|_| extreme(&mut cx.src, 3)).collect();
                    d.push(usize::MAX);
                    d
                }
                _ => {
                    // The right number of elements modulo 2^64.
                    let k = cx.src.range(1, 63);
                    vec![1 << k, (n >> k).wrapping_add(1 << (64 - k)), 1]
                }
            };
            cx.note(|| format!("reshape {d:?}"));
            let w = attempt!("reshape", v.reshape(&d[..]));
            let got = shape_dims(w.shape());
            ensure_eq!(got.len(), d.len(), "rank after reshape {d:?}");
            ensure_eq!(true_len(&got), true_len(&dims), "elements after reshape {d:?} of an array {dims:?}");
            next!("reshape", w)
        }
        13 => {
            cx.note(|| "flatten".into());
            let w = attempt!("flatten", v.flatten().into_dyn());
            ensure_eq!(true_len(&shape_dims(w.shape())), true_len(&dims), "elements after flatten of an array {dims:?}");
            next!("flatten", w)
        }
        14 | 15 => {
            cx.note(|| format!("lanes({axis})"));
            let e = attempt!("lanes", v.lanes(axis));
            let d = shape_dims(e.shape());
            let rest: Vec<usize> = (0..rank).filter(|&k| k != axis).map(|k| dims[k]).collect();
            ensure_eq!(d, rest, "dimensions of lanes({axis}) of an array {dims:?}");
            ensure!(true_len(&d) <= usize::MAX as u128, "lanes({axis}) of an array {dims:?}: more lanes than can be counted");
            let it = e.into_iter();
            ensure_eq!(it.len() as u128, true_len(&d), "number of lanes({axis}) of an array {dims:?}");
            for w in it.take(300) {
                inside("lane", &*w, area)?;
            }
            Ok(())
        }
        16 => {
            cx.note(|| format!("axis_expr({axis})"));
            let e = attempt!("axis_expr", v.axis_expr(axis));
            ensure_eq!(e.len(), size, "length of axis_expr({axis}) of an array {dims:?}");
            for w in e.into_iter().take(300) {
                inside("subarray of axis_expr", &*w, area)?;
            }
            Ok(())
        }
        17 => {
            cx.note(|| "rows and cols".into());
            for w in attempt!("rows", v.rows().into_iter()).take(300) {
                inside("row", &*w, area)?;
            }
            for w in attempt!("cols", v.cols().into_iter()).take(300) {
                inside("column", &*w, area)?;
            }
            Ok(())
        }
        18 => {
            if true_len(&dims) <= HUGE as u128 {
                cx.note(|| "copies".into());
                let t = v.to_tensor();
                inside("copy", &*t, Area::of(&*t))?;
                ensure_eq!(t.to_vec().len(), v.len(), "length of the copied vector");
                let t = expr::from_fn(v.shape().clone(), |_| 1u8).eval();
                ensure_eq!(t.into_iter().count(), v.len(), "length of the evaluated array");
            }
            Ok(())
        }
        19 => {
            cx.note(|| "remap".into());
            let w = attempt!("remap", v.remap::<DynRank, mdarray::Dense>());
            ensure_eq!(true_len(&shape_dims(w.shape())), true_len(&dims), "elements after remap of an array {dims:?}");
            next!("remap", w)
        }
        _ => {
            cx.note(|| "map and zip".into());
            if true_len(&dims) <= HUGE as u128 {
                let dynamic = v.clone().into_dyn();
                if rank > 1 && dims[0] > 0 {
                    let part = dynamic.axis_at(0, dims[0] - 1);
                    for (x, y) in dynamic.expr().zip(&part) {
                        ensure!(area.contains(x) && area.contains(y), "zip of an array {dims:?} with a part: an element is outside");
                    }
                    for (x, y) in part.expr().zip(&dynamic) {
                        ensure!(area.contains(x) && area.contains(y), "zip of a part with an array {dims:?}: an element is outside");
                    }
                }
                let a: usize = v.expr().map(|_| 1usize).fold(0, |a, x| a + x);
                ensure_eq!(a, v.len(), "elements of a mapped expression");
                let b: usize = v.expr().zip(v.expr()).fold(0, |a, _| a + 1);
                ensure_eq!(b, v.len(), "elements of a zipped expression");
            } else {
                let n = v.expr().zip(v.expr()).into_iter().len();
                ensure_eq!(n, v.len(), "length of a zipped expression");
            }
            Ok(())
        }
    }
}

/// Zipped operands of any rank and layout: a panic, or references to elements of the operands.
fn zipped<S: TestShape, R: TestShape, L: TestLayout, K: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut a, ga, _) = gen_array::<S, L>(cx, 200);
    // Mostly compatible.
    let db = if cx.src.chance(1, 8) {
        gen_dims::<R>(&mut cx.src, 60)
    } else {
        let mut d = gen_dims::<R>(&mut cx.src, 60);
        let n = d.len().min(ga.dims.len());
        let (i, j) = (d.len() - n, ga.dims.len() - n);
        d[i..].copy_from_slice(&ga.dims[j..]);
        if !fits::<R>(&d) || true_len(&d) > 2000 {
            return Ok(());
        }
        d
    };
    let gb = K::geo(&mut cx.src, &db);
    let b = Buf::new(gb.extent);
    cx.note(|| format!("{:?} strides {:?} with {:?} strides {:?}", ga.dims, ga.strides, gb.dims, gb.strides));
    let n = true_len(if ga.dims.len() < gb.dims.len() { &gb.dims } else { &ga.dims }) as usize;
    if n > 4000 {
        return Ok(());
    }
    let kind = cx.src.below(4);
    cx.note(|| format!("kind {kind}"));
    let vb = view::<R, K>(&b, &gb);
    let mut pb = places(&vb);
    pb.dedup();
    let mut count = 0;
    macro_rules! walk {
        ($e:expr, $ok:expr) => {{
            let Some(e) = caught(|| $e) else {
                cx.tag("panicked");
                return Ok(());
            };
            cx.tag("returned");
            let mut it = e.into_iter();
            // The iterator itself must not panic.
            while let Some(x) = it.next() {
                count += 1;
                ensure!(count <= n, "zip of {:?} and {:?}: more than {n} elements", ga.dims, gb.dims);
                let ok: Result<(), &str> = $ok(x);
                if let Err(e) = ok {
                    return Err(format!("zip of {:?} and {:?}: element {} is {e}", ga.dims, gb.dims, count - 1));
                }
            }
        }};
    }
    let has = |l: &[usize], x: &i32| l.binary_search(&(x as *const i32 as usize)).is_ok();
    match kind {
        0 | 1 => {
            let va = view::<S, L>(&a, &ga);
            let mut pa = places(&va);
            pa.dedup();
            let test = |(x, y): (&i32, &i32)| if has(&pa, x) && has(&pb, y) { Ok(()) } else { Err("outside its operand") };
            if kind == 0 { walk!(va.expr().zip(&vb), test) } else { walk!(vb.expr().zip(&va), |(y, x)| test((x, y))) }
        }
        2 => {
            // No element is given out twice mutably.
            let mut pa = places(&view::<S, L>(&a, &ga));
            pa.dedup();
            let mut seen = std::collections::HashSet::new();
            let mut va = view_mut::<S, L>(&mut a, &ga);
            walk!(va.expr_mut().zip(&vb), |(x, y): (&mut i32, &i32)| {
                if !has(&pa, x) || !has(&pb, y) {
                    Err("outside its operand")
                } else if !seen.insert(x as *mut i32 as usize) {
                    Err("given out twice")
                } else {
                    Ok(())
                }
            });
        }
        _ => {
            // Elements are moved out of one operand.
            let t: Tensor<Tr, S> = Tensor::from_fn(S::from_dims(&ga.dims), |_| Tr::make(5));
            let test = |(x, y): (Tr, &i32)| {
                if x.val() != 5 { Err("not an element") } else if !has(&pb, y) { Err("outside its operand") } else { Ok(()) }
            };
            if cx.src.flip() {
                walk!(t.into_expr().zip(&vb), test);
            } else {
                walk!(vb.expr().zip(t), |(y, x)| test((x, y)));
            }
            if let Some(e) = track::take_error() {
                return Err(e);
            }
        }
    }
    cx.nontrivial_if(count > 1);
    Ok(())
}

/// The parts of an array of any shape and layout have only elements of the array.
fn parts<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, _) = gen_array::<S, L>(cx, if cfg!(miri) { 16 } else { 120 });
    let rank = geo.dims.len();
    let n = true_len(&geo.dims) as usize;
    cx.nontrivial_if(n > 1);
    let mut own = places(&view::<S, L>(&buf, &geo));
    own.dedup();
    let op = cx.src.below(8);
    let axis = cx.src.below(rank.max(1));
    cx.note(|| format!("operation {op}, axis {axis}"));
    // Elements reached through all parts together, which are the distinct ones of the array.
    let mut seen = Vec::new();
    let mut count = 0usize;
    macro_rules! walk {
        ($what:expr, $v:expr, $($e:tt)*) => {{
            let mut v = $v;
            let Some(e) = caught(|| v.$($e)*) else {
                cx.tag("panicked");
                return Ok(());
            };
            cx.tag("returned");
            let mut it = e.into_iter();
            let mut left = it.len();
            while let Some(w) = it.next() {
                ensure!(left > 0, "{} of an array {:?}: more parts than reported", $what, geo.dims);
                left -= 1;
                for i in indices(&shape_dims(w.shape())) {
                    let p = w.as_ptr().wrapping_offset(
                        i.iter().enumerate().map(|(k, &i)| i as isize * w.stride(k)).sum::<isize>(),
                    ) as usize;
                    ensure!(own.binary_search(&p).is_ok(), "{} of an array {:?}: an element is outside the array", $what, geo.dims);
                    seen.push(p);
                }
                count += 1;
                ensure!(count <= 10_000, "{} of an array {:?}: too many parts", $what, geo.dims);
            }
            ensure_eq!(left, 0, "{} of an array {:?}: parts that were not visited", $what, geo.dims);
        }};
    }
    match op {
        0 | 1 => walk!("lanes", view::<S, L>(&buf, &geo), lanes(axis)),
        2 => walk!("mutable lanes", view_mut::<S, L>(&mut buf, &geo), lanes_mut(axis)),
        3 => walk!("subarrays of an axis", view::<S, L>(&buf, &geo), axis_expr(axis)),
        4 => walk!("mutable subarrays of an axis", view_mut::<S, L>(&mut buf, &geo), axis_expr_mut(axis)),
        5 => walk!("rows", view::<S, L>(&buf, &geo), rows()),
        6 => walk!("columns", view_mut::<S, L>(&mut buf, &geo), cols_mut()),
        _ => walk!("outer subarrays", view::<S, L>(&buf, &geo), outer_expr()),
    }
    // Mutable parts must not overlap.
    if own.len() == n {
        seen.sort_unstable();
        let all = seen.len();
        seen.dedup();
        ensure_eq!(seen.len(), all, "distinct elements of the parts of an array {:?}", geo.dims);
    }
    Ok(())
}

/// A consumed operand inside a combination that is combined with an array of more dimensions.
fn consumed<S: TestShape, R: TestShape>(cx: &mut Ctx) -> Res {
    let big = gen_dims::<R>(&mut cx.src, 60);
    let rank = if S::DYNRANK { cx.src.below(big.len() + 2) } else { S::PAT.len() };
    let mut small: Vec<usize> = (0..rank).map(|_| cx.src.range(1, 3)).collect();
    let k = rank.min(big.len());
    small[rank - k..].copy_from_slice(&big[big.len() - k..]);
    if !fits::<S>(&small) || true_len(&small) > 200 {
        return Ok(());
    }
    let n = true_len(if small.len() < big.len() { &big } else { &small }) as usize;
    let op = cx.src.below(8);
    cx.note(|| format!("consumed {small:?}, other {big:?}, operation {op}"));
    if n > 2000 {
        return Ok(());
    }
    let t: Tensor<Tr, S> = Tensor::from_fn(S::from_dims(&small), |_| Tr::make(5));
    let a: Tensor<i32, S> = Tensor::from_elem(S::from_dims(&small), 1);
    let b: Tensor<i32, R> = Tensor::from_elem(R::from_dims(&big), 2);
    let mut count = 0;
    macro_rules! walk {
        ($e:expr, $p:pat => $x:expr) => {{
            let Some(it) = caught(|| $e.into_iter()) else {
                cx.tag("panicked");
                let e = track::take_error();
                return if let Some(e) = e { Err(e) } else { Ok(()) };
            };
            cx.tag("returned");
            for $p in it {
                ensure_eq!($x.val(), 5, "element {count} of the consumed array");
                count += 1;
                ensure!(count <= n, "more than {n} elements");
            }
        }};
    }
    match op {
        0 => walk!(t.into_expr().zip(&a).zip(&b), ((x, _), _) => x),
        1 => walk!(a.expr().zip(t).zip(&b), ((_, x), _) => x),
        2 => walk!(b.expr().zip(t.into_expr().zip(&a)), (_, (x, _)) => x),
        3 => walk!(b.expr().zip(a.expr().zip(t)), (_, (_, x)) => x),
        4 => walk!(t.into_expr().map(|x| x).zip(&a).zip(&b), ((x, _), _) => x),
        5 => walk!(b.expr().zip(t.into_expr().map(|x| x).enumerate().map(|(_, x)| x)), (_, x) => x),
        6 => walk!(t.into_expr().zip(expr::fill(1)).zip(&b), ((x, _), _) => x),
        _ => walk!(t.into_expr().zip(&b), (x, _) => x),
    }
    cx.nontrivial_if(count > 1);
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn poke_dyn<T: Plain, L: Layout>(cx: &mut Ctx, v: View<T, DynRank, L>, area: Area, depth: usize) -> Res {
    poke(cx, v, area, depth)
}

fn views<T: Plain>(cx: &mut Ctx) -> Res {
    let rank = if cx.src.chance(1, 6) { cx.src.range(5, 7) } else { cx.src.below(5) };
    let dims = valid_dims::<T>(&mut cx.src, rank);
    let n = true_len(&dims) as usize;
    cx.note(|| format!("array {dims:?}"));
    cx.nontrivial_if(n > 1 || dims.iter().any(|&d| d > HUGE));
    let t: Tensor<T, DynRank> = match caught(|| Tensor::<T, (D,)>::from(storage::<T>(n)).into_shape(&dims[..])) {
        Some(t) => t,
        None => return Ok(()),
    };
    let area = Area::of(&*t);
    ensure_eq!(area.len, n, "length of the array");
    poke(cx, t.expr(), area, 3)
}

/// Subarrays with extreme ranges and steps, for static ranks.
fn subarrays<T: Plain>(cx: &mut Ctx) -> Res {
    let dims = valid_dims::<T>(&mut cx.src, 3);
    let n = true_len(&dims) as usize;
    cx.note(|| format!("array {dims:?}"));
    cx.nontrivial_if(n > 1 || dims.iter().any(|&d| d > HUGE));
    let t: Tensor<T, (D, D, D)> =
        match caught(|| Tensor::<T, (D,)>::from(storage::<T>(n)).into_shape([dims[0], dims[1], dims[2]])) {
            Some(t) => t,
            None => return Ok(()),
        };
    let area = Area::of(&*t);
    let v = t.expr();
    let mut arg = |cx: &mut Ctx, d: usize| {
        let (a, b) = if cx.src.flip() { (0, d) } else { (extreme(&mut cx.src, d), extreme(&mut cx.src, d)) };
        let k = if cx.src.flip() { cx.src.irange(-3, 3) } else { extreme_step(&mut cx.src, d) };
        (a, b, k)
    };
    let (a, b, c) = (arg(cx, dims[0]), arg(cx, dims[1]), arg(cx, dims[2]));
    let ok = |(a, b, _): (usize, usize, isize), d: usize| a <= b && b <= d;
    let oks = |(a, b, k): (usize, usize, isize), d: usize| a <= b && b <= d && k != 0;
    cx.note(|| format!("arguments {a:?} {b:?} {c:?}"));
    let op = cx.src.below(8);
    cx.note(|| format!("form {op}"));
    let fit = match op {
        0 => ok(a, dims[0]) && ok(b, dims[1]) && ok(c, dims[2]),
        1 => oks(a, dims[0]) && oks(b, dims[1]) && oks(c, dims[2]),
        2 => a.0 < dims[0] && ok(b, dims[1]) && oks(c, dims[2]),
        3 => a.1 <= dims[0] && b.0 <= dims[1] && c.0 < dims[2],
        4 => oks(a, dims[0]) && b.0 < dims[1],
        5 => a.0 < dims[0] && b.0 < dims[1] && c.0 < dims[2],
        6 => a.0 <= dims[0] && b.1 < dims[1] && c.1 <= dims[2],
        _ => true,
    };
    macro_rules! run {
        ($e:expr) => {
            match caught(|| $e) {
                Some(w) => {
                    cx.tag("returned");
                    ensure!(fit, "a subarray of {dims:?} with arguments {a:?} {b:?} {c:?} in form {op} is returned");
                    inside("subarray", &*w, area)?;
                    w
                }
                None => {
                    cx.tag("panicked");
                    return Ok(());
                }
            }
        };
    }
    match op {
        0 => {
            let w = run!(v.view(a.0..a.1, b.0..b.1, c.0..c.1)).into_dyn();
            poke(cx, w, area, 2)
        }
        1 => {
            let w = run!(v.view(step(a.0..a.1, a.2), step(b.0..b.1, b.2), step(c.0..c.1, c.2))).into_dyn();
            poke(cx, w, area, 2)
        }
        2 => {
            let w = run!(v.view(a.0, b.0..b.1, step(c.0..c.1, c.2))).into_dyn();
            poke(cx, w, area, 2)
        }
        3 => {
            let w = run!(v.view(..a.1, b.0.., c.0)).into_dyn();
            poke(cx, w, area, 2)
        }
        4 => {
            let w = run!(v.view(step(a.0..a.1, a.2), b.0, ..)).into_dyn();
            poke(cx, w, area, 2)
        }
        5 => {
            let w = run!(v.view(a.0, b.0, c.0)).into_dyn();
            poke(cx, w, area, 2)
        }
        6 => {
            let w = run!(v.view(a.0.., ..=b.1, (Bound::Unbounded, Bound::Excluded(c.1)))).into_dyn();
            poke(cx, w, area, 2)
        }
        _ => {
            // Diagonals, rows and columns of a matrix.
            let (m, k) = (dims[0], dims[1]);
            let w = match caught(|| v.axis_at(Const::<2>, c.0)) {
                Some(w) => w,
                None => return Ok(()),
            };
            inside("axis_at", &*w, area)?;
            let d = if cx.src.flip() { extreme_step(&mut cx.src, m) } else { a.0 as isize };
            cx.note(|| format!("diag({d}), row({}), col({})", a.0, b.0));
            if let Some(x) = caught(|| w.diag(d)) {
                let fits = if d >= 0 { d as usize <= k } else { d.unsigned_abs() <= m };
                ensure!(fits, "diag({d}) of an array {m} x {k} returns");
                inside("diagonal", &*x, area)?;
            }
            if let Some(x) = caught(|| w.row(a.0)) {
                ensure!(a.0 < m, "row({}) of an array {m} x {k} returns", a.0);
                inside("row", &*x, area)?;
            }
            if let Some(x) = caught(|| w.col(b.0)) {
                ensure!(b.0 < k, "col({}) of an array {m} x {k} returns", b.0);
                inside("column", &*x, area)?;
            }
            Ok(())
        }
    }
}

/// Flat ranges with extreme bounds.
fn ranges<T: Plain>(cx: &mut Ctx) -> Res {
    let dims = valid_dims::<T>(&mut cx.src, 2);
    let n = true_len(&dims) as usize;
    let t: Tensor<T, (D, D)> = match caught(|| Tensor::<T, (D,)>::from(storage::<T>(n)).into_shape([dims[0], dims[1]])) {
        Some(t) => t,
        None => return Ok(()),
    };
    let area = Area::of(&*t);
    let (a, b) = (extreme(&mut cx.src, n), extreme(&mut cx.src, n));
    cx.note(|| format!("array {dims:?}, flat range {a}..{b}"));
    cx.nontrivial_if(n > 1);
    let (r, want) = match cx.src.below(6) {
        0 => (caught(|| &t[a..b]), if a <= b && b <= n { Some(b - a) } else { None }),
        1 => (caught(|| &t[a..]), if a <= n { Some(n - a) } else { None }),
        2 => (caught(|| &t[..b]), if b <= n { Some(b) } else { None }),
        3 => (caught(|| &t[..=b]), if b < n { Some(b + 1) } else { None }),
        4 => (caught(|| &t[a..=b]), if b < n && a <= b + 1 { Some(b + 1 - a) } else { None }),
        _ => (caught(|| &t[..]), Some(n)),
    };
    match (r, want) {
        (Some(s), Some(k)) => {
            ensure_eq!(s.len(), k, "length of the flat range");
            if k <= HUGE {
                for x in s {
                    ensure!(area.contains(x as *const T), "an element of the flat range is outside the storage");
                    std::hint::black_box(*x);
                }
            }
        }
        (Some(_), None) => return Err(format!("flat range {a}..{b} of {n} elements returns")),
        _ => (),
    }
    Ok(())
}

thread_local! {
    static MADE: Cell<usize> = const { Cell::new(0) };
}

/// Element whose clones are counted, so that an endless loop ends.
#[derive(Debug, PartialEq)]
struct Counted(u64);

fn made() {
    MADE.with(|m| {
        m.set(m.get() + 1);
        if m.get() > 3000 {
            panic!("too many elements");
        }
    })
}

impl Clone for Counted {
    fn clone(&self) -> Self {
        made();
        Counted(self.0)
    }
}

#[derive(Debug, PartialEq)]
struct CountedZst;

impl Clone for CountedZst {
    fn clone(&self) -> Self {
        made();
        CountedZst
    }
}

/// Sizes whose element count is not representable: never an array.
fn overflow(cx: &mut Ctx) -> Res {
    let d = overflowing(&mut cx.src);
    let op = cx.src.below(17);
    cx.note(|| format!("dimensions {d:?}, operation {op}"));
    cx.nontrivial = true;
    MADE.with(|m| m.set(0));
    let limit = || {
        made();
        3u64
    };
    let what = || format!("operation {op} with dimensions {d:?}");
    match op {
        0 => must_panic(what, || Tensor::<u64, DynRank>::from_fn(&d[..], |_| limit()).len())?,
        1 => must_panic(what, || Tensor::<Counted, DynRank>::from_elem(&d[..], Counted(1)).len())?,
        2 => must_panic(what, || Tensor::<CountedZst, DynRank>::from_elem(&d[..], CountedZst).len())?,
        3 => must_panic(what, || Tensor::<CountedZst, DynRank>::from_fn(&d[..], |_| CountedZst.clone()).len())?,
        4 => must_panic(what, || expr::from_fn(&d[..], |_| limit()).eval().len())?,
        5 => must_panic(what, || expr::from_elem(&d[..], Counted(1)).eval().len())?,
        6 => must_panic(what, || expr::from_elem(&d[..], 1u8).len())?,
        7 => must_panic(what, || expr::from_fn(&d[..], |_| 1u8).len())?,
        8 | 9 => {
            // Resize: the array stays valid.
            let old = gen_rank_dims(&mut cx.src, d.len(), 20);
            let n = product(&old);
            let mut t: Tensor<u64, DynRank> = Tensor::<u64, (D,)>::from((0..n as u64).collect::<Vec<_>>()).into_shape(&old[..]);
            must_panic(what, || if op == 8 { t.resize_with(&d, limit) } else { t.resize(&d, 5) })?;
            let got = shape_dims(t.shape());
            ensure_eq!(true_len(&got), t.len() as u128, "length after a rejected resize to {d:?}");
            let v = t.into_vec();
            ensure!(v.len() <= n, "length after a rejected resize to {d:?}");
            std::hint::black_box(v.iter().sum::<u64>());
        }
        10 => {
            let mut t: Tensor<CountedZst, DynRank> = Tensor::from_elem(&vec![1; d.len()][..], CountedZst);
            must_panic(what, || t.resize(&d, CountedZst))?;
        }
        11 => {
            // The wrapped product equals the number of elements.
            let n = d.iter().fold(1usize, |a, &x| a.wrapping_mul(x));
            if n < 1000 {
                let t = Tensor::<u64, (D,)>::from(vec![7u64; n]);
                must_panic(what, || t.into_shape(&d[..]).len())?;
                let t = Tensor::<u64, (D,)>::from(vec![7u64; n]);
                must_panic(what, || t.reshape(&d[..]).len())?;
            }
        }
        12 => {
            // Expansion beyond the largest length.
            let n = usize::MAX - cx.src.below(3);
            let mut t = Tensor::<(), (D,)>::from(storage::<()>(n));
            let add = cx.src.range(0, 4);
            let r = caught(|| t.expand(expr::from_elem([add], ())));
            let sum = n as u128 + add as u128;
            ensure!(r.is_none() || sum <= usize::MAX as u128, "an array of {n} elements was expanded by {add}");
            let len = t.len() as u128;
            ensure!(len == n as u128 || len == sum || len == 0, "length {len} after expansion of {n} elements by {add}");
        }
        13 => {
            let k = *cx.src.pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize, usize::MAX / 8 + 1, (1 << 60) + 1]);
            let mut t = Tensor::<u64, (D,)>::from(vec![3u64; 5]);
            ensure!(t.try_reserve(k).is_err(), "try_reserve({k}) succeeds");
            ensure!(t.try_reserve_exact(k).is_err(), "try_reserve_exact({k}) succeeds");
            must_panic(|| format!("reserve({k})"), || t.reserve(k))?;
            must_panic(|| format!("reserve_exact({k})"), || t.reserve_exact(k))?;
            must_panic(|| format!("with_capacity({k})"), || Tensor::<u64, (D,)>::with_capacity(k).len())?;
            agree_vals("array after rejected reservations", &*t, &[5], &[3u64; 5])?;
            t.shrink_to(k);
            t.truncate(k);
            agree_vals("array after shrink_to and truncate", &*t, &[5], &[3u64; 5])?;
        }
        14 => {
            // A filled expression broadcast to overflowing sizes.
            must_panic(what, || expr::fill(Counted(2)).zip(expr::from_elem(&d[..], Counted(1))).map(|(x, _)| x).eval().len())?;
        }
        15 => {
            let mut t = Tensor::<Counted, DynRank>::from_elem(&[0, 2][..], Counted(1));
            must_panic(what, || t.expand(expr::from_elem(&d[..], Counted(1))))?;
            ensure_eq!(t.len(), 0, "length after a rejected expansion");
        }
        _ => {
            must_panic(what, || {
                let t: Tensor<u64, DynRank> = expr::from_elem(&d[..], 1u64).into_iter().collect::<Tensor<u64, (D,)>>().into_dyn();
                t.len()
            })?;
        }
    }
    Ok(())
}

type Big = Const<{ 1 << 32 }>;
type Most = Const<{ usize::MAX }>;

/// Constant sizes whose element count is not representable.
fn constant(cx: &mut Ctx) -> Res {
    type A2 = (Big, Big);
    type A3 = (Const<2>, Most, Const<3>);
    let op = cx.src.below(16);
    cx.note(|| format!("operation {op}"));
    cx.nontrivial = true;
    MADE.with(|m| m.set(0));
    let what = || format!("operation {op} with constant sizes that overflow");
    let z2: [[(); 1 << 32]; 1 << 32] = [[(); 1 << 32]; 1 << 32];
    let z3: [[[(); 3]; usize::MAX]; 2] = [[[(); 3]; usize::MAX]; 2];
    match op {
        0 => must_panic(what, || Array::<CountedZst, A2>::from_elem(CountedZst).len())?,
        1 => must_panic(what, || Array::<CountedZst, A2>::from_fn(|_| CountedZst.clone()).len())?,
        2 => must_panic(what, || Array::<CountedZst, A3>::from_fn(|_| CountedZst.clone()).len())?,
        3 => must_panic(what, || View::<(), A2>::from(&z2).len())?,
        4 => must_panic(what, || View::<(), A3>::from(&z3).len())?,
        5 => must_panic(what, || View::<(), (D, D)>::from(&z2).len())?,
        6 => {
            let mut z = z2;
            must_panic(what, || ViewMut::<(), (D, D)>::from(&mut z).len())?
        }
        7 => {
            let mut z = z3;
            must_panic(what, || ViewMut::<(), A3>::from(&mut z).len())?
        }
        8 => must_panic(what, || Tensor::<(), (D, D)>::from(z2).len())?,
        9 => must_panic(what, || Tensor::<(), A3>::from(z3).len())?,
        10 => must_panic(what, || expr::from_elem(A2::default(), CountedZst).eval())?,
        11 => must_panic(what, || expr::from_fn(A3::default(), |_| CountedZst.clone()).eval())?,
        12 => must_panic(what, || Tensor::<CountedZst, A2>::from_elem(A2::default(), CountedZst).len())?,
        13 => must_panic(what, || Tensor::<u64, A2>::from_fn(A2::default(), |_| { made(); 1 }).len())?,
        14 => {
            let a = Array::<(), A2>::from(z2);
            must_panic(what, || a.expr().len())?;
        }
        _ => must_panic(what, || Tensor::<(), A2>::from(&z2).len())?,
    }
    Ok(())
}

/// Values that are leaked instead of dropped, at any point of their use.
fn leaked<T: Elem>(cx: &mut Ctx) -> Res {
    let dims = gen_rank_dims(&mut cx.src, 2, 24);
    let n = product(&dims);
    cx.note(|| format!("array {dims:?}"));
    cx.nontrivial_if(n > 1);
    let make = || -> Tensor<T, (D, D)> {
        Tensor::<T, (D,)>::from((0..n).map(|k| T::make(k as i64)).collect::<Vec<_>>()).into_shape([dims[0], dims[1]])
    };
    let mut t = make();
    for _ in 0..cx.src.range(1, 3) {
        let take = cx.src.below(n + 2);
        let op = cx.src.below(7);
        cx.note(|| format!("operation {op}, {take} elements taken"));
        match op {
            0 | 1 | 2 => {
                let r = gen_range(&mut cx.src, t.dim(0));
                if let Some(e) = caught(|| t.drain(r)) {
                    if op == 0 {
                        mem::forget(e);
                    } else {
                        let mut it = e.into_iter();
                        for _ in 0..take {
                            match it.next() {
                                Some(x) => {
                                    std::hint::black_box(x.val());
                                }
                                None => break,
                            }
                        }
                        mem::forget(it);
                    }
                }
            }
            3 => {
                let mut it = make().into_iter();
                for _ in 0..take {
                    drop(it.next());
                }
                mem::forget(it);
            }
            4 => {
                let mut it = t.iter_mut();
                for _ in 0..take {
                    if let Some(x) = it.next() {
                        x.set(-5);
                    }
                }
                mem::forget(it);
            }
            5 => {
                let mut it = make().into_expr().zip(make().into_expr()).into_iter();
                for _ in 0..take {
                    drop(it.next());
                }
                mem::forget(it);
            }
            _ => {
                // A moved-out array in an evaluation that is leaked half way.
                let mut left = take;
                let e = make().into_expr().map(|x| {
                    if left == 0 {
                        panic!("stop");
                    }
                    left -= 1;
                    mem::ManuallyDrop::new(x)
                });
                let _ = caught(|| mem::forget(e.eval()));
            }
        }
        // The array is still valid: every element is live and the dimensions agree.
        let (d, _) = read_valid("array after a leak", &t)?;
        ensure_eq!(true_len(&d), t.len() as u128, "length after a leak");
        ensure!(t.capacity() >= t.len(), "capacity after a leak");
        if let Some(e) = track::take_error() {
            return Err(e);
        }
        // It can be changed.
        match cx.src.below(4) {
            0 => t.resize(&[2, 3], T::make(50)),
            1 => t.clear(),
            2 => {
                if d[1] == dims[1] {
                    let mut m = make();
                    t.append(&mut m);
                }
            }
            _ => (),
        }
        read_valid("array after a leak and a change", &t)?;
    }
    drop(t);
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Bounds that change from call to call.
#[derive(Clone, Debug)]
struct Fickle {
    starts: Vec<usize>,
    ends: Vec<usize>,
    calls: (Cell<usize>, Cell<usize>),
}

impl RangeBounds<usize> for Fickle {
    fn start_bound(&self) -> Bound<&usize> {
        let k = self.calls.0.get();
        self.calls.0.set(k + 1);
        Bound::Included(&self.starts[k % self.starts.len()])
    }
    fn end_bound(&self) -> Bound<&usize> {
        let k = self.calls.1.get();
        self.calls.1.set(k + 1);
        Bound::Excluded(&self.ends[k % self.ends.len()])
    }
}

fn fickle(cx: &mut Ctx) -> Res {
    let n = cx.src.below(12);
    let mut f = |cx: &mut Ctx| -> Vec<usize> {
        (0..3).map(|_| if cx.src.chance(1, 4) { extreme(&mut cx.src, n) } else { cx.src.below(n + 1) }).collect()
    };
    let r = Fickle { starts: f(cx), ends: f(cx), calls: Default::default() };
    let k = extreme_step(&mut cx.src, n);
    cx.note(|| format!("{n} elements, bounds {:?} and {:?}, step {k}", r.starts, r.ends));
    cx.nontrivial_if(n > 1);
    let mut t = Tensor::<Tr, (D,)>::from((0..n).map(|k| Tr::make(k as i64)).collect::<Vec<_>>());
    let u = Tensor::<u32, (D,)>::from((0..n as u32).collect::<Vec<_>>());
    if let Some(v) = caught(|| u.view(step(r.clone(), k))) {
        inside("stepped view", &*v, Area::of(&*u))?;
    }
    let got = caught(|| t.drain(r)).map(|d| d.into_iter().count());
    if let Some(got) = got {
        ensure!(got <= n, "{got} of {n} elements drained");
        ensure_eq!(t.len(), n - got, "elements after draining {got} of {n}");
    }
    read_valid("array after drain", &t)?;
    drop(t);
    ensure_eq!(track::live(), 0, "live elements");
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Iterators with wrong size hints.
struct Liar {
    left: usize,
    hint: (usize, Option<usize>),
}

impl Iterator for Liar {
    type Item = Tr;
    fn next(&mut self) -> Option<Tr> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(Tr::make(self.left as i64))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

impl ExactSizeIterator for Liar {
    fn len(&self) -> usize {
        self.hint.0
    }
}

fn liars(cx: &mut Ctx) -> Res {
    let n = cx.src.below(20);
    let mut mk = |cx: &mut Ctx| {
        let h = *cx.src.pick(&[0, 1, n / 2, n, n + 1, 2 * n + 9]);
        let up = if cx.src.flip() { None } else { Some(h) };
        Liar { left: n, hint: (h, up) }
    };
    let (a, b) = (mk(cx), mk(cx));
    cx.note(|| format!("{n} elements, hints {:?} and {:?}", a.hint, b.hint));
    cx.nontrivial_if(n > 1);
    let want: Vec<i64> = (0..n as i64).rev().collect();
    let mut t: Tensor<Tr, (D,)> = a.collect();
    ensure_eq!(read_valid("collected", &t)?, (vec![n], want.clone()), "collected elements");
    t.extend(b);
    ensure_eq!(read_valid("extended", &t)?, (vec![2 * n], [&want[..], &want[..]].concat()), "extended elements");
    drop(t);
    ensure_eq!(track::live(), 0, "live elements");
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Tracked element with a large alignment.
#[derive(Clone, Debug, PartialEq)]
#[repr(align(128))]
struct Al(Tr);

impl Elem for Al {
    const ZST: bool = false;
    fn make(val: i64) -> Self {
        Al(Tr::make(val))
    }
    fn val(&self) -> i64 {
        if self as *const _ as usize % 128 != 0 {
            return i64::MIN + 1;
        }
        self.0.val()
    }
    fn set(&mut self, val: i64) {
        self.0.set(val)
    }
}

/// Histories of growable arrays under the checking allocator.
fn histories<T: Elem, S: TestShape>(cx: &mut Ctx) -> Res {
    let (max, steps) = if cfg!(miri) { (8, 4) } else { (30, 10) };
    let w = history::<T, S>(cx, 0, max, steps)?;
    cx.nontrivial_if(w.weighty >= 2);
    drop(w);
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Histories with panics in clones, destructors and functions: everything stays valid.
fn faulty<T: Elem, S: TestShape>(cx: &mut Ctx) -> Res {
    let (max, steps) = if cfg!(miri) { (8, 4) } else { (24, 8) };
    let mask = if cx.src.chance(1, 3) { CLONE | CALL | DROP } else { CLONE | CALL };
    let mut w = history::<T, S>(cx, mask, max, steps)?;
    cx.nontrivial_if(w.fired);
    w.faults = 0;
    w.verify_all("at the end")?;
    w.step(cx)?;
    drop(w);
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn faulty_arrays<T: Elem>(cx: &mut Ctx) -> Res {
    let mask = if cx.src.chance(1, 3) { CLONE | CALL | DROP } else { CLONE | CALL };
    let mut f = Faults { mask, ..Default::default() };
    match cx.src.below(4) {
        0 => array_op::<T, (C3,)>(cx, &mut f)?,
        1 => array_op::<T, (C2, C3, C2)>(cx, &mut f)?,
        2 => array_op::<T, (C2, C1, C2, C3, C1)>(cx, &mut f)?,
        _ => nested_op::<T>(cx, &mut f)?,
    }
    cx.nontrivial_if(f.fired);
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn inline_arrays<T: Elem>(cx: &mut Ctx) -> Res {
    let mut f = Faults::default();
    match cx.src.below(4) {
        0 => array_op::<T, (C3,)>(cx, &mut f)?,
        1 => array_op::<T, (C2, C3)>(cx, &mut f)?,
        2 => array_op::<T, (C3, C0)>(cx, &mut f)?,
        _ => nested_op::<T>(cx, &mut f)?,
    }
    match track::take_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn main() {
    let mut s = Subs::default();
    s.add("views u32", 6, |cx| tolerant(cx, views::<u32>));
    s.add("views ()", 6, |cx| tolerant(cx, views::<()>));
    s.add("views Wide", 2, |cx| tolerant(cx, views::<Wide>));
    s.add("subarrays u32", 4, |cx| tolerant(cx, subarrays::<u32>));
    s.add("subarrays ()", 4, |cx| tolerant(cx, subarrays::<()>));
    s.add("ranges u32", 1, |cx| tolerant(cx, ranges::<u32>));
    s.add("ranges ()", 1, |cx| tolerant(cx, ranges::<()>));
    macro_rules! zip {
        ($w:expr, $s:ty, $r:ty) => {
            s.add(concat!("zip dense ", stringify!($s), " strided ", stringify!($r)), $w, zipped::<$s, $r, mdarray::Dense, mdarray::Strided>);
            s.add(concat!("zip strided ", stringify!($s), " dense ", stringify!($r)), $w, zipped::<$s, $r, mdarray::Strided, mdarray::Dense>);
            s.add(concat!("zip strided ", stringify!($s), " strided ", stringify!($r)), $w, zipped::<$s, $r, mdarray::Strided, mdarray::Strided>);
        };
    }
    zip!(1, (D, D, D), (D, D));
    zip!(1, (D, D), (D, D, D, D));
    zip!(1, (D, D, D, D, D), (D, D, D));
    zip!(1, DynRank, DynRank);
    macro_rules! part {
        ($w:expr, $s:ty) => {
            s.add(concat!("parts dense ", stringify!($s)), $w, parts::<$s, mdarray::Dense>);
            s.add(concat!("parts strided ", stringify!($s)), $w, parts::<$s, mdarray::Strided>);
        };
    }
    part!(1, (D, D));
    part!(1, (D, D, D));
    part!(1, (D, D, D, D));
    part!(1, (D, D, D, D, D));
    part!(1, DynRank);
    s.add("consumed (D,) (D, D)", 1, consumed::<(D,), (D, D)>);
    s.add("consumed (D, D) (D, D, D, D)", 1, consumed::<(D, D), (D, D, D, D)>);
    s.add("consumed DynRank DynRank", 1, consumed::<DynRank, DynRank>);
    s.add("overflow", 4, overflow);
    s.add("constant", 1, constant);
    s.add("leaked Tr", 2, leaked::<Tr>);
    s.add("leaked Bx", 1, leaked::<Bx>);
    s.add("leaked Zt", 1, leaked::<Zt>);
    s.add("fickle ranges", 2, |cx| tolerant(cx, fickle));
    s.add("wrong size hints", 1, liars);
    s.add("history Al (D, D)", 1, histories::<Al, (D, D)>);
    s.add("history Al DynRank", 1, histories::<Al, DynRank>);
    s.add("history Bx (D,)", 1, histories::<Bx, (D,)>);
    s.add("inline arrays Al", 1, inline_arrays::<Al>);
    s.add("faults Tr (D,)", 1, faulty::<Tr, (D,)>);
    s.add("faults Tr (D, D)", 1, faulty::<Tr, (D, D)>);
    s.add("faults Tr DynRank", 1, faulty::<Tr, DynRank>);
    s.add("faults Bx (D, C3)", 1, faulty::<Bx, (D, C3)>);
    s.add("faults in inline arrays Tr", 1, faulty_arrays::<Tr>);
    s.add("faults in inline arrays Bx", 1, faulty_arrays::<Bx>);
    harness::main(Property {
        id: "C14",
        rule: "the array has at least two elements or an extreme dimension, or the history changed a non-empty array at least twice",
        subs: s.0,
    });
}
