//! C01: element access by index.
use harness::*;
use mdarray::*;
use std::ops::Bound;

fn bad_index(src: &mut Src, dims: &[usize]) -> Vec<usize> {
    let mut idx: Vec<usize> =
        dims.iter().map(|&d| if d > 0 { src.below(d) } else { 0 }).collect();
    let i = src.below(dims.len());
    idx[i] = match src.below(4) {
        0 | 1 => dims[i],
        2 => dims[i] + src.range(1, 3),
        _ => usize::MAX - src.below(2),
    };
    idx
}

fn gen_bounds(src: &mut Src, len: usize) -> (Bound<usize>, Bound<usize>) {
    let mut one = |src: &mut Src| {
        let v = if src.chance(1, 12) { usize::MAX } else { src.range(0, len + 1) };
        match src.below(3) {
            0 => Bound::Included(v),
            1 => Bound::Excluded(v),
            _ => Bound::Unbounded,
        }
    };
    (one(src), one(src))
}

/// Reads through a shared view or slice.
fn read<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (buf, geo, m) = gen_array::<S, L>(cx, 400);
    let v = view::<S, L>(&buf, &geo);
    cx.nontrivial_if(m.len() > 1);
    agree("multi-index", &v, buf.ptr(), &m)?;
    let s: &Slice<i32, S, L> = &v;
    for k in 0..m.len() {
        ensure_eq!(rel(&s[k], buf.ptr()), m.pos[k], "flat index {k}");
        ensure_eq!(rel(&v[k], buf.ptr()), m.pos[k], "flat index {k} of the view");
        ensure_eq!(s[k], buf.get(m.pos[k]), "value at flat index {k}");
        ensure_eq!(rel(unsafe { s.get_unchecked(k) }, buf.ptr()), m.pos[k], "unchecked flat index {k}");
    }
    for idx in indices(&m.dims) {
        ensure_eq!(rel(unsafe { s.get_unchecked(&idx[..]) }, buf.ptr()), m.at(&idx), "unchecked {idx:?}");
        ensure_eq!(rel(&v[&idx[..]], buf.ptr()), m.at(&idx), "index {idx:?} of the view");
    }
    // Rejected indices.
    for k in [m.len(), m.len() + 1, m.len() + cx.src.range(0, 300), usize::MAX] {
        must_panic(|| format!("flat index {k} of length {}", m.len()), || s[k])?;
        must_panic(|| format!("flat index {k} of length {}", m.len()), || v[k])?;
    }
    if m.rank() > 0 {
        for _ in 0..4 {
            let idx = bad_index(&mut cx.src, &m.dims);
            must_panic(|| format!("index {idx:?} with dimensions {:?}", m.dims), || s[&idx[..]])?;
            cx.tag("out-of-bounds index");
        }
    }
    for rank in 0..m.rank() + 3 {
        if rank != m.rank() {
            let idx = vec![0; rank];
            must_panic(|| format!("index {idx:?} with rank {}", m.rank()), || s[&idx[..]])?;
        }
    }
    Ok(())
}

/// Fixed-size index arrays.
fn index_array<const N: usize, S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 120);
    cx.nontrivial_if(m.len() > 1);
    let base = buf.ptr();
    for idx in indices(&m.dims) {
        let idx: [usize; N] = idx[..].try_into().unwrap();
        let v = view::<S, L>(&buf, &geo);
        ensure_eq!(rel(&v[idx], base), m.at(&idx), "index {idx:?}");
        ensure_eq!(rel(unsafe { v.get_unchecked(idx) }, base), m.at(&idx), "unchecked index {idx:?}");
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        ensure_eq!(rel(&mut v[idx] as *mut i32 as *const i32, base), m.at(&idx), "mutable index {idx:?}");
        let p = unsafe { v.get_unchecked_mut(idx) } as *mut i32;
        ensure_eq!(rel(p as *const i32, base), m.at(&idx), "unchecked mutable index {idx:?}");
    }
    if N > 0 {
        for _ in 0..3 {
            let idx = bad_index(&mut cx.src, &m.dims);
            let idx: [usize; N] = idx[..].try_into().unwrap();
            let v = view::<S, L>(&buf, &geo);
            must_panic(|| format!("index {idx:?} with dimensions {:?}", m.dims), || v[idx])?;
            let mut v = view_mut::<S, L>(&mut buf, &geo);
            must_panic(|| format!("mutable index {idx:?} with dimensions {:?}", m.dims), || v[idx] = 0)?;
        }
    }
    let v = view::<S, L>(&buf, &geo);
    must_panic(|| "index with too high rank".into(), || v[[0; 7]])?;
    if N != 2 {
        must_panic(|| "index with rank 2".into(), || v[[0, 0]])?;
    }
    if N != 1 {
        must_panic(|| "index with rank 1".into(), || v[[0]])?;
    }
    Ok(())
}

/// Writes change exactly the indexed element.
fn write<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    cx.nontrivial_if(m.len() > 1);
    let mut expect = buf.clone();
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        for step in 0..cx.src.range(1, 8) {
            let new = -(step as i32) - 1;
            if m.len() == 0 {
                break;
            }
            let k = cx.src.below(m.len());
            let idx = indices(&m.dims)[k].clone();
            let how = cx.src.below(6);
            cx.note(|| format!("write {how} at {idx:?}"));
            match how {
                0 => v[&idx[..]] = new,
                1 => v[k] = new,
                2 => {
                    let s: &mut Slice<i32, S, L> = &mut v;
                    s[&idx[..]] = new;
                }
                3 => {
                    let s: &mut Slice<i32, S, L> = &mut v;
                    s[k] = new;
                }
                4 => unsafe { *v.get_unchecked_mut(&idx[..]) = new },
                _ => unsafe { *v.get_unchecked_mut(k) = new },
            }
            expect.set(m.pos[k], new);
            ensure_eq!(v[k], new, "value read back");
        }
        // Rejected indices, with no effect.
        let s: &mut Slice<i32, S, L> = &mut v;
        for k in [m.len(), m.len() + cx.src.range(1, 40), usize::MAX] {
            must_panic(|| format!("flat write to {k} of length {}", m.len()), || s[k] = 0)?;
        }
        if m.rank() > 0 {
            for _ in 0..3 {
                let idx = bad_index(&mut cx.src, &m.dims);
                must_panic(|| format!("write to {idx:?} with dimensions {:?}", m.dims), || {
                    s[&idx[..]] = 0
                })?;
            }
        }
        for rank in [m.rank() + 1, m.rank().wrapping_sub(1)] {
            if rank < 20 {
                let idx = vec![0; rank];
                must_panic(|| format!("write to {idx:?} with rank {}", m.rank()), || s[&idx[..]] = 0)?;
            }
        }
    }
    ensure_eq!(buf, expect, "buffer after the writes");
    Ok(())
}

/// Flat ranges of dense arrays behave as on a slice with the elements in row-major order.
fn ranges<S: TestShape>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, Dense>(cx, 200);
    let base = buf.ptr();
    let n = m.len();
    cx.nontrivial_if(n > 1);
    let reference: Vec<i32> = (0..n).map(|k| buf.get(k as isize)).collect();
    for _ in 0..6 {
        let (a, b) = (cx.src.range(0, n + 1), cx.src.range(0, n + 1));
        let kind = cx.src.below(7);
        cx.note(|| format!("range kind {kind} {a} {b}"));
        macro_rules! go {
            ($r:expr, $s:expr) => {{
                let r = $r;
                let want = caught(|| reference[$s].to_vec());
                let v = view::<S, Dense>(&buf, &geo);
                let got = caught(|| (v[r.clone()].to_vec(), rel(v[r.clone()].as_ptr(), base)));
                ensure_eq!(got.as_ref().map(|g| &g.0), want.as_ref(), "range {:?}", $s);
                if let (Some(g), Some(w)) = (&got, &want) {
                    if !w.is_empty() {
                        ensure_eq!(buf.get(g.1), w[0], "address of range {:?}", $s);
                        let u = unsafe { v.get_unchecked(r.clone()) };
                        ensure_eq!(u, &w[..], "unchecked range {:?}", $s);
                        cx.tag("accepted range");
                    }
                } else {
                    cx.tag("rejected range");
                }
                let mut v = view_mut::<S, Dense>(&mut buf, &geo);
                let got = caught(|| {
                    let s = &mut v[r.clone()];
                    let out = s.to_vec();
                    for x in s.iter_mut() {
                        *x = -*x;
                    }
                    out
                });
                ensure_eq!(got.as_ref(), want.as_ref(), "mutable range {:?}", $s);
                if want.is_some() {
                    let s = unsafe { v.get_unchecked_mut(r.clone()) };
                    for x in s.iter_mut() {
                        *x = -*x;
                    }
                }
            }};
        }
        match kind {
            0 => go!(a..b, a..b),
            1 => go!(a.., a..),
            2 => go!(.., ..),
            3 => go!(a..=b, a..=b),
            4 => go!(..b, ..b),
            5 => go!(..=b, ..=b),
            _ => {
                let r = gen_bounds(&mut cx.src, n);
                go!(r, r)
            }
        }
        let now: Vec<i32> = (0..n).map(|k| buf.get(k as isize)).collect();
        ensure_eq!(now, reference, "elements after negating the range twice");
    }
    ensure_eq!(buf, Buf::new(geo.extent), "buffer after the accesses");
    Ok(())
}

/// Owned arrays: indexing a tensor gives the elements it was created from.
fn tensor<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 200);
    cx.note(|| format!("tensor dims {dims:?}"));
    let vals: Vec<i32> = (0..product(&dims)).map(value).collect();
    cx.nontrivial_if(vals.len() > 1);
    let flat: Tensor<i32, (Dyn,)> = Tensor::from(vals.clone());
    let mut t: Tensor<i32, S> = flat.into_shape(S::from_dims(&dims));
    agree_vals("tensor", &t, &dims, &vals)?;
    let mut expect = vals.clone();
    for k in 0..vals.len() {
        ensure_eq!(t[k], vals[k], "flat index {k}");
    }
    for (k, idx) in indices(&dims).iter().enumerate() {
        if cx.src.chance(1, 4) {
            t[&idx[..]] = -1 - k as i32;
            expect[k] = -1 - k as i32;
        } else if cx.src.chance(1, 4) {
            t[k] = -5 - k as i32;
            expect[k] = -5 - k as i32;
        }
    }
    ensure_eq!(&t[..], &expect[..], "elements after writes");
    must_panic(|| "flat index".into(), || t[vals.len()])?;
    must_panic(|| "flat write".into(), || t[vals.len()] = 1)?;
    if !dims.is_empty() {
        let idx = bad_index(&mut cx.src, &dims);
        must_panic(|| format!("index {idx:?} with dimensions {dims:?}"), || t[&idx[..]])?;
        must_panic(|| format!("write to {idx:?} with dimensions {dims:?}"), || t[&idx[..]] = 0)?;
    }
    ensure_eq!(&t[..], &expect[..], "elements after rejected accesses");
    Ok(())
}

/// Inline arrays.
fn array<S: TestShape + ConstShape>(cx: &mut Ctx) -> Res {
    let dims: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
    let off = cx.src.below(1000);
    cx.note(|| format!("array dims {dims:?} offset {off}"));
    let vals: Vec<i32> = (0..product(&dims)).map(|k| value(k + off)).collect();
    cx.nontrivial_if(vals.len() > 1);
    let mut k = 0;
    let mut a: Array<i32, S> = Array::from_fn(|_| {
        k += 1;
        value(k - 1 + off)
    });
    agree_vals("array", &a, &dims, &vals)?;
    let mut expect = vals.clone();
    for (k, idx) in indices(&dims).iter().enumerate() {
        ensure_eq!(a[k], vals[k], "flat index {k}");
        if cx.src.flip() {
            let v = cx.src.below(99) as i32;
            if cx.src.flip() { a[&idx[..]] = v } else { a[k] = v }
            expect[k] = v;
        }
    }
    ensure_eq!(&a[..], &expect[..], "elements after writes");
    must_panic(|| "flat index".into(), || a[vals.len()])?;
    if !dims.is_empty() {
        let idx = bad_index(&mut cx.src, &dims);
        must_panic(|| format!("index {idx:?} with dimensions {dims:?}"), || a[&idx[..]])?;
        must_panic(|| format!("write to {idx:?} with dimensions {dims:?}"), || a[&idx[..]] = 0)?;
    }
    Ok(())
}

/// Views that repeat elements, with more than 2^32 of them.
fn repeated<S: TestShape>(cx: &mut Ctx) -> Res {
    let rank = if S::DYNRANK { cx.src.range(1, 5) } else { S::PAT.len() };
    let (m, buf) = lazy::Lazy::generate(cx, rank);
    cx.nontrivial_if(true);
    let v = m.view::<S>(&buf);
    m.agree(cx, "view", &v, &buf)?;
    let n = v.len();
    for k in [n, n + 1, usize::MAX] {
        must_panic(|| format!("flat index {k} of length {n}"), || v[k])?;
    }
    let mut idx = m.index(&mut cx.src);
    let i = cx.src.below(rank);
    idx[i] = *cx.src.pick(&[m.dims[i], m.dims[i] + 1, m.dims[i] | 1 << 60, usize::MAX]);
    must_panic(|| format!("index {idx:?} with dimensions {:?}", m.dims), || v[&idx[..]])
}

fn main() {
    let mut subs = Subs::default();
    harness::add_elems!(subs, 1, index);
    macro_rules! all {
        ($s:ty) => {
            subs.add(concat!("read dense ", stringify!($s)), 1, read::<$s, Dense>);
            subs.add(concat!("read strided ", stringify!($s)), 1, read::<$s, Strided>);
            subs.add(concat!("write dense ", stringify!($s)), 1, write::<$s, Dense>);
            subs.add(concat!("write strided ", stringify!($s)), 1, write::<$s, Strided>);
            subs.add(concat!("ranges ", stringify!($s)), 1, ranges::<$s>);
            subs.add(concat!("tensor ", stringify!($s)), 1, tensor::<$s>);
        };
    }
    each_shape!(all);
    macro_rules! rep { ($($s:ty),*) => {$( subs.add(concat!("repeated ", stringify!($s)), 1, repeated::<$s>); )*} }
    rep!((D,), (D, D), (D, D, D), (D, D, D, D, D), DynRank);
    macro_rules! consts {
        ($s:ty) => {
            subs.add(concat!("array ", stringify!($s)), 1, array::<$s>);
        };
    }
    each_const_shape!(consts);
    macro_rules! fixed {
        ($($n:literal $s:ty),*) => {$(
            subs.add(concat!("index array dense ", stringify!($s)), 1, index_array::<$n, $s, Dense>);
            subs.add(concat!("index array strided ", stringify!($s)), 1, index_array::<$n, $s, Strided>);
        )*};
    }
    fixed!(0 (), 1 (D,), 1 (C3,), 2 (D, D), 2 (C2, D), 2 (C2, C3), 3 (D, D, D), 3 (C2, D, C3), 4 (D, D, D, D),
        5 (D, D, D, D, D), 6 (D, D, D, D, D, D));
    main_with(subs)
}

fn main_with(subs: Subs) {
    harness::main(Property {
        id: "C01",
        rule: "the generated array has at least two elements",
        subs: subs.0,
    })
}
