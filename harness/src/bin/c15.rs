//! C15: dimensions, strides, contiguity and shape metadata.
use harness::leaves::*;
use harness::*;
use mdarray::expr::{Expression, IntoExpression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Dimension numbers that do not exist for the rank.
fn beyond(src: &mut Src, rank: usize) -> usize {
    *src.pick(&[rank, rank + 1, rank + 7, usize::MAX, usize::MAX / 2 + 1])
}

fn shape_meta<S: Shape>(cx: &mut Ctx, what: &str, s: &S, dims: &[usize]) -> Res {
    ensure_eq!(s.rank(), dims.len(), "{what}: rank of the shape");
    for (i, &d) in dims.iter().enumerate() {
        ensure_eq!(s.dim(i), d, "{what}: dimension {i} of the shape");
    }
    ensure_eq!(s.len(), product(dims), "{what}: length of the shape");
    ensure_eq!(s.is_empty(), dims.contains(&0), "{what}: is_empty of the shape");
    if let Some(r) = S::RANK {
        ensure_eq!(r, dims.len(), "{what}: static rank");
    }
    let i = beyond(&mut cx.src, dims.len());
    must_panic(|| format!("{what}: dimension {i} of a shape of rank {}", dims.len()), || s.dim(i))
}

fn mapping_meta<M: Mapping>(cx: &mut Ctx, what: &str, m: &M, dims: &[usize], strides: &[isize]) -> Res {
    shape_meta(cx, what, m.shape(), dims)?;
    ensure_eq!(m.rank(), dims.len(), "{what}: rank of the mapping");
    for i in 0..dims.len() {
        ensure_eq!(m.dim(i), dims[i], "{what}: dimension {i} of the mapping");
        ensure_eq!(m.stride(i), strides[i], "{what}: stride {i} of the mapping");
    }
    ensure_eq!(m.len(), product(dims), "{what}: length of the mapping");
    ensure_eq!(m.is_empty(), dims.contains(&0), "{what}: is_empty of the mapping");
    let i = beyond(&mut cx.src, dims.len());
    must_panic(|| format!("{what}: dimension {i} of a mapping of rank {}", dims.len()), || m.dim(i))?;
    must_panic(|| format!("{what}: stride {i} of a mapping of rank {}", dims.len()), || m.stride(i))
}

/// Metadata of an array, given where its elements are.
fn meta<S: Shape, L: Layout>(cx: &mut Ctx, what: &str, v: &Slice<i32, S, L>, base: *const i32, m: &Model) -> Res {
    agree(what, v, base, m)?;
    let dims = &m.dims;
    let n = dims.len();
    let strides: Vec<isize> = (0..n).map(|i| v.stride(i)).collect();
    mapping_meta(cx, what, v.mapping(), dims, &strides)?;
    shape_meta(cx, what, v.shape(), dims)?;
    let i = beyond(&mut cx.src, n);
    must_panic(|| format!("{what}: dimension {i} of an array of rank {n}"), || v.dim(i))?;
    must_panic(|| format!("{what}: stride {i} of an array of rank {n}"), || v.stride(i))?;
    // Strides against positions.
    if m.len() > 0 {
        ensure_eq!(rel(v.as_ptr(), base), m.pos[0], "{what}: pointer to the first element");
        let mut idx = vec![0; n];
        for &p in &m.pos {
            let q = m.pos[0] + (0..n).filter(|&i| idx[i] > 0).map(|i| idx[i] as isize * strides[i]).sum::<isize>();
            ensure!(p == q, "{what}: element {idx:?} is at position {p}, the strides {strides:?} say {q}");
            advance(&mut idx, dims);
        }
    }
    let dense = dense_strides(dims);
    if L::IS_DENSE {
        ensure!(v.is_contiguous(), "{what}: dense array not reported as contiguous");
        ensure_eq!(strides, dense, "{what}: strides of a dense array");
    }
    ensure_eq!(v.mapping().is_contiguous(), v.is_contiguous(), "{what}: contiguity of the mapping");
    let consecutive = m.pos.windows(2).all(|w| w[1] == w[0] + 1);
    if v.is_contiguous() {
        cx.tag("contiguous");
        ensure!(consecutive, "{what}: reported as contiguous with dimensions {dims:?}, strides {strides:?}");
    } else {
        cx.tag("not contiguous");
        ensure!(strides != dense, "{what}: not reported as contiguous with dimensions {dims:?}, strides {strides:?}");
        if m.len() > 0 && !dims.contains(&1) {
            ensure!(!consecutive, "{what}: consecutive elements not reported as contiguous, dimensions {dims:?}, strides {strides:?}");
        }
    }
    Ok(())
}

fn views<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 60);
    cx.nontrivial_if(m.len() > 1);
    let base = buf.ptr();
    {
        let v = view::<S, L>(&buf, &geo);
        mapping_meta(cx, "view", v.mapping(), &geo.dims, &geo.strides)?;
        meta(cx, "view", &v, base, &m)?;
        meta(cx, "expression of the view", &v.expr(), base, &m)?;
        meta(cx, "copy of the view", &v.clone(), base, &m)?;
        let dims2 = gen_dims::<S>(&mut cx.src, 20);
        let geo2 = L::geo(&mut cx.src, &dims2);
        let buf2 = Buf::new(geo2.extent);
        let mut w = view::<S, L>(&buf2, &geo2);
        w.clone_from(&v);
        meta(cx, "view after clone_from", &w, base, &m)?;
        let d = v.clone().into_dyn();
        meta(cx, "dynamic rank", &d, base, &m)?;
        ensure_eq!(d.dims(), &geo.dims[..], "dims of the array with dynamic rank");
        let d = v.remap::<S, Strided>();
        meta(cx, "strided", &d, base, &m)?;
        ensure_eq!(d.strides(), &geo.strides[..], "strides of the strided view");
        expr_meta(cx, "view", &v, &m.dims)?;
    }
    let mut v = view_mut::<S, L>(&mut buf, &geo);
    meta(cx, "mutable view", &v, base, &m)?;
    if m.len() > 0 {
        ensure_eq!(rel(v.as_mut_ptr() as *const i32, base), m.pos[0], "mutable pointer to the first element");
    }
    meta(cx, "expression of the mutable view", &v.expr_mut(), base, &m)?;
    Ok(())
}

fn expr_meta<E: Expression>(cx: &mut Ctx, what: &str, e: &E, dims: &[usize]) -> Res {
    shape_meta(cx, what, e.shape(), dims)?;
    ensure_eq!(e.rank(), dims.len(), "{what}: rank of the expression");
    for i in 0..dims.len() {
        ensure_eq!(e.dim(i), dims[i], "{what}: dimension {i} of the expression");
    }
    ensure_eq!(e.len(), product(dims), "{what}: length of the expression");
    ensure_eq!(e.is_empty(), product(dims) == 0, "{what}: is_empty of the expression");
    let i = beyond(&mut cx.src, dims.len());
    must_panic(|| format!("{what}: dimension {i} of an expression of rank {}", dims.len()), || e.dim(i))
}

/// Sources and adapters.
fn exprs<A: Leaf>(cx: &mut Ctx) -> Res {
    let (mut dims, _) = operand_dims(cx, &[(A::S::PAT, A::S::DYNRANK)], 120);
    let dims = dims.remove(0);
    cx.nontrivial_if(product(&dims) > 1);
    let mut a = A::make(cx, &dims);
    expr_meta(cx, A::NAME, &a.expr(), &dims)?;
    let mut a = A::make(cx, &dims);
    let e = a.expr().map(|x| x + 1);
    expr_meta(cx, "map", &e, &dims)?;
    let e = e.enumerate();
    expr_meta(cx, "enumerate", &e, &dims)?;
    let mut it = e.into_iter();
    ensure_eq!(it.len(), product(&dims), "length of the iterator");
    it.next();
    Ok(())
}

fn pairs<A: Leaf, B: Leaf>(cx: &mut Ctx) -> Res {
    let (ops, result) = operand_dims(cx, &[(A::S::PAT, A::S::DYNRANK), (B::S::PAT, B::S::DYNRANK)], 120);
    let Some(dims) = result else { return Ok(()) };
    // A source that cannot be repeated is refused if the other one has more dimensions.
    if ops.iter().zip([A::REPEATABLE, B::REPEATABLE]).any(|(d, r)| !r && d.len() < dims.len()) {
        return Ok(());
    }
    cx.nontrivial_if(product(&dims) > 1);
    let (mut a, mut b) = (A::make(cx, &ops[0]), B::make(cx, &ops[1]));
    let e = a.expr().zip(b.expr());
    expr_meta(cx, "zip", &e, &dims)?;
    expr_meta(cx, "map of zip", &e.map(|(x, y)| x + y), &dims)?;
    Ok(())
}

/// Chain of view operations, each with the metadata of the result.
fn chain(cx: &mut Ctx) -> Res {
    let (buf, geo, mut m) = gen_array::<DynRank, Strided>(cx, 80);
    let base = buf.ptr();
    let mut v = view::<DynRank, Strided>(&buf, &geo);
    cx.nontrivial_if(m.len() > 1);
    let mut seen = 0;
    for _ in 0..cx.src.range(1, 5) {
        let n = m.rank();
        let how = cx.src.below(12);
        if n == 0 && !matches!(how, 5 | 11) {
            continue;
        }
        let what;
        match how {
            0 => {
                let axis = cx.src.below(n);
                if m.dims[axis] == 0 {
                    continue;
                }
                let i = cx.src.below(m.dims[axis]);
                what = format!("axis_at({axis}, {i})");
                v = v.into_axis_at(axis, i).into_mapping();
                m = m.remove(axis, i);
            }
            1 => {
                let axis = cx.src.below(n);
                let mid = cx.src.range(0, m.dims[axis]);
                let (a, b) = v.into_split_axis_at(axis, mid);
                let (ma, mb) = m.split(axis, mid);
                meta(cx, "first part", &a, base, &ma)?;
                meta(cx, "second part", &b, base, &mb)?;
                let second = cx.src.flip();
                what = format!("split_axis_at({axis}, {mid}), second part: {second}");
                (v, m) = if second { (b.into_mapping(), mb) } else { (a.into_mapping(), ma) };
            }
            2 => {
                let perm = cx.src.perm(n);
                what = format!("permuted {perm:?}");
                v = v.into_permuted(&perm[..]).into_mapping();
                m = m.permute(&perm);
            }
            3 => {
                what = "reordered".into();
                v = v.into_reordered();
                m = m.reversed();
            }
            4 => {
                if !v.is_contiguous() || m.len() == 0 {
                    continue;
                }
                // Merge two neighbours or insert a unit dimension.
                let mut d = m.dims.clone();
                let i = cx.src.below(n);
                if i + 1 < n && cx.src.flip() {
                    d[i] *= d.remove(i + 1);
                } else {
                    d.insert(i, 1);
                }
                what = format!("reshaped {d:?}");
                v = v.into_shape(&d[..]);
                m = m.reshape(&d);
            }
            5 => {
                what = "mapping to a dense layout and back".into();
                if !v.is_contiguous() {
                    continue;
                }
                let d = v.into_mapping::<DynRank, Dense>();
                meta(cx, "dense view", &d, base, &m)?;
                v = d.into_mapping();
            }
            6 if n == 2 => {
                let k = cx.src.irange(-(m.dims[0] as isize), m.dims[1] as isize);
                let (r, c) = (if k < 0 { -k as usize } else { 0 }, if k > 0 { k as usize } else { 0 });
                let len = (m.dims[0] - r).min(m.dims[1] - c);
                what = format!("diagonal {k}");
                v = v.into_diag(k).into_dyn();
                m = Model { dims: vec![len], pos: (0..len).map(|j| m.at(&[r + j, c + j])).collect() };
            }
            7 if n == 2 && m.dims[0] > 0 => {
                let i = cx.src.below(m.dims[0]);
                what = format!("row {i}");
                v = v.into_row(i).into_dyn();
                m = m.remove(0, i);
            }
            8 if n == 2 && m.dims[1] > 0 => {
                let i = cx.src.below(m.dims[1]);
                what = format!("column {i}");
                v = v.into_col(i).into_dyn();
                m = m.remove(1, i);
            }
            9 | 10 => {
                let d = m.dims[0];
                let (a, b) = (cx.src.range(0, d), cx.src.range(0, d));
                let (a, b) = (a.min(b), a.max(b));
                let st = *cx.src.pick(&[1isize, 2, -1, 3, -2]);
                let mut list: Vec<usize> = (a..b).collect();
                if st < 0 {
                    list.reverse();
                }
                let list: Vec<usize> = list.into_iter().step_by(st.unsigned_abs()).collect();
                what = format!("subarray {a}..{b} step {st}");
                m = m.take(0, Sel::List(list));
                macro_rules! sub {
                    ($($s:ty, ($($f:tt),*));*) => {
                        match n {
                            $(<$s>::N => v.into_mapping::<$s, Strided>().into_view(step(a..b, st), $($f),*).into_dyn().into_mapping(),)*
                            _ => return Ok(()),
                        }
                    };
                }
                v = sub!((D,), (); (D, D), (..); (D, D, D), (.., ..); (D, D, D, D), (.., .., ..));
            }
            _ => continue,
        }
        cx.note(|| what.clone());
        meta(cx, &what, &v, base, &m)?;
        seen += 1;
    }
    cx.tag(if seen > 1 { "chain of operations" } else { "short chain" });
    Ok(())
}

trait Ranked {
    const N: usize;
}
impl Ranked for (D,) {
    const N: usize = 1;
}
impl Ranked for (D, D) {
    const N: usize = 2;
}
impl Ranked for (D, D, D) {
    const N: usize = 3;
}
impl Ranked for (D, D, D, D) {
    const N: usize = 4;
}

fn owned<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 80);
    cx.note(|| format!("array {dims:?}"));
    cx.nontrivial_if(product(&dims) > 1);
    let m = Model::dense(&dims);
    let mut t = Tensor::from_elem(S::from_dims(&dims), 3i32);
    meta(cx, "tensor", &t, t.as_ptr(), &m)?;
    meta(cx, "view of a tensor", &t.expr(), t.as_ptr(), &m)?;
    ensure!(t.capacity() >= t.len(), "capacity");
    let p = t.as_ptr();
    ensure!(std::ptr::eq(t.as_mut_ptr(), p), "pointers");
    expr_meta(cx, "moved tensor", &t.clone().into_expr(), &dims)?;
    let c = t.clone();
    meta(cx, "cloned tensor", &c, c.as_ptr(), &m)?;
    let (f, d) = (c.clone().into_flat(), c.into_dyn());
    meta(cx, "flat tensor", &f, f.as_ptr(), &Model::dense(&[m.len()]))?;
    meta(cx, "tensor with dynamic rank", &d, d.as_ptr(), &m)?;
    ensure_eq!(d.dims(), &dims[..], "dims");
    let zero: Vec<usize> = if S::DYNRANK { vec![0] } else { S::PAT.iter().map(|&p| p.max(0) as usize).collect() };
    if product(&zero) == 0 {
        let e = Tensor::<i32, S>::new();
        meta(cx, "new tensor", &e, e.as_ptr(), &Model::dense(&zero))?;
    }
    Ok(())
}

fn inline<S: TestShape + ConstShape>(cx: &mut Ctx) -> Res {
    let dims: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
    cx.note(|| format!("inline array {dims:?}"));
    cx.nontrivial_if(product(&dims) > 1);
    let m = Model::dense(&dims);
    let mut a = Array::<i32, S>::from_elem(cx.src.below(1000) as i32);
    meta(cx, "inline array", &a, a.as_ptr(), &m)?;
    let p = a.as_ptr();
    meta(cx, "view of an inline array", &a.expr_mut(), p, &m)?;
    expr_meta(cx, "moved inline array", &a.into_expr(), &dims)?;
    ensure_eq!(std::mem::size_of::<Array<i32, S>>(), 4 * m.len(), "size of an inline array");
    Ok(())
}

/// Sizes which are mostly those of the type, with extreme values for dynamic ones.
fn any_dims<S: TestShape>(src: &mut Src) -> Vec<usize> {
    let mut d = gen_dims::<S>(src, 10_000);
    match src.below(8) {
        0 if !d.is_empty() => {
            let i = src.below(d.len());
            d[i] = *src.pick(&[d[i] + 1, 0, 1, 2, 3, usize::MAX, usize::MAX / 2, 1 << 33]);
        }
        1 => d.push(src.range(0, 3)),
        2 => {
            d.pop();
        }
        3 => d = gen_dyn_dims(src, 10_000, 6),
        _ => {}
    }
    d
}

fn few(dims: &[usize]) -> bool {
    dims.iter().fold(1u128, |p, &d| p.saturating_mul(d.max(1) as u128)) <= 300
}

fn shapes<S: TestShape>(cx: &mut Ctx) -> Res {
    let a = any_dims::<S>(&mut cx.src);
    cx.note(|| format!("dimensions {a:?}"));
    cx.nontrivial_if(a.len() > 1);
    ensure_eq!(S::RANK, if S::DYNRANK { None } else { Some(S::PAT.len()) }, "static rank");
    if !fits::<S>(&a) {
        cx.tag("refused dimensions");
        must_panic(|| format!("shape of {a:?}"), || S::from_dims(&a))?;
        if few(&a) {
            let t = Tensor::from_elem(&a[..], ());
            must_panic(|| format!("change of the shape type with {a:?}"), || t.into_mapping::<S>())?;
        }
        return Ok(());
    }
    cx.tag("accepted dimensions");
    let s = S::from_dims(&a);
    ensure_eq!(shape_dims(&s), a, "dimensions of the shape");
    if a.iter().try_fold(1usize, |p, &d| p.checked_mul(d)).is_some() {
        shape_meta(cx, "shape", &s, &a)?;
    }
    if few(&a) {
        let t = Tensor::from_elem(&a[..], ()).into_mapping::<S>();
        ensure_eq!(shape_dims(t.shape()), a, "shape after a change of type");
        let d = t.into_mapping::<DynRank>();
        ensure_eq!(d.dims(), &a[..], "dimensions after a change to dynamic rank");
    }
    ensure_eq!(shape_dims(&s.clone()), a, "dimensions of a clone");
    ensure_eq!(shape_dims(&s.clone().into_shape()), a, "conversion into itself");
    // Comparison with another shape of the same type.
    let mut b = if cx.src.chance(1, 3) { a.clone() } else { gen_dims::<S>(&mut cx.src, 10_000) };
    if cx.src.flip() && b.len() == a.len() && !b.is_empty() {
        let i = cx.src.below(b.len());
        for k in 0..b.len() {
            if k != i {
                b[k] = a[k];
            }
        }
    }
    cx.note(|| format!("against {b:?}"));
    let mut r = S::from_dims(&b);
    ensure_eq!(s == r, a == b, "equality of {a:?} and {b:?}");
    ensure_eq!(s.cmp(&r), a.cmp(&b), "order of {a:?} and {b:?}");
    ensure_eq!(s.partial_cmp(&r), Some(a.cmp(&b)), "partial order of {a:?} and {b:?}");
    ensure!(a != b || hash(&s) == hash(&r), "hashes of equal shapes");
    r.clone_from(&s);
    ensure_eq!(shape_dims(&r), a, "dimensions after clone_from");
    ensure!(r == s && hash(&r) == hash(&s), "equality after clone_from");
    let d = S::default();
    let zero: Vec<usize> = if S::DYNRANK { vec![0] } else { S::PAT.iter().map(|&p| p.max(0) as usize).collect() };
    ensure_eq!(shape_dims(&d), zero, "default shape");
    Ok(())
}

/// Shape with dynamic rank in any of its representations.
fn gen_rep(src: &mut Src, d: &[usize]) -> DynRank {
    match src.below(7) {
        0 => DynRank::from_dims(d),
        1 => DynRank::Dyn(d.into()),
        2 if d.len() == 1 => DynRank::One(d[0]),
        3 => d.to_vec().into_shape(),
        4 => d.to_vec().into_boxed_slice().into_shape(),
        5 => DynRank::Dyn(d.into()).clone(),
        _ => d.into_shape(),
    }
}

fn dyn_shapes(cx: &mut Ctx) -> Res {
    let small = |src: &mut Src| -> Vec<usize> {
        if src.flip() { (0..src.range(0, 2)).map(|_| src.range(0, 2)).collect() } else { gen_dyn_dims(src, 1000, 6) }
    };
    let (a, b) = (small(&mut cx.src), small(&mut cx.src));
    cx.note(|| format!("{a:?} and {b:?}"));
    cx.nontrivial_if(true);
    let (x, mut y) = (gen_rep(&mut cx.src, &a), gen_rep(&mut cx.src, &b));
    shape_meta(cx, "shape", &x, &a)?;
    ensure_eq!(x.dims(), &a[..], "dims");
    ensure_eq!(x == y, a == b, "equality of {a:?} and {b:?}");
    ensure_eq!(x.cmp(&y), a.cmp(&b), "order of {a:?} and {b:?}");
    ensure!(a != b || hash(&x) == hash(&y), "hashes of equal shapes");
    let z = gen_rep(&mut cx.src, &a);
    ensure!(x == z && hash(&x) == hash(&z), "representations of {a:?}");
    ensure_eq!(format!("{x:?}"), format!("{z:?}"), "formatting of representations");
    y.clone_from(&x);
    ensure!(y == x && y.dims() == &a[..] && x.clone() == x, "clones of {a:?}");
    // An array with any representation has the same metadata.
    let t = Tensor::from_elem(x, 0i32);
    let m = Model::dense(&a);
    meta(cx, "tensor", &t, t.as_ptr(), &m)?;
    let u = Tensor::from_elem(z, 0i32);
    ensure!(t == u && t.mapping() == u.mapping(), "arrays with other representations");
    ensure_eq!(hash(t.mapping()), hash(u.mapping()), "hashes of mappings");
    macro_rules! fixed {
        ($($n:literal),*) => {
            match a.len() {
                $($n => {
                    let f: [usize; $n] = a[..].try_into().unwrap();
                    shape_meta(cx, "shape of an array", &f.into_shape(), &a)?;
                    shape_meta(cx, "shape of an array reference", &(&f).into_shape(), &a)?;
                    ensure!((&f).into_shape() == gen_rep(&mut cx.src, &a), "shape of an array reference");
                    ensure_eq!(<Rank<$n> as Shape>::RANK, Some($n), "rank");
                })*
                _ => {}
            }
        };
    }
    fixed!(0, 1, 2, 3, 4, 5, 6);
    if a.len() == 1 {
        shape_meta(cx, "shape of a size", &a[0].into_shape(), &a)?;
        shape_meta(cx, "shape of a constant", &Const::<3>.into_shape(), &[3])?;
    }
    Ok(())
}

fn mappings<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 10_000);
    let mut strides = strided_geo(&mut cx.src, &dims).strides;
    if cx.src.flip() && !strides.is_empty() {
        let i = cx.src.below(strides.len());
        strides[i] = *cx.src.pick(&[0, 1, -1, strides[i] + 1, isize::MAX, isize::MIN, 1 << 40]);
    }
    cx.note(|| format!("dims {dims:?} strides {strides:?}"));
    cx.nontrivial_if(dims.len() > 1);
    let shape = S::from_dims(&dims);
    let x = StridedMapping::new(shape.clone(), &strides);
    mapping_meta(cx, "strided mapping", &x, &dims, &strides)?;
    ensure_eq!(x.strides(), &strides[..], "strides");
    let dense = dense_strides(&dims);
    let matters = |i: usize| dims[i] != 1;
    if strides == dense {
        ensure!(x.is_contiguous(), "contiguous mapping");
    } else if product(&dims) > 0 && (0..dims.len()).any(|i| matters(i) && strides[i] != dense[i]) {
        ensure!(!x.is_contiguous(), "mapping reported as contiguous");
    }
    let d = DenseMapping::new(shape.clone());
    mapping_meta(cx, "dense mapping", &d, &dims, &dense)?;
    ensure!(d.is_contiguous(), "dense mapping");
    let bad: Vec<isize> = match cx.src.below(3) {
        0 => strides.iter().copied().chain([1]).collect(),
        1 if !strides.is_empty() => strides[1..].to_vec(),
        _ => vec![0; dims.len() + 2],
    };
    must_panic(|| format!("{} strides for rank {}", bad.len(), dims.len()), || StridedMapping::new(shape.clone(), &bad))?;
    // Comparison.
    let od = if cx.src.flip() { dims.clone() } else { gen_dims::<S>(&mut cx.src, 10_000) };
    let os = if od.len() == dims.len() && cx.src.flip() { strides.clone() } else { strided_geo(&mut cx.src, &od).strides };
    let mut y = StridedMapping::new(S::from_dims(&od), &os);
    let mut e = DenseMapping::new(S::from_dims(&od));
    ensure_eq!(x == y, dims == od && strides == os, "equality of strided mappings");
    ensure!(x != y || hash(&x) == hash(&y), "hashes of equal mappings");
    ensure_eq!(d == e, dims == od, "equality of dense mappings");
    ensure!(d != e || hash(&d) == hash(&e), "hashes of equal mappings");
    y.clone_from(&x);
    e.clone_from(&d);
    ensure!(x == y && d == e && x.clone() == x && d.clone() == d, "clones of mappings");
    mapping_meta(cx, "strided mapping after clone_from", &y, &dims, &strides)?;
    mapping_meta(cx, "dense mapping after clone_from", &e, &dims, &dense)?;
    let x = StridedMapping::<S>::default();
    let zero = shape_dims(&S::default());
    ensure_eq!(shape_dims(x.shape()), zero, "shape of the default mapping");
    ensure_eq!(x.strides().len(), zero.len(), "strides of the default mapping");
    ensure_eq!(shape_dims(DenseMapping::<S>::default().shape()), zero, "shape of the default dense mapping");
    Ok(())
}

fn dims(cx: &mut Ctx) -> Res {
    let k = *cx.src.pick(&[0, 1, 2, 3, 4, 5, 7, 1 << 33, usize::MAX]);
    let rank = cx.src.range(0, 9);
    cx.note(|| format!("size {k}, rank {rank}"));
    cx.nontrivial_if(true);
    ensure_eq!(usize::from_size(k).size(), k, "dynamic size");
    ensure_eq!(<usize as Dim>::SIZE, None, "dynamic size");
    macro_rules! consts {
        ($($n:literal),*) => {$(
            ensure_eq!(<Const<$n> as Dim>::SIZE, Some($n), "constant size");
            ensure_eq!(Const::<$n>.size(), $n, "constant size");
            ensure_eq!(usize::from(Const::<$n>), $n, "conversion of a constant size");
            ensure_eq!(Const::<$n>::try_from(k), if k == $n { Ok(Const::<$n>) } else { Err(k) }, "conversion of a size");
            if k == $n {
                ensure_eq!(Const::<$n>::from_size(k), Const::<$n>, "constant from a size");
            } else {
                must_panic(|| format!("constant {} from the size {k}", $n), || Const::<$n>::from_size(k))?;
            }
        )*};
    }
    consts!(0, 1, 2, 3, 5, 7);
    macro_rules! axes {
        ($($a:expr, $i:expr);*) => {$(
            let want: Option<usize> = $i;
            match want {
                Some(i) if i < rank => ensure_eq!($a.index(rank), i, "axis {}", stringify!($a)),
                _ => must_panic(|| format!("axis {} with rank {rank}", stringify!($a)), || $a.index(rank))?,
            }
        )*};
    }
    axes!(
        Const::<0>, Some(0); Const::<1>, Some(1); Const::<2>, Some(2); Const::<3>, Some(3); Const::<4>, Some(4);
        Const::<5>, Some(5); Rows, rank.checked_sub(1); Cols, rank.checked_sub(2); k, Some(k)
    );
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    macro_rules! v {
        ($s:ty) => {
            subs.add(concat!("view dense ", stringify!($s)), 2, views::<$s, Dense>);
            subs.add(concat!("view strided ", stringify!($s)), 3, views::<$s, Strided>);
        };
    }
    each_shape!(v);
    macro_rules! s {
        ($s:ty) => {
            subs.add(concat!("shape ", stringify!($s)), 2, shapes::<$s>);
            subs.add(concat!("mapping ", stringify!($s)), 2, mappings::<$s>);
            subs.add(concat!("tensor ", stringify!($s)), 1, owned::<$s>);
        };
    }
    each_shape!(s);
    macro_rules! a {
        ($s:ty) => {
            subs.add(concat!("inline array ", stringify!($s)), 1, inline::<$s>);
        };
    }
    each_const_shape!(a);
    subs.add("chain of views", 60, chain);
    subs.add("dynamic rank shapes", 20, dyn_shapes);
    subs.add("sizes and axes", 2, dims);
    macro_rules! e {
        ($($a:ty);* $(;)?) => {$( subs.add(concat!("expression ", stringify!($a)), 2, exprs::<$a>); )*};
    }
    e!(
        ViewCopied<(D, D), Strided>; ViewCloned<(C2, D), Dense>; ViewMutMap<DynRank, Strided>; Enumerated<(D, D, D), Strided>;
        Moved<(D, D)>; Moved<DynRank>; MovedArray<(C2, C3)>; Drained<(D, D)>; Drained<(D, C3)>; FromIndex<(D, D, D)>;
        FromIndex<DynRank>; Elems<(D, D)>; Elems<DynRank>; Filled; Counted; LaneSums<Dense>; LaneSums<Strided>;
        AxisSums<Dense>; AxisSums<Strided>; ViewCopied<(D, C2, D), Strided>; ViewCopied<(D, D, D, D, D, D), Dense>;
    );
    macro_rules! p {
        ($($a:ty, $b:ty);* $(;)?) => {$( subs.add(concat!("zip ", stringify!($a), " / ", stringify!($b)), 3, pairs::<$a, $b>); )*};
    }
    p!(
        ViewCopied<(D, D), Strided>, FromIndex<(D,)>; ViewCopied<(D,), Dense>, FromIndex<(D, D, D)>;
        ViewCopied<DynRank, Strided>, FromIndex<DynRank>; ViewCopied<(C2, D), Dense>, Elems<(D, C3)>;
        Moved<(D, D)>, Filled; Counted, ViewCopied<(D, D), Strided>; ViewCopied<DynRank, Dense>, FromIndex<(D, D)>;
        FromIndex<(D, D)>, ViewCopied<DynRank, Strided>; LaneSums<Dense>, ViewCopied<(D, D, D), Strided>;
        ViewCopied<(C2, C3), Dense>, ViewCopied<(C3,), Strided>; FromIndex<()>, ViewCopied<(D, D), Dense>;
        ViewCopied<(D, C2, D), Strided>, FromIndex<(D, D)>;
    );
    harness::main(Property {
        id: "C15",
        rule: "the array or expression has at least two elements, or the shape at least two dimensions",
        subs: subs.0,
    })
}
