//! C04: reshape, flatten, permute, reorder and remap.
use harness::*;
use mdarray::index::Permutation;
use mdarray::*;

fn primes(mut n: usize) -> Vec<usize> {
    let mut out = Vec::new();
    let mut p = 2;
    while n > 1 {
        while n % p == 0 {
            out.push(p);
            n /= p;
        }
        p += 1;
    }
    out
}

/// Splits the factors of the sizes, in order, into `rank` new sizes.
fn regroup(src: &mut Src, dims: &[usize], rank: usize) -> Vec<usize> {
    if product(dims) == 0 {
        let mut d: Vec<usize> = (0..rank).map(|_| src.range(0, 4)).collect();
        if rank > 0 && product(&d) != 0 {
            let i = src.below(rank);
            d[i] = 0;
        }
        return d;
    }
    if src.chance(1, 5) && rank == dims.len() {
        return dims.to_vec();
    }
    let mut factors = Vec::new();
    for &d in dims {
        let mut p = primes(d);
        if src.flip() {
            p.reverse();
        }
        factors.extend(p);
    }
    let mut cuts: Vec<usize> = (0..rank.saturating_sub(1)).map(|_| src.range(0, factors.len())).collect();
    cuts.sort();
    let mut out = Vec::new();
    let mut prev = 0;
    for i in 0..rank {
        let end = if i + 1 == rank { factors.len() } else { cuts[i] };
        out.push(factors[prev..end].iter().product());
        prev = end;
    }
    out
}

/// True if a layout-preserving reshape must be found: the array is contiguous, empty, has the same
/// sizes, or has no unit dimensions and each group of merged dimensions is contiguous.
fn must_reshape(dims: &[usize], strides: &[isize], new: &[usize]) -> bool {
    if product(dims) == 0 || dims == new || strides == dense_strides(dims) {
        return true;
    }
    if dims.iter().any(|&d| d < 2) || new.iter().any(|&d| d < 1) {
        return false;
    }
    let new: Vec<usize> = new.iter().copied().filter(|&d| d > 1).collect();
    let (mut i, mut j) = (0, 0);
    while i < dims.len() {
        let start = i;
        let (mut a, mut b) = (dims[i], *new.get(j).unwrap_or(&1));
        i += 1;
        j += 1;
        while a != b {
            if a < b {
                a *= dims[i];
                i += 1;
            } else {
                b *= new[j];
                j += 1;
            }
        }
        for k in start..i - 1 {
            if strides[k] != strides[k + 1] * dims[k + 1] as isize {
                return false;
            }
        }
    }
    true
}

/// Target shape of a reshape: the request, and the result if it is valid.
struct Target {
    ask: Vec<usize>,
    dims: Option<Vec<usize>>,
}

fn gen_target<R: TestShape>(cx: &mut Ctx, dims: &[usize]) -> Target {
    let src = &mut cx.src;
    let rank = if R::DYNRANK {
        if src.chance(1, 16) { src.range(7, 10) } else { src.range(0, 6) }
    } else {
        R::PAT.len()
    };
    let len = product(dims);
    if rank == 0 {
        return Target { ask: vec![], dims: if len == 1 { Some(vec![]) } else { None } };
    }
    let mut ask = regroup(src, dims, rank);
    // Apply the constant sizes of the target type, adjusting a dynamic one.
    if !R::DYNRANK {
        let mut fixed = 1;
        for (a, &p) in ask.iter_mut().zip(R::PAT) {
            if p >= 0 {
                *a = p as usize;
                fixed *= p as usize;
            }
        }
        let dyns: Vec<usize> = (0..rank).filter(|&i| R::PAT[i] < 0).collect();
        if dyns.len() < rank {
            for &i in &dyns {
                ask[i] = 1;
            }
            if !dyns.is_empty() && fixed > 0 && len % fixed == 0 {
                let i = dyns[src.below(dyns.len())];
                ask[i] = len / fixed;
            }
        }
    }
    let open: Vec<usize> = (0..rank).filter(|&i| R::DYNRANK || R::PAT[i] < 0).collect();
    match src.below(8) {
        0 | 1 | 2 | 3 => {}
        4 | 5 if !open.is_empty() => {
            let i = open[src.below(open.len())];
            ask[i] = usize::MAX;
        }
        6 if open.len() >= 2 && src.flip() => {
            ask[open[0]] = usize::MAX;
            ask[open[1]] = usize::MAX;
        }
        7 if !open.is_empty() => {
            let i = open[src.below(open.len())];
            ask[i] = *src.pick(&[ask[i] + 1, ask[i] * 2, ask[i] / 2, usize::MAX / 2, usize::MAX - 1]);
            if open.len() >= 2 && src.flip() {
                let k = open[src.below(open.len())];
                if ask[k] != usize::MAX {
                    ask[k] = *src.pick(&[3, 1 << 33, 0]);
                }
            }
        }
        _ => {}
    }
    let n = ask.iter().filter(|&&d| d == usize::MAX).count();
    // Products as wide integers, saturating; a wide product never equals a real length.
    let prod = |it: &mut dyn Iterator<Item = &usize>| it.fold(1u128, |a, &d| a.saturating_mul(d as u128));
    let result = if n > 1 {
        None
    } else if n == 1 {
        let rest = prod(&mut ask.iter().filter(|&&d| d != usize::MAX));
        if rest == 0 || len as u128 % rest != 0 {
            None
        } else {
            let size = (len as u128 / rest) as usize;
            Some(ask.iter().map(|&d| if d == usize::MAX { size } else { d }).collect())
        }
    } else if prod(&mut ask.iter()) == len as u128 {
        Some(ask.clone())
    } else {
        None
    };
    Target { ask, dims: result }
}

/// With sizes such as [0, 2^63, 2^63] the order of the checked multiplication, and with [0, 2^63]
/// the strides computed for dimensions that hold no elements, decide whether the request is
/// accepted; neither outcome is asserted.
fn ambiguous(t: &Target) -> bool {
    let rest: Vec<usize> = t.ask.iter().copied().filter(|&d| d != usize::MAX).collect();
    rest.contains(&0)
        && rest.iter().filter(|&&d| d != 0).fold(1u128, |a, &d| a.saturating_mul(d as u128)) > 1 << 50
}

fn write_all<S: Shape, L: Layout>(v: &mut Slice<i32, S, L>, m: &Model, expect: &mut Buf, add: i32) {
    let mut idx = vec![0; m.rank()];
    for k in 0..m.len() {
        v[&idx[..]] = -(k as i32) - add;
        expect.set(m.pos[k], -(k as i32) - add);
        advance(&mut idx, &m.dims);
    }
}

/// The operation either gives the model, or panics where it is allowed to.
fn settle<S: Shape, L: Layout>(
    what: &str,
    got: Option<View<'_, i32, S, L>>,
    base: *const i32,
    want: Option<&Model>,
    must: bool,
) -> Res {
    match (got, want) {
        (Some(v), Some(m)) => agree(what, &v, base, m),
        (Some(v), None) => Err(format!("{what}: accepted, with dimensions {:?}", shape_dims(v.shape()))),
        (None, Some(m)) if must => Err(format!("{what} to {:?} was rejected: {}", m.dims, last_panic())),
        (None, _) => Ok(()),
    }
}

fn reshape<S: TestShape, L: TestLayout, R: TestShape>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 600);
    let base = buf.ptr();
    let t = gen_target::<R>(cx, &m.dims);
    cx.note(|| format!("reshape to {:?}", t.ask));
    if ambiguous(&t) {
        return Ok(());
    }
    let want = t.dims.as_ref().map(|d| m.reshape(d));
    let must = t.dims.as_ref().is_some_and(|d| must_reshape(&geo.dims, &geo.strides, d));
    cx.nontrivial_if(m.len() > 1 && t.dims.as_ref().is_some_and(|d| *d != m.dims));
    cx.tag(if want.is_none() { "invalid request" } else if must { "must succeed" } else { "may be incompatible" });
    let ask = || R::from_dims(&t.ask);
    let v = view::<S, L>(&buf, &geo);
    settle("reshape", caught(|| v.reshape(ask())), base, want.as_ref(), must)?;
    settle("into_shape", caught(|| v.clone().into_shape(ask())), base, want.as_ref(), must)?;
    if R::DYNRANK {
        settle("reshape with a slice", caught(|| v.reshape(&t.ask[..])), base, want.as_ref(), must)?;
        settle("reshape with a vector", caught(|| v.reshape(t.ask.clone())), base, want.as_ref(), must)?;
    }
    let mut expect = buf.clone();
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        let got = caught(|| v.reshape_mut(ask()));
        match (got, &want) {
            (Some(mut w), Some(m)) => {
                agree("reshape_mut", &w, base, m)?;
                write_all(&mut w, m, &mut expect, 1);
            }
            (Some(_), None) => return Err("reshape_mut: accepted".into()),
            (None, Some(_)) if must => return Err(format!("reshape_mut was rejected: {}", last_panic())),
            _ => {}
        }
        let got = caught(|| v.into_shape(ask()));
        match (got, &want) {
            (Some(w), Some(m)) => agree("into_shape of a mutable view", &w, base, m)?,
            (Some(_), None) => return Err("into_shape of a mutable view: accepted".into()),
            (None, Some(_)) if must => return Err(format!("into_shape was rejected: {}", last_panic())),
            _ => {}
        }
    }
    ensure_eq!(buf, expect, "buffer after writes");
    if L::IS_DENSE {
        let vals: Vec<i32> = m.pos.iter().map(|&p| buf.get(p)).collect();
        let tensor = Tensor::<i32, (Dyn,)>::from(vals.clone());
        let tensor: Tensor<i32, S> = tensor.into_shape(S::from_dims(&m.dims));
        let p = tensor.as_ptr();
        match (caught(|| tensor.into_shape(ask())), &t.dims) {
            (Some(x), Some(d)) => {
                agree_vals("into_shape of a tensor", &x, d, &vals)?;
                ensure!(vals.is_empty() || x.as_ptr() == p, "into_shape of a tensor copied the elements");
            }
            (Some(_), None) => return Err("into_shape of a tensor: accepted".into()),
            (None, Some(_)) => return Err(format!("into_shape of a tensor was rejected: {}", last_panic())),
            _ => {}
        }
    }
    Ok(())
}

fn flatten<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 600);
    let base = buf.ptr();
    cx.nontrivial_if(m.len() > 1 && m.rank() > 1);
    let want = m.reshape(&[m.len()]);
    let must = must_reshape(&geo.dims, &geo.strides, &[m.len()]);
    cx.tag(if must { "must succeed" } else { "may be incompatible" });
    let v = view::<S, L>(&buf, &geo);
    settle("flatten", caught(|| v.flatten()), base, Some(&want), must)?;
    settle("into_flat", caught(|| v.clone().into_flat()), base, Some(&want), must)?;
    agree("into_dyn", &v.clone().into_dyn(), base, &m)?;
    let mut expect = buf.clone();
    let mut v = view_mut::<S, L>(&mut buf, &geo);
    match caught(|| v.flatten_mut()) {
        Some(mut w) => {
            agree("flatten_mut", &w, base, &want)?;
            write_all(&mut w, &want, &mut expect, 1);
        }
        None => ensure!(!must, "flatten_mut was rejected: {}", last_panic()),
    }
    let d = v.into_dyn();
    agree("into_dyn of a mutable view", &d, base, &m)?;
    match caught(|| d.into_flat()) {
        Some(w) => agree("into_flat of a mutable view", &w, base, &want)?,
        None => ensure!(!must, "into_flat was rejected: {}", last_panic()),
    }
    ensure_eq!(buf, expect, "buffer after writes");
    // Owned.
    let vals: Vec<i32> = m.pos.iter().map(|&p| buf.get(p)).collect();
    let t: Tensor<i32, S> = Tensor::<i32, (Dyn,)>::from(vals.clone()).into_shape(S::from_dims(&m.dims));
    let p = t.as_ptr();
    let f = t.clone().into_flat();
    agree_vals("into_flat of a tensor", &f, &[vals.len()], &vals)?;
    let d = t.into_dyn();
    ensure!(vals.is_empty() || d.as_ptr() == p, "into_dyn copied the elements");
    agree_vals("into_dyn of a tensor", &d, &m.dims, &vals)?;
    let s: Option<Tensor<i32, S>> = caught(|| d.into_mapping());
    let Some(s) = s else { return Err("into_mapping back to the static shape was rejected".into()) };
    agree_vals("into_mapping of a tensor", &s, &m.dims, &vals)?;
    match caught(|| s.into_scalar()) {
        Some(x) => {
            ensure_eq!(vals.len(), 1, "into_scalar accepted an array of this length");
            ensure_eq!(x, vals[0], "into_scalar");
        }
        None => ensure!(vals.len() != 1, "into_scalar rejected an array with one element"),
    }
    Ok(())
}

fn reorder<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    let base = buf.ptr();
    cx.nontrivial_if(m.dims.iter().filter(|&&d| d > 1).count() > 1);
    let r = m.reversed();
    let v = view::<S, L>(&buf, &geo);
    agree("reorder", &v.reorder(), base, &r)?;
    agree("into_reordered", &v.clone().into_reordered(), base, &r)?;
    agree("reorder twice", &v.reorder().reorder(), base, &m)?;
    let mut expect = buf.clone();
    let mut v = view_mut::<S, L>(&mut buf, &geo);
    let mut w = v.reorder_mut();
    agree("reorder_mut", &w, base, &r)?;
    write_all(&mut w, &r, &mut expect, 1);
    let mut w = v.into_reordered();
    agree("into_reordered of a mutable view", &w, base, &r)?;
    if cx.src.flip() {
        write_all(&mut w, &r, &mut expect, 700);
    }
    ensure_eq!(buf, expect, "buffer after writes");
    Ok(())
}

fn check_perm<S: TestShape, L: TestLayout, P: IntoShape<IntoShape: Permutation> + Clone>(
    cx: &mut Ctx,
    buf: &mut Buf,
    geo: &Geo,
    m: &Model,
    perm: P,
    want: Option<&[usize]>,
) -> Res {
    let base = buf.ptr();
    let v = view::<S, L>(buf, geo);
    let Some(want) = want else {
        cx.tag("invalid permutation");
        must_panic(|| "permute".into(), || { v.permute(perm.clone()); })?;
        must_panic(|| "into_permuted".into(), || { v.clone().into_permuted(perm.clone()); })?;
        let mut v = view_mut::<S, L>(buf, geo);
        must_panic(|| "permute_mut".into(), || { v.permute_mut(perm.clone()); })?;
        must_panic(|| "into_permuted".into(), || { v.into_permuted(perm.clone()); })?;
        return Ok(());
    };
    let r = m.permute(want);
    cx.nontrivial_if(m.len() > 1 && want.windows(2).any(|w| w[0] > w[1]));
    agree("permute", &v.permute(perm.clone()), base, &r)?;
    agree("into_permuted", &v.clone().into_permuted(perm.clone()), base, &r)?;
    let mut expect = buf.clone();
    let mut v = view_mut::<S, L>(buf, geo);
    let mut w = v.permute_mut(perm.clone());
    agree("permute_mut", &w, base, &r)?;
    write_all(&mut w, &r, &mut expect, 1);
    agree("into_permuted of a mutable view", &v.into_permuted(perm.clone()), base, &r)?;
    ensure_eq!(*buf, expect, "buffer after writes");
    Ok(())
}

/// Permutation known at compile time.
fn permute_const<S: TestShape, L: TestLayout, P: Permutation + Shape + 'static>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    let p = P::default();
    let want = shape_dims(&p);
    check_perm::<S, L, P>(cx, &mut buf, &geo, &m, p, Some(&want))
}

/// Permutation known in part at compile time, or one that is not valid for the rank.
fn permute_mixed<S: TestShape, L: TestLayout, P: Permutation + TestShape>(cx: &mut Ctx) -> Res {
    let n = P::PAT.len();
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    let mut p = if cx.src.chance(1, 6) { gen_perm(cx, n, true).0 } else { cx.src.perm(n) };
    for i in 0..n {
        if P::PAT[i] >= 0 {
            let x = P::PAT[i] as usize;
            if let Some(j) = p.iter().position(|&y| y == x) {
                p[j] = p[i];
            }
            p[i] = x;
        }
    }
    for i in 0..n {
        if P::PAT[i] >= 0 {
            p[i] = P::PAT[i] as usize;
        }
    }
    let mut q = p.clone();
    q.sort();
    let ok = m.rank() == n && q.iter().enumerate().all(|(i, &x)| i == x);
    cx.note(|| format!("permutation {p:?}"));
    check_perm::<S, L, P>(cx, &mut buf, &geo, &m, P::from_dims(&p), if ok { Some(&p) } else { None })
}

/// Random permutation or a list that is not a permutation.
fn gen_perm(cx: &mut Ctx, rank: usize, fixed: bool) -> (Vec<usize>, bool) {
    let mut p = cx.src.perm(rank);
    if cx.src.chance(1, 6) {
        match cx.src.below(3) {
            0 if !fixed => {
                if cx.src.flip() { p.push(rank) } else { p.push(0) }
            }
            1 if rank > 1 => {
                let (i, j) = (cx.src.below(rank), cx.src.below(rank));
                if i == j {
                    p[i] = rank;
                } else {
                    p[i] = p[j];
                }
            }
            _ if rank > 0 => {
                let i = cx.src.below(rank);
                p[i] = *cx.src.pick(&[rank, rank + 1, usize::MAX, 64, 128]);
                if p[i] < rank {
                    p[i] = rank;
                }
            }
            _ => return (p, true),
        }
        cx.note(|| format!("invalid permutation {p:?}"));
        return (p, false);
    }
    cx.note(|| format!("permutation {p:?}"));
    (p, true)
}

fn permute_array<const N: usize, S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res
where
    [usize; N]: IntoShape<IntoShape: Permutation>,
{
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    let (p, ok) = gen_perm(cx, N, true);
    let a: [usize; N] = p[..].try_into().unwrap();
    check_perm::<S, L, [usize; N]>(cx, &mut buf, &geo, &m, a, if ok { Some(&p) } else { None })
}

fn permute_dyn<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 300);
    let (p, ok) = gen_perm(cx, m.rank(), false);
    check_perm::<S, L, DynRank>(cx, &mut buf, &geo, &m, DynRank::from_dims(&p), if ok { Some(&p) } else { None })
}

/// All kinds of values that name a shape, as permutation and as target of a reshape.
fn forms<L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<DynRank, L>(cx, 300);
    let (p, ok) = gen_perm(cx, m.rank(), false);
    let want = if ok { Some(&p[..]) } else { None };
    let how = cx.src.below(4);
    cx.note(|| format!("permutation {p:?} as form {how}"));
    macro_rules! perm {
        ($p:expr) => {
            check_perm::<DynRank, L, _>(cx, &mut buf, &geo, &m, $p, want)?
        };
    }
    macro_rules! refs {
        ($($n:literal)*) => {
            match p.len() {
                $( $n => { let a: [usize; $n] = p[..].try_into().unwrap(); perm!(&a) } )*
                _ => perm!(&p[..]),
            }
        };
    }
    match how {
        0 => refs!(0 1 2 3 4 5 6),
        1 => perm!(p.clone().into_boxed_slice()),
        2 => perm!(p.clone()),
        _ => perm!(&p[..]),
    }
    if m.rank() == 1 {
        if m.dims[0] == 3 {
            check_perm::<(Const<3>,), L, _>(cx, &mut buf, &geo, &m, Const::<0>, Some(&[0]))?;
        }
        check_perm::<(Dyn,), L, _>(cx, &mut buf, &geo, &m, Const::<0>, Some(&[0]))?;
        check_perm::<(Dyn,), L, _>(cx, &mut buf, &geo, &m, 0usize, Some(&[0]))?;
        let k = cx.src.range(1, 9);
        check_perm::<(Dyn,), L, _>(cx, &mut buf, &geo, &m, k, None)?;
    }
    let t = gen_target::<DynRank>(cx, &m.dims);
    if ambiguous(&t) {
        return Ok(());
    }
    let base = buf.ptr();
    let v = view::<DynRank, L>(&buf, &geo);
    let want = t.dims.as_ref().map(|d| m.reshape(d));
    let must = t.dims.as_ref().is_some_and(|d| must_reshape(&geo.dims, &geo.strides, d));
    cx.note(|| format!("reshape to {:?}", t.ask));
    let a = &t.ask;
    macro_rules! arrays {
        ($($n:literal)*) => {
            match a.len() {
                $( $n => {
                    let x: [usize; $n] = a[..].try_into().unwrap();
                    settle("reshape with an array", caught(|| v.reshape(x)), base, want.as_ref(), must)?;
                    settle("reshape with a reference to an array", caught(|| v.reshape(&x)), base, want.as_ref(), must)?;
                    if let Some(d) = &t.dims {
                        agree_from(&x, d)?;
                        agree_from(&&x, d)?;
                    }
                } )*
                _ => {}
            }
        };
    }
    arrays!(0 1 2 3 4 5 6);
    settle("reshape with a box", caught(|| v.reshape(a.clone().into_boxed_slice())), base, want.as_ref(), must)?;
    settle("reshape with a vector", caught(|| v.reshape(a.clone())), base, want.as_ref(), must)?;
    if let Some(d) = &t.dims {
        agree_from(&a.clone().into_boxed_slice(), d)?;
        agree_from(a, d)?;
        agree_from(&&a[..], d)?;
    }
    let n = m.len();
    let flat = m.reshape(&[n]);
    let must = must_reshape(&geo.dims, &geo.strides, &[n]);
    settle("reshape with a number", caught(|| v.reshape(n)), base, Some(&flat), must)?;
    settle("reshape with another number", caught(|| v.reshape(n + 1)), base, None, false)?;
    let ok = |k: usize| if k == n { Some(&flat) } else { None };
    settle("reshape with a constant", caught(|| v.reshape(Const::<2>)), base, ok(2), must)?;
    settle("reshape with a constant", caught(|| v.reshape(Const::<3>)), base, ok(3), must)?;
    settle("reshape with a constant", caught(|| v.reshape(Const::<4>)), base, ok(4), must)?;
    if n == 3 || n == 4 {
        agree_from(&n, &[n])?;
    }
    agree_from(&Const::<3>, &[3])
}

/// New arrays of the shape.
fn agree_from<I: IntoShape + Clone>(shape: &I, dims: &[usize]) -> Res {
    let known: usize = dims.iter().product();
    let d = shape_dims(&shape.clone().into_shape());
    if d.contains(&usize::MAX) {
        return Ok(()); // One size is left open.
    }
    ensure_eq!(d, dims, "into_shape");
    let t: Tensor<i32, I::IntoShape> = Tensor::from_elem(shape.clone(), 5);
    agree_vals("from_elem", &t, dims, &vec![5; known])?;
    let mut k = 0;
    let t: Tensor<i32, I::IntoShape> = Tensor::from_fn(shape.clone(), |_| {
        k += 1;
        k
    });
    agree_vals("from_fn", &t, dims, &(1..=known as i32).collect::<Vec<_>>())
}

/// Ranks up to 140, with few elements.
fn permute_high(cx: &mut Ctx) -> Res {
    let rank = if cx.src.flip() { *cx.src.pick(&[31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129]) } else { cx.src.range(7, 140) };
    let mut dims = vec![1; rank];
    for _ in 0..cx.src.range(0, 4) {
        let i = cx.src.below(rank);
        dims[i] = cx.src.range(1, 4);
    }
    let geo = strided_geo(&mut cx.src, &dims);
    cx.note(|| format!("rank {rank}"));
    let m = geo.model();
    let mut buf = Buf::new(geo.extent);
    let (p, ok) = gen_perm(cx, rank, false);
    check_perm::<DynRank, Strided, DynRank>(cx, &mut buf, &geo, &m, DynRank::from_dims(&p), if ok { Some(&p) } else { None })
}

fn remap<S: TestShape, L: TestLayout, R: TestShape, K: TestLayout>(cx: &mut Ctx) -> Res {
    // Half of the cases have sizes that fit the target.
    let mut dims = gen_dims::<S>(&mut cx.src, 300);
    if cx.src.flip() {
        let d = gen_dims::<R>(&mut cx.src, 300);
        if fits::<S>(&d) {
            dims = d;
        }
    }
    let geo = L::geo(&mut cx.src, &dims);
    let m = geo.model();
    cx.note(|| format!("dims {:?} strides {:?}", geo.dims, geo.strides));
    let mut buf = Buf::new(geo.extent);
    let base = buf.ptr();
    let ok = fits::<R>(&dims);
    let want = if ok { Some(&m) } else { None };
    let must = ok && (!K::IS_DENSE || geo.strides == dense_strides(&dims));
    cx.nontrivial_if(m.len() > 1 && ok);
    let v = view::<S, L>(&buf, &geo);
    settle("remap", caught(|| v.remap::<R, K>()), base, want, must)?;
    settle("into_mapping", caught(|| v.clone().into_mapping::<R, K>()), base, want, must)?;
    let mut expect = buf.clone();
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        match (caught(|| v.remap_mut::<R, K>()), want) {
            (Some(mut w), Some(m)) => {
                agree("remap_mut", &w, base, m)?;
                write_all(&mut w, m, &mut expect, 1);
            }
            (Some(_), None) => return Err("remap_mut: accepted".into()),
            (None, Some(_)) if must => return Err(format!("remap_mut was rejected: {}", last_panic())),
            _ => {}
        }
        match (caught(|| v.into_mapping::<R, K>()), want) {
            (Some(w), Some(m)) => agree("into_mapping of a mutable view", &w, base, m)?,
            (Some(_), None) => return Err("into_mapping: accepted".into()),
            (None, Some(_)) if must => return Err(format!("into_mapping was rejected: {}", last_panic())),
            _ => {}
        }
    }
    ensure_eq!(buf, expect, "buffer after writes");
    if L::IS_DENSE {
        let vals: Vec<i32> = m.pos.iter().map(|&p| buf.get(p)).collect();
        let t: Tensor<i32, S> = Tensor::<i32, (Dyn,)>::from(vals.clone()).into_shape(S::from_dims(&dims));
        let p = t.as_ptr();
        match (caught(|| t.into_mapping::<R>()), ok) {
            (Some(x), true) => {
                agree_vals("into_mapping of a tensor", &x, &dims, &vals)?;
                ensure!(vals.is_empty() || x.as_ptr() == p, "into_mapping of a tensor copied the elements");
            }
            (Some(_), false) => return Err("into_mapping of a tensor: accepted".into()),
            (None, true) => return Err(format!("into_mapping of a tensor was rejected: {}", last_panic())),
            _ => {}
        }
    }
    Ok(())
}

/// Sequences of operations on a view with dynamic rank.
fn chain(cx: &mut Ctx) -> Res {
    let dims = gen_dyn_dims(&mut cx.src, 400, 5);
    let geo = strided_geo(&mut cx.src, &dims);
    cx.note(|| format!("dims {:?} strides {:?}", geo.dims, geo.strides));
    let mut m = geo.model();
    let buf = Buf::new(geo.extent);
    let base = buf.ptr();
    let mut v = view::<DynRank, Strided>(&buf, &geo);
    let mut steps = 0;
    for _ in 0..cx.src.range(1, 8) {
        let rank = m.rank();
        match cx.src.below(6) {
            0 => {
                let p = cx.src.perm(rank);
                cx.note(|| format!("permute {p:?}"));
                m = m.permute(&p);
                v = v.into_permuted(&p[..]);
            }
            1 => {
                cx.note(|| "reorder".into());
                m = m.reversed();
                v = v.into_reordered();
            }
            2 | 3 => {
                let n = cx.src.range(1, 5);
                let d = regroup(&mut cx.src, &m.dims, n);
                if m.len() != 1 && product(&d) != m.len() {
                    continue;
                }
                cx.note(|| format!("reshape {d:?}"));
                let must = must_reshape(&m.dims, v.strides(), &d);
                let w = m.reshape(&d);
                match caught(|| v.reshape(&d[..]).into_dyn()) {
                    None => ensure!(!must, "reshape of {:?} with strides {:?} to {d:?} was rejected", m.dims, v.strides()),
                    Some(_) => {
                        v = v.into_shape(&d[..]);
                        m = w;
                    }
                }
            }
            4 if rank > 0 => {
                let a = cx.src.below(rank);
                if m.dims[a] == 0 {
                    continue;
                }
                let i = cx.src.below(m.dims[a]);
                cx.note(|| format!("axis {a} at {i}"));
                m = m.remove(a, i);
                v = v.into_axis_at(a, i);
            }
            _ if rank > 0 => {
                let a = cx.src.below(rank);
                let mid = cx.src.range(0, m.dims[a]);
                let second = cx.src.flip();
                cx.note(|| format!("split axis {a} at {mid}"));
                let (x, y) = m.split(a, mid);
                let (p, q) = v.into_split_axis_at(a, mid);
                if second {
                    m = y;
                    v = q;
                } else {
                    m = x;
                    v = p;
                }
            }
            _ => continue,
        }
        steps += 1;
        agree("chain", &v, base, &m)?;
    }
    cx.nontrivial_if(steps > 1 && m.len() > 1);
    Ok(())
}

fn array_shape<S: TestShape + ConstShape, R: TestShape + ConstShape>(cx: &mut Ctx) -> Res {
    let off = cx.src.below(1000);
    let from: Vec<usize> = S::PAT.iter().map(|&p| p as usize).collect();
    let to: Vec<usize> = R::PAT.iter().map(|&p| p as usize).collect();
    cx.note(|| format!("array {from:?} to {to:?}"));
    let vals: Vec<i32> = (0..product(&from)).map(|k| value(k + off)).collect();
    let mut k = 0;
    let a: Array<i32, S> = Array::from_fn(|_| {
        k += 1;
        vals[k - 1]
    });
    let ok = product(&from) == product(&to);
    cx.nontrivial_if(ok && vals.len() > 1);
    match caught(|| a.into_shape::<R>()) {
        Some(b) => {
            ensure!(ok, "into_shape accepted another length");
            agree_vals("into_shape of an array", &b, &to, &vals)?;
            match caught(|| b.into_scalar()) {
                Some(x) => ensure!(vals.len() == 1 && x == vals[0], "into_scalar of an array"),
                None => ensure!(vals.len() != 1, "into_scalar of an array was rejected"),
            }
        }
        None => ensure!(!ok, "into_shape of an array was rejected"),
    }
    Ok(())
}

/// Views that repeat elements, with sizes above 2^32.
fn repeated(cx: &mut Ctx) -> Res {
    let (m, buf) = lazy::Lazy::generate(cx, 3);
    cx.nontrivial_if(true);
    let v = m.view::<(Dyn, Dyn, Dyn)>(&buf);
    m.permute(&[2, 1, 0]).agree(cx, "reordered", &v.reorder(), &buf)?;
    let p = cx.src.perm(3);
    cx.note(|| format!("permutation {p:?}"));
    m.permute(&p).agree(cx, "permuted", &v.permute([p[0], p[1], p[2]]), &buf)?;
    m.agree(cx, "dynamic rank", &v.clone().into_dyn(), &buf)?;
    // A split of one dimension into two, and of two equal strides of zero into one.
    let k = cx.src.below(3);
    let f = *cx.src.pick(&[1usize, 2, 3, 1 << 16]);
    if m.dims[k] % f == 0 {
        let mut r = m.clone();
        r.dims[k] /= f;
        r.dims.insert(k + 1, f);
        r.strides.insert(k + 1, m.strides[k]);
        r.strides[k] *= f as isize;
        let d = &r.dims;
        let w = v.reshape([d[0], d[1], d[2], d[3]]);
        cx.note(|| format!("reshaped to {d:?}"));
        r.agree(cx, "reshaped", &w, &buf)?;
        m.agree(cx, "reshaped back", &w.reshape([m.dims[0], m.dims[1], m.dims[2]]), &buf)?;
    }
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    harness::add_elems!(subs, 1, rearranged);
    subs.add("repeated", 8, repeated);
    subs.add("chain", 80, chain);
    subs.add("permute high rank", 5, permute_high);
    subs.add("forms dense", 8, forms::<Dense>);
    subs.add("forms strided", 8, forms::<Strided>);
    macro_rules! resh {
        ($s:ty; $($r:ty),*) => {$(
            subs.add(concat!("reshape dense ", stringify!($s), " to ", stringify!($r)), 1, reshape::<$s, Dense, $r>);
            subs.add(concat!("reshape strided ", stringify!($s), " to ", stringify!($r)), 2, reshape::<$s, Strided, $r>);
        )*};
    }
    macro_rules! resh_all { ($($s:ty),*) => {$( resh!($s; (), (D,), (C2, D), (D, C3), (D, D), (C2, C3), (C2, D, C3), (D, D, D), DynRank); )*} }
    resh_all!((D,), (D, D), (C2, C3), (D, D, D), DynRank);
    resh!((D, D, D, D); (D,), (D, D), (C2, D, C3), (D, D, D, D), DynRank);
    resh!((C2, D, C3); (D, D, D), (C2, D, D, C3), DynRank);
    resh!((C2, C3, C2); (D, D), (C2, C1, C3, C2), DynRank);
    resh!((C2, D, C1, D, C2, D); (D, D), (D, D, D, D, D), DynRank);
    resh!((D, C2, D, C1, D); (D, D, D), (D, D, D, D, D, D));
    resh!((); (), (C1,), (D, D, C1), DynRank);
    resh!((C0, D); (D,), (C3, C0), (D, D), DynRank);
    macro_rules! all {
        ($s:ty) => {
            subs.add(concat!("flatten dense ", stringify!($s)), 1, flatten::<$s, Dense>);
            subs.add(concat!("flatten strided ", stringify!($s)), 2, flatten::<$s, Strided>);
            subs.add(concat!("reorder dense ", stringify!($s)), 1, reorder::<$s, Dense>);
            subs.add(concat!("reorder strided ", stringify!($s)), 1, reorder::<$s, Strided>);
            subs.add(concat!("permute dyn dense ", stringify!($s)), 1, permute_dyn::<$s, Dense>);
            subs.add(concat!("permute dyn strided ", stringify!($s)), 1, permute_dyn::<$s, Strided>);
        };
    }
    each_shape!(all);
    macro_rules! pc {
        ($($s:ty; $($p:ty),*);* $(;)?) => {$($(
            subs.add(concat!("permute dense ", stringify!($s), " by ", stringify!($p)), 1, permute_const::<$s, Dense, $p>);
            subs.add(concat!("permute strided ", stringify!($s), " by ", stringify!($p)), 1, permute_const::<$s, Strided, $p>);
        )*)*};
    }
    pc!(
        (D,); (C0,);
        (C3,); (C0,);
        (D, D); (C0, C1), (C1, C0);
        (C2, D); (C0, C1), (C1, C0);
        (C2, C3); (C1, C0);
        (D, D, D); (C0, C1, C2), (C0, C2, C1), (C1, C0, C2), (C1, C2, C0), (C2, C0, C1), (C2, C1, C0);
        (C2, D, C3); (C0, C1, C2), (C0, C2, C1), (C1, C0, C2), (C1, C2, C0), (C2, C0, C1), (C2, C1, C0);
        (D, D, D, D); (C0, C1, C2, C3), (C3, C1, C2, C0), (C0, C1, C3, C2), (C2, C3, C0, C1), (C1, C0, C2, C3);
        (C2, C1, C3, C2); (C0, C1, C2, C3), (C3, C2, C1, C0), (C1, C3, C0, C2);
        (D, C2, D, C1, D); (C0, C1, C2, C3, C4), (C4, C0, C2, C1, C3), (C0, C1, C2, C4, C3);
        (D, D, D, D, D, D); (C0, C1, C2, C3, C4, Const<5>), (Const<5>, C4, C3, C2, C1, C0), (C1, C0, C2, C3, Const<5>, C4);
    );
    macro_rules! pa {
        ($($n:literal $s:ty),* $(,)?) => {$(
            subs.add(concat!("permute array dense ", stringify!($s)), 2, permute_array::<$n, $s, Dense>);
            subs.add(concat!("permute array strided ", stringify!($s)), 2, permute_array::<$n, $s, Strided>);
        )*};
    }
    macro_rules! pm {
        ($($s:ty; $($p:ty),*);* $(;)?) => {$($(
            subs.add(concat!("permute dense ", stringify!($s), " by ", stringify!($p)), 1, permute_mixed::<$s, Dense, $p>);
            subs.add(concat!("permute strided ", stringify!($s), " by ", stringify!($p)), 1, permute_mixed::<$s, Strided, $p>);
        )*)*};
    }
    pm!(
        (D,); (D,), (C1,), (D, D);
        (C3,); (D,), (C1,);
        (D, D); (D, C0), (C0, D), (D, C1), (C1, D), (C0, C0), (C1, C1), (C0, C2), (D,), (D, D, D);
        (C2, C3); (D, C0), (C1, D), (C1, C1);
        (D, D, D); (D, C0, D), (C2, D, C0), (C0, D, D), (D, D, C2), (C1, C1, C2), (C1, C0), (D, D, D, D);
        (C2, D, C3); (C2, D, C0), (C0, D, D), (D, D, C2);
        (D, D, D, D); (C2, D, D, D), (D, D, C2, C3);
        (D, D, D, D, D); (C0, D, C2, D, C4);
        DynRank; (D,), (D, D), (C1, D), (D, D, D), (C2, D, C0), (D, D, C2, C3);
    );
    pa!(1 (D,), 1 (C3,), 2 (D, D), 2 (C2, C3), 3 (D, D, D), 3 (C2, D, C3), 4 (D, D, D, D), 5 (D, D, D, D, D), 6 (D, D, D, D, D, D), 6 (C2, D, C1, D, C2, D));
    macro_rules! rm {
        ($($s:ty => $($r:ty),*);* $(;)?) => {$($(
            subs.add(concat!("remap dense ", stringify!($s), " to dense ", stringify!($r)), 1, remap::<$s, Dense, $r, Dense>);
            subs.add(concat!("remap dense ", stringify!($s), " to strided ", stringify!($r)), 1, remap::<$s, Dense, $r, Strided>);
            subs.add(concat!("remap strided ", stringify!($s), " to dense ", stringify!($r)), 1, remap::<$s, Strided, $r, Dense>);
            subs.add(concat!("remap strided ", stringify!($s), " to strided ", stringify!($r)), 1, remap::<$s, Strided, $r, Strided>);
        )*)*};
    }
    rm!(
        () => DynRank, (D,);
        (D,) => (D,), (C3,), DynRank, (D, D);
        (D, D) => (D, D), (C2, C3), (D, C3), DynRank, (D, D, D);
        (C2, C3) => (D, D), (C2, D), (C3, C0), DynRank;
        (C2, D, C3) => (C2, C3, C2), (D, D, D), (D, C2, D), DynRank;
        (D, D, D) => (C2, D, C3), (D, D, C1), (C2, C0, C3);
        (D, D, D, D) => (C2, D, D, C3), DynRank;
        (D, D, D, D, D) => (D, C2, D, C1, D);
        (C2, D, C1, D, C2, D) => (C1, C2, C1, C2, C2, C1), (D, D, D, D, D, D);
        DynRank => (), (D,), (C3,), (D, D), (C2, D), (D, D, D), (C2, D, C3), (D, D, D, D), (D, D, D, D, D), (D, D, D, D, D, D), DynRank;
    );
    macro_rules! ar {
        ($($s:ty => $($r:ty),*);* $(;)?) => {$($(
            subs.add(concat!("array ", stringify!($s), " to ", stringify!($r)), 1, array_shape::<$s, $r>);
        )*)*};
    }
    ar!(() => (), (C1,), (C3,); (C1,) => (), (C1,), (C2, C3); (C2, C3) => (C2, C3), (C2, C3, C2); (C2, C3, C2) => (C2, C1, C3, C2), (C2, C1, C2, C3, C1), (C3,);
        (C2, C1, C2, C3, C1) => (C2, C3, C2), (C2, C1, C3, C2); (C3, C0) => (C0,), (C2, C0, C3); (C0,) => (C3, C0), (C1,);
        (C1, C2, C1, C2, C2, C1) => (C1, C2, C1, C2, C2, C1), (C3,));
    harness::main(Property {
        id: "C04",
        rule: "the array has at least two elements and the operation changes its dimensions, their order or its type",
        subs: subs.0,
    })
}
