//! C02: subarray views.
use harness::args::*;
use harness::*;
use mdarray::*;

/// Writes a new value to each element of the view, by index.
fn overwrite<S: Shape, L: Layout>(v: &mut Slice<i32, S, L>, m: &Model, expect: &mut Buf, add: i32) {
    let mut idx = vec![0; m.rank()];
    for k in 0..m.len() {
        v[&idx[..]] = -(k as i32) - add;
        expect.set(m.pos[k], -(k as i32) - add);
        advance(&mut idx, &m.dims);
    }
}

macro_rules! rank_fn {
    ($name:ident, $n:literal, ($($x:ident $a:ident $v:ident),+)) => {
        fn $name<$($x: Dim + 'static,)+ $($a: Arg,)+ L: TestLayout>(cx: &mut Ctx) -> Res
        where
            ($($x,)+): TestShape,
        {
            let (mut buf, geo, m) = gen_array::<($($x,)+), L>(cx, 240);
            let base = buf.ptr();
            let mut sels = Vec::new();
            let reject = cx.src.chance(1, 6);
            let which = if reject { cx.src.below($n) } else { $n };
            $(
                let ($v, sel) = <$a as Arg>::make(&mut cx.src, m.dims[sels.len()], which == sels.len());
                cx.note(|| format!("{:?}", $v));
                sels.push(sel);
            )+
            let shared = view::<($($x,)+), L>(&buf, &geo);
            if sels.iter().any(|s| s.is_none()) {
                cx.tag("rejected selection");
                must_panic(|| "view".into(), || { shared.view($($v.clone()),+); })?;
                must_panic(|| "tensor".into(), || { shared.tensor($($v.clone()),+); })?;
                must_panic(|| "into_view".into(), || { shared.clone().into_view($($v.clone()),+); })?;
                let mut v = view_mut::<($($x,)+), L>(&mut buf, &geo);
                must_panic(|| "view_mut".into(), || { v.view_mut($($v.clone()),+); })?;
                must_panic(|| "into_view of a mutable view".into(), || { v.into_view($($v.clone()),+); })?;
                ensure_eq!(buf, Buf::new(geo.extent), "buffer after rejected selections");
                return Ok(());
            }
            let sels: Vec<Sel> = sels.into_iter().map(|s| s.unwrap()).collect();
            let r = m.select(&sels);
            cx.nontrivial_if(r.len() > 1 && r.len() < m.len());
            if r.len() == 0 { cx.tag("empty selection"); }
            agree("view", &shared.view($($v.clone()),+), base, &r)?;
            agree("into_view", &shared.clone().into_view($($v.clone()),+), base, &r)?;
            let vals: Vec<i32> = r.pos.iter().map(|&p| buf.get(p)).collect();
            agree_vals("tensor", &shared.tensor($($v.clone()),+), &r.dims, &vals)?;
            let mut expect = buf.clone();
            {
                let mut v = view_mut::<($($x,)+), L>(&mut buf, &geo);
                let mut s = v.view_mut($($v.clone()),+);
                agree("view_mut", &s, base, &r)?;
                overwrite(&mut s, &r, &mut expect, 1);
            }
            ensure_eq!(buf, expect, "buffer after writes through view_mut");
            {
                let v = view_mut::<($($x,)+), L>(&mut buf, &geo);
                let mut s = v.into_view($($v.clone()),+);
                agree("into_view of a mutable view", &s, base, &r)?;
                overwrite(&mut s, &r, &mut expect, 5000);
            }
            ensure_eq!(buf, expect, "buffer after writes through into_view");
            // Owned arrays.
            let vals: Vec<i32> = m.pos.iter().map(|&p| buf.get(p)).collect();
            let mut t = Tensor::<i32, (Dyn,)>::from(vals.clone()).into_shape(<($($x,)+) as Shape>::from_dims(&m.dims));
            let p = t.as_ptr();
            let rt = Model::dense(&m.dims).select(&sels);
            agree("view of a tensor", &t.view($($v.clone()),+), p, &rt)?;
            agree("view_mut of a tensor", &t.view_mut($($v.clone()),+), p, &rt)?;
            Ok(())
        }
    };
}

rank_fn!(view1, 1, (X A a));
rank_fn!(view2, 2, (X A a, Y B b));
rank_fn!(view3, 3, (X A a, Y B b, Z C c));
rank_fn!(view4, 4, (X A a, Y B b, Z C c, W E e));
rank_fn!(view5, 5, (X A a, Y B b, Z C c, W E e, U F f));
rank_fn!(view6, 6, (X A a, Y B b, Z C c, W E e, U F f, V G g));

/// Chains of subarrays of subarrays.
fn chain(cx: &mut Ctx) -> Res {
    let dims = gen_rank_dims(&mut cx.src, 3, 500);
    let geo = strided_geo(&mut cx.src, &dims);
    cx.note(|| format!("dims {:?} strides {:?}", geo.dims, geo.strides));
    let mut buf = Buf::new(geo.extent);
    let base = buf.ptr();
    let mut m = geo.model();
    let steps = cx.src.range(1, 6);
    let mutable = cx.src.flip();
    let mut expect = buf.clone();
    macro_rules! steps {
        ($v:ident) => {
            for _ in 0..steps {
                match m.rank() {
                    0 => break,
                    1 => {
                        let w = $v.into_mapping::<(Dyn,), Strided>();
                        let (a, sa) = Step::<Bnd>::make(&mut cx.src, m.dims[0], false);
                        cx.note(|| format!("{a:?}"));
                        m = m.select(&[sa.unwrap()]);
                        $v = w.into_view(a).into_dyn();
                    }
                    2 => {
                        let w = $v.into_mapping::<(Dyn, Dyn), Strided>();
                        let (a, sa) = Step::<Bnd>::make(&mut cx.src, m.dims[0], false);
                        let (b, sb) = Step::<Bnd>::make(&mut cx.src, m.dims[1], false);
                        let (i, si) = At::make(&mut cx.src, m.dims[0], false);
                        let (j, sj) = At::make(&mut cx.src, m.dims[1], false);
                        let how = cx.src.below(5);
                        cx.note(|| format!("{how} {a:?} {b:?} {i} {j}"));
                        match (how, si, sj) {
                            (0, Some(si), _) => {
                                m = m.select(&[si, sb.unwrap()]);
                                $v = w.into_view(i, b).into_dyn();
                            }
                            (1, _, Some(sj)) => {
                                m = m.select(&[sa.unwrap(), sj]);
                                $v = w.into_view(a, j).into_dyn();
                            }
                            _ => {
                                m = m.select(&[sa.unwrap(), sb.unwrap()]);
                                $v = w.into_view(a, b).into_dyn();
                            }
                        }
                    }
                    _ => {
                        let w = $v.into_mapping::<(Dyn, Dyn, Dyn), Strided>();
                        let (a, sa) = Step::<Bnd>::make(&mut cx.src, m.dims[0], false);
                        let (b, sb) = Step::<Bnd>::make(&mut cx.src, m.dims[1], false);
                        let (c, sc) = Step::<Bnd>::make(&mut cx.src, m.dims[2], false);
                        let (j, sj) = At::make(&mut cx.src, m.dims[1], false);
                        let how = cx.src.below(5);
                        cx.note(|| format!("{how} {a:?} {b:?} {c:?} {j}"));
                        match (how, sj) {
                            (0, Some(sj)) => {
                                m = m.select(&[sa.unwrap(), sj, sc.unwrap()]);
                                $v = w.into_view(a, j, c).into_dyn();
                            }
                            _ => {
                                m = m.select(&[sa.unwrap(), sb.unwrap(), sc.unwrap()]);
                                $v = w.into_view(a, b, c).into_dyn();
                            }
                        }
                    }
                }
                agree("chained view", &$v, base, &m)?;
            }
        };
    }
    if mutable {
        let mut v = view_mut::<DynRank, Strided>(&mut buf, &geo);
        steps!(v);
        overwrite(&mut v, &m, &mut expect, 1);
    } else {
        let mut v = view::<DynRank, Strided>(&buf, &geo);
        steps!(v);
    }
    cx.nontrivial_if(m.len() > 1);
    ensure_eq!(buf, expect, "buffer after the chain");
    Ok(())
}

/// Subarrays with constant sizes copied to an inline array.
fn array(cx: &mut Ctx) -> Res {
    let (buf, geo, m) = gen_array::<(C2, D, C3), Strided>(cx, 200);
    let v = view::<(C2, D, C3), Strided>(&buf, &geo);
    let j = cx.src.range(0, m.dims[1] + 1);
    cx.note(|| format!("array(.., {j}, ..)"));
    if j >= m.dims[1] {
        must_panic(|| "array".into(), || { v.array(.., j, ..); })?;
        return Ok(());
    }
    cx.nontrivial_if(true);
    let r = m.remove(1, j);
    let vals: Vec<i32> = r.pos.iter().map(|&p| buf.get(p)).collect();
    agree_vals("array", &v.array(.., j, ..), &r.dims, &vals)?;
    let i = cx.src.below(2);
    let r = r.remove(0, i);
    let vals: Vec<i32> = r.pos.iter().map(|&p| buf.get(p)).collect();
    agree_vals("array", &v.array(i, j, ..), &r.dims, &vals)?;
    Ok(())
}

/// Ranges of views that repeat elements, with sizes above 2^32.
fn repeated(cx: &mut Ctx) -> Res {
    let (m, buf) = lazy::Lazy::generate(cx, 3);
    cx.nontrivial_if(true);
    let v = m.view::<(Dyn, Dyn, Dyn)>(&buf);
    let (a, b) = (m.index(&mut cx.src), m.index(&mut cx.src));
    let lo: Vec<usize> = (0..3).map(|i| a[i].min(b[i])).collect();
    let hi: Vec<usize> = (0..3).map(|i| a[i].max(b[i])).collect();
    cx.note(|| format!("{lo:?} to {hi:?}"));
    let mut r = m.clone();
    for i in 0..3 {
        r = r.range(i, lo[i], hi[i] - lo[i]);
    }
    r.agree(cx, "ranges", &v.view(lo[0]..hi[0], lo[1]..hi[1], lo[2]..hi[2]), &buf)?;
    let mut r = m.remove(1, a[1]).range(0, lo[0], m.dims[0] - lo[0]);
    r.agree(cx, "range, integer, full", &v.view(lo[0].., a[1], ..), &buf)?;
    // Steps.
    let st = *cx.src.pick(&[2usize, 3, 1 << 20, 1 << 33, 7]);
    r.dims[0] = (m.dims[0] - lo[0]).div_ceil(st);
    r.strides[0] = if r.strides[0] == 0 || r.dims[0] <= 1 { 0 } else { r.strides[0] * st as isize };
    r.agree(cx, "step, integer, full", &v.view(step(lo[0].., st as isize), a[1], ..), &buf)?;
    let mut r = m.remove(2, a[2]);
    r.dims[1] = m.dims[1].div_ceil(st);
    r.base += if m.strides[1] == 0 { 0 } else { m.strides[1] * (m.dims[1] - 1) as isize };
    r.strides[1] = if m.strides[1] == 0 || r.dims[1] <= 1 { 0 } else { -m.strides[1] * st as isize };
    r.agree(cx, "full, negative step, integer", &v.view(.., step(.., -(st as isize)), a[2]), &buf)?;
    must_panic(|| "range after the end".into(), || { v.view(..m.dims[0] + 1, .., ..); })?;
    must_panic(|| "index after the end".into(), || { v.view(.., m.dims[1], ..); })?;
    must_panic(|| "range after the end".into(), || { v.view(.., .., m.dims[2] + 1..); })
}

fn main() {
    let mut subs = Subs::default();
    harness::add_elems!(subs, 1, subarrays);
    subs.add("chain", 60, chain);
    subs.add("array", 4, array);
    subs.add("repeated", 6, repeated);
    macro_rules! one {
        ($a:ty; $($x:ident)*) => {$(
            subs.add(concat!("rank 1 dense ", stringify!($x), " ", stringify!($a)), 2, view1::<$x, $a, Dense>);
            subs.add(concat!("rank 1 strided ", stringify!($x), " ", stringify!($a)), 2, view1::<$x, $a, Strided>);
        )*};
    }
    macro_rules! one_each { ($($a:ty),*) => { $(one!($a; D C3);)* } }
    one_each!(At, Full, Rng_, From_, Incl, To, ToIncl, Bnd, Step<Full>, Step<Rng_>, Step<From_>, Step<Incl>, Step<To>, Step<ToIncl>, Step<Bnd>);
    macro_rules! two {
        ($($a:ty, $b:ty);* $(;)?) => {$(
            subs.add(concat!("rank 2 dense ", stringify!($a), " ", stringify!($b)), 2, view2::<D, D, $a, $b, Dense>);
            subs.add(concat!("rank 2 strided ", stringify!($a), " ", stringify!($b)), 2, view2::<D, D, $a, $b, Strided>);
            subs.add(concat!("rank 2 dense (C2, C3) ", stringify!($a), " ", stringify!($b)), 1, view2::<C2, C3, $a, $b, Dense>);
        )*};
    }
    macro_rules! two_all { ($($a:ty),*) => {$( two!($a, At; $a, Full; $a, Bnd; $a, Incl; $a, Step<Rng_>); )*} }
    two_all!(At, Full, Rng_, Bnd, Step<Bnd>);
    macro_rules! three {
        ($($a:ty, $b:ty, $c:ty);* $(;)?) => {$(
            subs.add(concat!("rank 3 dense ", stringify!($a), " ", stringify!($b), " ", stringify!($c)), 2, view3::<D, D, D, $a, $b, $c, Dense>);
            subs.add(concat!("rank 3 strided ", stringify!($a), " ", stringify!($b), " ", stringify!($c)), 2, view3::<D, D, D, $a, $b, $c, Strided>);
        )*};
    }
    macro_rules! three_all { ($($a:ty),*) => {$(
        three!($a, At, At; $a, At, Full; $a, At, Rng_; $a, Full, At; $a, Full, Full; $a, Full, Rng_;
               $a, Bnd, At; $a, Bnd, Full; $a, Bnd, Bnd; $a, Step<Rng_>, Full; $a, Full, Step<Rng_>); )*} }
    three_all!(At, Full, Rng_, Step<Bnd>);
    macro_rules! four {
        ($($a:ty, $b:ty, $c:ty, $e:ty);* $(;)?) => {$(
            subs.add(concat!("rank 4 dense ", stringify!($a $b $c $e)), 2, view4::<D, D, D, D, $a, $b, $c, $e, Dense>);
            subs.add(concat!("rank 4 strided ", stringify!($a $b $c $e)), 2, view4::<C2, D, D, C3, $a, $b, $c, $e, Strided>);
        )*};
    }
    four!(At, At, At, At; Full, Full, Full, Full; At, Full, At, Full; Full, At, Full, At; Rng_, Full, Full, Full;
        At, Rng_, Full, Full; Full, Bnd, Bnd, Full; Bnd, At, At, Rng_; Step<Bnd>, Full, At, Bnd; Full, Full, Full, At;
        At, Rng_, At, Full; Full, Step<Rng_>, Full, Step<Full>);
    macro_rules! five {
        ($($a:ty, $b:ty, $c:ty, $e:ty, $f:ty);* $(;)?) => {$(
            subs.add(concat!("rank 5 dense ", stringify!($a $b $c $e $f)), 2, view5::<D, C2, D, C1, D, $a, $b, $c, $e, $f, Dense>);
            subs.add(concat!("rank 5 strided ", stringify!($a $b $c $e $f)), 2, view5::<D, D, D, D, D, $a, $b, $c, $e, $f, Strided>);
        )*};
    }
    five!(At, At, At, At, At; Full, Full, Full, Full, Full; At, Bnd, Full, At, Full; Full, At, Rng_, Full, At;
        At, At, Rng_, Full, Full; Step<Bnd>, Full, At, Full, Step<Full>; Bnd, Bnd, Bnd, Bnd, Bnd);
    macro_rules! six {
        ($($a:ty, $b:ty, $c:ty, $e:ty, $f:ty, $g:ty);* $(;)?) => {$(
            subs.add(concat!("rank 6 dense ", stringify!($a $b $c $e $f $g)), 2, view6::<D, D, D, D, D, D, $a, $b, $c, $e, $f, $g, Dense>);
            subs.add(concat!("rank 6 strided ", stringify!($a $b $c $e $f $g)), 2, view6::<C2, D, C1, D, C2, D, $a, $b, $c, $e, $f, $g, Strided>);
        )*};
    }
    six!(At, At, At, At, At, At; Full, Full, Full, Full, Full, Full; At, Bnd, Full, At, Full, At; Full, At, Rng_, Full, At, Full;
        At, At, At, Rng_, Full, Full; Step<Bnd>, Full, At, Full, Bnd, Step<Full>; Bnd, Bnd, Bnd, Bnd, Bnd, Bnd);
    harness::main(Property {
        id: "C02",
        rule: "the subarray has at least two elements and (outside chains) fewer elements than the array",
        subs: subs.0,
    })
}
