//! C03: decomposition along axes: at, rows, columns, lanes, diagonals and splits.
use harness::*;
use mdarray::expr::Expression;
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;

/// Axis argument: the value and the dimension it denotes in an array of the given rank.
trait TestAxis: Axis + 'static {
    const NAME: &'static str;
    fn pick(src: &mut Src, rank: usize) -> (Self, Option<usize>)
    where
        Self: Sized;
}

macro_rules! const_axis {
    ($($n:literal)*) => {$(
        impl TestAxis for Const<$n> {
            const NAME: &'static str = concat!("axis ", stringify!($n));
            fn pick(_: &mut Src, rank: usize) -> (Self, Option<usize>) {
                (Const::<$n>, if $n < rank { Some($n) } else { None })
            }
        }
    )*};
}
const_axis!(0 1 2 3 4 5);

impl TestAxis for Dyn {
    const NAME: &'static str = "dyn";
    fn pick(src: &mut Src, rank: usize) -> (Self, Option<usize>) {
        if rank == 0 || src.chance(1, 12) {
            return (*src.pick(&[rank, rank + 1, usize::MAX]), None);
        }
        let i = src.below(rank);
        (i, Some(i))
    }
}

impl TestAxis for Rows {
    const NAME: &'static str = "rows";
    fn pick(_: &mut Src, rank: usize) -> (Self, Option<usize>) {
        (Rows, rank.checked_sub(1))
    }
}

impl TestAxis for Cols {
    const NAME: &'static str = "cols";
    fn pick(_: &mut Src, rank: usize) -> (Self, Option<usize>) {
        (Cols, rank.checked_sub(2))
    }
}

/// Writes a value that depends on the part and the element to each element of a mutable part.
fn mark<S: Shape, L: Layout>(v: &mut Slice<i32, S, L>, m: &Model, part: usize, expect: &mut Buf) {
    let mut idx = vec![0; m.rank()];
    for k in 0..m.len() {
        let x = -(1 + part as i32 * 1000 + k as i32);
        v[&idx[..]] = x;
        expect.set(m.pos[k], x);
        advance(&mut idx, &m.dims);
    }
}

fn bad(src: &mut Src, size: usize) -> usize {
    *src.pick(&[size, size + 1, size + 9, usize::MAX])
}

fn axis_at<S: TestShape, L: TestLayout, A: TestAxis>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 150);
    let base = buf.ptr();
    let (axis, dim) = A::pick(&mut cx.src, m.rank());
    cx.note(|| format!("{} {dim:?}", A::NAME));
    let v = view::<S, L>(&buf, &geo);
    let Some(dim) = dim else {
        cx.tag("rejected axis");
        must_panic(|| "axis_at".into(), || { v.axis_at(axis, 0); })?;
        must_panic(|| "split_axis_at".into(), || { v.split_axis_at(axis, 0); })?;
        must_panic(|| "into_axis_at".into(), || { v.clone().into_axis_at(axis, 0); })?;
        must_panic(|| "into_split_axis_at".into(), || { v.clone().into_split_axis_at(axis, 0); })?;
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        must_panic(|| "axis_at_mut".into(), || { v.axis_at_mut(axis, 0); })?;
        must_panic(|| "split_axis_at_mut".into(), || { v.split_axis_at_mut(axis, 0); })?;
        return Ok(());
    };
    let size = m.dims[dim];
    cx.nontrivial_if(size > 1 && m.len() > size);
    for i in 0..size {
        let r = m.remove(dim, i);
        agree("axis_at", &v.axis_at(axis, i), base, &r)?;
        agree("into_axis_at", &v.clone().into_axis_at(axis, i), base, &r)?;
    }
    let oob = bad(&mut cx.src, size);
    must_panic(|| format!("axis_at {oob}"), || { v.axis_at(axis, oob); })?;
    must_panic(|| format!("into_axis_at {oob}"), || { v.clone().into_axis_at(axis, oob); })?;
    let mid = cx.src.range(0, size);
    let (a, b) = m.split(dim, mid);
    cx.note(|| format!("split at {mid}"));
    let (x, y) = v.split_axis_at(axis, mid);
    agree("split_axis_at first", &x, base, &a)?;
    agree("split_axis_at second", &y, base, &b)?;
    let (x, y) = v.clone().into_split_axis_at(axis, mid);
    agree("into_split_axis_at first", &x, base, &a)?;
    agree("into_split_axis_at second", &y, base, &b)?;
    let oob = size + 1 + cx.src.below(3);
    must_panic(|| format!("split_axis_at {oob}"), || { v.split_axis_at(axis, oob); })?;
    must_panic(|| "split_axis_at".into(), || { v.split_axis_at(axis, usize::MAX); })?;

    let mut expect = buf.clone();
    if size > 0 {
        let i = cx.src.below(size);
        let r = m.remove(dim, i);
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        let mut w = v.axis_at_mut(axis, i);
        agree("axis_at_mut", &w, base, &r)?;
        mark(&mut w, &r, 1, &mut expect);
        let mut w = v.into_axis_at(axis, i);
        agree("into_axis_at of a mutable view", &w, base, &r)?;
        mark(&mut w, &r, 2, &mut expect);
        ensure_eq!(buf, expect, "buffer after writing element {i} of the axis");
    }
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        must_panic(|| "axis_at_mut".into(), || { v.axis_at_mut(axis, size); })?;
        must_panic(|| "split_axis_at_mut".into(), || { v.split_axis_at_mut(axis, size + 1); })?;
        let (mut x, mut y) = v.split_axis_at_mut(axis, mid);
        agree("split_axis_at_mut first", &x, base, &a)?;
        agree("split_axis_at_mut second", &y, base, &b)?;
        mark(&mut x, &a, 3, &mut expect);
        mark(&mut y, &b, 4, &mut expect);
        let (mut x, mut y) = v.into_split_axis_at(axis, mid);
        agree("into_split_axis_at of a mutable view, first", &x, base, &a)?;
        agree("into_split_axis_at of a mutable view, second", &y, base, &b)?;
        mark(&mut x, &a, 5, &mut expect);
        mark(&mut y, &b, 6, &mut expect);
    }
    ensure_eq!(buf, expect, "buffer after writing both parts");
    Ok(())
}

fn axis_expr<S: TestShape, L: TestLayout, A: TestAxis>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 150);
    let base = buf.ptr();
    let (axis, dim) = A::pick(&mut cx.src, m.rank());
    cx.note(|| format!("{} {dim:?}", A::NAME));
    let v = view::<S, L>(&buf, &geo);
    let Some(dim) = dim else {
        cx.tag("rejected axis");
        must_panic(|| "axis_expr".into(), || { v.axis_expr(axis); })?;
        must_panic(|| "lanes".into(), || { v.lanes(axis); })?;
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        must_panic(|| "axis_expr_mut".into(), || { v.axis_expr_mut(axis); })?;
        must_panic(|| "lanes_mut".into(), || { v.lanes_mut(axis); })?;
        return Ok(());
    };
    let size = m.dims[dim];
    let mut rest = m.dims.clone();
    rest.remove(dim);
    cx.nontrivial_if(size > 1 && m.len() > size);
    let parts: Vec<Model> = (0..size).map(|i| m.remove(dim, i)).collect();
    let lanes: Vec<Model> = indices(&rest).iter().map(|i| m.lane(dim, i)).collect();

    let e = v.axis_expr(axis);
    ensure_eq!(shape_dims(e.shape()), [size], "shape of axis_expr");
    ensure_eq!(e.len(), size, "length of axis_expr");
    let all: Vec<_> = e.clone().into_iter().collect();
    ensure_eq!(all.len(), size, "number of subarrays of axis_expr");
    for (i, w) in all.iter().enumerate() {
        agree(&format!("axis_expr {i}"), w, base, &parts[i])?;
    }
    let mut err = Ok(());
    let mut n = 0;
    e.for_each(|w| {
        if err.is_ok() {
            err = match parts.get(n) {
                Some(p) => agree(&format!("axis_expr (for_each) {n}"), &w, base, p),
                None => Err("axis_expr gives too many subarrays".into()),
            };
        }
        n += 1;
    });
    err?;
    ensure_eq!(n, size, "number of subarrays by for_each");

    let e = v.lanes(axis);
    ensure_eq!(shape_dims(e.shape()), rest, "shape of lanes");
    ensure_eq!(e.len(), lanes.len(), "number of lanes");
    let mut it = e.clone().into_iter();
    for (i, l) in lanes.iter().enumerate() {
        ensure_eq!(it.len(), lanes.len() - i, "remaining lanes");
        let Some(w) = it.next() else { return Err(format!("lane {i} is missing")) };
        agree(&format!("lane {i}"), &w, base, l)?;
    }
    ensure!(it.next().is_none(), "too many lanes");
    let mut err = Ok(());
    let mut n = 0;
    e.for_each(|w| {
        if err.is_ok() {
            err = match lanes.get(n) {
                Some(p) => agree(&format!("lane (for_each) {n}"), &w, base, p),
                None => Err("too many lanes by for_each".into()),
            };
        }
        n += 1;
    });
    err?;
    ensure_eq!(n, lanes.len(), "number of lanes by for_each");

    // Mutable parts, all alive at the same time.
    let mut expect = buf.clone();
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        let mut all = Vec::new();
        if cx.src.flip() {
            all.extend(v.axis_expr_mut(axis));
        } else {
            v.axis_expr_mut(axis).for_each(|w| all.push(w));
        }
        ensure_eq!(all.len(), size, "number of mutable subarrays");
        for (i, w) in all.iter_mut().enumerate() {
            agree(&format!("axis_expr_mut {i}"), w, base, &parts[i])?;
            mark(w, &parts[i], i, &mut expect);
        }
    }
    ensure_eq!(buf, expect, "buffer after writing all subarrays");
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        let mut all = Vec::new();
        if cx.src.flip() {
            all.extend(v.lanes_mut(axis));
        } else {
            v.lanes_mut(axis).for_each(|w| all.push(w));
        }
        ensure_eq!(all.len(), lanes.len(), "number of mutable lanes");
        for (i, w) in all.iter_mut().enumerate() {
            agree(&format!("lanes_mut {i}"), w, base, &lanes[i])?;
            mark(w, &lanes[i], i, &mut expect);
        }
    }
    ensure_eq!(buf, expect, "buffer after writing all lanes");
    Ok(())
}

/// Forms with an implied axis.
fn outer<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 150);
    let base = buf.ptr();
    let v = view::<S, L>(&buf, &geo);
    let rank = m.rank();
    if rank == 0 {
        must_panic(|| "at".into(), || { v.at(0); })?;
        must_panic(|| "split_at".into(), || { v.split_at(0); })?;
        must_panic(|| "outer_expr".into(), || { v.outer_expr(); })?;
        must_panic(|| "rows".into(), || { v.rows(); })?;
        must_panic(|| "into_at".into(), || { v.clone().into_at(0); })?;
        must_panic(|| "into_split_at".into(), || { v.clone().into_split_at(0); })?;
        return Ok(());
    }
    let size = m.dims[0];
    cx.nontrivial_if(size > 1 && m.len() > size);
    let mut expect = buf.clone();
    if size > 0 {
        let i = cx.src.below(size);
        let r = m.remove(0, i);
        agree("at", &v.at(i), base, &r)?;
        agree("into_at", &v.clone().into_at(i), base, &r)?;
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        let mut w = v.at_mut(i);
        agree("at_mut", &w, base, &r)?;
        mark(&mut w, &r, 1, &mut expect);
        let mut w = v.into_at(i);
        agree("into_at of a mutable view", &w, base, &r)?;
        mark(&mut w, &r, 2, &mut expect);
    }
    ensure_eq!(buf, expect, "buffer after writing through at_mut");
    let oob = bad(&mut cx.src, size);
    let mid = cx.src.range(0, size);
    let (a, b) = m.split(0, mid);
    let v = view::<S, L>(&buf, &geo);
    must_panic(|| format!("at {oob}"), || { v.at(oob); })?;
    must_panic(|| format!("split_at {}", size + 1), || { v.split_at(size + 1); })?;
    let (x, y) = v.split_at(mid);
    agree("split_at first", &x, base, &a)?;
    agree("split_at second", &y, base, &b)?;
    let (x, y) = v.clone().into_split_at(mid);
    agree("into_split_at first", &x, base, &a)?;
    agree("into_split_at second", &y, base, &b)?;
    let all: Vec<_> = v.outer_expr().into_iter().collect();
    ensure_eq!(all.len(), size, "number of subarrays of outer_expr");
    for (i, w) in all.iter().enumerate() {
        agree(&format!("outer_expr {i}"), w, base, &m.remove(0, i))?;
    }
    let mut rest = m.dims.clone();
    rest.remove(rank - 1);
    let rows: Vec<Model> = indices(&rest).iter().map(|i| m.lane(rank - 1, i)).collect();
    let all: Vec<_> = v.rows().into_iter().collect();
    ensure_eq!(all.len(), rows.len(), "number of rows");
    for (i, w) in all.iter().enumerate() {
        agree(&format!("row {i}"), w, base, &rows[i])?;
    }
    let mut cols = Vec::new();
    if rank >= 2 {
        let mut rest = m.dims.clone();
        rest.remove(rank - 2);
        cols = indices(&rest).iter().map(|i| m.lane(rank - 2, i)).collect();
        let all: Vec<_> = v.cols().into_iter().collect();
        ensure_eq!(all.len(), cols.len(), "number of columns");
        for (i, w) in all.iter().enumerate() {
            agree(&format!("column {i}"), w, base, &cols[i])?;
        }
    } else {
        must_panic(|| "cols of rank 1".into(), || { v.cols(); })?;
    }
    let mut v = view_mut::<S, L>(&mut buf, &geo);
    must_panic(|| format!("at_mut {oob}"), || { v.at_mut(oob); })?;
    must_panic(|| "split_at_mut".into(), || { v.split_at_mut(size + 1); })?;
    let (mut x, mut y) = v.split_at_mut(mid);
    mark(&mut x, &a, 1, &mut expect);
    mark(&mut y, &b, 2, &mut expect);
    agree("split_at_mut", &v, base, &m)?;
    for k in 0..m.len() {
        ensure_eq!(v[k], expect.get(m.pos[k]), "element {k} after writing both parts");
    }
    for (i, mut w) in v.outer_expr_mut().into_iter().enumerate() {
        mark(&mut w, &m.remove(0, i), i, &mut expect);
    }
    for k in 0..m.len() {
        ensure_eq!(v[k], expect.get(m.pos[k]), "element {k} after writing all outer parts");
    }
    for (i, mut w) in v.rows_mut().into_iter().enumerate() {
        agree(&format!("rows_mut {i}"), &w, base, &rows[i])?;
        mark(&mut w, &rows[i], i, &mut expect);
    }
    if rank >= 2 {
        for (i, mut w) in v.cols_mut().into_iter().enumerate() {
            agree(&format!("cols_mut {i}"), &w, base, &cols[i])?;
            mark(&mut w, &cols[i], i, &mut expect);
        }
    }
    let (mut x, mut y) = v.into_split_at(mid);
    agree("into_split_at of a mutable view", &x, base, &a)?;
    agree("into_split_at of a mutable view", &y, base, &b)?;
    if cx.src.flip() {
        mark(&mut x, &a, 7, &mut expect);
        mark(&mut y, &b, 8, &mut expect);
    }
    ensure_eq!(buf, expect, "buffer after all writes");
    Ok(())
}

/// Rows, columns and diagonals of matrices; other ranks are rejected.
fn matrix<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let dims = if S::DYNRANK && cx.src.chance(7, 8) {
        gen_rank_dims(&mut cx.src, 2, 200)
    } else {
        gen_dims::<S>(&mut cx.src, 200)
    };
    let geo = L::geo(&mut cx.src, &dims);
    let m = geo.model();
    cx.note(|| format!("dims {:?} strides {:?}", geo.dims, geo.strides));
    let mut buf = Buf::new(geo.extent);
    let base = buf.ptr();
    let v = view::<S, L>(&buf, &geo);
    if m.rank() != 2 {
        cx.tag("rejected rank");
        must_panic(|| "row".into(), || { v.row(0); })?;
        must_panic(|| "col".into(), || { v.col(0); })?;
        must_panic(|| "diag".into(), || { v.diag(0); })?;
        must_panic(|| "into_row".into(), || { v.clone().into_row(0); })?;
        must_panic(|| "into_col".into(), || { v.clone().into_col(0); })?;
        must_panic(|| "into_diag".into(), || { v.clone().into_diag(0); })?;
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        must_panic(|| "row_mut".into(), || { v.row_mut(0); })?;
        must_panic(|| "col_mut".into(), || { v.col_mut(0); })?;
        must_panic(|| "diag_mut".into(), || { v.diag_mut(0); })?;
        return Ok(());
    }
    let (r, c) = (m.dims[0], m.dims[1]);
    cx.nontrivial_if(r > 1 && c > 1);
    let diag = |k: isize| -> Model {
        let mut pos = Vec::new();
        for i in 0..r {
            let j = i as isize + k;
            if j >= 0 && (j as usize) < c {
                pos.push(m.at(&[i, j as usize]));
            }
        }
        Model { dims: vec![pos.len()], pos }
    };
    for i in 0..r {
        agree(&format!("row {i}"), &v.row(i), base, &m.remove(0, i))?;
        agree(&format!("into_row {i}"), &v.clone().into_row(i), base, &m.remove(0, i))?;
    }
    for i in 0..c {
        agree(&format!("col {i}"), &v.col(i), base, &m.remove(1, i))?;
        agree(&format!("into_col {i}"), &v.clone().into_col(i), base, &m.remove(1, i))?;
    }
    for k in -(r as isize)..=c as isize {
        agree(&format!("diag {k}"), &v.diag(k), base, &diag(k))?;
        agree(&format!("into_diag {k}"), &v.clone().into_diag(k), base, &diag(k))?;
    }
    let b = bad(&mut cx.src, r);
    must_panic(|| format!("row {b}"), || { v.row(b); })?;
    must_panic(|| format!("into_row {b}"), || { v.clone().into_row(b); })?;
    let b = bad(&mut cx.src, c);
    must_panic(|| format!("col {b}"), || { v.col(b); })?;
    must_panic(|| format!("into_col {b}"), || { v.clone().into_col(b); })?;
    for k in [c as isize + 1, -(r as isize) - 1, c as isize + 5, -(r as isize) - 5, isize::MAX, -isize::MAX] {
        must_panic(|| format!("diag {k}"), || { v.diag(k); })?;
        must_panic(|| format!("into_diag {k}"), || { v.clone().into_diag(k); })?;
    }
    let mut expect = buf.clone();
    let mut v = view_mut::<S, L>(&mut buf, &geo);
    for _ in 0..4 {
        let part = cx.src.below(500);
        match cx.src.below(3) {
            0 if r > 0 => {
                let i = cx.src.below(r);
                let mut w = v.row_mut(i);
                agree(&format!("row_mut {i}"), &w, base, &m.remove(0, i))?;
                mark(&mut w, &m.remove(0, i), part, &mut expect);
            }
            1 if c > 0 => {
                let i = cx.src.below(c);
                let mut w = v.col_mut(i);
                agree(&format!("col_mut {i}"), &w, base, &m.remove(1, i))?;
                mark(&mut w, &m.remove(1, i), part, &mut expect);
            }
            _ => {
                let k = cx.src.irange(-(r as isize), c as isize);
                let mut w = v.diag_mut(k);
                agree(&format!("diag_mut {k}"), &w, base, &diag(k))?;
                mark(&mut w, &diag(k), part, &mut expect);
            }
        }
    }
    must_panic(|| "row_mut".into(), || { v.row_mut(r); })?;
    must_panic(|| "col_mut".into(), || { v.col_mut(c); })?;
    must_panic(|| "diag_mut".into(), || { v.diag_mut(c as isize + 1); })?;
    must_panic(|| "diag_mut".into(), || { v.diag_mut(-(r as isize) - 1); })?;
    match cx.src.below(3) {
        0 if r > 0 => mark(&mut v.into_row(r - 1), &m.remove(0, r - 1), 9, &mut expect),
        1 if c > 0 => mark(&mut v.into_col(c - 1), &m.remove(1, c - 1), 9, &mut expect),
        _ => mark(&mut v.into_diag(0), &diag(0), 9, &mut expect),
    }
    ensure_eq!(buf, expect, "buffer after all writes");
    Ok(())
}

/// The same through an owned array.
fn owned(cx: &mut Ctx) -> Res {
    let dims = gen_rank_dims(&mut cx.src, 3, 150);
    cx.note(|| format!("tensor dims {dims:?}"));
    let mut t: Tensor<i32, (D, D, D)> =
        Tensor::from((0..product(&dims)).map(value).collect::<Vec<_>>()).into_shape([dims[0], dims[1], dims[2]]);
    let p = t.as_ptr();
    let m = Model::dense(&dims);
    cx.nontrivial_if(m.len() > 1);
    for axis in 0..3 {
        for (i, w) in t.axis_expr(axis).into_iter().enumerate() {
            agree("axis_expr of a tensor", &w, p, &m.remove(axis, i))?;
        }
        let mut rest = dims.clone();
        rest.remove(axis);
        let idx = indices(&rest);
        let mut n = 0;
        for (i, w) in t.lanes_mut(axis).into_iter().enumerate() {
            agree("lanes_mut of a tensor", &w, p, &m.lane(axis, &idx[i]))?;
            n += 1;
        }
        ensure_eq!(n, idx.len(), "number of lanes");
    }
    Ok(())
}

/// Views that repeat elements, with sizes above 2^32.
fn repeated(cx: &mut Ctx) -> Res {
    let (m, buf) = lazy::Lazy::generate(cx, 3);
    cx.nontrivial_if(true);
    let v = m.view::<(Dyn, Dyn, Dyn)>(&buf);
    let axis = cx.src.below(3);
    let i = m.index(&mut cx.src)[axis];
    cx.note(|| format!("axis {axis} at {i}"));
    m.remove(axis, i).agree(cx, "axis_at", &v.axis_at(axis, i), &buf)?;
    let (a, b) = v.split_axis_at(axis, i);
    m.range(axis, 0, i).agree(cx, "first part", &a, &buf)?;
    m.range(axis, i, m.dims[axis] - i).agree(cx, "second part", &b, &buf)?;
    let j = m.index(&mut cx.src);
    let rest: Vec<usize> = (0..3).filter(|&k| k != axis).collect();
    let lane = m.remove(rest[1], j[rest[1]]).remove(rest[0], j[rest[0]]);
    let w = v.view(j[0], j[1], ..);
    m.remove(1, j[1]).remove(0, j[0]).agree(cx, "row", &w, &buf)?;
    let e = v.lanes(axis);
    ensure_eq!(e.len() as u128, m.len() / m.dims[axis] as u128, "number of lanes");
    let x = e.into_iter().next().unwrap();
    let mut first = lane.clone();
    first.base = m.base;
    first.agree(cx, "first lane", &x, &buf)?;
    let e = v.axis_expr(axis);
    ensure_eq!(e.len(), m.dims[axis], "number of parts");
    m.remove(axis, 0).agree(cx, "first part", &e.into_iter().next().unwrap(), &buf)?;
    must_panic(|| "axis_at after the end".into(), || { v.axis_at(axis, m.dims[axis]); })?;
    must_panic(|| "split_axis_at after the end".into(), || { v.split_axis_at(axis, m.dims[axis] + 1); })
}

fn main() {
    let mut subs = Subs::default();
    harness::add_elems!(subs, 1, parts);
    subs.add("repeated", 6, repeated);
    macro_rules! axes {
        ($s:ty; $($a:ty),*) => {$(
            subs.add(concat!("axis_at dense ", stringify!($s $a)), 1, axis_at::<$s, Dense, $a>);
            subs.add(concat!("axis_at strided ", stringify!($s $a)), 1, axis_at::<$s, Strided, $a>);
            subs.add(concat!("axis_expr dense ", stringify!($s $a)), 1, axis_expr::<$s, Dense, $a>);
            subs.add(concat!("axis_expr strided ", stringify!($s $a)), 1, axis_expr::<$s, Strided, $a>);
        )*};
    }
    axes!((D,); C0, Dyn, Rows);
    axes!((C3,); C0, Dyn, Rows);
    axes!((D, D); C0, C1, Dyn, Rows, Cols);
    axes!((C2, C3); C0, C1, Dyn, Rows, Cols);
    axes!((D, C3); C1);
    axes!((D, D, D); C0, C1, C2, Dyn, Rows, Cols);
    axes!((C2, D, C3); C0, C1, C2, Dyn, Cols);
    axes!((C2, C0, C3); C1);
    axes!((D, D, D, D); C0, C1, C2, C3, Dyn, Rows, Cols);
    axes!((C2, C1, C3, C2); C1, C2, Rows, Cols);
    axes!((D, C2, D, C1, D); C0, C2, C4, Dyn, Cols);
    axes!((D, D, D, D, D, D); C0, C2, Const<5>, Dyn, Rows);
    axes!(DynRank; C0, C1, C2, Dyn, Rows, Cols);
    macro_rules! all {
        ($s:ty) => {
            subs.add(concat!("outer dense ", stringify!($s)), 1, outer::<$s, Dense>);
            subs.add(concat!("outer strided ", stringify!($s)), 1, outer::<$s, Strided>);
        };
    }
    each_shape1!(all);
    each_shape2!(all);
    each_shape3!(all);
    each_shape4!(all);
    all!((D, D, D, D, D));
    all!((C2, D, C1, D, C2, D));
    all!(DynRank);
    all!(());
    macro_rules! mats {
        ($s:ty) => {
            subs.add(concat!("matrix dense ", stringify!($s)), 3, matrix::<$s, Dense>);
            subs.add(concat!("matrix strided ", stringify!($s)), 3, matrix::<$s, Strided>);
        };
    }
    each_shape2!(mats);
    mats!(DynRank);
    mats!((D,));
    mats!((D, D, D));
    mats!((C2, C3, C2));
    subs.add("owned", 5, owned);
    harness::main(Property {
        id: "C03",
        rule: "the axis has at least two indices and more than one lane (matrix: both sizes above one)",
        subs: subs.0,
    })
}
