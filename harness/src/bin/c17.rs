//! C17: sending and sharing across threads.
use harness::*;
use mdarray::expr::{AxisExpr, AxisExprMut, Drain, Expression, IntoExpr, IntoExpression, Iter, Lanes, LanesMut, Map};
use mdarray::index::{Cols, Rows};
use mdarray::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, MutexGuard};

/// Reads at run time whether a type is `Send` or `Sync`: the inherent constant exists only if it
/// is, and otherwise the one of the trait is used.
struct Probe<T: ?Sized>(PhantomData<T>);

trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T: ?Sized> NotSend for Probe<T> {}
impl<T: ?Sized> NotSync for Probe<T> {}
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}

struct Row {
    name: &'static str,
    elem: &'static str,
    send: bool,
    sync: bool,
    want_send: bool,
    want_sync: bool,
}

macro_rules! rows {
    ($out:ident, $t:ty, $send:literal, $sync:literal, $s:ty, $l:ty) => {
        // Owned arrays and mutable views: as the elements.
        rows!(@own $out, $t, $send, $sync, Tensor<$t, $s>);
        rows!(@own $out, $t, $send, $sync, ViewMut<'static, $t, $s, $l>);
        rows!(@own $out, $t, $send, $sync, &'static mut Slice<$t, $s, $l>);
        rows!(@own $out, $t, $send, $sync, Iter<ViewMut<'static, $t, $s, $l>>);
        rows!(@own $out, $t, $send, $sync, AxisExprMut<'static, $t, $s, $l, Const<0>>);
        rows!(@own $out, $t, $send, $sync, LanesMut<'static, $t, $s, $l, Rows>);
        rows!(@own $out, $t, $send, $sync, IntoExpr<Tensor<ManuallyDrop<$t>, $s>>);
        rows!(@own $out, $t, $send, $sync, Iter<IntoExpr<Tensor<ManuallyDrop<$t>, $s>>>);
        rows!(@own $out, $t, $send, $sync, IntoExpr<Drain<'static, $t, $s>>);
        // Shared views: if the elements can be shared.
        rows!(@view $out, $t, $send, $sync, View<'static, $t, $s, $l>);
        rows!(@view $out, $t, $send, $sync, &'static Slice<$t, $s, $l>);
        rows!(@view $out, $t, $send, $sync, &'static Tensor<$t, $s>);
        rows!(@view $out, $t, $send, $sync, Iter<View<'static, $t, $s, $l>>);
        rows!(@view $out, $t, $send, $sync, AxisExpr<'static, $t, $s, $l, usize>);
        rows!(@view $out, $t, $send, $sync, Lanes<'static, $t, $s, $l, Cols>);
        rows!(@view $out, $t, $send, $sync, Map<View<'static, $t, $s, $l>, fn(&'static $t) -> i32>);
    };
    (@own $out:ident, $t:ty, $send:literal, $sync:literal, $c:ty) => {
        $out.push(Row { name: stringify!($c), elem: stringify!($t), send: Probe::<$c>::SEND, sync: Probe::<$c>::SYNC, want_send: $send, want_sync: $sync });
    };
    (@view $out:ident, $t:ty, $send:literal, $sync:literal, $c:ty) => {
        $out.push(Row { name: stringify!($c), elem: stringify!($t), send: Probe::<$c>::SEND, sync: Probe::<$c>::SYNC, want_send: $sync, want_sync: $sync });
    };
}

macro_rules! elems {
    ($out:ident, $s:ty, $l:ty) => {
        rows!($out, i32, true, true, $s, $l);
        rows!($out, String, true, true, $s, $l);
        rows!($out, Cell<i32>, true, false, $s, $l);
        rows!($out, MutexGuard<'static, i32>, false, true, $s, $l);
        rows!($out, Rc<i32>, false, false, $s, $l);
        rows!($out, *const u8, false, false, $s, $l);
        rows!($out, Option<Box<Cell<u8>>>, true, false, $s, $l);
    };
}

macro_rules! arrays {
    ($out:ident, $($s:ty),*) => {$(
        rows!(@own $out, i32, true, true, Array<i32, $s>);
        rows!(@own $out, Cell<i32>, true, false, Array<Cell<i32>, $s>);
        rows!(@own $out, MutexGuard<'static, i32>, false, true, Array<MutexGuard<'static, i32>, $s>);
        rows!(@own $out, Rc<i32>, false, false, Array<Rc<i32>, $s>);
        rows!(@own $out, Rc<i32>, false, false, IntoExpr<Array<ManuallyDrop<Rc<i32>>, $s>>);
        rows!(@own $out, Cell<i32>, true, false, IntoExpr<Array<ManuallyDrop<Cell<i32>>, $s>>);
    )*};
}

fn table() -> Vec<Row> {
    let mut out = Vec::new();
    elems!(out, (), Dense);
    elems!(out, (D,), Dense);
    elems!(out, (D, D), Strided);
    elems!(out, (C2, D), Dense);
    elems!(out, (D, C2, D), Strided);
    elems!(out, DynRank, Dense);
    elems!(out, DynRank, Strided);
    elems!(out, (D, D, D, D, D, D), Dense);
    arrays!(out, (), (C3,), (C2, C3), (C2, C3, C2));
    // Shapes and mappings.
    macro_rules! plain {
        ($($c:ty),*) => {$( rows!(@own out, (), true, true, $c); )*};
    }
    plain!(DynRank, (D, C3), DenseMapping<DynRank>, StridedMapping<DynRank>, StridedMapping<(D, D)>, Const<3>, Rows, StepRange<std::ops::Range<usize>, isize>);
    out
}

fn traits(cx: &mut Ctx) -> Res {
    let table = table();
    // All rows, from a generated one on.
    let start = cx.src.below(table.len());
    cx.note(|| format!("from {} with elements {}", table[start].name, table[start].elem));
    cx.nontrivial_if(true);
    for k in 0..table.len() {
        let row = &table[(start + k) % table.len()];
        ensure_eq!(row.send, row.want_send, "{} can be sent to another thread", row.name);
        ensure_eq!(row.sync, row.want_sync, "{} can be shared between threads", row.name);
    }
    Ok(())
}

/// Moves a value to another thread even if it is not `Send`, which is decided by `traits`.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn take(self) -> T {
        self.0
    }
}

fn update(x: &mut i32) {
    *x = x.wrapping_mul(3).wrapping_add(7);
}

/// Processes jobs on some threads that start together; each job is taken by one of them.
fn parallel<J>(threads: usize, jobs: Vec<J>, f: impl Fn(J) + Sync) {
    let n = threads.max(1);
    let mut piles: Vec<Vec<J>> = (0..n).map(|_| Vec::new()).collect();
    for (k, j) in jobs.into_iter().enumerate() {
        piles[k % n].push(j);
    }
    let barrier = Barrier::new(n);
    std::thread::scope(|s| {
        for pile in piles {
            let pile = Carry(pile);
            let (barrier, f) = (&barrier, Carry(&f));
            s.spawn(move || {
                let (pile, f) = (pile.take(), f.take());
                barrier.wait();
                for j in pile {
                    f(j);
                }
            });
        }
    });
}

/// Disjoint mutable parts.
fn parts<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (mut buf, geo, m) = gen_array::<S, L>(cx, 200);
    cx.nontrivial_if(m.len() > 1);
    let n = m.rank();
    let threads = cx.src.range(2, 4);
    let how = cx.src.below(9);
    cx.note(|| format!("decomposition {how}, {threads} threads"));
    let mut expect = buf.clone();
    m.pos.iter().for_each(|&p| expect.set(p, expect.get(p).wrapping_mul(3).wrapping_add(7)));
    {
        let mut v = view_mut::<S, L>(&mut buf, &geo);
        match how {
            0 | 1 if n > 0 => {
                // Repeated splits along any axes.
                let mut list = vec![v.into_dyn().into_mapping::<DynRank, Strided>()];
                for _ in 0..cx.src.range(1, 5) {
                    let part = list.remove(cx.src.below(list.len()));
                    let axis = cx.src.below(n);
                    let mid = cx.src.range(0, part.dim(axis));
                    let (a, b) = part.into_split_axis_at(axis, mid);
                    list.push(a.into_mapping());
                    list.push(b.into_mapping());
                }
                parallel(threads, list, |mut part| part.expr_mut().for_each(update));
            }
            2 if n > 0 => {
                let axis = cx.src.below(n);
                let list: Vec<_> = v.axis_expr_mut(axis).into_iter().collect();
                parallel(threads, list, |mut part| part.expr_mut().for_each(update));
            }
            3 if n > 0 => {
                let axis = cx.src.below(n);
                let list: Vec<_> = v.lanes_mut(axis).into_iter().collect();
                parallel(threads, list, |part| part.into_iter().for_each(update));
            }
            4 if n > 0 => {
                let list: Vec<_> = v.outer_expr_mut().into_iter().collect();
                parallel(threads, list, |mut part| part.iter_mut().for_each(update));
            }
            5 if n > 0 => {
                let list: Vec<_> = v.rows_mut().into_iter().collect();
                parallel(threads, list, |part| part.for_each(update));
            }
            6 if n > 1 => {
                let list: Vec<_> = v.cols_mut().into_iter().collect();
                parallel(threads, list, |part| part.for_each(update));
            }
            7 => {
                // One iterator, continued by another thread.
                let mut it = v.iter_mut();
                for _ in 0..cx.src.range(0, m.len()) {
                    it.next().map(update);
                }
                parallel(1, vec![it], |it| it.for_each(update));
            }
            _ => {
                let list: Vec<&mut i32> = v.iter_mut().collect();
                parallel(threads, list, update);
            }
        }
    }
    ensure!(buf == expect, "the result differs from the sequential one");
    Ok(())
}

/// Views and arrays read by several threads.
fn shared<S: TestShape, L: TestLayout>(cx: &mut Ctx) -> Res {
    let (buf, geo, m) = gen_array::<S, L>(cx, 200);
    cx.nontrivial_if(m.len() > 1);
    let want: Vec<i32> = m.pos.iter().map(|&p| buf.get(p)).collect();
    let threads = cx.src.range(2, 4);
    let v = view::<S, L>(&buf, &geo);
    let bad = AtomicUsize::new(0);
    let list: Vec<_> = (0..threads).map(|k| (k, v.clone())).collect();
    parallel(threads, list, |(k, part)| {
        let got: Vec<i32> = match k % 3 {
            0 => part.into_iter().copied().collect(),
            1 => part.to_tensor().into_vec(),
            _ => indices(&m.dims).iter().map(|i| part[&i[..]]).collect(),
        };
        if got != want {
            bad.fetch_add(1, SeqCst);
        }
    });
    let list: Vec<_> = (0..threads).map(|_| &*v).collect();
    parallel(threads, list, |part: &Slice<i32, S, L>| {
        if !part.iter().eq(want.iter()) {
            bad.fetch_add(1, SeqCst);
        }
    });
    ensure_eq!(bad.load(SeqCst), 0, "threads that read other elements");
    Ok(())
}

/// Element that counts its drops.
struct Counted(usize, Arc<AtomicUsize>);
impl Drop for Counted {
    fn drop(&mut self) {
        self.1.fetch_add(1, SeqCst);
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted(self.0, self.1.clone())
    }
}

/// Owned arrays, iterators and expressions that move between threads.
fn moved<S: TestShape>(cx: &mut Ctx) -> Res {
    let dims = gen_dims::<S>(&mut cx.src, 60);
    let n = product(&dims);
    let how = cx.src.below(6);
    cx.note(|| format!("array {dims:?} moved to another thread, operation {how}"));
    cx.nontrivial_if(n > 1);
    let drops = Arc::new(AtomicUsize::new(0));
    let sum = AtomicUsize::new(0);
    let mut k = 0;
    let t = Tensor::from_fn(S::from_dims(&dims), |_| {
        k += 1;
        Counted(k, drops.clone())
    });
    let mut made = n;
    let first = cx.src.range(0, n);
    let mut seen = n * (n + 1) / 2;
    match how {
        0 => parallel(1, vec![t], |t| {
            t.iter().for_each(|x| drop(sum.fetch_add(x.0, SeqCst)));
        }),
        1 => {
            let mut it = t.into_iter();
            for _ in 0..first {
                it.next().map(|x| sum.fetch_add(x.0, SeqCst));
            }
            parallel(1, vec![it], |it| it.for_each(|x| drop(sum.fetch_add(x.0, SeqCst))));
        }
        2 => {
            seen = first * (first + 1) / 2;
            let mut it = t.into_iter();
            for _ in 0..first {
                it.next().map(|x| sum.fetch_add(x.0, SeqCst));
            }
            parallel(1, vec![it], drop);
        }
        3 => {
            made = 3 * n;
            seen *= 2;
            let list = vec![t.clone(), t.clone()];
            parallel(2, list, |t| t.into_expr().for_each(|x| drop(sum.fetch_add(x.0, SeqCst))));
            drop(t);
        }
        4 => {
            made = 2 * n;
            parallel(1, vec![t], |t| {
                let u = t.clone();
                drop(t);
                u.iter().for_each(|x| drop(sum.fetch_add(x.0, SeqCst)));
            });
        }
        _ => {
            // A drained range on another thread, and the rest here.
            let mut t = t.into_flat();
            parallel(1, vec![t.drain(..first)], |e| e.for_each(|x| drop(sum.fetch_add(x.0, SeqCst))));
            ensure_eq!(t.len(), n - first, "length after the drained range");
            t.iter().for_each(|x| drop(sum.fetch_add(x.0, SeqCst)));
        }
    }
    ensure_eq!(sum.load(SeqCst), seen, "sum of the elements");
    ensure_eq!(drops.load(SeqCst), made, "number of dropped elements");
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    subs.add("send and sync", 4, traits);
    macro_rules! p {
        ($($s:ty),* $(,)?) => {$(
            subs.add(concat!("mutable parts dense ", stringify!($s)), 2, parts::<$s, Dense>);
            subs.add(concat!("mutable parts strided ", stringify!($s)), 2, parts::<$s, Strided>);
        )*};
    }
    p!((), (D,), (D, D), (C2, D), (D, C2, D), (C2, C3), (D, D, D, D), DynRank);
    macro_rules! s {
        ($($s:ty),* $(,)?) => {$(
            subs.add(concat!("shared ", stringify!($s)), 1, shared::<$s, Strided>);
            subs.add(concat!("moved ", stringify!($s)), 1, moved::<$s>);
        )*};
    }
    s!((D,), (D, D), (D, C2, D), DynRank);
    harness::main(Property {
        id: "C17",
        rule: "the case is a row of the Send/Sync table, or the array has at least two elements",
        subs: subs.0,
    })
}
