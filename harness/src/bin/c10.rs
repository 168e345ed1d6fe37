//! C10: a panic in user code leaves arrays valid, with nothing dropped twice or leaked.
use harness::inline::*;
use harness::track::{self, Bx, CALL, CLONE, DROP, Elem, Tr, Zt};
use harness::world::*;
use harness::*;
use mdarray::DynRank;

fn kinds(cx: &mut Ctx) -> u32 {
    match cx.src.below(6) {
        0 => CLONE,
        1 => CALL,
        2 => DROP,
        3 => CLONE | CALL | DROP,
        _ => CLONE | CALL,
    }
}

/// Runs the body, which tells if a destructor has panicked. Otherwise nothing may be left.
fn balanced(cx: &mut Ctx, body: impl FnOnce(&mut Ctx) -> Res<bool>) -> Res {
    cx.notes.reserve(64);
    cx.tag("cases");
    cx.src.below(2);
    drop(Tr::make(0));
    caught(|| panic!("warm-up"));
    let before = alloc::live();
    let drop_fired = body(cx)?;
    if let Some(e) = track::take_error() {
        return Err(format!("at the end: {e}"));
    }
    if !drop_fired {
        ensure_eq!(track::live(), 0, "elements that were never dropped");
        if !cfg!(feature = "plain-alloc") {
            ensure_eq!(alloc::live(), before, "live allocations");
        }
    }
    Ok(())
}

fn run<T: Elem, S: TestShape>(cx: &mut Ctx) -> Res {
    balanced(cx, |cx| {
        let mask = kinds(cx);
        let mut w = history::<T, S>(cx, mask, 24, 8)?;
        cx.nontrivial_if(w.fired);
        // The arrays can still be used.
        w.faults = 0;
        w.verify_all("at the end")?;
        for _ in 0..2 {
            w.step(cx)?;
        }
        let d = w.drop_fired;
        drop(w);
        Ok(d)
    })
}

fn arrays<T: Elem>(cx: &mut Ctx) -> Res {
    balanced(cx, |cx| {
        let mut f = Faults { mask: kinds(cx), ..Default::default() };
        match cx.src.below(6) {
            5 => array_op::<T, (C2, C1, C2, C3, C1)>(cx, &mut f)?,
            0 => array_op::<T, (C3,)>(cx, &mut f)?,
            1 => array_op::<T, (C2, C3)>(cx, &mut f)?,
            2 => array_op::<T, (C2, C3, C2)>(cx, &mut f)?,
            3 => array_op::<T, ()>(cx, &mut f)?,
            _ => nested_op::<T>(cx, &mut f)?,
        }
        cx.nontrivial = f.fired;
        Ok(f.drop_fired)
    })
}

/// Clones of owned expressions, with panics in destructors only.
fn owned_exprs<T: Elem>(cx: &mut Ctx) -> Res {
    balanced(cx, |cx| {
        let mut f = Faults { mask: DROP, ..Default::default() };
        expr_clone_op::<T>(cx, &mut f)?;
        cx.nontrivial = f.fired;
        Ok(f.drop_fired)
    })
}

/// Recorded finding: elements are leaked if a clone panics.
fn owned_expr_clone(cx: &mut Ctx) -> Res {
    let mut f = Faults { mask: CLONE, ..Default::default() };
    drop(Tr::make(0));
    expr_clone_op::<Tr>(cx, &mut f)?;
    if let Some(e) = track::take_error() {
        return Err(e);
    }
    cx.nontrivial = f.fired;
    match track::live() {
        0 => Ok(()),
        n if f.fired && n <= 6 => known(
            cx,
            "into-expr-clone",
            format!("{n} elements cloned by the owned expression are never dropped"),
        ),
        n => Err(format!("{n} elements are never dropped")),
    }
}

fn main() {
    let mut subs = Subs::default();
    macro_rules! hist {
        ($w:expr, $e:ty, $t:ty) => {
            subs.add(concat!("history ", stringify!($e), " ", stringify!($t)), $w, run::<$e, $t>);
        };
    }
    hist!(4, Tr, (D,));
    hist!(4, Tr, (D, D));
    hist!(2, Tr, (D, C3));
    hist!(2, Tr, (C2, D));
    hist!(2, Tr, (D, D, D));
    hist!(1, Tr, (D, D, D, D, D));
    hist!(4, Tr, DynRank);
    hist!(2, Bx, (D,));
    hist!(1, Bx, DynRank);
    hist!(2, Zt, (D, D));
    hist!(1, Zt, DynRank);
    subs.add("inline arrays Tr", 3, arrays::<Tr>);
    subs.add("inline arrays Bx", 1, arrays::<Bx>);
    subs.add("inline arrays Zt", 1, arrays::<Zt>);
    subs.add("owned expressions Tr", 1, owned_exprs::<Tr>);
    subs.add("owned expressions Bx", 1, owned_exprs::<Bx>);
    subs.add("clones of owned expressions", 1, owned_expr_clone);
    harness::main(Property {
        id: "C10",
        rule: "an injected panic was raised inside an operation",
        subs: subs.0,
    });
}
