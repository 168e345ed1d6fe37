//! C09: every element is dropped exactly once and never leaked.
use harness::inline::*;
use harness::track::{self, Bx, Elem, Tr, Zt};
use harness::world::*;
use harness::*;
use mdarray::DynRank;

/// Runs the body, then requires that no element and no allocation is left.
fn balanced(cx: &mut Ctx, body: impl FnOnce(&mut Ctx) -> Res) -> Res {
    // Bookkeeping allocations that outlive the case are made first.
    cx.notes.reserve(64);
    cx.tag("cases");
    cx.src.below(2);
    drop(Tr::make(0));
    caught(|| panic!("warm-up"));
    let before = alloc::live();
    body(cx)?;
    if let Some(e) = track::take_error() {
        return Err(format!("at the end: {e}"));
    }
    ensure_eq!(track::live(), 0, "elements that were never dropped");
    if !cfg!(feature = "plain-alloc") {
        ensure_eq!(alloc::live(), before, "live allocations");
    }
    Ok(())
}

fn run<T: Elem, S: TestShape>(cx: &mut Ctx) -> Res {
    balanced(cx, |cx| {
        let w = history::<T, S>(cx, 0, 30, 12)?;
        cx.nontrivial_if(w.weighty >= 2);
        drop(w);
        Ok(())
    })
}

fn arrays<T: Elem>(cx: &mut Ctx) -> Res {
    balanced(cx, |cx| {
        let mut f = Faults::default();
        match cx.src.below(8) {
            7 => array_op::<T, (C2, C1, C2, C3, C1)>(cx, &mut f),
            0 => array_op::<T, (C3,)>(cx, &mut f),
            1 => array_op::<T, (C2, C3)>(cx, &mut f),
            2 => array_op::<T, (C2, C3, C2)>(cx, &mut f),
            3 => array_op::<T, ()>(cx, &mut f),
            4 => array_op::<T, (C3, C0)>(cx, &mut f),
            5 => array_op::<T, (C1, C2, C1, C2, C2, C1)>(cx, &mut f),
            _ => array_op::<T, (C1,)>(cx, &mut f),
        }
    })
}

fn nested<T: Elem>(cx: &mut Ctx) -> Res {
    balanced(cx, |cx| {
        let mut f = Faults::default();
        if cx.src.chance(1, 3) { expr_clone_op::<T>(cx, &mut f) } else { nested_op::<T>(cx, &mut f) }
    })
}

fn main() {
    let mut subs = Subs::default();
    macro_rules! hist {
        ($w:expr, $e:ty, $t:ty) => {
            subs.add(concat!("history ", stringify!($e), " ", stringify!($t)), $w, run::<$e, $t>);
        };
    }
    hist!(3, Tr, (D,));
    hist!(3, Tr, (D, D));
    hist!(1, Tr, (D, C3));
    hist!(1, Tr, (C2, D));
    hist!(2, Tr, (D, D, D));
    hist!(1, Tr, (D, C2, D));
    hist!(1, Tr, (D, D, D, D));
    hist!(1, Tr, (D, D, D, D, D));
    hist!(1, Tr, (D, D, D, D, D, D));
    hist!(4, Tr, DynRank);
    hist!(1, Bx, (D,));
    hist!(1, Bx, (D, D));
    hist!(2, Bx, DynRank);
    hist!(2, Zt, (D,));
    hist!(2, Zt, (D, D));
    hist!(2, Zt, DynRank);
    subs.add("inline arrays Tr", 2, arrays::<Tr>);
    subs.add("inline arrays Bx", 1, arrays::<Bx>);
    subs.add("inline arrays Zt", 1, arrays::<Zt>);
    subs.add("nested arrays Tr", 1, nested::<Tr>);
    subs.add("nested arrays Bx", 1, nested::<Bx>);
    subs.add("nested arrays Zt", 1, nested::<Zt>);
    harness::main(Property {
        id: "C09",
        rule: "at least two operations of the history changed or consumed a non-empty array, or the single operation was on a non-empty array",
        subs: subs.0,
    });
}
