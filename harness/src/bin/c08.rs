//! C08: growable arrays behave as a list of subarrays along the outer dimension.
use harness::*;
use harness::world::*;
use harness::track::{Big, Elem};
use mdarray::DynRank;

fn run<T: Elem, S: TestShape>(cx: &mut Ctx) -> Res {
    let w = history::<T, S>(cx, 0, 40, 14)?;
    cx.nontrivial_if(w.weighty >= 2);
    Ok(())
}

fn main() {
    let mut subs = Subs::default();
    macro_rules! hist {
        ($w:expr, $t:ty) => {
            subs.add(concat!("history ", stringify!($t)), $w, run::<i64, $t>);
        };
    }
    hist!(4, (D,));
    hist!(4, (D, D));
    hist!(2, (D, C3));
    hist!(2, (C2, D));
    hist!(1, (C2, C3));
    hist!(3, (D, D, D));
    hist!(2, (D, C2, D));
    hist!(2, (D, D, D, D));
    hist!(1, (D, D, D, D, D));
    hist!(1, (D, D, D, D, D, D));
    hist!(6, DynRank);
    hist!(1, ());
    hist!(1, (C0, D));
    subs.add("history of bytes (D,)", 2, run::<u8, (D,)>);
    subs.add("history of bytes (D, D)", 2, run::<u8, (D, D)>);
    subs.add("history of bytes DynRank", 2, run::<u8, DynRank>);
    subs.add("history of large elements (D, D)", 2, run::<Big, (D, D)>);
    subs.add("history of large elements (D, C3)", 1, run::<Big, (D, C3)>);
    harness::main(Property {
        id: "C08",
        rule: "at least two operations of the history changed or consumed a non-empty array",
        subs: subs.0,
    });
}
