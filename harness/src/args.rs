//! Generated subarray arguments: each argument type with its meaning as a selection.
use crate::engine::*;
use crate::model::Sel;
use mdarray::{StepRange, index::DimIndex, step};
use std::fmt::Debug;
use std::ops::*;

/// Argument of a subarray operation for one dimension. `make` gives the argument and the
/// selected indices, or `None` if the argument must be rejected.
pub trait Arg: 'static {
    type I: DimIndex + Clone + Debug;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>);
}

pub struct At;
pub struct Full;
pub struct Rng_;
pub struct From_;
pub struct Incl;
pub struct To;
pub struct ToIncl;
pub struct Bnd;
pub struct Step<A>(std::marker::PhantomData<A>);

fn list(start: usize, end: usize) -> Option<Sel> {
    Some(Sel::List((start..end).collect()))
}

/// Bounds with `start <= end <= size`, or rejected ones.
fn pair(src: &mut Src, size: usize, bad: bool) -> (usize, usize) {
    if bad {
        return match src.below(5) {
            0 => (0, size + 1),
            1 => (size + 1, size + 1),
            2 => (src.range(1, size + 2), 0),
            3 => (0, usize::MAX),
            _ => (usize::MAX, usize::MAX),
        };
    }
    if size == 0 || src.chance(1, 6) {
        let a = src.range(0, size);
        return (a, a + src.below(size - a + 1));
    }
    let top = if src.flip() { 2.min(size) } else { size };
    let a = src.below(top);
    let b = if src.chance(1, 3) { size } else { a + 1 + src.below(size - a) };
    (a, b)
}

impl Arg for At {
    type I = usize;
    fn make(src: &mut Src, size: usize, bad: bool) -> (usize, Option<Sel>) {
        if bad || size == 0 {
            let i = *src.pick(&[size, size + 1, size + 7, usize::MAX]);
            return (i, None);
        }
        let i = src.below(size);
        (i, Some(Sel::At(i)))
    }
}

impl Arg for Full {
    type I = RangeFull;
    fn make(_: &mut Src, size: usize, _: bool) -> (RangeFull, Option<Sel>) {
        (.., list(0, size))
    }
}

impl Arg for Rng_ {
    type I = Range<usize>;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        let (a, b) = pair(src, size, bad);
        (a..b, if bad { None } else { list(a, b) })
    }
}

impl Arg for From_ {
    type I = RangeFrom<usize>;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        if bad {
            return (*src.pick(&[size + 1, size + 5, usize::MAX]).., None);
        }
        let a = src.range(0, size);
        (a.., list(a, size))
    }
}

impl Arg for Incl {
    type I = RangeInclusive<usize>;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        if bad {
            return match src.below(4) {
                0 => (0..=size, None),
                1 => (size + 1..=size, None),
                2 => (0..=usize::MAX, None),
                _ => (usize::MAX..=usize::MAX, None),
            };
        }
        let (a, b) = pair(src, size, false);
        // The end is included; an empty selection is written as a range that ends before its start.
        if b == 0 { (1..=0, if size >= 1 { list(0, 0) } else { None }) } else { (a..=b - 1, list(a, b)) }
    }
}

impl Arg for To {
    type I = RangeTo<usize>;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        if bad {
            return (..*src.pick(&[size + 1, size + 5, usize::MAX]), None);
        }
        let b = src.range(0, size);
        (..b, list(0, b))
    }
}

impl Arg for ToIncl {
    type I = RangeToInclusive<usize>;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        if bad || size == 0 {
            return (..=*src.pick(&[size, size + 5, usize::MAX]), None);
        }
        let b = src.below(size);
        (..=b, list(0, b + 1))
    }
}

impl Arg for Bnd {
    type I = (Bound<usize>, Bound<usize>);
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        if bad {
            let r = match src.below(6) {
                0 => (Bound::Included(0), Bound::Included(size)),
                1 => (Bound::Unbounded, Bound::Excluded(size + 1)),
                2 => (Bound::Excluded(usize::MAX), Bound::Unbounded),
                3 => (Bound::Unbounded, Bound::Included(usize::MAX)),
                4 => (Bound::Excluded(size), Bound::Excluded(size)),
                _ => (Bound::Included(size + 1), Bound::Unbounded),
            };
            return (r, None);
        }
        let (mut a, mut b) = pair(src, size, false);
        let lo = match src.below(3) {
            0 => Bound::Included(a),
            1 if a > 0 => Bound::Excluded(a - 1),
            _ => {
                a = 0;
                Bound::Unbounded
            }
        };
        let hi = match src.below(3) {
            0 => Bound::Excluded(b),
            1 if b > 0 => Bound::Included(b - 1),
            _ => {
                b = size;
                Bound::Unbounded
            }
        };
        ((lo, hi), list(a, b))
    }
}

impl<A: Arg> Arg for Step<A>
where
    A::I: RangeBounds<usize>,
    StepRange<A::I, isize>: DimIndex,
{
    type I = StepRange<A::I, isize>;
    fn make(src: &mut Src, size: usize, bad: bool) -> (Self::I, Option<Sel>) {
        let zero = bad && src.flip();
        let (r, sel) = A::make(src, size, bad && !zero);
        if zero {
            return (step(r, 0), None);
        }
        let k = match src.below(8) {
            0 => 1,
            1 | 2 => 2,
            3 => 3,
            4 => src.range(1, size + 2),
            5 => size.max(1),
            6 => src.range(1, 12),
            _ => 1000,
        };
        let back = src.flip();
        let sel = match sel {
            Some(Sel::List(mut l)) => {
                if back {
                    l.reverse();
                }
                Some(Sel::List(l.into_iter().step_by(k).collect()))
            }
            s => s,
        };
        (step(r, if back { -(k as isize) } else { k as isize }), sel)
    }
}
