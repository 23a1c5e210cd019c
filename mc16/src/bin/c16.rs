//! C16 (generated by tools/gen16.py): every operation on every combination of operand types compiles
//! for any Copy + Ord element type, and the results iterate exactly when the operand types
//! guarantee a lower bound.
#![allow(non_snake_case, dead_code, unused)]
use rangetools::{Rangetools, Step};

/// Which iterator traits a type has, found out by method resolution: the inherent methods apply
/// only when their bounds hold, and otherwise the trait's defaults show through.
struct P<X, E>(std::marker::PhantomData<(X, E)>);
struct D<X, E>(std::marker::PhantomData<(X, E)>);
trait No {
    fn iter(&self) -> bool {
        false
    }
    fn both(&self) -> bool {
        false
    }
}
impl<X, E> No for P<X, E> {}
impl<X, E> No for D<X, E> {}
impl<X: IntoIterator<Item = E>, E> P<X, E> {
    fn iter(&self) -> bool {
        true
    }
}
impl<X: IntoIterator<Item = E>, E> D<X, E>
where
    X::IntoIter: DoubleEndedIterator + ExactSizeIterator,
{
    fn both(&self) -> bool {
        true
    }
}
/// The probes for whatever type the operation returns.
fn probe1<A, R: Rangetools, E>(_: impl Fn(A) -> R) -> (P<R, E>, D<R, E>, &'static str) {
    (P(std::marker::PhantomData), D(std::marker::PhantomData), std::any::type_name::<R>())
}
fn probe2<A, B, R: Rangetools, E>(_: impl Fn(A, B) -> R) -> (P<R, E>, D<R, E>, &'static str) {
    (P(std::marker::PhantomData), D(std::marker::PhantomData), std::any::type_name::<R>())
}

/// A user's element type with successors (only the required methods).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct User(u8);
impl Step for User {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        b.0.checked_sub(a.0).map(usize::from)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        u8::try_from(n).ok().and_then(|n| a.0.checked_add(n)).map(User)
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        u8::try_from(n).ok().and_then(|n| a.0.checked_sub(n)).map(User)
    }
}

macro_rules! look {
    ($v:ident, $name:expr, $lb:expr, $both:expr, $op:ident, $a:ty, $b:ty, $e:ty) => {{
        let (p, d, r) = probe2::<_, _, _, $e>(|a: $a, b: $b| Rangetools::$op(a, b));
        $v.push(($name, $lb, $both, p.iter(), d.both(), r));
    }};
}
macro_rules! look1 {
    ($v:ident, $name:expr, $lb:expr, $both:expr, $a:ty, $res:ty, $e:ty) => {{
        let (p, d, r) = probe1::<_, _, $e>(|a: $a| -> $res { Rangetools::complement(a) });
        $v.push(($name, $lb, $both, p.iter(), d.both(), r));
    }};
}

/// Compiles for every Copy + Ord element type, whatever it is.
mod generic {
    use rangetools::*;

    fn one_Range<T: Copy + Ord>(a: std::ops::Range<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UnboundedSet<T> = Rangetools::complement(a); }
    fn one_RangeInclusive<T: Copy + Ord>(a: std::ops::RangeInclusive<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UnboundedSet<T> = Rangetools::complement(a); }
    fn one_RangeFrom<T: Copy + Ord>(a: std::ops::RangeFrom<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UpperBoundedRange<T> = Rangetools::complement(a); }
    fn one_RangeTo<T: Copy + Ord>(a: std::ops::RangeTo<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: LowerBoundedRange<T> = Rangetools::complement(a); }
    fn one_RangeToInclusive<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: LowerBoundedRange<T> = Rangetools::complement(a); }
    fn one_RangeFull<T: Copy + Ord>(a: std::ops::RangeFull) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: EmptyRange<T> = Rangetools::complement(a); }
    fn one_BoundedRange<T: Copy + Ord>(a: rangetools::BoundedRange<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UnboundedSet<T> = Rangetools::complement(a); }
    fn one_LowerBoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UpperBoundedRange<T> = Rangetools::complement(a); }
    fn one_UpperBoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: LowerBoundedRange<T> = Rangetools::complement(a); }
    fn one_UnboundedRange<T: Copy + Ord>(a: rangetools::UnboundedRange) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: EmptyRange<T> = Rangetools::complement(a); }
    fn one_EmptyRange<T: Copy + Ord>(a: rangetools::EmptyRange<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UnboundedRange = Rangetools::complement(a); }
    fn one_BoundedSet<T: Copy + Ord>(a: rangetools::BoundedSet<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UnboundedSet<T> = Rangetools::complement(a); }
    fn one_LowerBoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: UpperBoundedSet<T> = Rangetools::complement(a); }
    fn one_UpperBoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: LowerBoundedSet<T> = Rangetools::complement(a); }
    fn one_UnboundedSet<T: Copy + Ord>(a: rangetools::UnboundedSet<T>) { let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: BoundedSet<T> = Rangetools::complement(a); }
    fn pair_Range_Range<T: Copy + Ord>(a: std::ops::Range<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_RangeInclusive<T: Copy + Ord>(a: std::ops::Range<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_RangeFrom<T: Copy + Ord>(a: std::ops::Range<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_RangeTo<T: Copy + Ord>(a: std::ops::Range<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_RangeToInclusive<T: Copy + Ord>(a: std::ops::Range<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_RangeFull<T: Copy + Ord>(a: std::ops::Range<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_BoundedRange<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_LowerBoundedRange<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_UpperBoundedRange<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_UnboundedRange<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_EmptyRange<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_BoundedSet<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_LowerBoundedSet<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_UpperBoundedSet<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_Range_UnboundedSet<T: Copy + Ord>(a: std::ops::Range<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_Range<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_RangeInclusive<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_RangeFrom<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_RangeTo<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_RangeToInclusive<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_RangeFull<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_BoundedRange<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_LowerBoundedRange<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_UpperBoundedRange<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_UnboundedRange<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_EmptyRange<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_BoundedSet<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_LowerBoundedSet<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_UpperBoundedSet<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeInclusive_UnboundedSet<T: Copy + Ord>(a: std::ops::RangeInclusive<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_Range<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_RangeInclusive<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_RangeFrom<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_RangeTo<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_RangeToInclusive<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_RangeFull<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_BoundedRange<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_LowerBoundedRange<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_UpperBoundedRange<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_UnboundedRange<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_EmptyRange<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_BoundedSet<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_LowerBoundedSet<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_UpperBoundedSet<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFrom_UnboundedSet<T: Copy + Ord>(a: std::ops::RangeFrom<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_Range<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_RangeInclusive<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_RangeFrom<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_RangeTo<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_RangeToInclusive<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_RangeFull<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_BoundedRange<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_LowerBoundedRange<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_UpperBoundedRange<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_UnboundedRange<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_EmptyRange<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_BoundedSet<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_LowerBoundedSet<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_UpperBoundedSet<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeTo_UnboundedSet<T: Copy + Ord>(a: std::ops::RangeTo<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_Range<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_RangeInclusive<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_RangeFrom<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_RangeTo<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_RangeToInclusive<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_RangeFull<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_BoundedRange<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_LowerBoundedRange<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_UpperBoundedRange<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_UnboundedRange<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_EmptyRange<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_BoundedSet<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_LowerBoundedSet<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_UpperBoundedSet<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeToInclusive_UnboundedSet<T: Copy + Ord>(a: std::ops::RangeToInclusive<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_Range<T: Copy + Ord>(a: std::ops::RangeFull, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_RangeInclusive<T: Copy + Ord>(a: std::ops::RangeFull, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_RangeFrom<T: Copy + Ord>(a: std::ops::RangeFull, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_RangeTo<T: Copy + Ord>(a: std::ops::RangeFull, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_RangeToInclusive<T: Copy + Ord>(a: std::ops::RangeFull, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_RangeFull<T: Copy + Ord>(a: std::ops::RangeFull, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_BoundedRange<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_LowerBoundedRange<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_UpperBoundedRange<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_UnboundedRange<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_EmptyRange<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_BoundedSet<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_LowerBoundedSet<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_UpperBoundedSet<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_RangeFull_UnboundedSet<T: Copy + Ord>(a: std::ops::RangeFull, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_Range<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_RangeInclusive<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_RangeFrom<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_RangeTo<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_RangeToInclusive<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_RangeFull<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_BoundedRange<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_LowerBoundedRange<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_UpperBoundedRange<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_UnboundedRange<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_EmptyRange<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_BoundedSet<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_LowerBoundedSet<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_UpperBoundedSet<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedRange_UnboundedSet<T: Copy + Ord>(a: rangetools::BoundedRange<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_Range<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_RangeInclusive<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_RangeFrom<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_RangeTo<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_RangeToInclusive<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_RangeFull<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_BoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_LowerBoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_UpperBoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_UnboundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_EmptyRange<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_BoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_LowerBoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_UpperBoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedRange_UnboundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedRange<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_Range<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_RangeInclusive<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_RangeFrom<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_RangeTo<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_RangeToInclusive<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_RangeFull<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_BoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_LowerBoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_UpperBoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_UnboundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_EmptyRange<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_BoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_LowerBoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_UpperBoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedRange_UnboundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedRange<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_Range<T: Copy + Ord>(a: rangetools::UnboundedRange, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_RangeInclusive<T: Copy + Ord>(a: rangetools::UnboundedRange, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_RangeFrom<T: Copy + Ord>(a: rangetools::UnboundedRange, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_RangeTo<T: Copy + Ord>(a: rangetools::UnboundedRange, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_RangeToInclusive<T: Copy + Ord>(a: rangetools::UnboundedRange, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_RangeFull<T: Copy + Ord>(a: rangetools::UnboundedRange, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_BoundedRange<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_LowerBoundedRange<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_UpperBoundedRange<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_UnboundedRange<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_EmptyRange<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_BoundedSet<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_LowerBoundedSet<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_UpperBoundedSet<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedRange_UnboundedSet<T: Copy + Ord>(a: rangetools::UnboundedRange, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_Range<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_RangeInclusive<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_RangeFrom<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_RangeTo<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_RangeToInclusive<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_RangeFull<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_BoundedRange<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_LowerBoundedRange<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_UpperBoundedRange<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_UnboundedRange<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_EmptyRange<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_BoundedSet<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_LowerBoundedSet<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_UpperBoundedSet<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_EmptyRange_UnboundedSet<T: Copy + Ord>(a: rangetools::EmptyRange<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_Range<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_RangeInclusive<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_RangeFrom<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_RangeTo<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_RangeToInclusive<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_RangeFull<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_BoundedRange<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_LowerBoundedRange<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_UpperBoundedRange<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_UnboundedRange<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_EmptyRange<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_BoundedSet<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_LowerBoundedSet<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_UpperBoundedSet<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_BoundedSet_UnboundedSet<T: Copy + Ord>(a: rangetools::BoundedSet<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_Range<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_RangeInclusive<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_RangeFrom<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_RangeTo<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_RangeToInclusive<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_RangeFull<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_BoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_LowerBoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_UpperBoundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_UnboundedRange<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_EmptyRange<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_BoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_LowerBoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_UpperBoundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_LowerBoundedSet_UnboundedSet<T: Copy + Ord>(a: rangetools::LowerBoundedSet<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_Range<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_RangeInclusive<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_RangeFrom<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_RangeTo<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_RangeToInclusive<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_RangeFull<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_BoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_LowerBoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_UpperBoundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_UnboundedRange<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_EmptyRange<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_BoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_LowerBoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_UpperBoundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UpperBoundedSet_UnboundedSet<T: Copy + Ord>(a: rangetools::UpperBoundedSet<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_Range<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: std::ops::Range<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_RangeInclusive<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: std::ops::RangeInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_RangeFrom<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: std::ops::RangeFrom<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_RangeTo<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: std::ops::RangeTo<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_RangeToInclusive<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: std::ops::RangeToInclusive<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_RangeFull<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: std::ops::RangeFull) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_BoundedRange<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::BoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_LowerBoundedRange<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::LowerBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_UpperBoundedRange<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::UpperBoundedRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_UnboundedRange<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::UnboundedRange) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_EmptyRange<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::EmptyRange<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_BoundedSet<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::BoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_LowerBoundedSet<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::LowerBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_UpperBoundedSet<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::UpperBoundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
    fn pair_UnboundedSet_UnboundedSet<T: Copy + Ord>(a: rangetools::UnboundedSet<T>, b: rangetools::UnboundedSet<T>) { let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }
}

type Flag = (&'static str, bool, bool, bool, bool, &'static str);
mod on_u8 {
    use super::*;
    type T = u8;
    pub fn unary(v: &mut Vec<Flag>) {
        look1!(v, "complement of Range of u8", false, false, std::ops::Range<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of RangeInclusive of u8", false, false, std::ops::RangeInclusive<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of RangeFrom of u8", false, false, std::ops::RangeFrom<T>, rangetools::UpperBoundedRange<T>, T);
        look1!(v, "complement of RangeTo of u8", true, false, std::ops::RangeTo<T>, rangetools::LowerBoundedRange<T>, T);
        look1!(v, "complement of RangeToInclusive of u8", true, false, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedRange<T>, T);
        look1!(v, "complement of RangeFull of u8", true, true, std::ops::RangeFull, rangetools::EmptyRange<T>, T);
        look1!(v, "complement of BoundedRange of u8", false, false, rangetools::BoundedRange<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of LowerBoundedRange of u8", false, false, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedRange<T>, T);
        look1!(v, "complement of UpperBoundedRange of u8", true, false, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedRange<T>, T);
        look1!(v, "complement of UnboundedRange of u8", true, true, rangetools::UnboundedRange, rangetools::EmptyRange<T>, T);
        look1!(v, "complement of EmptyRange of u8", false, false, rangetools::EmptyRange<T>, rangetools::UnboundedRange, T);
        look1!(v, "complement of BoundedSet of u8", false, false, rangetools::BoundedSet<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of LowerBoundedSet of u8", false, false, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedSet<T>, T);
        look1!(v, "complement of UpperBoundedSet of u8", true, false, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedSet<T>, T);
        look1!(v, "complement of UnboundedSet of u8", true, true, rangetools::UnboundedSet<T>, rangetools::BoundedSet<T>, T);
    }
    pub fn Range(v: &mut Vec<Flag>) {
        look!(v, "union of Range and Range of u8", true, true, union, std::ops::Range<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of Range and Range of u8", true, true, intersection, std::ops::Range<T>, std::ops::Range<T>, u8);
        look!(v, "union of Range and RangeInclusive of u8", true, true, union, std::ops::Range<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of Range and RangeInclusive of u8", true, true, intersection, std::ops::Range<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of Range and RangeFrom of u8", true, false, union, std::ops::Range<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of Range and RangeFrom of u8", true, true, intersection, std::ops::Range<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of Range and RangeTo of u8", false, false, union, std::ops::Range<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of Range and RangeTo of u8", true, true, intersection, std::ops::Range<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of Range and RangeToInclusive of u8", false, false, union, std::ops::Range<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of Range and RangeToInclusive of u8", true, true, intersection, std::ops::Range<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of Range and RangeFull of u8", false, false, union, std::ops::Range<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of Range and RangeFull of u8", true, true, intersection, std::ops::Range<T>, std::ops::RangeFull, u8);
        look!(v, "union of Range and BoundedRange of u8", true, true, union, std::ops::Range<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of Range and BoundedRange of u8", true, true, intersection, std::ops::Range<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of Range and LowerBoundedRange of u8", true, false, union, std::ops::Range<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of Range and LowerBoundedRange of u8", true, true, intersection, std::ops::Range<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of Range and UpperBoundedRange of u8", false, false, union, std::ops::Range<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of Range and UpperBoundedRange of u8", true, true, intersection, std::ops::Range<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of Range and UnboundedRange of u8", false, false, union, std::ops::Range<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of Range and UnboundedRange of u8", true, true, intersection, std::ops::Range<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of Range and EmptyRange of u8", true, true, union, std::ops::Range<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of Range and EmptyRange of u8", true, true, intersection, std::ops::Range<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of Range and BoundedSet of u8", true, true, union, std::ops::Range<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of Range and BoundedSet of u8", true, true, intersection, std::ops::Range<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of Range and LowerBoundedSet of u8", true, false, union, std::ops::Range<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of Range and LowerBoundedSet of u8", true, true, intersection, std::ops::Range<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of Range and UpperBoundedSet of u8", false, false, union, std::ops::Range<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of Range and UpperBoundedSet of u8", true, true, intersection, std::ops::Range<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of Range and UnboundedSet of u8", false, false, union, std::ops::Range<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of Range and UnboundedSet of u8", true, true, intersection, std::ops::Range<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn RangeInclusive(v: &mut Vec<Flag>) {
        look!(v, "union of RangeInclusive and Range of u8", true, true, union, std::ops::RangeInclusive<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of RangeInclusive and Range of u8", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::Range<T>, u8);
        look!(v, "union of RangeInclusive and RangeInclusive of u8", true, true, union, std::ops::RangeInclusive<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of RangeInclusive and RangeInclusive of u8", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of RangeInclusive and RangeFrom of u8", true, false, union, std::ops::RangeInclusive<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of RangeInclusive and RangeFrom of u8", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of RangeInclusive and RangeTo of u8", false, false, union, std::ops::RangeInclusive<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of RangeInclusive and RangeTo of u8", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of RangeInclusive and RangeToInclusive of u8", false, false, union, std::ops::RangeInclusive<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of RangeInclusive and RangeToInclusive of u8", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of RangeInclusive and RangeFull of u8", false, false, union, std::ops::RangeInclusive<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of RangeInclusive and RangeFull of u8", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeFull, u8);
        look!(v, "union of RangeInclusive and BoundedRange of u8", true, true, union, std::ops::RangeInclusive<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of RangeInclusive and BoundedRange of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of RangeInclusive and LowerBoundedRange of u8", true, false, union, std::ops::RangeInclusive<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of RangeInclusive and LowerBoundedRange of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of RangeInclusive and UpperBoundedRange of u8", false, false, union, std::ops::RangeInclusive<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of RangeInclusive and UpperBoundedRange of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of RangeInclusive and UnboundedRange of u8", false, false, union, std::ops::RangeInclusive<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of RangeInclusive and UnboundedRange of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of RangeInclusive and EmptyRange of u8", true, true, union, std::ops::RangeInclusive<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of RangeInclusive and EmptyRange of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of RangeInclusive and BoundedSet of u8", true, true, union, std::ops::RangeInclusive<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of RangeInclusive and BoundedSet of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of RangeInclusive and LowerBoundedSet of u8", true, false, union, std::ops::RangeInclusive<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of RangeInclusive and LowerBoundedSet of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of RangeInclusive and UpperBoundedSet of u8", false, false, union, std::ops::RangeInclusive<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of RangeInclusive and UpperBoundedSet of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of RangeInclusive and UnboundedSet of u8", false, false, union, std::ops::RangeInclusive<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of RangeInclusive and UnboundedSet of u8", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn RangeFrom(v: &mut Vec<Flag>) {
        look!(v, "union of RangeFrom and Range of u8", true, false, union, std::ops::RangeFrom<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of RangeFrom and Range of u8", true, true, intersection, std::ops::RangeFrom<T>, std::ops::Range<T>, u8);
        look!(v, "union of RangeFrom and RangeInclusive of u8", true, false, union, std::ops::RangeFrom<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of RangeFrom and RangeInclusive of u8", true, true, intersection, std::ops::RangeFrom<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of RangeFrom and RangeFrom of u8", true, false, union, std::ops::RangeFrom<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of RangeFrom and RangeFrom of u8", true, false, intersection, std::ops::RangeFrom<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of RangeFrom and RangeTo of u8", false, false, union, std::ops::RangeFrom<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of RangeFrom and RangeTo of u8", true, true, intersection, std::ops::RangeFrom<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of RangeFrom and RangeToInclusive of u8", false, false, union, std::ops::RangeFrom<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of RangeFrom and RangeToInclusive of u8", true, true, intersection, std::ops::RangeFrom<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of RangeFrom and RangeFull of u8", false, false, union, std::ops::RangeFrom<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of RangeFrom and RangeFull of u8", true, false, intersection, std::ops::RangeFrom<T>, std::ops::RangeFull, u8);
        look!(v, "union of RangeFrom and BoundedRange of u8", true, false, union, std::ops::RangeFrom<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of RangeFrom and BoundedRange of u8", true, true, intersection, std::ops::RangeFrom<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of RangeFrom and LowerBoundedRange of u8", true, false, union, std::ops::RangeFrom<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of RangeFrom and LowerBoundedRange of u8", true, false, intersection, std::ops::RangeFrom<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of RangeFrom and UpperBoundedRange of u8", false, false, union, std::ops::RangeFrom<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of RangeFrom and UpperBoundedRange of u8", true, true, intersection, std::ops::RangeFrom<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of RangeFrom and UnboundedRange of u8", false, false, union, std::ops::RangeFrom<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of RangeFrom and UnboundedRange of u8", true, false, intersection, std::ops::RangeFrom<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of RangeFrom and EmptyRange of u8", true, false, union, std::ops::RangeFrom<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of RangeFrom and EmptyRange of u8", true, true, intersection, std::ops::RangeFrom<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of RangeFrom and BoundedSet of u8", true, false, union, std::ops::RangeFrom<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of RangeFrom and BoundedSet of u8", true, true, intersection, std::ops::RangeFrom<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of RangeFrom and LowerBoundedSet of u8", true, false, union, std::ops::RangeFrom<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of RangeFrom and LowerBoundedSet of u8", true, false, intersection, std::ops::RangeFrom<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of RangeFrom and UpperBoundedSet of u8", false, false, union, std::ops::RangeFrom<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of RangeFrom and UpperBoundedSet of u8", true, true, intersection, std::ops::RangeFrom<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of RangeFrom and UnboundedSet of u8", false, false, union, std::ops::RangeFrom<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of RangeFrom and UnboundedSet of u8", true, false, intersection, std::ops::RangeFrom<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn RangeTo(v: &mut Vec<Flag>) {
        look!(v, "union of RangeTo and Range of u8", false, false, union, std::ops::RangeTo<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of RangeTo and Range of u8", true, true, intersection, std::ops::RangeTo<T>, std::ops::Range<T>, u8);
        look!(v, "union of RangeTo and RangeInclusive of u8", false, false, union, std::ops::RangeTo<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of RangeTo and RangeInclusive of u8", true, true, intersection, std::ops::RangeTo<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of RangeTo and RangeFrom of u8", false, false, union, std::ops::RangeTo<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of RangeTo and RangeFrom of u8", true, true, intersection, std::ops::RangeTo<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of RangeTo and RangeTo of u8", false, false, union, std::ops::RangeTo<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of RangeTo and RangeTo of u8", false, false, intersection, std::ops::RangeTo<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of RangeTo and RangeToInclusive of u8", false, false, union, std::ops::RangeTo<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of RangeTo and RangeToInclusive of u8", false, false, intersection, std::ops::RangeTo<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of RangeTo and RangeFull of u8", false, false, union, std::ops::RangeTo<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of RangeTo and RangeFull of u8", false, false, intersection, std::ops::RangeTo<T>, std::ops::RangeFull, u8);
        look!(v, "union of RangeTo and BoundedRange of u8", false, false, union, std::ops::RangeTo<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of RangeTo and BoundedRange of u8", true, true, intersection, std::ops::RangeTo<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of RangeTo and LowerBoundedRange of u8", false, false, union, std::ops::RangeTo<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of RangeTo and LowerBoundedRange of u8", true, true, intersection, std::ops::RangeTo<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of RangeTo and UpperBoundedRange of u8", false, false, union, std::ops::RangeTo<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of RangeTo and UpperBoundedRange of u8", false, false, intersection, std::ops::RangeTo<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of RangeTo and UnboundedRange of u8", false, false, union, std::ops::RangeTo<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of RangeTo and UnboundedRange of u8", false, false, intersection, std::ops::RangeTo<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of RangeTo and EmptyRange of u8", false, false, union, std::ops::RangeTo<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of RangeTo and EmptyRange of u8", true, true, intersection, std::ops::RangeTo<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of RangeTo and BoundedSet of u8", false, false, union, std::ops::RangeTo<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of RangeTo and BoundedSet of u8", true, true, intersection, std::ops::RangeTo<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of RangeTo and LowerBoundedSet of u8", false, false, union, std::ops::RangeTo<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of RangeTo and LowerBoundedSet of u8", true, true, intersection, std::ops::RangeTo<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of RangeTo and UpperBoundedSet of u8", false, false, union, std::ops::RangeTo<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of RangeTo and UpperBoundedSet of u8", false, false, intersection, std::ops::RangeTo<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of RangeTo and UnboundedSet of u8", false, false, union, std::ops::RangeTo<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of RangeTo and UnboundedSet of u8", false, false, intersection, std::ops::RangeTo<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn RangeToInclusive(v: &mut Vec<Flag>) {
        look!(v, "union of RangeToInclusive and Range of u8", false, false, union, std::ops::RangeToInclusive<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of RangeToInclusive and Range of u8", true, true, intersection, std::ops::RangeToInclusive<T>, std::ops::Range<T>, u8);
        look!(v, "union of RangeToInclusive and RangeInclusive of u8", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of RangeToInclusive and RangeInclusive of u8", true, true, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of RangeToInclusive and RangeFrom of u8", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of RangeToInclusive and RangeFrom of u8", true, true, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of RangeToInclusive and RangeTo of u8", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of RangeToInclusive and RangeTo of u8", false, false, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of RangeToInclusive and RangeToInclusive of u8", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of RangeToInclusive and RangeToInclusive of u8", false, false, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of RangeToInclusive and RangeFull of u8", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of RangeToInclusive and RangeFull of u8", false, false, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeFull, u8);
        look!(v, "union of RangeToInclusive and BoundedRange of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of RangeToInclusive and BoundedRange of u8", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of RangeToInclusive and LowerBoundedRange of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of RangeToInclusive and LowerBoundedRange of u8", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of RangeToInclusive and UpperBoundedRange of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of RangeToInclusive and UpperBoundedRange of u8", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of RangeToInclusive and UnboundedRange of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of RangeToInclusive and UnboundedRange of u8", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of RangeToInclusive and EmptyRange of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of RangeToInclusive and EmptyRange of u8", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of RangeToInclusive and BoundedSet of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of RangeToInclusive and BoundedSet of u8", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of RangeToInclusive and LowerBoundedSet of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of RangeToInclusive and LowerBoundedSet of u8", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of RangeToInclusive and UpperBoundedSet of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of RangeToInclusive and UpperBoundedSet of u8", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of RangeToInclusive and UnboundedSet of u8", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of RangeToInclusive and UnboundedSet of u8", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn RangeFull(v: &mut Vec<Flag>) {
        look!(v, "union of RangeFull and Range of u8", false, false, union, std::ops::RangeFull, std::ops::Range<T>, u8);
        look!(v, "intersection of RangeFull and Range of u8", true, true, intersection, std::ops::RangeFull, std::ops::Range<T>, u8);
        look!(v, "union of RangeFull and RangeInclusive of u8", false, false, union, std::ops::RangeFull, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of RangeFull and RangeInclusive of u8", true, true, intersection, std::ops::RangeFull, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of RangeFull and RangeFrom of u8", false, false, union, std::ops::RangeFull, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of RangeFull and RangeFrom of u8", true, false, intersection, std::ops::RangeFull, std::ops::RangeFrom<T>, u8);
        look!(v, "union of RangeFull and RangeTo of u8", false, false, union, std::ops::RangeFull, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of RangeFull and RangeTo of u8", false, false, intersection, std::ops::RangeFull, std::ops::RangeTo<T>, u8);
        look!(v, "union of RangeFull and RangeToInclusive of u8", false, false, union, std::ops::RangeFull, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of RangeFull and RangeToInclusive of u8", false, false, intersection, std::ops::RangeFull, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of RangeFull and RangeFull of u8", false, false, union, std::ops::RangeFull, std::ops::RangeFull, u8);
        look!(v, "intersection of RangeFull and RangeFull of u8", false, false, intersection, std::ops::RangeFull, std::ops::RangeFull, u8);
        look!(v, "union of RangeFull and BoundedRange of u8", false, false, union, std::ops::RangeFull, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of RangeFull and BoundedRange of u8", true, true, intersection, std::ops::RangeFull, rangetools::BoundedRange<T>, u8);
        look!(v, "union of RangeFull and LowerBoundedRange of u8", false, false, union, std::ops::RangeFull, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of RangeFull and LowerBoundedRange of u8", true, false, intersection, std::ops::RangeFull, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of RangeFull and UpperBoundedRange of u8", false, false, union, std::ops::RangeFull, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of RangeFull and UpperBoundedRange of u8", false, false, intersection, std::ops::RangeFull, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of RangeFull and UnboundedRange of u8", false, false, union, std::ops::RangeFull, rangetools::UnboundedRange, u8);
        look!(v, "intersection of RangeFull and UnboundedRange of u8", false, false, intersection, std::ops::RangeFull, rangetools::UnboundedRange, u8);
        look!(v, "union of RangeFull and EmptyRange of u8", false, false, union, std::ops::RangeFull, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of RangeFull and EmptyRange of u8", true, true, intersection, std::ops::RangeFull, rangetools::EmptyRange<T>, u8);
        look!(v, "union of RangeFull and BoundedSet of u8", false, false, union, std::ops::RangeFull, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of RangeFull and BoundedSet of u8", true, true, intersection, std::ops::RangeFull, rangetools::BoundedSet<T>, u8);
        look!(v, "union of RangeFull and LowerBoundedSet of u8", false, false, union, std::ops::RangeFull, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of RangeFull and LowerBoundedSet of u8", true, false, intersection, std::ops::RangeFull, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of RangeFull and UpperBoundedSet of u8", false, false, union, std::ops::RangeFull, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of RangeFull and UpperBoundedSet of u8", false, false, intersection, std::ops::RangeFull, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of RangeFull and UnboundedSet of u8", false, false, union, std::ops::RangeFull, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of RangeFull and UnboundedSet of u8", false, false, intersection, std::ops::RangeFull, rangetools::UnboundedSet<T>, u8);
    }
    pub fn BoundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of BoundedRange and Range of u8", true, true, union, rangetools::BoundedRange<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of BoundedRange and Range of u8", true, true, intersection, rangetools::BoundedRange<T>, std::ops::Range<T>, u8);
        look!(v, "union of BoundedRange and RangeInclusive of u8", true, true, union, rangetools::BoundedRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of BoundedRange and RangeInclusive of u8", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of BoundedRange and RangeFrom of u8", true, false, union, rangetools::BoundedRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of BoundedRange and RangeFrom of u8", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of BoundedRange and RangeTo of u8", false, false, union, rangetools::BoundedRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of BoundedRange and RangeTo of u8", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of BoundedRange and RangeToInclusive of u8", false, false, union, rangetools::BoundedRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of BoundedRange and RangeToInclusive of u8", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of BoundedRange and RangeFull of u8", false, false, union, rangetools::BoundedRange<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of BoundedRange and RangeFull of u8", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeFull, u8);
        look!(v, "union of BoundedRange and BoundedRange of u8", true, true, union, rangetools::BoundedRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of BoundedRange and BoundedRange of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of BoundedRange and LowerBoundedRange of u8", true, false, union, rangetools::BoundedRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of BoundedRange and LowerBoundedRange of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of BoundedRange and UpperBoundedRange of u8", false, false, union, rangetools::BoundedRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of BoundedRange and UpperBoundedRange of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of BoundedRange and UnboundedRange of u8", false, false, union, rangetools::BoundedRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of BoundedRange and UnboundedRange of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of BoundedRange and EmptyRange of u8", true, true, union, rangetools::BoundedRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of BoundedRange and EmptyRange of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of BoundedRange and BoundedSet of u8", true, true, union, rangetools::BoundedRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of BoundedRange and BoundedSet of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of BoundedRange and LowerBoundedSet of u8", true, false, union, rangetools::BoundedRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of BoundedRange and LowerBoundedSet of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of BoundedRange and UpperBoundedSet of u8", false, false, union, rangetools::BoundedRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of BoundedRange and UpperBoundedSet of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of BoundedRange and UnboundedSet of u8", false, false, union, rangetools::BoundedRange<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of BoundedRange and UnboundedSet of u8", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn LowerBoundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of LowerBoundedRange and Range of u8", true, false, union, rangetools::LowerBoundedRange<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of LowerBoundedRange and Range of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::Range<T>, u8);
        look!(v, "union of LowerBoundedRange and RangeInclusive of u8", true, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of LowerBoundedRange and RangeInclusive of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of LowerBoundedRange and RangeFrom of u8", true, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of LowerBoundedRange and RangeFrom of u8", true, false, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of LowerBoundedRange and RangeTo of u8", false, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of LowerBoundedRange and RangeTo of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of LowerBoundedRange and RangeToInclusive of u8", false, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of LowerBoundedRange and RangeToInclusive of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of LowerBoundedRange and RangeFull of u8", false, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of LowerBoundedRange and RangeFull of u8", true, false, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeFull, u8);
        look!(v, "union of LowerBoundedRange and BoundedRange of u8", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of LowerBoundedRange and BoundedRange of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of LowerBoundedRange and LowerBoundedRange of u8", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of LowerBoundedRange and LowerBoundedRange of u8", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of LowerBoundedRange and UpperBoundedRange of u8", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of LowerBoundedRange and UpperBoundedRange of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of LowerBoundedRange and UnboundedRange of u8", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of LowerBoundedRange and UnboundedRange of u8", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of LowerBoundedRange and EmptyRange of u8", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of LowerBoundedRange and EmptyRange of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of LowerBoundedRange and BoundedSet of u8", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedRange and BoundedSet of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of LowerBoundedRange and LowerBoundedSet of u8", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedRange and LowerBoundedSet of u8", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of LowerBoundedRange and UpperBoundedSet of u8", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedRange and UpperBoundedSet of u8", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of LowerBoundedRange and UnboundedSet of u8", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedRange and UnboundedSet of u8", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn UpperBoundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of UpperBoundedRange and Range of u8", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of UpperBoundedRange and Range of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, std::ops::Range<T>, u8);
        look!(v, "union of UpperBoundedRange and RangeInclusive of u8", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of UpperBoundedRange and RangeInclusive of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of UpperBoundedRange and RangeFrom of u8", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of UpperBoundedRange and RangeFrom of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of UpperBoundedRange and RangeTo of u8", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of UpperBoundedRange and RangeTo of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of UpperBoundedRange and RangeToInclusive of u8", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of UpperBoundedRange and RangeToInclusive of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of UpperBoundedRange and RangeFull of u8", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of UpperBoundedRange and RangeFull of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeFull, u8);
        look!(v, "union of UpperBoundedRange and BoundedRange of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of UpperBoundedRange and BoundedRange of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of UpperBoundedRange and LowerBoundedRange of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of UpperBoundedRange and LowerBoundedRange of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of UpperBoundedRange and UpperBoundedRange of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of UpperBoundedRange and UpperBoundedRange of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of UpperBoundedRange and UnboundedRange of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of UpperBoundedRange and UnboundedRange of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of UpperBoundedRange and EmptyRange of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of UpperBoundedRange and EmptyRange of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of UpperBoundedRange and BoundedSet of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedRange and BoundedSet of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of UpperBoundedRange and LowerBoundedSet of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedRange and LowerBoundedSet of u8", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of UpperBoundedRange and UpperBoundedSet of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedRange and UpperBoundedSet of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of UpperBoundedRange and UnboundedSet of u8", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedRange and UnboundedSet of u8", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn UnboundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of UnboundedRange and Range of u8", false, false, union, rangetools::UnboundedRange, std::ops::Range<T>, u8);
        look!(v, "intersection of UnboundedRange and Range of u8", true, true, intersection, rangetools::UnboundedRange, std::ops::Range<T>, u8);
        look!(v, "union of UnboundedRange and RangeInclusive of u8", false, false, union, rangetools::UnboundedRange, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of UnboundedRange and RangeInclusive of u8", true, true, intersection, rangetools::UnboundedRange, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of UnboundedRange and RangeFrom of u8", false, false, union, rangetools::UnboundedRange, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of UnboundedRange and RangeFrom of u8", true, false, intersection, rangetools::UnboundedRange, std::ops::RangeFrom<T>, u8);
        look!(v, "union of UnboundedRange and RangeTo of u8", false, false, union, rangetools::UnboundedRange, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of UnboundedRange and RangeTo of u8", false, false, intersection, rangetools::UnboundedRange, std::ops::RangeTo<T>, u8);
        look!(v, "union of UnboundedRange and RangeToInclusive of u8", false, false, union, rangetools::UnboundedRange, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of UnboundedRange and RangeToInclusive of u8", false, false, intersection, rangetools::UnboundedRange, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of UnboundedRange and RangeFull of u8", false, false, union, rangetools::UnboundedRange, std::ops::RangeFull, u8);
        look!(v, "intersection of UnboundedRange and RangeFull of u8", false, false, intersection, rangetools::UnboundedRange, std::ops::RangeFull, u8);
        look!(v, "union of UnboundedRange and BoundedRange of u8", false, false, union, rangetools::UnboundedRange, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of UnboundedRange and BoundedRange of u8", true, true, intersection, rangetools::UnboundedRange, rangetools::BoundedRange<T>, u8);
        look!(v, "union of UnboundedRange and LowerBoundedRange of u8", false, false, union, rangetools::UnboundedRange, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of UnboundedRange and LowerBoundedRange of u8", true, false, intersection, rangetools::UnboundedRange, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of UnboundedRange and UpperBoundedRange of u8", false, false, union, rangetools::UnboundedRange, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of UnboundedRange and UpperBoundedRange of u8", false, false, intersection, rangetools::UnboundedRange, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of UnboundedRange and UnboundedRange of u8", false, false, union, rangetools::UnboundedRange, rangetools::UnboundedRange, u8);
        look!(v, "intersection of UnboundedRange and UnboundedRange of u8", false, false, intersection, rangetools::UnboundedRange, rangetools::UnboundedRange, u8);
        look!(v, "union of UnboundedRange and EmptyRange of u8", false, false, union, rangetools::UnboundedRange, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of UnboundedRange and EmptyRange of u8", true, true, intersection, rangetools::UnboundedRange, rangetools::EmptyRange<T>, u8);
        look!(v, "union of UnboundedRange and BoundedSet of u8", false, false, union, rangetools::UnboundedRange, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of UnboundedRange and BoundedSet of u8", true, true, intersection, rangetools::UnboundedRange, rangetools::BoundedSet<T>, u8);
        look!(v, "union of UnboundedRange and LowerBoundedSet of u8", false, false, union, rangetools::UnboundedRange, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of UnboundedRange and LowerBoundedSet of u8", true, false, intersection, rangetools::UnboundedRange, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of UnboundedRange and UpperBoundedSet of u8", false, false, union, rangetools::UnboundedRange, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of UnboundedRange and UpperBoundedSet of u8", false, false, intersection, rangetools::UnboundedRange, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of UnboundedRange and UnboundedSet of u8", false, false, union, rangetools::UnboundedRange, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of UnboundedRange and UnboundedSet of u8", false, false, intersection, rangetools::UnboundedRange, rangetools::UnboundedSet<T>, u8);
    }
    pub fn EmptyRange(v: &mut Vec<Flag>) {
        look!(v, "union of EmptyRange and Range of u8", true, true, union, rangetools::EmptyRange<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of EmptyRange and Range of u8", true, true, intersection, rangetools::EmptyRange<T>, std::ops::Range<T>, u8);
        look!(v, "union of EmptyRange and RangeInclusive of u8", true, true, union, rangetools::EmptyRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of EmptyRange and RangeInclusive of u8", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of EmptyRange and RangeFrom of u8", true, false, union, rangetools::EmptyRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of EmptyRange and RangeFrom of u8", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of EmptyRange and RangeTo of u8", false, false, union, rangetools::EmptyRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of EmptyRange and RangeTo of u8", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of EmptyRange and RangeToInclusive of u8", false, false, union, rangetools::EmptyRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of EmptyRange and RangeToInclusive of u8", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of EmptyRange and RangeFull of u8", false, false, union, rangetools::EmptyRange<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of EmptyRange and RangeFull of u8", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeFull, u8);
        look!(v, "union of EmptyRange and BoundedRange of u8", true, true, union, rangetools::EmptyRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of EmptyRange and BoundedRange of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of EmptyRange and LowerBoundedRange of u8", true, false, union, rangetools::EmptyRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of EmptyRange and LowerBoundedRange of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of EmptyRange and UpperBoundedRange of u8", false, false, union, rangetools::EmptyRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of EmptyRange and UpperBoundedRange of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of EmptyRange and UnboundedRange of u8", false, false, union, rangetools::EmptyRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of EmptyRange and UnboundedRange of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of EmptyRange and EmptyRange of u8", true, true, union, rangetools::EmptyRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of EmptyRange and EmptyRange of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of EmptyRange and BoundedSet of u8", true, true, union, rangetools::EmptyRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of EmptyRange and BoundedSet of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of EmptyRange and LowerBoundedSet of u8", true, false, union, rangetools::EmptyRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of EmptyRange and LowerBoundedSet of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of EmptyRange and UpperBoundedSet of u8", false, false, union, rangetools::EmptyRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of EmptyRange and UpperBoundedSet of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of EmptyRange and UnboundedSet of u8", false, false, union, rangetools::EmptyRange<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of EmptyRange and UnboundedSet of u8", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn BoundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of BoundedSet and Range of u8", true, true, union, rangetools::BoundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of BoundedSet and Range of u8", true, true, intersection, rangetools::BoundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "union of BoundedSet and RangeInclusive of u8", true, true, union, rangetools::BoundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of BoundedSet and RangeInclusive of u8", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of BoundedSet and RangeFrom of u8", true, false, union, rangetools::BoundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of BoundedSet and RangeFrom of u8", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of BoundedSet and RangeTo of u8", false, false, union, rangetools::BoundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of BoundedSet and RangeTo of u8", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of BoundedSet and RangeToInclusive of u8", false, false, union, rangetools::BoundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of BoundedSet and RangeToInclusive of u8", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of BoundedSet and RangeFull of u8", false, false, union, rangetools::BoundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of BoundedSet and RangeFull of u8", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "union of BoundedSet and BoundedRange of u8", true, true, union, rangetools::BoundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of BoundedSet and BoundedRange of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of BoundedSet and LowerBoundedRange of u8", true, false, union, rangetools::BoundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of BoundedSet and LowerBoundedRange of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of BoundedSet and UpperBoundedRange of u8", false, false, union, rangetools::BoundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of BoundedSet and UpperBoundedRange of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of BoundedSet and UnboundedRange of u8", false, false, union, rangetools::BoundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of BoundedSet and UnboundedRange of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of BoundedSet and EmptyRange of u8", true, true, union, rangetools::BoundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of BoundedSet and EmptyRange of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of BoundedSet and BoundedSet of u8", true, true, union, rangetools::BoundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of BoundedSet and BoundedSet of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of BoundedSet and LowerBoundedSet of u8", true, false, union, rangetools::BoundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of BoundedSet and LowerBoundedSet of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of BoundedSet and UpperBoundedSet of u8", false, false, union, rangetools::BoundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of BoundedSet and UpperBoundedSet of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of BoundedSet and UnboundedSet of u8", false, false, union, rangetools::BoundedSet<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of BoundedSet and UnboundedSet of u8", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn LowerBoundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of LowerBoundedSet and Range of u8", true, false, union, rangetools::LowerBoundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of LowerBoundedSet and Range of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "union of LowerBoundedSet and RangeInclusive of u8", true, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of LowerBoundedSet and RangeInclusive of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of LowerBoundedSet and RangeFrom of u8", true, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of LowerBoundedSet and RangeFrom of u8", true, false, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of LowerBoundedSet and RangeTo of u8", false, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of LowerBoundedSet and RangeTo of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of LowerBoundedSet and RangeToInclusive of u8", false, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of LowerBoundedSet and RangeToInclusive of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of LowerBoundedSet and RangeFull of u8", false, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of LowerBoundedSet and RangeFull of u8", true, false, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "union of LowerBoundedSet and BoundedRange of u8", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of LowerBoundedSet and BoundedRange of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of LowerBoundedSet and LowerBoundedRange of u8", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of LowerBoundedSet and LowerBoundedRange of u8", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of LowerBoundedSet and UpperBoundedRange of u8", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of LowerBoundedSet and UpperBoundedRange of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of LowerBoundedSet and UnboundedRange of u8", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of LowerBoundedSet and UnboundedRange of u8", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of LowerBoundedSet and EmptyRange of u8", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of LowerBoundedSet and EmptyRange of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of LowerBoundedSet and BoundedSet of u8", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedSet and BoundedSet of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of LowerBoundedSet and LowerBoundedSet of u8", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedSet and LowerBoundedSet of u8", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of LowerBoundedSet and UpperBoundedSet of u8", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedSet and UpperBoundedSet of u8", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of LowerBoundedSet and UnboundedSet of u8", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of LowerBoundedSet and UnboundedSet of u8", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn UpperBoundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of UpperBoundedSet and Range of u8", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of UpperBoundedSet and Range of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "union of UpperBoundedSet and RangeInclusive of u8", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of UpperBoundedSet and RangeInclusive of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of UpperBoundedSet and RangeFrom of u8", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of UpperBoundedSet and RangeFrom of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of UpperBoundedSet and RangeTo of u8", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of UpperBoundedSet and RangeTo of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of UpperBoundedSet and RangeToInclusive of u8", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of UpperBoundedSet and RangeToInclusive of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of UpperBoundedSet and RangeFull of u8", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of UpperBoundedSet and RangeFull of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "union of UpperBoundedSet and BoundedRange of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of UpperBoundedSet and BoundedRange of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of UpperBoundedSet and LowerBoundedRange of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of UpperBoundedSet and LowerBoundedRange of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of UpperBoundedSet and UpperBoundedRange of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of UpperBoundedSet and UpperBoundedRange of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of UpperBoundedSet and UnboundedRange of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of UpperBoundedSet and UnboundedRange of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of UpperBoundedSet and EmptyRange of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of UpperBoundedSet and EmptyRange of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of UpperBoundedSet and BoundedSet of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedSet and BoundedSet of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of UpperBoundedSet and LowerBoundedSet of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedSet and LowerBoundedSet of u8", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of UpperBoundedSet and UpperBoundedSet of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedSet and UpperBoundedSet of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of UpperBoundedSet and UnboundedSet of u8", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of UpperBoundedSet and UnboundedSet of u8", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UnboundedSet<T>, u8);
    }
    pub fn UnboundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of UnboundedSet and Range of u8", false, false, union, rangetools::UnboundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "intersection of UnboundedSet and Range of u8", true, true, intersection, rangetools::UnboundedSet<T>, std::ops::Range<T>, u8);
        look!(v, "union of UnboundedSet and RangeInclusive of u8", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "intersection of UnboundedSet and RangeInclusive of u8", true, true, intersection, rangetools::UnboundedSet<T>, std::ops::RangeInclusive<T>, u8);
        look!(v, "union of UnboundedSet and RangeFrom of u8", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "intersection of UnboundedSet and RangeFrom of u8", true, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeFrom<T>, u8);
        look!(v, "union of UnboundedSet and RangeTo of u8", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "intersection of UnboundedSet and RangeTo of u8", false, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeTo<T>, u8);
        look!(v, "union of UnboundedSet and RangeToInclusive of u8", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "intersection of UnboundedSet and RangeToInclusive of u8", false, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeToInclusive<T>, u8);
        look!(v, "union of UnboundedSet and RangeFull of u8", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "intersection of UnboundedSet and RangeFull of u8", false, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeFull, u8);
        look!(v, "union of UnboundedSet and BoundedRange of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "intersection of UnboundedSet and BoundedRange of u8", true, true, intersection, rangetools::UnboundedSet<T>, rangetools::BoundedRange<T>, u8);
        look!(v, "union of UnboundedSet and LowerBoundedRange of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "intersection of UnboundedSet and LowerBoundedRange of u8", true, false, intersection, rangetools::UnboundedSet<T>, rangetools::LowerBoundedRange<T>, u8);
        look!(v, "union of UnboundedSet and UpperBoundedRange of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "intersection of UnboundedSet and UpperBoundedRange of u8", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UpperBoundedRange<T>, u8);
        look!(v, "union of UnboundedSet and UnboundedRange of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "intersection of UnboundedSet and UnboundedRange of u8", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UnboundedRange, u8);
        look!(v, "union of UnboundedSet and EmptyRange of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "intersection of UnboundedSet and EmptyRange of u8", true, true, intersection, rangetools::UnboundedSet<T>, rangetools::EmptyRange<T>, u8);
        look!(v, "union of UnboundedSet and BoundedSet of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "intersection of UnboundedSet and BoundedSet of u8", true, true, intersection, rangetools::UnboundedSet<T>, rangetools::BoundedSet<T>, u8);
        look!(v, "union of UnboundedSet and LowerBoundedSet of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "intersection of UnboundedSet and LowerBoundedSet of u8", true, false, intersection, rangetools::UnboundedSet<T>, rangetools::LowerBoundedSet<T>, u8);
        look!(v, "union of UnboundedSet and UpperBoundedSet of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "intersection of UnboundedSet and UpperBoundedSet of u8", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UpperBoundedSet<T>, u8);
        look!(v, "union of UnboundedSet and UnboundedSet of u8", false, false, union, rangetools::UnboundedSet<T>, rangetools::UnboundedSet<T>, u8);
        look!(v, "intersection of UnboundedSet and UnboundedSet of u8", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UnboundedSet<T>, u8);
    }
}

mod on_User {
    use super::*;
    type T = User;
    pub fn unary(v: &mut Vec<Flag>) {
        look1!(v, "complement of Range of User", false, false, std::ops::Range<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of RangeInclusive of User", false, false, std::ops::RangeInclusive<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of RangeFrom of User", false, false, std::ops::RangeFrom<T>, rangetools::UpperBoundedRange<T>, T);
        look1!(v, "complement of RangeTo of User", true, false, std::ops::RangeTo<T>, rangetools::LowerBoundedRange<T>, T);
        look1!(v, "complement of RangeToInclusive of User", true, false, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedRange<T>, T);
        look1!(v, "complement of RangeFull of User", true, true, std::ops::RangeFull, rangetools::EmptyRange<T>, T);
        look1!(v, "complement of BoundedRange of User", false, false, rangetools::BoundedRange<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of LowerBoundedRange of User", false, false, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedRange<T>, T);
        look1!(v, "complement of UpperBoundedRange of User", true, false, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedRange<T>, T);
        look1!(v, "complement of UnboundedRange of User", true, true, rangetools::UnboundedRange, rangetools::EmptyRange<T>, T);
        look1!(v, "complement of EmptyRange of User", false, false, rangetools::EmptyRange<T>, rangetools::UnboundedRange, T);
        look1!(v, "complement of BoundedSet of User", false, false, rangetools::BoundedSet<T>, rangetools::UnboundedSet<T>, T);
        look1!(v, "complement of LowerBoundedSet of User", false, false, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedSet<T>, T);
        look1!(v, "complement of UpperBoundedSet of User", true, false, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedSet<T>, T);
        look1!(v, "complement of UnboundedSet of User", true, true, rangetools::UnboundedSet<T>, rangetools::BoundedSet<T>, T);
    }
    pub fn Range(v: &mut Vec<Flag>) {
        look!(v, "union of Range and Range of User", true, true, union, std::ops::Range<T>, std::ops::Range<T>, User);
        look!(v, "intersection of Range and Range of User", true, true, intersection, std::ops::Range<T>, std::ops::Range<T>, User);
        look!(v, "union of Range and RangeInclusive of User", true, true, union, std::ops::Range<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of Range and RangeInclusive of User", true, true, intersection, std::ops::Range<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of Range and RangeFrom of User", true, false, union, std::ops::Range<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of Range and RangeFrom of User", true, true, intersection, std::ops::Range<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of Range and RangeTo of User", false, false, union, std::ops::Range<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of Range and RangeTo of User", true, true, intersection, std::ops::Range<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of Range and RangeToInclusive of User", false, false, union, std::ops::Range<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of Range and RangeToInclusive of User", true, true, intersection, std::ops::Range<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of Range and RangeFull of User", false, false, union, std::ops::Range<T>, std::ops::RangeFull, User);
        look!(v, "intersection of Range and RangeFull of User", true, true, intersection, std::ops::Range<T>, std::ops::RangeFull, User);
        look!(v, "union of Range and BoundedRange of User", true, true, union, std::ops::Range<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of Range and BoundedRange of User", true, true, intersection, std::ops::Range<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of Range and LowerBoundedRange of User", true, false, union, std::ops::Range<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of Range and LowerBoundedRange of User", true, true, intersection, std::ops::Range<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of Range and UpperBoundedRange of User", false, false, union, std::ops::Range<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of Range and UpperBoundedRange of User", true, true, intersection, std::ops::Range<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of Range and UnboundedRange of User", false, false, union, std::ops::Range<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of Range and UnboundedRange of User", true, true, intersection, std::ops::Range<T>, rangetools::UnboundedRange, User);
        look!(v, "union of Range and EmptyRange of User", true, true, union, std::ops::Range<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of Range and EmptyRange of User", true, true, intersection, std::ops::Range<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of Range and BoundedSet of User", true, true, union, std::ops::Range<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of Range and BoundedSet of User", true, true, intersection, std::ops::Range<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of Range and LowerBoundedSet of User", true, false, union, std::ops::Range<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of Range and LowerBoundedSet of User", true, true, intersection, std::ops::Range<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of Range and UpperBoundedSet of User", false, false, union, std::ops::Range<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of Range and UpperBoundedSet of User", true, true, intersection, std::ops::Range<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of Range and UnboundedSet of User", false, false, union, std::ops::Range<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of Range and UnboundedSet of User", true, true, intersection, std::ops::Range<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn RangeInclusive(v: &mut Vec<Flag>) {
        look!(v, "union of RangeInclusive and Range of User", true, true, union, std::ops::RangeInclusive<T>, std::ops::Range<T>, User);
        look!(v, "intersection of RangeInclusive and Range of User", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::Range<T>, User);
        look!(v, "union of RangeInclusive and RangeInclusive of User", true, true, union, std::ops::RangeInclusive<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of RangeInclusive and RangeInclusive of User", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of RangeInclusive and RangeFrom of User", true, false, union, std::ops::RangeInclusive<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of RangeInclusive and RangeFrom of User", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of RangeInclusive and RangeTo of User", false, false, union, std::ops::RangeInclusive<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of RangeInclusive and RangeTo of User", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of RangeInclusive and RangeToInclusive of User", false, false, union, std::ops::RangeInclusive<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of RangeInclusive and RangeToInclusive of User", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of RangeInclusive and RangeFull of User", false, false, union, std::ops::RangeInclusive<T>, std::ops::RangeFull, User);
        look!(v, "intersection of RangeInclusive and RangeFull of User", true, true, intersection, std::ops::RangeInclusive<T>, std::ops::RangeFull, User);
        look!(v, "union of RangeInclusive and BoundedRange of User", true, true, union, std::ops::RangeInclusive<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of RangeInclusive and BoundedRange of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of RangeInclusive and LowerBoundedRange of User", true, false, union, std::ops::RangeInclusive<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of RangeInclusive and LowerBoundedRange of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of RangeInclusive and UpperBoundedRange of User", false, false, union, std::ops::RangeInclusive<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of RangeInclusive and UpperBoundedRange of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of RangeInclusive and UnboundedRange of User", false, false, union, std::ops::RangeInclusive<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of RangeInclusive and UnboundedRange of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UnboundedRange, User);
        look!(v, "union of RangeInclusive and EmptyRange of User", true, true, union, std::ops::RangeInclusive<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of RangeInclusive and EmptyRange of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of RangeInclusive and BoundedSet of User", true, true, union, std::ops::RangeInclusive<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of RangeInclusive and BoundedSet of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of RangeInclusive and LowerBoundedSet of User", true, false, union, std::ops::RangeInclusive<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of RangeInclusive and LowerBoundedSet of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of RangeInclusive and UpperBoundedSet of User", false, false, union, std::ops::RangeInclusive<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of RangeInclusive and UpperBoundedSet of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of RangeInclusive and UnboundedSet of User", false, false, union, std::ops::RangeInclusive<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of RangeInclusive and UnboundedSet of User", true, true, intersection, std::ops::RangeInclusive<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn RangeFrom(v: &mut Vec<Flag>) {
        look!(v, "union of RangeFrom and Range of User", true, false, union, std::ops::RangeFrom<T>, std::ops::Range<T>, User);
        look!(v, "intersection of RangeFrom and Range of User", true, true, intersection, std::ops::RangeFrom<T>, std::ops::Range<T>, User);
        look!(v, "union of RangeFrom and RangeInclusive of User", true, false, union, std::ops::RangeFrom<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of RangeFrom and RangeInclusive of User", true, true, intersection, std::ops::RangeFrom<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of RangeFrom and RangeFrom of User", true, false, union, std::ops::RangeFrom<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of RangeFrom and RangeFrom of User", true, false, intersection, std::ops::RangeFrom<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of RangeFrom and RangeTo of User", false, false, union, std::ops::RangeFrom<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of RangeFrom and RangeTo of User", true, true, intersection, std::ops::RangeFrom<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of RangeFrom and RangeToInclusive of User", false, false, union, std::ops::RangeFrom<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of RangeFrom and RangeToInclusive of User", true, true, intersection, std::ops::RangeFrom<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of RangeFrom and RangeFull of User", false, false, union, std::ops::RangeFrom<T>, std::ops::RangeFull, User);
        look!(v, "intersection of RangeFrom and RangeFull of User", true, false, intersection, std::ops::RangeFrom<T>, std::ops::RangeFull, User);
        look!(v, "union of RangeFrom and BoundedRange of User", true, false, union, std::ops::RangeFrom<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of RangeFrom and BoundedRange of User", true, true, intersection, std::ops::RangeFrom<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of RangeFrom and LowerBoundedRange of User", true, false, union, std::ops::RangeFrom<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of RangeFrom and LowerBoundedRange of User", true, false, intersection, std::ops::RangeFrom<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of RangeFrom and UpperBoundedRange of User", false, false, union, std::ops::RangeFrom<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of RangeFrom and UpperBoundedRange of User", true, true, intersection, std::ops::RangeFrom<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of RangeFrom and UnboundedRange of User", false, false, union, std::ops::RangeFrom<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of RangeFrom and UnboundedRange of User", true, false, intersection, std::ops::RangeFrom<T>, rangetools::UnboundedRange, User);
        look!(v, "union of RangeFrom and EmptyRange of User", true, false, union, std::ops::RangeFrom<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of RangeFrom and EmptyRange of User", true, true, intersection, std::ops::RangeFrom<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of RangeFrom and BoundedSet of User", true, false, union, std::ops::RangeFrom<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of RangeFrom and BoundedSet of User", true, true, intersection, std::ops::RangeFrom<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of RangeFrom and LowerBoundedSet of User", true, false, union, std::ops::RangeFrom<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of RangeFrom and LowerBoundedSet of User", true, false, intersection, std::ops::RangeFrom<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of RangeFrom and UpperBoundedSet of User", false, false, union, std::ops::RangeFrom<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of RangeFrom and UpperBoundedSet of User", true, true, intersection, std::ops::RangeFrom<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of RangeFrom and UnboundedSet of User", false, false, union, std::ops::RangeFrom<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of RangeFrom and UnboundedSet of User", true, false, intersection, std::ops::RangeFrom<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn RangeTo(v: &mut Vec<Flag>) {
        look!(v, "union of RangeTo and Range of User", false, false, union, std::ops::RangeTo<T>, std::ops::Range<T>, User);
        look!(v, "intersection of RangeTo and Range of User", true, true, intersection, std::ops::RangeTo<T>, std::ops::Range<T>, User);
        look!(v, "union of RangeTo and RangeInclusive of User", false, false, union, std::ops::RangeTo<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of RangeTo and RangeInclusive of User", true, true, intersection, std::ops::RangeTo<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of RangeTo and RangeFrom of User", false, false, union, std::ops::RangeTo<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of RangeTo and RangeFrom of User", true, true, intersection, std::ops::RangeTo<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of RangeTo and RangeTo of User", false, false, union, std::ops::RangeTo<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of RangeTo and RangeTo of User", false, false, intersection, std::ops::RangeTo<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of RangeTo and RangeToInclusive of User", false, false, union, std::ops::RangeTo<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of RangeTo and RangeToInclusive of User", false, false, intersection, std::ops::RangeTo<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of RangeTo and RangeFull of User", false, false, union, std::ops::RangeTo<T>, std::ops::RangeFull, User);
        look!(v, "intersection of RangeTo and RangeFull of User", false, false, intersection, std::ops::RangeTo<T>, std::ops::RangeFull, User);
        look!(v, "union of RangeTo and BoundedRange of User", false, false, union, std::ops::RangeTo<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of RangeTo and BoundedRange of User", true, true, intersection, std::ops::RangeTo<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of RangeTo and LowerBoundedRange of User", false, false, union, std::ops::RangeTo<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of RangeTo and LowerBoundedRange of User", true, true, intersection, std::ops::RangeTo<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of RangeTo and UpperBoundedRange of User", false, false, union, std::ops::RangeTo<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of RangeTo and UpperBoundedRange of User", false, false, intersection, std::ops::RangeTo<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of RangeTo and UnboundedRange of User", false, false, union, std::ops::RangeTo<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of RangeTo and UnboundedRange of User", false, false, intersection, std::ops::RangeTo<T>, rangetools::UnboundedRange, User);
        look!(v, "union of RangeTo and EmptyRange of User", false, false, union, std::ops::RangeTo<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of RangeTo and EmptyRange of User", true, true, intersection, std::ops::RangeTo<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of RangeTo and BoundedSet of User", false, false, union, std::ops::RangeTo<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of RangeTo and BoundedSet of User", true, true, intersection, std::ops::RangeTo<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of RangeTo and LowerBoundedSet of User", false, false, union, std::ops::RangeTo<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of RangeTo and LowerBoundedSet of User", true, true, intersection, std::ops::RangeTo<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of RangeTo and UpperBoundedSet of User", false, false, union, std::ops::RangeTo<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of RangeTo and UpperBoundedSet of User", false, false, intersection, std::ops::RangeTo<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of RangeTo and UnboundedSet of User", false, false, union, std::ops::RangeTo<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of RangeTo and UnboundedSet of User", false, false, intersection, std::ops::RangeTo<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn RangeToInclusive(v: &mut Vec<Flag>) {
        look!(v, "union of RangeToInclusive and Range of User", false, false, union, std::ops::RangeToInclusive<T>, std::ops::Range<T>, User);
        look!(v, "intersection of RangeToInclusive and Range of User", true, true, intersection, std::ops::RangeToInclusive<T>, std::ops::Range<T>, User);
        look!(v, "union of RangeToInclusive and RangeInclusive of User", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of RangeToInclusive and RangeInclusive of User", true, true, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of RangeToInclusive and RangeFrom of User", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of RangeToInclusive and RangeFrom of User", true, true, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of RangeToInclusive and RangeTo of User", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of RangeToInclusive and RangeTo of User", false, false, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of RangeToInclusive and RangeToInclusive of User", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of RangeToInclusive and RangeToInclusive of User", false, false, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of RangeToInclusive and RangeFull of User", false, false, union, std::ops::RangeToInclusive<T>, std::ops::RangeFull, User);
        look!(v, "intersection of RangeToInclusive and RangeFull of User", false, false, intersection, std::ops::RangeToInclusive<T>, std::ops::RangeFull, User);
        look!(v, "union of RangeToInclusive and BoundedRange of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of RangeToInclusive and BoundedRange of User", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of RangeToInclusive and LowerBoundedRange of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of RangeToInclusive and LowerBoundedRange of User", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of RangeToInclusive and UpperBoundedRange of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of RangeToInclusive and UpperBoundedRange of User", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of RangeToInclusive and UnboundedRange of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of RangeToInclusive and UnboundedRange of User", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UnboundedRange, User);
        look!(v, "union of RangeToInclusive and EmptyRange of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of RangeToInclusive and EmptyRange of User", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of RangeToInclusive and BoundedSet of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of RangeToInclusive and BoundedSet of User", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of RangeToInclusive and LowerBoundedSet of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of RangeToInclusive and LowerBoundedSet of User", true, true, intersection, std::ops::RangeToInclusive<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of RangeToInclusive and UpperBoundedSet of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of RangeToInclusive and UpperBoundedSet of User", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of RangeToInclusive and UnboundedSet of User", false, false, union, std::ops::RangeToInclusive<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of RangeToInclusive and UnboundedSet of User", false, false, intersection, std::ops::RangeToInclusive<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn RangeFull(v: &mut Vec<Flag>) {
        look!(v, "union of RangeFull and Range of User", false, false, union, std::ops::RangeFull, std::ops::Range<T>, User);
        look!(v, "intersection of RangeFull and Range of User", true, true, intersection, std::ops::RangeFull, std::ops::Range<T>, User);
        look!(v, "union of RangeFull and RangeInclusive of User", false, false, union, std::ops::RangeFull, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of RangeFull and RangeInclusive of User", true, true, intersection, std::ops::RangeFull, std::ops::RangeInclusive<T>, User);
        look!(v, "union of RangeFull and RangeFrom of User", false, false, union, std::ops::RangeFull, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of RangeFull and RangeFrom of User", true, false, intersection, std::ops::RangeFull, std::ops::RangeFrom<T>, User);
        look!(v, "union of RangeFull and RangeTo of User", false, false, union, std::ops::RangeFull, std::ops::RangeTo<T>, User);
        look!(v, "intersection of RangeFull and RangeTo of User", false, false, intersection, std::ops::RangeFull, std::ops::RangeTo<T>, User);
        look!(v, "union of RangeFull and RangeToInclusive of User", false, false, union, std::ops::RangeFull, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of RangeFull and RangeToInclusive of User", false, false, intersection, std::ops::RangeFull, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of RangeFull and RangeFull of User", false, false, union, std::ops::RangeFull, std::ops::RangeFull, User);
        look!(v, "intersection of RangeFull and RangeFull of User", false, false, intersection, std::ops::RangeFull, std::ops::RangeFull, User);
        look!(v, "union of RangeFull and BoundedRange of User", false, false, union, std::ops::RangeFull, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of RangeFull and BoundedRange of User", true, true, intersection, std::ops::RangeFull, rangetools::BoundedRange<T>, User);
        look!(v, "union of RangeFull and LowerBoundedRange of User", false, false, union, std::ops::RangeFull, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of RangeFull and LowerBoundedRange of User", true, false, intersection, std::ops::RangeFull, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of RangeFull and UpperBoundedRange of User", false, false, union, std::ops::RangeFull, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of RangeFull and UpperBoundedRange of User", false, false, intersection, std::ops::RangeFull, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of RangeFull and UnboundedRange of User", false, false, union, std::ops::RangeFull, rangetools::UnboundedRange, User);
        look!(v, "intersection of RangeFull and UnboundedRange of User", false, false, intersection, std::ops::RangeFull, rangetools::UnboundedRange, User);
        look!(v, "union of RangeFull and EmptyRange of User", false, false, union, std::ops::RangeFull, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of RangeFull and EmptyRange of User", true, true, intersection, std::ops::RangeFull, rangetools::EmptyRange<T>, User);
        look!(v, "union of RangeFull and BoundedSet of User", false, false, union, std::ops::RangeFull, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of RangeFull and BoundedSet of User", true, true, intersection, std::ops::RangeFull, rangetools::BoundedSet<T>, User);
        look!(v, "union of RangeFull and LowerBoundedSet of User", false, false, union, std::ops::RangeFull, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of RangeFull and LowerBoundedSet of User", true, false, intersection, std::ops::RangeFull, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of RangeFull and UpperBoundedSet of User", false, false, union, std::ops::RangeFull, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of RangeFull and UpperBoundedSet of User", false, false, intersection, std::ops::RangeFull, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of RangeFull and UnboundedSet of User", false, false, union, std::ops::RangeFull, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of RangeFull and UnboundedSet of User", false, false, intersection, std::ops::RangeFull, rangetools::UnboundedSet<T>, User);
    }
    pub fn BoundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of BoundedRange and Range of User", true, true, union, rangetools::BoundedRange<T>, std::ops::Range<T>, User);
        look!(v, "intersection of BoundedRange and Range of User", true, true, intersection, rangetools::BoundedRange<T>, std::ops::Range<T>, User);
        look!(v, "union of BoundedRange and RangeInclusive of User", true, true, union, rangetools::BoundedRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of BoundedRange and RangeInclusive of User", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of BoundedRange and RangeFrom of User", true, false, union, rangetools::BoundedRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of BoundedRange and RangeFrom of User", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of BoundedRange and RangeTo of User", false, false, union, rangetools::BoundedRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of BoundedRange and RangeTo of User", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of BoundedRange and RangeToInclusive of User", false, false, union, rangetools::BoundedRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of BoundedRange and RangeToInclusive of User", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of BoundedRange and RangeFull of User", false, false, union, rangetools::BoundedRange<T>, std::ops::RangeFull, User);
        look!(v, "intersection of BoundedRange and RangeFull of User", true, true, intersection, rangetools::BoundedRange<T>, std::ops::RangeFull, User);
        look!(v, "union of BoundedRange and BoundedRange of User", true, true, union, rangetools::BoundedRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of BoundedRange and BoundedRange of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of BoundedRange and LowerBoundedRange of User", true, false, union, rangetools::BoundedRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of BoundedRange and LowerBoundedRange of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of BoundedRange and UpperBoundedRange of User", false, false, union, rangetools::BoundedRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of BoundedRange and UpperBoundedRange of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of BoundedRange and UnboundedRange of User", false, false, union, rangetools::BoundedRange<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of BoundedRange and UnboundedRange of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UnboundedRange, User);
        look!(v, "union of BoundedRange and EmptyRange of User", true, true, union, rangetools::BoundedRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of BoundedRange and EmptyRange of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of BoundedRange and BoundedSet of User", true, true, union, rangetools::BoundedRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of BoundedRange and BoundedSet of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of BoundedRange and LowerBoundedSet of User", true, false, union, rangetools::BoundedRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of BoundedRange and LowerBoundedSet of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of BoundedRange and UpperBoundedSet of User", false, false, union, rangetools::BoundedRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of BoundedRange and UpperBoundedSet of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of BoundedRange and UnboundedSet of User", false, false, union, rangetools::BoundedRange<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of BoundedRange and UnboundedSet of User", true, true, intersection, rangetools::BoundedRange<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn LowerBoundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of LowerBoundedRange and Range of User", true, false, union, rangetools::LowerBoundedRange<T>, std::ops::Range<T>, User);
        look!(v, "intersection of LowerBoundedRange and Range of User", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::Range<T>, User);
        look!(v, "union of LowerBoundedRange and RangeInclusive of User", true, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of LowerBoundedRange and RangeInclusive of User", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of LowerBoundedRange and RangeFrom of User", true, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of LowerBoundedRange and RangeFrom of User", true, false, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of LowerBoundedRange and RangeTo of User", false, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of LowerBoundedRange and RangeTo of User", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of LowerBoundedRange and RangeToInclusive of User", false, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of LowerBoundedRange and RangeToInclusive of User", true, true, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of LowerBoundedRange and RangeFull of User", false, false, union, rangetools::LowerBoundedRange<T>, std::ops::RangeFull, User);
        look!(v, "intersection of LowerBoundedRange and RangeFull of User", true, false, intersection, rangetools::LowerBoundedRange<T>, std::ops::RangeFull, User);
        look!(v, "union of LowerBoundedRange and BoundedRange of User", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of LowerBoundedRange and BoundedRange of User", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of LowerBoundedRange and LowerBoundedRange of User", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of LowerBoundedRange and LowerBoundedRange of User", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of LowerBoundedRange and UpperBoundedRange of User", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of LowerBoundedRange and UpperBoundedRange of User", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of LowerBoundedRange and UnboundedRange of User", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of LowerBoundedRange and UnboundedRange of User", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::UnboundedRange, User);
        look!(v, "union of LowerBoundedRange and EmptyRange of User", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of LowerBoundedRange and EmptyRange of User", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of LowerBoundedRange and BoundedSet of User", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of LowerBoundedRange and BoundedSet of User", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of LowerBoundedRange and LowerBoundedSet of User", true, false, union, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of LowerBoundedRange and LowerBoundedSet of User", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of LowerBoundedRange and UpperBoundedSet of User", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of LowerBoundedRange and UpperBoundedSet of User", true, true, intersection, rangetools::LowerBoundedRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of LowerBoundedRange and UnboundedSet of User", false, false, union, rangetools::LowerBoundedRange<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of LowerBoundedRange and UnboundedSet of User", true, false, intersection, rangetools::LowerBoundedRange<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn UpperBoundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of UpperBoundedRange and Range of User", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::Range<T>, User);
        look!(v, "intersection of UpperBoundedRange and Range of User", true, true, intersection, rangetools::UpperBoundedRange<T>, std::ops::Range<T>, User);
        look!(v, "union of UpperBoundedRange and RangeInclusive of User", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of UpperBoundedRange and RangeInclusive of User", true, true, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of UpperBoundedRange and RangeFrom of User", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of UpperBoundedRange and RangeFrom of User", true, true, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of UpperBoundedRange and RangeTo of User", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of UpperBoundedRange and RangeTo of User", false, false, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of UpperBoundedRange and RangeToInclusive of User", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of UpperBoundedRange and RangeToInclusive of User", false, false, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of UpperBoundedRange and RangeFull of User", false, false, union, rangetools::UpperBoundedRange<T>, std::ops::RangeFull, User);
        look!(v, "intersection of UpperBoundedRange and RangeFull of User", false, false, intersection, rangetools::UpperBoundedRange<T>, std::ops::RangeFull, User);
        look!(v, "union of UpperBoundedRange and BoundedRange of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of UpperBoundedRange and BoundedRange of User", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of UpperBoundedRange and LowerBoundedRange of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of UpperBoundedRange and LowerBoundedRange of User", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of UpperBoundedRange and UpperBoundedRange of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of UpperBoundedRange and UpperBoundedRange of User", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of UpperBoundedRange and UnboundedRange of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of UpperBoundedRange and UnboundedRange of User", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UnboundedRange, User);
        look!(v, "union of UpperBoundedRange and EmptyRange of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of UpperBoundedRange and EmptyRange of User", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of UpperBoundedRange and BoundedSet of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of UpperBoundedRange and BoundedSet of User", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of UpperBoundedRange and LowerBoundedSet of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of UpperBoundedRange and LowerBoundedSet of User", true, true, intersection, rangetools::UpperBoundedRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of UpperBoundedRange and UpperBoundedSet of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of UpperBoundedRange and UpperBoundedSet of User", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of UpperBoundedRange and UnboundedSet of User", false, false, union, rangetools::UpperBoundedRange<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of UpperBoundedRange and UnboundedSet of User", false, false, intersection, rangetools::UpperBoundedRange<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn UnboundedRange(v: &mut Vec<Flag>) {
        look!(v, "union of UnboundedRange and Range of User", false, false, union, rangetools::UnboundedRange, std::ops::Range<T>, User);
        look!(v, "intersection of UnboundedRange and Range of User", true, true, intersection, rangetools::UnboundedRange, std::ops::Range<T>, User);
        look!(v, "union of UnboundedRange and RangeInclusive of User", false, false, union, rangetools::UnboundedRange, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of UnboundedRange and RangeInclusive of User", true, true, intersection, rangetools::UnboundedRange, std::ops::RangeInclusive<T>, User);
        look!(v, "union of UnboundedRange and RangeFrom of User", false, false, union, rangetools::UnboundedRange, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of UnboundedRange and RangeFrom of User", true, false, intersection, rangetools::UnboundedRange, std::ops::RangeFrom<T>, User);
        look!(v, "union of UnboundedRange and RangeTo of User", false, false, union, rangetools::UnboundedRange, std::ops::RangeTo<T>, User);
        look!(v, "intersection of UnboundedRange and RangeTo of User", false, false, intersection, rangetools::UnboundedRange, std::ops::RangeTo<T>, User);
        look!(v, "union of UnboundedRange and RangeToInclusive of User", false, false, union, rangetools::UnboundedRange, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of UnboundedRange and RangeToInclusive of User", false, false, intersection, rangetools::UnboundedRange, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of UnboundedRange and RangeFull of User", false, false, union, rangetools::UnboundedRange, std::ops::RangeFull, User);
        look!(v, "intersection of UnboundedRange and RangeFull of User", false, false, intersection, rangetools::UnboundedRange, std::ops::RangeFull, User);
        look!(v, "union of UnboundedRange and BoundedRange of User", false, false, union, rangetools::UnboundedRange, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of UnboundedRange and BoundedRange of User", true, true, intersection, rangetools::UnboundedRange, rangetools::BoundedRange<T>, User);
        look!(v, "union of UnboundedRange and LowerBoundedRange of User", false, false, union, rangetools::UnboundedRange, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of UnboundedRange and LowerBoundedRange of User", true, false, intersection, rangetools::UnboundedRange, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of UnboundedRange and UpperBoundedRange of User", false, false, union, rangetools::UnboundedRange, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of UnboundedRange and UpperBoundedRange of User", false, false, intersection, rangetools::UnboundedRange, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of UnboundedRange and UnboundedRange of User", false, false, union, rangetools::UnboundedRange, rangetools::UnboundedRange, User);
        look!(v, "intersection of UnboundedRange and UnboundedRange of User", false, false, intersection, rangetools::UnboundedRange, rangetools::UnboundedRange, User);
        look!(v, "union of UnboundedRange and EmptyRange of User", false, false, union, rangetools::UnboundedRange, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of UnboundedRange and EmptyRange of User", true, true, intersection, rangetools::UnboundedRange, rangetools::EmptyRange<T>, User);
        look!(v, "union of UnboundedRange and BoundedSet of User", false, false, union, rangetools::UnboundedRange, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of UnboundedRange and BoundedSet of User", true, true, intersection, rangetools::UnboundedRange, rangetools::BoundedSet<T>, User);
        look!(v, "union of UnboundedRange and LowerBoundedSet of User", false, false, union, rangetools::UnboundedRange, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of UnboundedRange and LowerBoundedSet of User", true, false, intersection, rangetools::UnboundedRange, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of UnboundedRange and UpperBoundedSet of User", false, false, union, rangetools::UnboundedRange, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of UnboundedRange and UpperBoundedSet of User", false, false, intersection, rangetools::UnboundedRange, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of UnboundedRange and UnboundedSet of User", false, false, union, rangetools::UnboundedRange, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of UnboundedRange and UnboundedSet of User", false, false, intersection, rangetools::UnboundedRange, rangetools::UnboundedSet<T>, User);
    }
    pub fn EmptyRange(v: &mut Vec<Flag>) {
        look!(v, "union of EmptyRange and Range of User", true, true, union, rangetools::EmptyRange<T>, std::ops::Range<T>, User);
        look!(v, "intersection of EmptyRange and Range of User", true, true, intersection, rangetools::EmptyRange<T>, std::ops::Range<T>, User);
        look!(v, "union of EmptyRange and RangeInclusive of User", true, true, union, rangetools::EmptyRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of EmptyRange and RangeInclusive of User", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of EmptyRange and RangeFrom of User", true, false, union, rangetools::EmptyRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of EmptyRange and RangeFrom of User", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of EmptyRange and RangeTo of User", false, false, union, rangetools::EmptyRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of EmptyRange and RangeTo of User", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of EmptyRange and RangeToInclusive of User", false, false, union, rangetools::EmptyRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of EmptyRange and RangeToInclusive of User", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of EmptyRange and RangeFull of User", false, false, union, rangetools::EmptyRange<T>, std::ops::RangeFull, User);
        look!(v, "intersection of EmptyRange and RangeFull of User", true, true, intersection, rangetools::EmptyRange<T>, std::ops::RangeFull, User);
        look!(v, "union of EmptyRange and BoundedRange of User", true, true, union, rangetools::EmptyRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of EmptyRange and BoundedRange of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of EmptyRange and LowerBoundedRange of User", true, false, union, rangetools::EmptyRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of EmptyRange and LowerBoundedRange of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of EmptyRange and UpperBoundedRange of User", false, false, union, rangetools::EmptyRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of EmptyRange and UpperBoundedRange of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of EmptyRange and UnboundedRange of User", false, false, union, rangetools::EmptyRange<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of EmptyRange and UnboundedRange of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UnboundedRange, User);
        look!(v, "union of EmptyRange and EmptyRange of User", true, true, union, rangetools::EmptyRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of EmptyRange and EmptyRange of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of EmptyRange and BoundedSet of User", true, true, union, rangetools::EmptyRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of EmptyRange and BoundedSet of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of EmptyRange and LowerBoundedSet of User", true, false, union, rangetools::EmptyRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of EmptyRange and LowerBoundedSet of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of EmptyRange and UpperBoundedSet of User", false, false, union, rangetools::EmptyRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of EmptyRange and UpperBoundedSet of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of EmptyRange and UnboundedSet of User", false, false, union, rangetools::EmptyRange<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of EmptyRange and UnboundedSet of User", true, true, intersection, rangetools::EmptyRange<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn BoundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of BoundedSet and Range of User", true, true, union, rangetools::BoundedSet<T>, std::ops::Range<T>, User);
        look!(v, "intersection of BoundedSet and Range of User", true, true, intersection, rangetools::BoundedSet<T>, std::ops::Range<T>, User);
        look!(v, "union of BoundedSet and RangeInclusive of User", true, true, union, rangetools::BoundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of BoundedSet and RangeInclusive of User", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of BoundedSet and RangeFrom of User", true, false, union, rangetools::BoundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of BoundedSet and RangeFrom of User", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of BoundedSet and RangeTo of User", false, false, union, rangetools::BoundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of BoundedSet and RangeTo of User", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of BoundedSet and RangeToInclusive of User", false, false, union, rangetools::BoundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of BoundedSet and RangeToInclusive of User", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of BoundedSet and RangeFull of User", false, false, union, rangetools::BoundedSet<T>, std::ops::RangeFull, User);
        look!(v, "intersection of BoundedSet and RangeFull of User", true, true, intersection, rangetools::BoundedSet<T>, std::ops::RangeFull, User);
        look!(v, "union of BoundedSet and BoundedRange of User", true, true, union, rangetools::BoundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of BoundedSet and BoundedRange of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of BoundedSet and LowerBoundedRange of User", true, false, union, rangetools::BoundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of BoundedSet and LowerBoundedRange of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of BoundedSet and UpperBoundedRange of User", false, false, union, rangetools::BoundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of BoundedSet and UpperBoundedRange of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of BoundedSet and UnboundedRange of User", false, false, union, rangetools::BoundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of BoundedSet and UnboundedRange of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "union of BoundedSet and EmptyRange of User", true, true, union, rangetools::BoundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of BoundedSet and EmptyRange of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of BoundedSet and BoundedSet of User", true, true, union, rangetools::BoundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of BoundedSet and BoundedSet of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of BoundedSet and LowerBoundedSet of User", true, false, union, rangetools::BoundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of BoundedSet and LowerBoundedSet of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of BoundedSet and UpperBoundedSet of User", false, false, union, rangetools::BoundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of BoundedSet and UpperBoundedSet of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of BoundedSet and UnboundedSet of User", false, false, union, rangetools::BoundedSet<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of BoundedSet and UnboundedSet of User", true, true, intersection, rangetools::BoundedSet<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn LowerBoundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of LowerBoundedSet and Range of User", true, false, union, rangetools::LowerBoundedSet<T>, std::ops::Range<T>, User);
        look!(v, "intersection of LowerBoundedSet and Range of User", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::Range<T>, User);
        look!(v, "union of LowerBoundedSet and RangeInclusive of User", true, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of LowerBoundedSet and RangeInclusive of User", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of LowerBoundedSet and RangeFrom of User", true, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of LowerBoundedSet and RangeFrom of User", true, false, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of LowerBoundedSet and RangeTo of User", false, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of LowerBoundedSet and RangeTo of User", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of LowerBoundedSet and RangeToInclusive of User", false, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of LowerBoundedSet and RangeToInclusive of User", true, true, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of LowerBoundedSet and RangeFull of User", false, false, union, rangetools::LowerBoundedSet<T>, std::ops::RangeFull, User);
        look!(v, "intersection of LowerBoundedSet and RangeFull of User", true, false, intersection, rangetools::LowerBoundedSet<T>, std::ops::RangeFull, User);
        look!(v, "union of LowerBoundedSet and BoundedRange of User", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of LowerBoundedSet and BoundedRange of User", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of LowerBoundedSet and LowerBoundedRange of User", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of LowerBoundedSet and LowerBoundedRange of User", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of LowerBoundedSet and UpperBoundedRange of User", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of LowerBoundedSet and UpperBoundedRange of User", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of LowerBoundedSet and UnboundedRange of User", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of LowerBoundedSet and UnboundedRange of User", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "union of LowerBoundedSet and EmptyRange of User", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of LowerBoundedSet and EmptyRange of User", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of LowerBoundedSet and BoundedSet of User", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of LowerBoundedSet and BoundedSet of User", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of LowerBoundedSet and LowerBoundedSet of User", true, false, union, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of LowerBoundedSet and LowerBoundedSet of User", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of LowerBoundedSet and UpperBoundedSet of User", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of LowerBoundedSet and UpperBoundedSet of User", true, true, intersection, rangetools::LowerBoundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of LowerBoundedSet and UnboundedSet of User", false, false, union, rangetools::LowerBoundedSet<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of LowerBoundedSet and UnboundedSet of User", true, false, intersection, rangetools::LowerBoundedSet<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn UpperBoundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of UpperBoundedSet and Range of User", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::Range<T>, User);
        look!(v, "intersection of UpperBoundedSet and Range of User", true, true, intersection, rangetools::UpperBoundedSet<T>, std::ops::Range<T>, User);
        look!(v, "union of UpperBoundedSet and RangeInclusive of User", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of UpperBoundedSet and RangeInclusive of User", true, true, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of UpperBoundedSet and RangeFrom of User", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of UpperBoundedSet and RangeFrom of User", true, true, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of UpperBoundedSet and RangeTo of User", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of UpperBoundedSet and RangeTo of User", false, false, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of UpperBoundedSet and RangeToInclusive of User", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of UpperBoundedSet and RangeToInclusive of User", false, false, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of UpperBoundedSet and RangeFull of User", false, false, union, rangetools::UpperBoundedSet<T>, std::ops::RangeFull, User);
        look!(v, "intersection of UpperBoundedSet and RangeFull of User", false, false, intersection, rangetools::UpperBoundedSet<T>, std::ops::RangeFull, User);
        look!(v, "union of UpperBoundedSet and BoundedRange of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of UpperBoundedSet and BoundedRange of User", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of UpperBoundedSet and LowerBoundedRange of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of UpperBoundedSet and LowerBoundedRange of User", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of UpperBoundedSet and UpperBoundedRange of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of UpperBoundedSet and UpperBoundedRange of User", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of UpperBoundedSet and UnboundedRange of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of UpperBoundedSet and UnboundedRange of User", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "union of UpperBoundedSet and EmptyRange of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of UpperBoundedSet and EmptyRange of User", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of UpperBoundedSet and BoundedSet of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of UpperBoundedSet and BoundedSet of User", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of UpperBoundedSet and LowerBoundedSet of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of UpperBoundedSet and LowerBoundedSet of User", true, true, intersection, rangetools::UpperBoundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of UpperBoundedSet and UpperBoundedSet of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of UpperBoundedSet and UpperBoundedSet of User", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of UpperBoundedSet and UnboundedSet of User", false, false, union, rangetools::UpperBoundedSet<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of UpperBoundedSet and UnboundedSet of User", false, false, intersection, rangetools::UpperBoundedSet<T>, rangetools::UnboundedSet<T>, User);
    }
    pub fn UnboundedSet(v: &mut Vec<Flag>) {
        look!(v, "union of UnboundedSet and Range of User", false, false, union, rangetools::UnboundedSet<T>, std::ops::Range<T>, User);
        look!(v, "intersection of UnboundedSet and Range of User", true, true, intersection, rangetools::UnboundedSet<T>, std::ops::Range<T>, User);
        look!(v, "union of UnboundedSet and RangeInclusive of User", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "intersection of UnboundedSet and RangeInclusive of User", true, true, intersection, rangetools::UnboundedSet<T>, std::ops::RangeInclusive<T>, User);
        look!(v, "union of UnboundedSet and RangeFrom of User", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "intersection of UnboundedSet and RangeFrom of User", true, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeFrom<T>, User);
        look!(v, "union of UnboundedSet and RangeTo of User", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "intersection of UnboundedSet and RangeTo of User", false, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeTo<T>, User);
        look!(v, "union of UnboundedSet and RangeToInclusive of User", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "intersection of UnboundedSet and RangeToInclusive of User", false, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeToInclusive<T>, User);
        look!(v, "union of UnboundedSet and RangeFull of User", false, false, union, rangetools::UnboundedSet<T>, std::ops::RangeFull, User);
        look!(v, "intersection of UnboundedSet and RangeFull of User", false, false, intersection, rangetools::UnboundedSet<T>, std::ops::RangeFull, User);
        look!(v, "union of UnboundedSet and BoundedRange of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "intersection of UnboundedSet and BoundedRange of User", true, true, intersection, rangetools::UnboundedSet<T>, rangetools::BoundedRange<T>, User);
        look!(v, "union of UnboundedSet and LowerBoundedRange of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "intersection of UnboundedSet and LowerBoundedRange of User", true, false, intersection, rangetools::UnboundedSet<T>, rangetools::LowerBoundedRange<T>, User);
        look!(v, "union of UnboundedSet and UpperBoundedRange of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "intersection of UnboundedSet and UpperBoundedRange of User", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UpperBoundedRange<T>, User);
        look!(v, "union of UnboundedSet and UnboundedRange of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "intersection of UnboundedSet and UnboundedRange of User", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UnboundedRange, User);
        look!(v, "union of UnboundedSet and EmptyRange of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "intersection of UnboundedSet and EmptyRange of User", true, true, intersection, rangetools::UnboundedSet<T>, rangetools::EmptyRange<T>, User);
        look!(v, "union of UnboundedSet and BoundedSet of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "intersection of UnboundedSet and BoundedSet of User", true, true, intersection, rangetools::UnboundedSet<T>, rangetools::BoundedSet<T>, User);
        look!(v, "union of UnboundedSet and LowerBoundedSet of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "intersection of UnboundedSet and LowerBoundedSet of User", true, false, intersection, rangetools::UnboundedSet<T>, rangetools::LowerBoundedSet<T>, User);
        look!(v, "union of UnboundedSet and UpperBoundedSet of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "intersection of UnboundedSet and UpperBoundedSet of User", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UpperBoundedSet<T>, User);
        look!(v, "union of UnboundedSet and UnboundedSet of User", false, false, union, rangetools::UnboundedSet<T>, rangetools::UnboundedSet<T>, User);
        look!(v, "intersection of UnboundedSet and UnboundedSet of User", false, false, intersection, rangetools::UnboundedSet<T>, rangetools::UnboundedSet<T>, User);
    }
}

fn main() {
    let mut v: Vec<Flag> = vec![];
    on_u8::unary(&mut v);
    on_u8::Range(&mut v);
    on_u8::RangeInclusive(&mut v);
    on_u8::RangeFrom(&mut v);
    on_u8::RangeTo(&mut v);
    on_u8::RangeToInclusive(&mut v);
    on_u8::RangeFull(&mut v);
    on_u8::BoundedRange(&mut v);
    on_u8::LowerBoundedRange(&mut v);
    on_u8::UpperBoundedRange(&mut v);
    on_u8::UnboundedRange(&mut v);
    on_u8::EmptyRange(&mut v);
    on_u8::BoundedSet(&mut v);
    on_u8::LowerBoundedSet(&mut v);
    on_u8::UpperBoundedSet(&mut v);
    on_u8::UnboundedSet(&mut v);
    on_User::unary(&mut v);
    on_User::Range(&mut v);
    on_User::RangeInclusive(&mut v);
    on_User::RangeFrom(&mut v);
    on_User::RangeTo(&mut v);
    on_User::RangeToInclusive(&mut v);
    on_User::RangeFull(&mut v);
    on_User::BoundedRange(&mut v);
    on_User::LowerBoundedRange(&mut v);
    on_User::UpperBoundedRange(&mut v);
    on_User::UnboundedRange(&mut v);
    on_User::EmptyRange(&mut v);
    on_User::BoundedSet(&mut v);
    on_User::LowerBoundedSet(&mut v);
    on_User::UpperBoundedSet(&mut v);
    on_User::UnboundedSet(&mut v);
    let mut bad = vec![];
    let mut results = std::collections::BTreeSet::new();
    for (name, lb, both, iter, dbl, r) in &v {
        results.insert(*r);
        // std's own ranges only iterate over the element types std knows.
        let std_only = r.starts_with("core::") && name.ends_with(" of User");
        if lb != iter && !(std_only && *lb) {
            bad.push(format!("the {name} (a {r}) is {}iterable although its operand types {} a lower bound", if *iter { "" } else { "not " }, if *lb { "guarantee" } else { "do not guarantee" }));
        } else if *both && !dbl && !std_only && *lb {
            bad.push(format!("the {name} (a {r}) does not iterate from both ends with a known length although both bounds are guaranteed"));
        }
    }
    for b in &bad {
        println!("BAD {b}");
    }
    for (name, _, _, iter, dbl, r) in v.iter().step_by(97) {
        println!("SAMPLE {name}: {r}, iterates: {iter}, from both ends: {dbl}");
    }
    println!("CHECKED {}", v.len());
    println!("RESULT_TYPES {}", results.len());
    println!("GENERIC 930");
    std::process::exit(if bad.is_empty() { 0 } else { 1 });
}