//! A value of any of the fifteen operand types, with the operations dispatched to the real,
//! statically typed implementations (all 15x15 pairs).

use rangetools::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

/// An element type: nothing more than the library asks for, plus printing and hashing.
pub trait El: Copy + Ord + Debug + Hash + Send + Sync + 'static {}
impl<T: Copy + Ord + Debug + Hash + Send + Sync + 'static> El for T {}

#[derive(Clone, Debug)]
pub enum Val<T> {
    R(Range<T>),
    I(RangeInclusive<T>),
    F(RangeFrom<T>),
    T(RangeTo<T>),
    TI(RangeToInclusive<T>),
    A(RangeFull),
    BR(BoundedRange<T>),
    LR(LowerBoundedRange<T>),
    UR(UpperBoundedRange<T>),
    AR(UnboundedRange),
    E(EmptyRange<T>),
    BS(BoundedSet<T>),
    LS(LowerBoundedSet<T>),
    US(UpperBoundedSet<T>),
    AS(UnboundedSet<T>),
}
use Val::*;

pub trait IntoVal<T> {
    fn into_val(self) -> Val<T>;
}
macro_rules! into_val {
    ($($v:ident $t:ty),*) => { $(impl<T> IntoVal<T> for $t { fn into_val(self) -> Val<T> { Val::$v(self) } })* }
}
into_val!(R Range<T>, I RangeInclusive<T>, F RangeFrom<T>, T RangeTo<T>, TI RangeToInclusive<T>,
    A RangeFull, BR BoundedRange<T>, LR LowerBoundedRange<T>, UR UpperBoundedRange<T>,
    AR UnboundedRange, E EmptyRange<T>, BS BoundedSet<T>, LS LowerBoundedSet<T>,
    US UpperBoundedSet<T>, AS UnboundedSet<T>);

macro_rules! each {
    ($x:expr, $a:ident => $e:expr) => {
        match $x {
            R($a) => $e,
            I($a) => $e,
            F($a) => $e,
            T($a) => $e,
            TI($a) => $e,
            A($a) => $e,
            BR($a) => $e,
            LR($a) => $e,
            UR($a) => $e,
            AR($a) => $e,
            E($a) => $e,
            BS($a) => $e,
            LS($a) => $e,
            US($a) => $e,
            AS($a) => $e,
        }
    };
}

// The operations consume their operands, as in the library: a value's representation in memory (how
// its pieces lie in their ring buffer) is part of its history, and copying it would lose that.
pub fn union_v<T: El>(x: Val<T>, y: Val<T>) -> Val<T> {
    each!(x, a => each!(y, b => IntoVal::<T>::into_val(Rangetools::union(a, b))))
}
pub fn intersection_v<T: El>(x: Val<T>, y: Val<T>) -> Val<T> {
    each!(x, a => each!(y, b => IntoVal::<T>::into_val(Rangetools::intersection(a, b))))
}
pub fn disjoint_v<T: El>(x: Val<T>, y: Val<T>) -> bool {
    each!(x, a => each!(y, b => Rangetools::disjoint(a, b)))
}
pub fn intersects_v<T: El>(x: Val<T>, y: Val<T>) -> bool {
    each!(x, a => each!(y, b => Rangetools::intersects(a, b)))
}
pub fn complement_v<T: El>(x: Val<T>) -> Val<T> {
    fn e<T>(x: EmptyRange<T>) -> Val<T> {
        E(x)
    }
    fn ar<T>(x: UnboundedRange) -> Val<T> {
        AR(x)
    }
    match x {
        R(a) => AS(Rangetools::complement(a)),
        I(a) => AS(Rangetools::complement(a)),
        F(a) => UR(Rangetools::complement(a)),
        T(a) => LR(Rangetools::complement(a)),
        TI(a) => LR(Rangetools::complement(a)),
        A(a) => e(Rangetools::complement(a)),
        BR(a) => AS(Rangetools::complement(a)),
        LR(a) => UR(Rangetools::complement(a)),
        UR(a) => LR(Rangetools::complement(a)),
        AR(a) => e(Rangetools::complement(a)),
        E(a) => ar(Rangetools::complement(a)),
        BS(a) => AS(Rangetools::complement(a)),
        LS(a) => US(Rangetools::complement(a)),
        US(a) => LS(Rangetools::complement(a)),
        AS(a) => BS(Rangetools::complement(a)),
    }
}
pub fn union<T: El>(x: &Val<T>, y: &Val<T>) -> Val<T> {
    union_v(x.clone(), y.clone())
}
pub fn intersection<T: El>(x: &Val<T>, y: &Val<T>) -> Val<T> {
    intersection_v(x.clone(), y.clone())
}
pub fn disjoint<T: El>(x: &Val<T>, y: &Val<T>) -> bool {
    disjoint_v(x.clone(), y.clone())
}
pub fn intersects<T: El>(x: &Val<T>, y: &Val<T>) -> bool {
    intersects_v(x.clone(), y.clone())
}
pub fn complement<T: El>(x: &Val<T>) -> Val<T> {
    complement_v(x.clone())
}
pub fn is_empty<T: El>(x: &Val<T>) -> bool {
    each!(x, a => Rangetools::is_empty(a))
}
pub fn to_inner<T: El>(x: &Val<T>) -> Val<T> {
    each!(x, a => IntoVal::<T>::into_val(Rangetools::to_inner(a.clone())))
}
pub fn to_set<T: El>(x: &Val<T>) -> Val<T> {
    each!(x, a => IntoVal::<T>::into_val(Rangetools::to_set(a.clone())))
}

impl<T: El> Val<T> {
    #[inline]
    pub fn contains(&self, t: T) -> bool {
        match self {
            R(a) => a.contains(&t),
            I(a) => a.contains(&t),
            F(a) => a.contains(&t),
            T(a) => a.contains(&t),
            TI(a) => a.contains(&t),
            A(_) => true,
            BR(a) => a.contains(t),
            LR(a) => a.contains(t),
            UR(a) => a.contains(t),
            AR(a) => a.contains(t),
            E(a) => a.contains(t),
            BS(a) => a.contains(t),
            LS(a) => a.contains(t),
            US(a) => a.contains(t),
            AS(a) => a.contains(t),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            R(_) => "Range",
            I(_) => "RangeInclusive",
            F(_) => "RangeFrom",
            T(_) => "RangeTo",
            TI(_) => "RangeToInclusive",
            A(_) => "RangeFull",
            BR(_) => "BoundedRange",
            LR(_) => "LowerBoundedRange",
            UR(_) => "UpperBoundedRange",
            AR(_) => "UnboundedRange",
            E(_) => "EmptyRange",
            BS(_) => "BoundedSet",
            LS(_) => "LowerBoundedSet",
            US(_) => "UpperBoundedSet",
            AS(_) => "UnboundedSet",
        }
    }
    pub fn is_set(&self) -> bool {
        matches!(self, BS(_) | LS(_) | US(_) | AS(_))
    }
    /// `Some(==)` when both have the same type.
    pub fn same(&self, o: &Self) -> Option<bool> {
        Some(match (self, o) {
            (R(a), R(b)) => a == b,
            (I(a), I(b)) => a == b,
            (F(a), F(b)) => a == b,
            (T(a), T(b)) => a == b,
            (TI(a), TI(b)) => a == b,
            (A(a), A(b)) => a == b,
            (BR(a), BR(b)) => a == b,
            (LR(a), LR(b)) => a == b,
            (UR(a), UR(b)) => a == b,
            (AR(a), AR(b)) => a == b,
            (E(a), E(b)) => a == b,
            (BS(a), BS(b)) => a == b,
            (LS(a), LS(b)) => a == b,
            (US(a), US(b)) => a == b,
            (AS(a), AS(b)) => a == b,
            _ => return None,
        })
    }
    pub fn hash64(&self) -> u64 {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        each!(self, a => a.hash(&mut h));
        h.finish()
    }
}
