//! Element types with successors, and their reference model: the ordinal (how many values of the
//! type are smaller), computed without the library.

use rangetools::Step;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Ordinal: Step + Copy + Ord + Debug + Hash + Send + Sync + 'static {
    const NAME: &'static str;
    /// The ordinal of the largest value.
    const TOP: u128;
    fn ord(self) -> u128;
    fn at(o: u128) -> Self;
    /// Ordinals around which arithmetic is delicate.
    fn marks() -> Vec<u128>;
    fn show(self) -> String {
        format!("{self:?}{}", Self::NAME)
    }
}

macro_rules! unsigned {
    ($($t:ident)*) => {$(
        impl Ordinal for $t {
            const NAME: &'static str = stringify!($t);
            const TOP: u128 = $t::MAX as u128;
            fn ord(self) -> u128 { self as u128 }
            fn at(o: u128) -> Self { o as $t }
            fn marks() -> Vec<u128> { int_marks($t::BITS) }
        }
    )*}
}
macro_rules! signed {
    ($($t:ident $u:ident)*) => {$(
        impl Ordinal for $t {
            const NAME: &'static str = stringify!($t);
            const TOP: u128 = $u::MAX as u128;
            fn ord(self) -> u128 { ((self as $u) ^ (1 << ($u::BITS - 1))) as u128 }
            fn at(o: u128) -> Self { ((o as $u) ^ (1 << ($u::BITS - 1))) as $t }
            fn marks() -> Vec<u128> { int_marks($t::BITS) }
        }
    )*}
}
fn int_marks(bits: u32) -> Vec<u128> {
    let top = u128::MAX >> (128 - bits);
    let mut v = vec![0, top / 2, top];
    for b in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
        if b < bits {
            v.push(1u128 << b);
            v.push(top - (1u128 << b));
            // Around zero of the signed types.
            v.push((top / 2).wrapping_add(1u128 << b) & top);
            v.push((top / 2).wrapping_sub(1u128 << b) & top);
        }
    }
    v.sort();
    v.dedup();
    v
}
unsigned!(u8 u16 u32 u64 usize u128);
signed!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize i128 u128);

impl Ordinal for char {
    const NAME: &'static str = "";
    const TOP: u128 = 0x10FFFF - 0x800;
    fn ord(self) -> u128 {
        let c = self as u32 as u128;
        if c >= 0xE000 {
            c - 0x800
        } else {
            c
        }
    }
    fn at(o: u128) -> Self {
        let c = if o >= 0xD800 { o + 0x800 } else { o };
        char::from_u32(c as u32).unwrap()
    }
    fn marks() -> Vec<u128> {
        vec![0, 0x80, 0xD7FF, 0xD800, 0x10000 - 0x800, Self::TOP]
    }
}

/// A user-defined type that implements only the required methods of `Step` (the default `forward`
/// and `backward` are used): ten values, 'a' to 'j', ordered backwards from their code.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Letter(u8);
impl PartialOrd for Letter {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Letter {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Step for Letter {
    fn steps_between(start: &Self, end: &Self) -> Option<usize> {
        (start.0 >= end.0).then(|| (start.0 - end.0) as usize)
    }
    fn forward_checked(start: Self, count: usize) -> Option<Self> {
        (count <= (start.0 - b'a') as usize).then(|| Letter(start.0 - count as u8))
    }
    fn backward_checked(start: Self, count: usize) -> Option<Self> {
        (count <= (b'j' - start.0) as usize).then(|| Letter(start.0 + count as u8))
    }
}
impl Ordinal for Letter {
    const NAME: &'static str = "";
    const TOP: u128 = 9;
    fn ord(self) -> u128 {
        (b'j' - self.0) as u128
    }
    fn at(o: u128) -> Self {
        Letter(b'j' - o as u8)
    }
    fn marks() -> Vec<u128> {
        (0..10).collect()
    }
}

/// Ordinals within `w` of a mark.
pub fn window<T: Ordinal>(w: u128) -> Vec<u128> {
    let mut v = vec![];
    for m in T::marks() {
        for o in m.saturating_sub(w)..=m.saturating_add(w).min(T::TOP) {
            v.push(o);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// The type's smallest, middle-most and largest marks only.
pub fn edges<T: Ordinal>(w: u128) -> Vec<u128> {
    let m = T::marks();
    let mut v = vec![];
    let mid = m.iter().copied().find(|x| *x >= T::TOP / 2).unwrap();
    let mut pick = vec![m[0], mid, T::TOP];
    if T::TOP == char::TOP {
        pick.push(0xD800);
    }
    for m in pick {
        for o in m.saturating_sub(w)..=m.saturating_add(w).min(T::TOP) {
            v.push(o);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Runs `$body` once per element type, with the type alias `$t` in scope.
#[macro_export]
macro_rules! for_types {
    ($t:ident in [$($ty:ty),*] $body:block) => { $({ type $t = $ty; $body })* };
    ($t:ident $body:block) => {
        $crate::for_types!($t in [u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, $crate::ordinal::Letter] $body)
    };
}
