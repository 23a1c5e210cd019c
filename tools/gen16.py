#!/usr/bin/env python3
"""Writes mc16/src/bin/c16.rs: every combination of the fifteen operand types (C16)."""
import os
T = [  # name, type over T, guarantees a lower bound, guarantees an upper bound
    ("Range", "std::ops::Range<T>", 1, 1),
    ("RangeInclusive", "std::ops::RangeInclusive<T>", 1, 1),
    ("RangeFrom", "std::ops::RangeFrom<T>", 1, 0),
    ("RangeTo", "std::ops::RangeTo<T>", 0, 1),
    ("RangeToInclusive", "std::ops::RangeToInclusive<T>", 0, 1),
    ("RangeFull", "std::ops::RangeFull", 0, 0),
    ("BoundedRange", "rangetools::BoundedRange<T>", 1, 1),
    ("LowerBoundedRange", "rangetools::LowerBoundedRange<T>", 1, 0),
    ("UpperBoundedRange", "rangetools::UpperBoundedRange<T>", 0, 1),
    ("UnboundedRange", "rangetools::UnboundedRange", 0, 0),
    ("EmptyRange", "rangetools::EmptyRange<T>", 1, 1),
    ("BoundedSet", "rangetools::BoundedSet<T>", 1, 1),
    ("LowerBoundedSet", "rangetools::LowerBoundedSet<T>", 1, 0),
    ("UpperBoundedSet", "rangetools::UpperBoundedSet<T>", 0, 1),
    ("UnboundedSet", "rangetools::UnboundedSet<T>", 0, 0),
]
# What complement gives (its Output has to be named).
C = {
    "Range": "UnboundedSet<T>", "RangeInclusive": "UnboundedSet<T>", "RangeFrom": "UpperBoundedRange<T>",
    "RangeTo": "LowerBoundedRange<T>", "RangeToInclusive": "LowerBoundedRange<T>", "RangeFull": "EmptyRange<T>",
    "BoundedRange": "UnboundedSet<T>", "LowerBoundedRange": "UpperBoundedRange<T>",
    "UpperBoundedRange": "LowerBoundedRange<T>", "UnboundedRange": "EmptyRange<T>", "EmptyRange": "UnboundedRange",
    "BoundedSet": "UnboundedSet<T>", "LowerBoundedSet": "UpperBoundedSet<T>", "UpperBoundedSet": "LowerBoundedSet<T>",
    "UnboundedSet": "BoundedSet<T>",
}
o = []
w = o.append
w("""//! C16 (generated by tools/gen16.py): every operation on every combination of operand types compiles
//! for any Copy + Ord element type, and the results iterate exactly when the operand types
//! guarantee a lower bound.
#![allow(non_snake_case, dead_code, unused)]
use rangetools::{Rangetools, Step};

/// Which iterator traits a type has, found out by method resolution: the inherent methods apply
/// only when their bounds hold, and otherwise the trait's defaults show through.
struct P<X, E>(std::marker::PhantomData<(X, E)>);
struct D<X, E>(std::marker::PhantomData<(X, E)>);
trait No {
    fn iter(&self) -> bool {
        false
    }
    fn both(&self) -> bool {
        false
    }
}
impl<X, E> No for P<X, E> {}
impl<X, E> No for D<X, E> {}
impl<X: IntoIterator<Item = E>, E> P<X, E> {
    fn iter(&self) -> bool {
        true
    }
}
impl<X: IntoIterator<Item = E>, E> D<X, E>
where
    X::IntoIter: DoubleEndedIterator + ExactSizeIterator,
{
    fn both(&self) -> bool {
        true
    }
}
/// The probes for whatever type the operation returns.
fn probe1<A, R: Rangetools, E>(_: impl Fn(A) -> R) -> (P<R, E>, D<R, E>, &'static str) {
    (P(std::marker::PhantomData), D(std::marker::PhantomData), std::any::type_name::<R>())
}
fn probe2<A, B, R: Rangetools, E>(_: impl Fn(A, B) -> R) -> (P<R, E>, D<R, E>, &'static str) {
    (P(std::marker::PhantomData), D(std::marker::PhantomData), std::any::type_name::<R>())
}

/// A user's element type with successors (only the required methods).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct User(u8);
impl Step for User {
    fn steps_between(a: &Self, b: &Self) -> Option<usize> {
        b.0.checked_sub(a.0).map(usize::from)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        u8::try_from(n).ok().and_then(|n| a.0.checked_add(n)).map(User)
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        u8::try_from(n).ok().and_then(|n| a.0.checked_sub(n)).map(User)
    }
}

macro_rules! look {
    ($v:ident, $name:expr, $lb:expr, $both:expr, $op:ident, $a:ty, $b:ty, $e:ty) => {{
        let (p, d, r) = probe2::<_, _, _, $e>(|a: $a, b: $b| Rangetools::$op(a, b));
        $v.push(($name, $lb, $both, p.iter(), d.both(), r));
    }};
}
macro_rules! look1 {
    ($v:ident, $name:expr, $lb:expr, $both:expr, $a:ty, $res:ty, $e:ty) => {{
        let (p, d, r) = probe1::<_, _, $e>(|a: $a| -> $res { Rangetools::complement(a) });
        $v.push(($name, $lb, $both, p.iter(), d.both(), r));
    }};
}
""")
w("/// Compiles for every Copy + Ord element type, whatever it is.")
w("mod generic {\n    use rangetools::*;\n")
for n, t, lb, ub in T:
    c = C[n]
    w(f"    fn one_{n}<T: Copy + Ord>(a: {t}) {{ let _ = Rangetools::is_empty(&a); let _ = a.clone().to_inner(); let _ = a.clone().to_set(); let _: {c} = Rangetools::complement(a); }}")
for n, t, _, _ in T:
    for m, s, _, _ in T:
        w(f"    fn pair_{n}_{m}<T: Copy + Ord>(a: {t}, b: {s}) {{ let _ = Rangetools::union(a.clone(), b.clone()); let _ = Rangetools::intersection(a.clone(), b.clone()); let _: bool = Rangetools::disjoint(a.clone(), b.clone()); let _: bool = Rangetools::intersects(a, b); }}")
w("}\n")
w("type Flag = (&'static str, bool, bool, bool, bool, &'static str);")
for E in ("u8", "User"):
    w(f"mod on_{E} {{\n    use super::*;\n    type T = {E};")
    w(f"    pub fn unary(v: &mut Vec<Flag>) {{")
    for n, t, lb, ub in T:
        c = C[n]
        cty = ("rangetools::" + c)
        w(f'        look1!(v, "complement of {n} of {E}", {str(lb == 0).lower()}, {str(lb == 0 and ub == 0).lower()}, {t}, {cty}, T);')
    w("    }")
    for n, t, lb, ub in T:
        w(f"    pub fn {n}(v: &mut Vec<Flag>) {{")
        for m, s, lb2, ub2 in T:
            for op, l, u in (("union", lb and lb2, ub and ub2), ("intersection", lb or lb2, ub or ub2)):
                w(f'        look!(v, "{op} of {n} and {m} of {E}", {str(bool(l)).lower()}, {str(bool(l and u)).lower()}, {op}, {t}, {s}, {E});')
        w("    }")
    w("}\n")
w("fn main() {\n    let mut v: Vec<Flag> = vec![];")
for E in ("u8", "User"):
    w(f"    on_{E}::unary(&mut v);")
    for n, *_ in T:
        w(f"    on_{E}::{n}(&mut v);")
w("""    let mut bad = vec![];
    let mut results = std::collections::BTreeSet::new();
    for (name, lb, both, iter, dbl, r) in &v {
        results.insert(*r);
        // std's own ranges only iterate over the element types std knows.
        let std_only = r.starts_with("core::") && name.ends_with(" of User");
        if lb != iter && !(std_only && *lb) {
            bad.push(format!("the {name} (a {r}) is {}iterable although its operand types {} a lower bound", if *iter { "" } else { "not " }, if *lb { "guarantee" } else { "do not guarantee" }));
        } else if *both && !dbl && !std_only && *lb {
            bad.push(format!("the {name} (a {r}) does not iterate from both ends with a known length although both bounds are guaranteed"));
        }
    }
    for b in &bad {
        println!("BAD {b}");
    }
    for (name, _, _, iter, dbl, r) in v.iter().step_by(97) {
        println!("SAMPLE {name}: {r}, iterates: {iter}, from both ends: {dbl}");
    }
    println!("CHECKED {}", v.len());
    println!("RESULT_TYPES {}", results.len());
    println!("GENERIC @GENERIC@");
    std::process::exit(if bad.is_empty() { 0 } else { 1 });
}""")
src = "\n".join(o).replace("@GENERIC@", str(15 * 2 + 15 * 15 * 4))
open(os.path.join(os.path.dirname(__file__), "..", "mc16", "src", "bin", "c16.rs"), "w").write(src)
