//! C05: entering the library (From std ranges, to_inner, to_set, constructors) keeps the values and
//! the emptiness of the source, including std ranges that have been iterated.

use mc::engine::*;
use mc::for_types;
use mc::ordinal::*;
use mc::val::{self, IntoVal, Val};
use rangetools::*;
use std::ops::{Range, RangeFrom, RangeInclusive};

/// Checks every way of bringing `src` in against membership `has` and emptiness `empty`.
fn check<T: Ordinal>(
    ctx: &mut Ctx,
    desc: &dyn Fn() -> String,
    src: Val<T>,
    empty: bool,
    has: &dyn Fn(u128) -> bool,
    probes: &[u128],
) {
    ctx.case(desc, |c| {
        let mut forms: Vec<(&str, Val<T>)> = vec![
            ("itself", src.clone()),
            ("to_inner", val::to_inner(&src)),
            ("to_set", val::to_set(&src)),
            ("to_inner().to_set", val::to_set(&val::to_inner(&src))),
        ];
        match src.clone() {
            Val::R(r) => forms.push(("BoundedRange::from", BoundedRange::from(r).into_val())),
            Val::I(r) => forms.push(("BoundedRange::from", BoundedRange::from(r).into_val())),
            Val::F(r) => forms.push(("LowerBoundedRange::from", LowerBoundedRange::from(r).into_val())),
            Val::T(r) => forms.push(("UpperBoundedRange::from", UpperBoundedRange::from(r).into_val())),
            Val::TI(r) => forms.push(("UpperBoundedRange::from", UpperBoundedRange::from(r).into_val())),
            Val::A(r) => forms.push(("UnboundedRange::from", UnboundedRange::from(r).into_val())),
            Val::BR(r) => forms.push(("BoundedSet::from", BoundedSet::from(r).into_val())),
            Val::LR(r) => forms.push(("LowerBoundedSet::from", LowerBoundedSet::from(r).into_val())),
            Val::UR(r) => forms.push(("UpperBoundedSet::from", UpperBoundedSet::from(r).into_val())),
            Val::AR(r) => forms.push(("UnboundedSet::from", UnboundedSet::<T>::from(r).into_val())),
            _ => {}
        }
        for (how, v) in &forms {
            c.transitions += 1;
            if val::is_empty(v) != empty {
                return Err(format!("{how}: is_empty is {}; it is {v:?}", !empty));
            }
            for &p in probes {
                if v.contains(T::at(p)) != has(p) {
                    return Err(format!(
                        "{how}: contains({}) is {}; it is {v:?}",
                        T::at(p).show(),
                        !has(p)
                    ));
                }
            }
        }
        Ok(())
    });
}

/// Ways to consume a double-ended iterator from outside the library.
fn consume<I: DoubleEndedIterator>(it: &mut I, front: usize, back: usize) {
    for _ in 0..front {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
}

fn two_sided<T: Ordinal>(ctx: &mut Ctx, a: u128, b: u128, probes: &[u128])
where
    Range<T>: DoubleEndedIterator<Item = T>,
    RangeInclusive<T>: DoubleEndedIterator<Item = T>,
{
    let (x, y) = (T::at(a), T::at(b));
    // How many values to take from the front and from the back before converting.
    let len = if a <= b { (b - a).saturating_add(1) } else { 0 };
    let mut plans: Vec<(usize, usize)> = vec![(0, 0)];
    if len > 0 {
        let m = len.min(4) as usize;
        for f in 0..=m {
            for k in 0..=m {
                plans.push((f, k));
            }
        }
        if len <= 600 {
            let l = len as usize;
            plans.extend([(l, 0), (0, l), (l + 1, 0), (0, l + 1), (l - 1, 1), (1, l - 1), (l - 1, 0), (0, l - 1)]);
        }
    }
    plans.sort();
    plans.dedup();
    for (f, k) in plans {
        for nth in [false, true] {
            if nth && (f == 0 || k > 0) {
                continue;
            }
            let mut r = x..=y;
            if nth {
                r.nth(f - 1);
            } else {
                consume(&mut r, f, k);
            }
            let left: Vec<(u128, u128)> = remaining(a, b, len, f, k);
            let has = |p: u128| left.iter().any(|&(l, h)| l <= p && p <= h);
            let desc = || {
                format!(
                    "{}..={} after {f} {} and {k} next_back",
                    x.show(),
                    y.show(),
                    if nth { "values skipped by nth" } else { "next" }
                )
            };
            check(ctx, &desc, Val::I(r), left.is_empty(), &has, probes);
            if len >= 2 {
                // The same values as a half-open range a..b.
                let mut r = x..y;
                if nth {
                    r.nth(f - 1);
                } else {
                    consume(&mut r, f, k);
                }
                let left = remaining(a, b - 1, len - 1, f, k);
                let has = |p: u128| left.iter().any(|&(l, h)| l <= p && p <= h);
                let desc = || {
                    format!(
                        "{}..{} after {f} {} and {k} next_back",
                        x.show(),
                        y.show(),
                        if nth { "values skipped by nth" } else { "next" }
                    )
                };
                check(ctx, &desc, Val::R(r), left.is_empty(), &has, probes);
            }
        }
    }
    if len < 2 {
        check(ctx, &|| format!("{}..{}", x.show(), y.show()), Val::R(x..y), true, &|_| false, probes);
    }
    if a <= b && len <= 600 {
        let mut r = x..=y;
        r.by_ref().for_each(drop);
        check(ctx, &|| format!("{}..={} exhausted by for_each", x.show(), y.show()), Val::I(r), true, &|_| false, probes);
        let mut r = x..=y;
        r.by_ref().rev().for_each(drop);
        check(ctx, &|| format!("{}..={} exhausted by rev", x.show(), y.show()), Val::I(r), true, &|_| false, probes);
        let mut r = x..=y;
        let _ = r.try_fold(0, |n, _| Ok::<i32, ()>(n + 1));
        check(ctx, &|| format!("{}..={} exhausted by try_fold", x.show(), y.show()), Val::I(r), true, &|_| false, probes);
    }
}

fn remaining(a: u128, b: u128, len: u128, f: usize, k: usize) -> Vec<(u128, u128)> {
    if len > (f + k) as u128 {
        vec![(a + f as u128, b - k as u128)]
    } else {
        vec![]
    }
}

fn order_only<T: Ordinal>(ctx: &mut Ctx, a: u128, b: u128, probes: &[u128]) {
    let (x, y) = (T::at(a), T::at(b));
    // The user's type has no std iteration: fresh ranges only.
    check(ctx, &|| format!("{}..{}", x.show(), y.show()), Val::R(x..y), a >= b, &|p| a <= p && p < b, probes);
    check(ctx, &|| format!("{}..={}", x.show(), y.show()), Val::I(x..=y), a > b, &|p| a <= p && p <= b, probes);
    for ai in [true, false] {
        for bi in [true, false] {
            let s = if ai { LowerBound::included(x) } else { LowerBound::excluded(x) };
            let e = if bi { UpperBound::included(y) } else { UpperBound::excluded(y) };
            let lo = move |p: u128| if ai { a <= p } else { a < p };
            let hi = move |p: u128| if bi { p <= b } else { p < b };
            let empty = if ai && bi { a > b } else { a >= b };
            check(ctx, &|| format!("BoundedRange::new({s:?}, {e:?})"), Val::BR(BoundedRange::new(s, e)), empty, &|p| lo(p) && hi(p), probes);
            check(ctx, &|| format!("BoundedRange {{ {s:?}, {e:?} }}"), Val::BR(BoundedRange { start: s, end: e }), empty, &|p| lo(p) && hi(p), probes);
            // Unbounded set from an upper bounded and a lower bounded range (both orders of ends).
            let (u, l) = (UpperBoundedRange::new(e), LowerBoundedRange::new(s));
            check(ctx, &|| format!("UnboundedSet::new({u:?}, {l:?})"), Val::AS(UnboundedSet::new(u, l)), false, &|p| hi(p) || lo(p), probes);
        }
    }
}

fn one_sided<T: Ordinal>(ctx: &mut Ctx, a: u128, probes: &[u128]) {
    let x = T::at(a);
    check(ctx, &|| format!("{}..", x.show()), Val::F(x..), false, &|p| p >= a, probes);
    check(ctx, &|| format!("..{}", x.show()), Val::T(..x), false, &|p| p < a, probes);
    check(ctx, &|| format!("..={}", x.show()), Val::TI(..=x), false, &|p| p <= a, probes);
    for inc in [true, false] {
        let l = if inc { LowerBound::included(x) } else { LowerBound::excluded(x) };
        let u = if inc { UpperBound::included(x) } else { UpperBound::excluded(x) };
        let b: Bound<T> = if inc { Bound::Included(x) } else { Bound::Excluded(x) };
        check(ctx, &|| format!("LowerBoundedRange::new({l:?})"), Val::LR(LowerBoundedRange::new(l)), false, &|p| p > a || inc && p == a, probes);
        check(ctx, &|| format!("LowerBoundedRange::new({b:?}.into())"), Val::LR(LowerBoundedRange::new(b.into())), false, &|p| p > a || inc && p == a, probes);
        check(ctx, &|| format!("UpperBoundedRange::new({u:?})"), Val::UR(UpperBoundedRange::new(u)), false, &|p| p < a || inc && p == a, probes);
        check(ctx, &|| format!("UpperBoundedRange::new({b:?}.into())"), Val::UR(UpperBoundedRange::new(b.into())), false, &|p| p < a || inc && p == a, probes);
    }
}

fn iterated_from<T: Ordinal>(ctx: &mut Ctx, a: u128, probes: &[u128])
where
    RangeFrom<T>: Iterator<Item = T>,
{
    let x = T::at(a);
    for n in 1..=4u128 {
        if n < T::TOP - a {
            let mut r = x..;
            for _ in 0..n {
                r.next();
            }
            check(ctx, &|| format!("{}.. after {n} next", x.show()), Val::F(r), false, &|p| p >= a + n, probes);
        }
    }
}

fn constants<T: Ordinal>(ctx: &mut Ctx, probes: &[u128]) {
    check(ctx, &|| "(..)".into(), Val::<T>::A(..), false, &|_| true, probes);
    check(ctx, &|| "UnboundedRange::new()".into(), Val::<T>::AR(UnboundedRange::new()), false, &|_| true, probes);
    check(ctx, &|| "UnboundedRange::default()".into(), Val::<T>::AR(UnboundedRange::default()), false, &|_| true, probes);
    check(ctx, &|| "UnboundedSet::Full".into(), Val::<T>::AS(UnboundedSet::Full), false, &|_| true, probes);
    check(ctx, &|| "EmptyRange::new()".into(), Val::<T>::E(EmptyRange::new()), true, &|_| false, probes);
    check(ctx, &|| "BoundedSet::empty()".into(), Val::<T>::BS(BoundedSet::empty()), true, &|_| false, probes);
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    for_types!(T in [u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char] {
        let w = if thorough { 3 } else { 1 };
        let small = T::TOP < 256;
        let eps: Vec<u128> = if small {
            (0..=T::TOP).collect()
        } else {
            window::<T>(w)
        };
        let probes: Vec<u128> = if small { eps.clone() } else { window::<T>(w + 5) };
        let name = std::any::type_name::<T>();
        run.family(&format!("{name}: std and crate ranges, fresh and iterated"), eps.len(), |i, ctx| {
            let a = eps[i];
            ctx.c.states += eps.len() as u64;
            for &b in &eps {
                // Of the 8-bit types: probe everything for ends in the window, and around the ends otherwise.
                let near: Vec<u128>;
                let pr: &[u128] = if small && !thorough {
                    near = probes.iter().copied().filter(|&p| p.abs_diff(a) <= 5 || p.abs_diff(b) <= 5 || p < 3 || p > T::TOP - 3 || p == a / 2 + b / 2).collect();
                    &near
                } else {
                    &probes
                };
                order_only::<T>(ctx, a, b, pr);
                two_sided::<T>(ctx, a, b, pr);
            }
            one_sided::<T>(ctx, a, &probes);
            iterated_from::<T>(ctx, a, &probes);
            if i == 0 {
                constants::<T>(ctx, &probes);
            }
        });
    });
    type L = Letter;
    let eps: Vec<u128> = (0..=L::TOP).collect();
    run.family("user-defined type: std and crate ranges", eps.len(), |i, ctx| {
        ctx.c.states += eps.len() as u64;
        for &b in &eps {
            order_only::<L>(ctx, eps[i], b, &eps);
        }
        one_sided::<L>(ctx, eps[i], &eps);
        if i == 0 {
            constants::<L>(ctx, &eps);
        }
    });
    run.finish()
}
