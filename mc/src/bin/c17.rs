//! C17: leaving the library as a std range keeps the values, or panics when no such std range can.

use mc::engine::*;
use mc::for_types;
use mc::iters::{Piece, mk};
use mc::ordinal::*;
use rangetools::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

/// Values as an interval of ordinals.
type Iv = Option<(u128, u128)>;

fn of_range<T: Ordinal>(r: &Range<T>) -> Iv {
    let (a, b) = (r.start.ord(), r.end.ord());
    (a < b).then(|| (a, b - 1))
}
fn of_inclusive<T: Ordinal>(r: &RangeInclusive<T>) -> Iv {
    if r.is_empty() {
        return None;
    }
    let (a, b) = (r.start().ord(), r.end().ord());
    (a <= b).then_some((a, b))
}
fn iv(ty: &str, i: Iv) -> String {
    match i {
        None => format!("no value of {ty}"),
        Some((a, b)) => format!("the {ty}s number {a} to {b}"),
    }
}

/// `want`: None when no std range of the target type holds the values.
fn judge<R: std::fmt::Debug>(ctx: &mut Ctx, desc: &dyn Fn() -> String, name: &str, want: Option<Iv>, conv: &dyn Fn() -> R, read: &dyn Fn(&R) -> Iv) {
    ctx.c.states += 1;
    ctx.case(desc, |c| {
        c.transitions += 1;
        match (catch(conv), want) {
            (Ok(r), Some(w)) => {
                if read(&r) == w {
                    Ok(())
                } else {
                    Err(format!("gives {r:?}, which holds {}; expected {}", iv(name, read(&r)), iv(name, w)))
                }
            }
            (Ok(r), None) => Err(format!("gives {r:?}; no such range can hold the values, so it must panic")),
            (Err(p), Some(w)) => Err(format!("panics ({p}); a range can hold {}", iv(name, w))),
            (Err(_), None) => Ok(()),
        }
    });
}

fn two_sided<T: Ordinal>(ctx: &mut Ctx, p: Piece) {
    let name = std::any::type_name::<T>();
    let top = T::TOP;
    let r: BoundedRange<T> = mk(p);
    let vals = p.interval(top);
    // A half-open range has no way to include the largest value.
    let half = match vals {
        Some((_, b)) if b == top => None,
        v => Some(v),
    };
    judge(ctx, &|| format!("Range from {r:?}"), name, half, &|| Range::from(r), &|x| of_range(x));
    judge(ctx, &|| format!("RangeInclusive from {r:?}"), name, Some(vals), &|| RangeInclusive::from(r), &|x| of_inclusive(x));
    let (a, b) = (T::at(p.lo), T::at(p.hi));
    if p.li && p.hi_in {
        // In and out again.
        judge(ctx, &|| format!("{}..={} in and out", a.show(), b.show()), name, Some(vals), &|| RangeInclusive::from(BoundedRange::from(a..=b)), &|x| of_inclusive(x));
        judge(ctx, &|| format!("{}..={} to_inner and out", a.show(), b.show()), name, Some(vals), &|| RangeInclusive::from((a..=b).to_inner()), &|x| of_inclusive(x));
        judge(ctx, &|| format!("{}..={} in, out as a half-open range", a.show(), b.show()), name, half, &|| Range::from(BoundedRange::from(a..=b)), &|x| of_range(x));
    }
    if p.li && !p.hi_in {
        judge(ctx, &|| format!("{}..{} in and out", a.show(), b.show()), name, Some(vals), &|| Range::from(BoundedRange::from(a..b)), &|x| of_range(x));
        judge(ctx, &|| format!("{}..{} to_inner and out", a.show(), b.show()), name, Some(vals), &|| Range::from((a..b).to_inner()), &|x| of_range(x));
        judge(ctx, &|| format!("{}..{} in, out as an inclusive range", a.show(), b.show()), name, Some(vals), &|| RangeInclusive::from(BoundedRange::from(a..b)), &|x| of_inclusive(x));
    }
}

fn one_sided<T: Ordinal>(ctx: &mut Ctx, o: u128) {
    let name = std::any::type_name::<T>();
    let top = T::TOP;
    let t = T::at(o);
    for inc in [true, false] {
        let l = LowerBoundedRange::new(if inc { LowerBound::included(t) } else { LowerBound::excluded(t) });
        let u = UpperBoundedRange::new(if inc { UpperBound::included(t) } else { UpperBound::excluded(t) });
        // A start after the largest value cannot be written as start..
        let want = if inc { Some(Some((o, top))) } else if o < top { Some(Some((o + 1, top))) } else { None };
        judge(ctx, &|| format!("RangeFrom from {l:?}"), name, want, &|| RangeFrom::from(l), &|x| Some((x.start.ord(), top)));
        // ..t (holds nothing for the smallest t), and ..=t (always holds t).
        let vals: Iv = if inc { Some((0, o)) } else { o.checked_sub(1).map(|e| (0, e)) };
        let want = if inc && o == top { None } else { Some(vals) };
        judge(ctx, &|| format!("RangeTo from {u:?}"), name, want, &|| RangeTo::from(u), &|x| x.end.ord().checked_sub(1).map(|e| (0, e)));
        judge(ctx, &|| format!("RangeToInclusive from {u:?}"), name, vals.map(Some), &|| RangeToInclusive::from(u), &|x| Some((0, x.end.ord())));
    }
    judge(ctx, &|| format!("{}.. in and out", t.show()), name, Some(Some((o, top))), &|| RangeFrom::from(LowerBoundedRange::from(t..)), &|x| Some((x.start.ord(), top)));
    judge(ctx, &|| format!("..{} in and out", t.show()), name, Some(o.checked_sub(1).map(|e| (0, e))), &|| RangeTo::from(UpperBoundedRange::from(..t)), &|x| x.end.ord().checked_sub(1).map(|e| (0, e)));
    judge(ctx, &|| format!("..={} in and out", t.show()), name, Some(Some((0, o))), &|| RangeToInclusive::from(UpperBoundedRange::from(..=t)), &|x| Some((0, x.end.ord())));
}

/// Std ranges that were iterated before entering.
fn iterated<T: Ordinal>(ctx: &mut Ctx, a: u128, b: u128)
where
    Range<T>: DoubleEndedIterator<Item = T>,
    RangeInclusive<T>: DoubleEndedIterator<Item = T>,
{
    if a > b || b - a > 300 {
        return;
    }
    let name = std::any::type_name::<T>();
    let n = (b - a + 1) as usize;
    for f in [0, 1, 2, n.saturating_sub(1), n, n + 1] {
        for k in [0, 1, n.saturating_sub(f), n] {
            let mut r = T::at(a)..=T::at(b);
            let mut h = T::at(a)..T::at(b);
            for _ in 0..f {
                r.next();
                h.next();
            }
            for _ in 0..k {
                r.next_back();
                h.next_back();
            }
            let left = if f + k >= n { None } else { Some((a + f as u128, b - k as u128)) };
            judge(ctx, &|| format!("{r:?} in and out"), name, Some(left), &|| RangeInclusive::from(BoundedRange::from(r.clone())), &|x| of_inclusive(x));
            let left = if f + k >= n - 1 { None } else { Some((a + f as u128, b - 1 - k as u128)) };
            judge(ctx, &|| format!("{h:?} in and out"), name, Some(left), &|| Range::from(BoundedRange::from(h.clone())), &|x| of_range(x));
        }
    }
}

fn empties<T: Ordinal + Default>(ctx: &mut Ctx) {
    let name = std::any::type_name::<T>();
    judge(ctx, &|| format!("Range from EmptyRange<{name}>"), name, Some(None), &|| Range::<T>::from(EmptyRange::<T>::new()), &|x| of_range(x));
    judge(ctx, &|| format!("RangeInclusive from EmptyRange<{name}>"), name, Some(None), &|| RangeInclusive::<T>::from(EmptyRange::<T>::new()), &|x| of_inclusive(x));
    ctx.case(|| "RangeFull from UnboundedRange".into(), |_| {
        let _: RangeFull = RangeFull::from(UnboundedRange::new());
        let _: RangeFull = RangeFull::from(UnboundedRange::from(..));
        Ok(())
    });
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    for_types!(T {
        let eps: Vec<u128> = if T::TOP < 256 { (0..=T::TOP).collect() } else { window::<T>(if thorough { 14 } else { 5 }) };
        let name = std::any::type_name::<T>();
        run.family(&format!("{name}: ranges of every kind"), eps.len(), |i, ctx| {
            one_sided::<T>(ctx, eps[i]);
            for &hi in &eps {
                for (li, hi_in) in [(true, true), (true, false), (false, true), (false, false)] {
                    two_sided::<T>(ctx, Piece { lo: eps[i], li, hi, hi_in });
                }
            }
        });
    });
    for_types!(T in [u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char] {
        let eps: Vec<u128> = if T::TOP < 256 { (0..=T::TOP).collect() } else { window::<T>(if thorough { 4 } else { 2 }) };
        let name = std::any::type_name::<T>();
        run.family(&format!("{name}: ranges iterated before entering"), eps.len(), |i, ctx| {
            for &b in &eps {
                iterated::<T>(ctx, eps[i], b);
            }
            if i == 0 {
                empties::<T>(ctx);
            }
        });
    });
    run.finish()
}
