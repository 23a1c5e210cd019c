//! C14: lower and upper bounds are ordered by what they admit; flipping and mapping.

use mc::engine::*;
use rangetools::*;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Side {
    Low,
    Up,
}

/// Does a bound at `t` admit `x`? By the definition of a bound, with std comparison only.
fn admits<T: PartialOrd>(side: Side, t: &T, inc: bool, x: &T) -> bool {
    match side {
        Side::Low => x > t || inc && x == t,
        Side::Up => x < t || inc && x == t,
    }
}

/// What the order of two bounds of a side must be.
fn model<T: PartialOrd>(side: Side, (a, ai): (&T, bool), (b, bi): (&T, bool)) -> Option<Ordering> {
    match a.partial_cmp(b)? {
        Ordering::Equal => Some(match (side, ai, bi) {
            (_, true, true) | (_, false, false) => Ordering::Equal,
            // The included bound admits more.
            (Side::Low, true, false) => Ordering::Less,
            (Side::Low, false, true) => Ordering::Greater,
            (Side::Up, true, false) => Ordering::Greater,
            (Side::Up, false, true) => Ordering::Less,
        }),
        o => Some(o),
    }
}

/// Everything `PartialOrd` and `PartialEq` offer must agree with one ordering.
fn partial<B: PartialOrd + Debug>(x: &B, y: &B, want: Option<Ordering>) -> Result<(), String> {
    use Ordering::*;
    let say = |what: &str| Err(format!("{x:?} {what} {y:?} disagrees with the order {want:?}"));
    if x.partial_cmp(y) != want {
        return Err(format!("{x:?}.partial_cmp({y:?}) is {:?}; expected {want:?}", x.partial_cmp(y)));
    }
    if (x < y) != (want == Some(Less)) {
        return say("<");
    }
    if (x <= y) != matches!(want, Some(Less | Equal)) {
        return say("<=");
    }
    if (x > y) != (want == Some(Greater)) {
        return say(">");
    }
    if (x >= y) != matches!(want, Some(Greater | Equal)) {
        return say(">=");
    }
    if (x == y) != (want == Some(Equal)) {
        return say("==");
    }
    if (x != y) == (want == Some(Equal)) {
        return say("!=");
    }
    Ok(())
}
fn total<B: Ord + Clone + Debug>(x: &B, y: &B, want: Ordering) -> Result<(), String> {
    use Ordering::*;
    if x.cmp(y) != want {
        return Err(format!("{x:?}.cmp({y:?}) is {:?}; expected {want:?}", x.cmp(y)));
    }
    let (mx, mn) = (x.clone().max(y.clone()), x.clone().min(y.clone()));
    let (wx, wn) = if want == Greater { (x, y) } else { (y, x) };
    if mx != *wx || mn != *wn {
        return Err(format!("max/min of {x:?} and {y:?} are {mx:?}/{mn:?}"));
    }
    if want != Greater {
        for z in [x, y] {
            if z.clone().clamp(x.clone(), y.clone()) != *z {
                return Err(format!("{z:?}.clamp({x:?}, {y:?}) is not itself"));
            }
        }
    }
    let mut v = [y.clone(), x.clone()];
    v.sort();
    if v != [wn.clone(), wx.clone()] {
        return Err(format!("sorting {y:?}, {x:?} gives {v:?}"));
    }
    Ok(())
}

fn low<T>(t: T, inc: bool) -> LowerBound<T> {
    if inc {
        LowerBound::included(t)
    } else {
        LowerBound::excluded(t)
    }
}
fn up<T>(t: T, inc: bool) -> UpperBound<T> {
    if inc {
        UpperBound::included(t)
    } else {
        UpperBound::excluded(t)
    }
}
fn raw<T>(t: T, inc: bool) -> Bound<T> {
    if inc {
        Bound::Included(t)
    } else {
        Bound::Excluded(t)
    }
}
fn h(x: &impl Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// All pairs over `pts`, for element types with a partial order.
fn pairs<T: PartialOrd + Clone + Debug>(ctx: &mut Ctx, a: &T, pts: &[T], probes: &[T]) {
    for ai in [true, false] {
        for b in pts {
            for bi in [true, false] {
                ctx.c.states += 1;
                ctx.case(
                    || format!("bounds at {a:?} ({}) and {b:?} ({})", inc(ai), inc(bi)),
                    |c| {
                        c.transitions += 30;
                        let l = model(Side::Low, (a, ai), (b, bi));
                        let u = model(Side::Up, (a, ai), (b, bi));
                        partial(&low(a.clone(), ai), &low(b.clone(), bi), l)?;
                        partial(&up(a.clone(), ai), &up(b.clone(), bi), u)?;
                        // Built from a raw bound, the same.
                        partial(&LowerBound::from(raw(a.clone(), ai)), &low(b.clone(), bi), l)?;
                        partial(&UpperBound::from(raw(a.clone(), ai)), &up(b.clone(), bi), u)?;
                        let e = a == b && ai == bi;
                        if (raw(a.clone(), ai) == raw(b.clone(), bi)) != e {
                            return Err("equality of raw bounds is wrong".into());
                        }
                        if (low(a.clone(), ai) == low(b.clone(), bi)) != e || (up(a.clone(), ai) == up(b.clone(), bi)) != e {
                            return Err("equality is not that of endpoint and inclusiveness".into());
                        }
                        // Whoever admits strictly more comes first (lower) or last (upper); only
                        // meaningful where the probes tell bounds apart.
                        for side in [Side::Low, Side::Up] {
                            let x: Vec<bool> = probes.iter().map(|p| admits(side, a, ai, p)).collect();
                            let y: Vec<bool> = probes.iter().map(|p| admits(side, b, bi, p)).collect();
                            let more = x.iter().zip(&y).all(|(p, q)| *p >= *q) && x != y;
                            let got = match side {
                                Side::Low => low(a.clone(), ai).partial_cmp(&low(b.clone(), bi)),
                                Side::Up => up(b.clone(), bi).partial_cmp(&up(a.clone(), ai)),
                            };
                            if a.partial_cmp(b).is_some() && more && got != Some(Ordering::Less) {
                                return Err(format!("{side:?}: {a:?} admits strictly more but compares {got:?}"));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
fn inc(i: bool) -> &'static str {
    if i {
        "included"
    } else {
        "excluded"
    }
}

/// The total-order part: cmp, max, min, sort, transitivity, hashing.
fn totals<T: Ord + Clone + Debug + Hash>(ctx: &mut Ctx, a: &T, pts: &[T]) {
    for ai in [true, false] {
        for b in pts {
            for bi in [true, false] {
                ctx.c.states += 1;
                ctx.case(
                    || format!("bounds at {a:?} ({}) and {b:?} ({})", inc(ai), inc(bi)),
                    |c| {
                        c.transitions += 10;
                        let l = model(Side::Low, (a, ai), (b, bi)).unwrap();
                        let u = model(Side::Up, (a, ai), (b, bi)).unwrap();
                        total(&low(a.clone(), ai), &low(b.clone(), bi), l)?;
                        total(&up(a.clone(), ai), &up(b.clone(), bi), u)?;
                        if a == b && ai == bi {
                            let same = h(&low(a.clone(), ai)) == h(&low(b.clone(), bi))
                                && h(&up(a.clone(), ai)) == h(&up(b.clone(), bi))
                                && h(&raw(a.clone(), ai)) == h(&raw(b.clone(), bi));
                            if !same {
                                return Err("equal bounds hash differently".into());
                            }
                        }
                        Ok(())
                    },
                );
                for x in pts {
                    for xi in [true, false] {
                        ctx.case(
                            || format!("order of bounds at {a:?} ({}), {b:?} ({}), {x:?} ({})", inc(ai), inc(bi), inc(xi)),
                            |c| {
                                c.transitions += 2;
                                let (p, q, r) = (low(a.clone(), ai), low(b.clone(), bi), low(x.clone(), xi));
                                if p <= q && q <= r && !(p <= r) {
                                    return Err("not transitive for lower bounds".into());
                                }
                                let (p, q, r) = (up(a.clone(), ai), up(b.clone(), bi), up(x.clone(), xi));
                                if p <= q && q <= r && !(p <= r) {
                                    return Err("not transitive for upper bounds".into());
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}

/// Flipping and mapping.
fn maps<T: Copy + Ord + Debug + Hash>(ctx: &mut Ctx, a: T, probes: &[T], f: &dyn Fn(T) -> String) {
    for ai in [true, false] {
        ctx.case(
            || format!("flipping and mapping a bound at {a:?} ({})", inc(ai)),
            |c| {
                c.transitions += 8;
                let b = raw(a, ai);
                if b.flipped() != raw(a, !ai) {
                    return Err(format!("flipped is {:?}", b.flipped()));
                }
                if b.flipped().flipped() != b {
                    return Err("flipping twice does not give it back".into());
                }
                for &p in probes {
                    // A flipped lower bound taken as an upper bound admits what it rejected.
                    let r = LowerBoundedRange::new(LowerBound::from(b));
                    let s = UpperBoundedRange::new(UpperBound::from(b.flipped()));
                    if r.contains(p) == s.contains(p) {
                        return Err(format!("{r:?} and {s:?} agree on {p:?}"));
                    }
                    let r = UpperBoundedRange::new(UpperBound::from(b));
                    let s = LowerBoundedRange::new(LowerBound::from(b.flipped()));
                    if r.contains(p) == s.contains(p) {
                        return Err(format!("{r:?} and {s:?} agree on {p:?}"));
                    }
                    if LowerBoundedRange::new(low(a, ai)).contains(p) != admits(Side::Low, &a, ai, &p) || UpperBoundedRange::new(up(a, ai)).contains(p) != admits(Side::Up, &a, ai, &p) {
                        return Err(format!("bound at {a:?} admits {p:?} wrongly"));
                    }
                }
                let mut calls = 0;
                let m = b.map(|t| {
                    calls += 1;
                    f(t)
                });
                if m != raw(f(a), ai) || calls != 1 {
                    return Err(format!("Bound::map gives {m:?} after {calls} calls"));
                }
                let m = low(a, ai).map(f);
                if m != low(f(a), ai) {
                    return Err(format!("LowerBound::map gives {m:?}"));
                }
                let m = up(a, ai).map(f);
                if m != up(f(a), ai) {
                    return Err(format!("UpperBound::map gives {m:?}"));
                }
                if low(a, ai).to_bound() != b || up(a, ai).to_bound() != b {
                    return Err("to_bound changes the bound".into());
                }
                Ok(())
            },
        );
    }
}

/// The product order on pairs: most pairs are incomparable.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Prod(i8, i8);
impl PartialOrd for Prod {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self.0.cmp(&o.0), self.1.cmp(&o.1)) {
            (a, b) if a == b => Some(a),
            (Ordering::Equal, b) => Some(b),
            (a, Ordering::Equal) => Some(a),
            _ => None,
        }
    }
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    let k = if thorough { 24 } else { 12 };
    let ints: Vec<i32> = (0..=2 * k).collect();
    let eps: Vec<i32> = ints.iter().copied().filter(|x| x % 2 == 1).collect();
    run.family("i32: all pairs and triples", eps.len(), |i, ctx| {
        pairs(ctx, &eps[i], &eps, &ints);
        totals(ctx, &eps[i], &eps);
        maps(ctx, eps[i], &ints, &|x| format!("<{x}>"));
    });
    let ext: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX - 1, i64::MAX];
    run.family("i64 extremes", ext.len(), |i, ctx| {
        pairs(ctx, &ext[i], &ext, &ext);
        totals(ctx, &ext[i], &ext);
        maps(ctx, ext[i], &ext, &|x| x.wrapping_neg().to_string());
    });
    let bytes: Vec<u8> = (0..=255).collect();
    run.family("u8: all pairs", 256, |i, ctx| {
        pairs(ctx, &bytes[i], &bytes, if thorough { &bytes } else { &bytes[..8] });
        maps(ctx, bytes[i], &bytes, &|x| x.reverse_bits().to_string());
    });
    let strs: Vec<String> = ["", "a", "aa", "ab", "b", "ba", "\u{e9}", "z"].iter().map(|s| s.to_string()).collect();
    run.family("String (not Copy)", strs.len(), |i, ctx| {
        pairs(ctx, &strs[i], &strs, &strs);
        totals(ctx, &strs[i], &strs);
    });
    let units = [()];
    run.family("unit", 1, |_, ctx| {
        pairs(ctx, &(), &units, &units);
        totals(ctx, &(), &units);
        maps(ctx, (), &units, &|_| "unit".into());
    });
    let fl: Vec<f64> = vec![f64::NEG_INFINITY, f64::MIN, -1.5, -f64::MIN_POSITIVE, -0.0, 0.0, f64::MIN_POSITIVE, 1.0, 1.0 + f64::EPSILON, 2.5, f64::MAX, f64::INFINITY, f64::NAN, -f64::NAN];
    run.family("f64 with NaN, zeros and infinities", fl.len(), |i, ctx| {
        pairs(ctx, &fl[i], &fl, &fl);
    });
    let prod: Vec<Prod> = (0..if thorough { 6 } else { 4 }).flat_map(|a| (0..if thorough { 6 } else { 4 }).map(move |b| Prod(a, b))).collect();
    run.family("product order (incomparable endpoints)", prod.len(), |i, ctx| {
        pairs(ctx, &prod[i], &prod, &prod);
    });
    let opts: Vec<Option<f64>> = vec![None, Some(f64::NAN), Some(0.0), Some(-0.0), Some(1.0)];
    run.family("Option<f64>", opts.len(), |i, ctx| {
        pairs(ctx, &opts[i], &opts, &opts);
    });
    run.finish()
}
