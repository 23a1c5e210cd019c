//! C18: operations on sets of many pieces return the right result, in stack that does not grow with
//! the number of pieces. Every merge span over sets of every size up to a bound, and every
//! operation on every pair of operand kinds at two large sizes whose stack use is compared.

use mc::engine::*;
use mc::val::*;
use rangetools::*;

type V = i32;
/// Growth allowed between the two sizes (in bytes). They differ by at least 800 pieces (120 for
/// complement, whose frames are never this small), so one frame per piece exceeds it.
const SLACK: usize = 8 << 10;
/// Unoptimised builds are slower, but their frames are larger.
const UNOPTIMISED: bool = cfg!(debug_assertions);
const WINDOW: usize = 2 << 20;

/// What a set kind has besides its pieces.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bounded,
    Lower,
    Upper,
    Unbounded,
}
const KINDS: [Kind; 4] = [Kind::Bounded, Kind::Lower, Kind::Upper, Kind::Unbounded];

/// Where piece `i` lies within `16i+16 .. 16i+32`. Endpoints are even, so the odd values are
/// probes strictly between any two of them.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Block,
    Bridge,
    Gap,
    Inside,
}
const SHAPES: [Shape; 4] = [Shape::Block, Shape::Bridge, Shape::Gap, Shape::Inside];
/// Half-open.
fn piece(s: Shape, i: usize) -> (V, V) {
    let b = 16 * i as V + 16;
    match s {
        Shape::Block => (b, b + 8),
        Shape::Bridge => (b + 6, b + 18),
        Shape::Gap => (b + 10, b + 14),
        Shape::Inside => (b + 2, b + 6),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Order {
    Up,
    Down,
    Inward,
}

/// The mathematical operand: what it contains.
#[derive(Clone, Debug)]
enum Model {
    Set {
        kind: Kind,
        shape: Shape,
        n: usize,
    },
    /// From and to (and whether they belong to it), `None` for unbounded.
    Span(Option<(V, bool)>, Option<(V, bool)>),
    Nothing,
}
impl Model {
    fn has(&self, x: V) -> bool {
        match self {
            Model::Nothing => false,
            Model::Span(a, b) => {
                a.map_or(true, |(a, i)| x > a || i && x == a) && b.map_or(true, |(b, i)| x < b || i && x == b)
            }
            Model::Set { kind, shape, n } => {
                if matches!(kind, Kind::Upper | Kind::Unbounded) && x < 8 {
                    return true;
                }
                if matches!(kind, Kind::Lower | Kind::Unbounded) && x >= 16 * *n as V + 16 {
                    return true;
                }
                // Only the pieces around x can hold it.
                let i = (x.max(0) / 16) as usize;
                (i.saturating_sub(3)..i + 2).any(|i| i < *n && (piece(*shape, i).0..piece(*shape, i).1).contains(&x))
            }
        }
    }
}

fn order(o: Order, n: usize) -> Vec<usize> {
    match o {
        Order::Up => (0..n).collect(),
        Order::Down => (0..n).rev().collect(),
        Order::Inward => (0..n).map(|k| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }).collect(),
    }
}

fn build(kind: Kind, shape: Shape, n: usize, o: Order) -> Val<V> {
    let mut s = BoundedSet::<V>::empty();
    for i in order(o, n) {
        let (a, b) = piece(shape, i);
        s = Rangetools::union(s, a..b);
    }
    let lower = 16 * n as V + 16..;
    match kind {
        Kind::Bounded => Val::BS(s),
        Kind::Lower => Val::LS(Rangetools::union(s, lower)),
        Kind::Upper => Val::US(Rangetools::union(s, ..8)),
        Kind::Unbounded => Val::AS(Rangetools::union(Rangetools::union(s, ..8), lower)),
    }
}

/// Builds a set as a case of its own (so that failing to is reported); `None` if it failed.
fn built(ctx: &mut Ctx, kind: Kind, shape: Shape, n: usize, o: Order) -> Option<Val<V>> {
    let mut v = None;
    ctx.case(
        || format!("adding {n} pieces one by one ({o:?}, {kind:?}, {shape:?})"),
        |c| {
            c.transitions += n as u64;
            v = Some(build(kind, shape, n, o));
            Ok(())
        },
    );
    v
}

fn probes(n: usize) -> std::ops::Range<V> {
    0..16 * n as V + 40
}

fn compare(what: &str, got: &Val<V>, n: usize, want: impl Fn(V) -> bool) -> Result<(), String> {
    for x in probes(n).chain([V::MIN, -5, V::MAX]) {
        if got.contains(x) != want(x) {
            let mut shown = format!("{got:?}");
            if shown.len() > 400 {
                shown = format!("{}...", shown.chars().take(400).collect::<String>());
            }
            return Err(format!(
                "{what} should {}contain {x} but does{}; it is {shown}",
                if want(x) { "" } else { "not " },
                if want(x) { " not" } else { "" }
            ));
        }
    }
    Ok(())
}

/// Bytes of stack `f` used.
#[inline(never)]
fn stack_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    const PAINT: u64 = 0xa5a5_5a5a_c3c3_3c3c;
    let here = 0u64;
    let top = (std::hint::black_box(&here) as *const u64 as usize & !7) - 2048;
    let bottom = top - WINDOW;
    paint(bottom, top, PAINT);
    let r = f();
    let used = scan(bottom, top, PAINT);
    (r, used)
}
// The area lies inside this thread's (16 MB) stack, below everything in use.
#[inline(never)]
fn paint(bottom: usize, top: usize, v: u64) {
    let mut p = bottom;
    while p < top {
        unsafe { std::ptr::write_volatile(p as *mut u64, v) };
        p += 8;
    }
}
#[inline(never)]
fn scan(bottom: usize, top: usize, v: u64) -> usize {
    let mut p = bottom;
    while p < top && unsafe { std::ptr::read_volatile(p as *const u64) } == v {
        p += 8;
    }
    top - p
}

/// Operands of every type from `a` to `e` (with what they contain).
fn spans(a: V, e: V) -> Vec<(Val<V>, Model)> {
    let lb = |i| {
        if i {
            LowerBound::included(a)
        } else {
            LowerBound::excluded(a)
        }
    };
    let ub = |i| {
        if i {
            UpperBound::included(e)
        } else {
            UpperBound::excluded(e)
        }
    };
    let m = |i, j| Model::Span(Some((a, i)), Some((e, j)));
    let from = |i| Model::Span(Some((a, i)), None);
    let to = |j| Model::Span(None, Some((e, j)));
    let br = |i, j| BoundedRange {
        start: lb(i),
        end: ub(j),
    };
    vec![
        (Val::R(a..e), m(true, false)),
        (Val::I(a..=e), m(true, true)),
        (Val::BR(br(false, true)), m(false, true)),
        (Val::BR(br(false, false)), m(false, false)),
        (Val::BS(BoundedSet::from(br(true, false))), m(true, false)),
        (Val::F(a..), from(true)),
        (Val::T(..e), to(false)),
        (Val::TI(..=e), to(true)),
        (Val::A(..), Model::Span(None, None)),
        (Val::AR(UnboundedRange::new()), Model::Span(None, None)),
        (Val::E(EmptyRange::new()), Model::Nothing),
        (Val::LR(LowerBoundedRange::new(lb(false))), from(false)),
        (
            Val::LS(LowerBoundedSet::from(LowerBoundedRange::new(lb(true)))),
            from(true),
        ),
        (Val::UR(UpperBoundedRange::new(ub(true))), to(true)),
        (
            Val::US(UpperBoundedSet::from(UpperBoundedRange::new(ub(false)))),
            to(false),
        ),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Union,
    Intersection,
    Disjoint,
    Intersects,
}
const OPS: [Op; 4] = [Op::Union, Op::Intersection, Op::Disjoint, Op::Intersects];

enum Out {
    V(Val<V>),
    B(bool),
}
fn apply(op: Op, a: &Val<V>, b: &Val<V>) -> Out {
    match op {
        Op::Union => Out::V(union(a, b)),
        Op::Intersection => Out::V(intersection(a, b)),
        Op::Disjoint => Out::B(disjoint(a, b)),
        Op::Intersects => Out::B(intersects(a, b)),
    }
}
fn judge(op: Op, out: &Out, a: &Model, b: &Model, n: usize) -> Result<(), String> {
    match (op, out) {
        (Op::Union, Out::V(v)) => compare("the union", v, n, |x| a.has(x) || b.has(x)),
        (Op::Intersection, Out::V(v)) => compare("the intersection", v, n, |x| a.has(x) && b.has(x)),
        (_, Out::B(got)) => {
            let meet = probes(n).chain([V::MIN, V::MAX]).any(|x| a.has(x) && b.has(x));
            if *got != (meet == (op == Op::Intersects)) {
                return Err(format!(
                    "{op:?} is {got} but the operands {}",
                    if meet { "share values" } else { "share none" }
                ));
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

/// The second operand of a large case.
#[derive(Clone, Copy, Debug)]
enum Other {
    Set(Kind, Shape),
    /// Range kind `k` of `spans`, from piece n*from/4 to piece n*to/4.
    Span(usize, usize, usize),
}

fn other(ctx: &mut Ctx, o: Other, n: usize) -> Option<(Val<V>, Model)> {
    Some(match o {
        Other::Set(kind, shape) => (
            built(ctx, kind, shape, n, Order::Inward)?,
            Model::Set { kind, shape, n },
        ),
        Other::Span(k, f, t) => {
            let (i, j) = (n * f / 4, n * t / 4);
            let v = spans(16 * i as V + 18, 16 * j as V + 18);
            v[k].clone()
        }
    })
}

fn name_of(v: &Val<V>, m: &Model) -> String {
    match m {
        Model::Set { kind, shape, n } => format!("{} of {n} pieces ({kind:?}, {shape:?})", v.kind()),
        _ => format!("{v:?}"),
    }
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;

    // Every span over every small size, every range type, both operand orders, every operation.
    let top = match (thorough, UNOPTIMISED) {
        (true, true) => 18,
        (true, false) => 30,
        (false, true) => 10,
        (false, false) => 18,
    };
    let items: Vec<(usize, Kind, usize)> = (0..=top)
        .rev()
        .flat_map(|n| KINDS.map(|k| (n, k)))
        .flat_map(|(n, k)| (0..=n).map(move |i| (n, k, i)))
        .collect();
    run.family("all spans over sets of every size", items.len(), |item, ctx| {
        let (n, kind, i) = items[item];
        let Some(set) = built(ctx, kind, Shape::Block, n, Order::Up) else {
            return;
        };
        let m = Model::Set {
            kind,
            shape: Shape::Block,
            n,
        };
        ctx.c.states += 1;
        for j in i..=n {
            for a in [12, 16, 18] {
                for e in [16, 18, 24] {
                    let (a, e) = (16 * i as V + a, 16 * j as V + e);
                    if a > e {
                        continue;
                    }
                    ctx.c.states += 1;
                    for (r, rm) in spans(a, e) {
                        for op in OPS {
                            for swap in [false, true] {
                                let say = || {
                                    let s = name_of(&set, &m);
                                    let r = format!("{r:?}");
                                    let (x, y) = if swap { (&r, &s) } else { (&s, &r) };
                                    format!("{op:?} of {x} and {y}")
                                };
                                ctx.case(say, |c| {
                                    c.transitions += 1;
                                    let out = if swap { apply(op, &r, &set) } else { apply(op, &set, &r) };
                                    judge(op, &out, &m, &rm, n)
                                });
                            }
                        }
                    }
                }
            }
        }
    });

    // Every size: building in every order, complement and double complement, sets with sets.
    let top = if thorough { 90 } else { 40 };
    run.family("sets with sets of every size", 4 * (top + 1), |item, ctx| {
        let (n, kind) = (top - item / 4, KINDS[item % 4]);
        let m = Model::Set {
            kind,
            shape: Shape::Block,
            n,
        };
        for o in [Order::Up, Order::Down, Order::Inward] {
            ctx.case(
                || format!("adding {n} pieces one by one ({o:?}, {kind:?})"),
                |c| {
                    c.transitions += n as u64;
                    compare("the set", &build(kind, Shape::Block, n, o), n, |x| m.has(x))
                },
            );
        }
        if ctx.failed() {
            return;
        }
        let Some(set) = built(ctx, kind, Shape::Block, n, Order::Up) else {
            return;
        };
        ctx.c.states += 1;
        ctx.case(
            || format!("complement of {}", name_of(&set, &m)),
            |c| {
                c.transitions += 2;
                let r = complement(&set);
                compare("the complement", &r, n, |x| !m.has(x))?;
                compare("the complement of the complement", &complement(&r), n, |x| m.has(x))
            },
        );
        for k2 in KINDS {
            for shape in SHAPES {
                let Some(b) = built(ctx, k2, shape, n, Order::Down) else {
                    return;
                };
                let bm = Model::Set { kind: k2, shape, n };
                ctx.c.states += 1;
                for op in OPS {
                    ctx.case(
                        || format!("{op:?} of {} and {}", name_of(&set, &m), name_of(&b, &bm)),
                        |c| {
                            c.transitions += 1;
                            judge(op, &apply(op, &set, &b), &m, &bm, n)
                        },
                    );
                }
            }
        }
    });

    // Large sizes: the stack used must not grow from the smaller to the larger size.
    let (n1, n2) = if thorough {
        (300, 2000)
    } else if UNOPTIMISED {
        (150, 700)
    } else {
        (200, 1000)
    };
    let mut others: Vec<Other> = vec![];
    for k in KINDS {
        for s in SHAPES {
            others.push(Other::Set(k, s));
        }
    }
    for k in 0..spans(0, 8).len() {
        for (f, t) in [(0, 4), (0, 2), (1, 3), (2, 4)] {
            others.push(Other::Span(k, f, t));
        }
    }
    let cases: Vec<(Kind, Other)> = KINDS
        .iter()
        .flat_map(|k| others.iter().map(move |o| (*k, *o)))
        .collect();
    run.family("stack use of operations with large sets", cases.len(), |item, ctx| {
        let (kind, o) = cases[item];
        let mut sized = vec![];
        for n in [n1, n2] {
            let m = Model::Set {
                kind,
                shape: Shape::Block,
                n,
            };
            let Some(a) = built(ctx, kind, Shape::Block, n, Order::Up) else {
                return;
            };
            let Some((b, bm)) = other(ctx, o, n) else { return };
            sized.push((n, a, m, b, bm));
        }
        ctx.c.states += 2;
        for op in OPS {
            for swap in [false, true] {
                ctx.case(
                    || {
                        format!(
                            "{op:?} of {kind:?} set of {n1} and of {n2} pieces and {o:?}{}",
                            if swap { ", swapped" } else { "" }
                        )
                    },
                    |c| {
                        let mut used = vec![];
                        for (n, a, m, b, bm) in &sized {
                            c.transitions += 1;
                            let (out, u) = stack_of(|| if swap { apply(op, b, a) } else { apply(op, a, b) });
                            if !swap || *n == n1 {
                                judge(op, &out, m, bm, *n)?;
                            }
                            used.push(u);
                        }
                        grew(&used, n1, n2)
                    },
                );
            }
        }
    });

    // Complement and membership of large sets.
    let (c1, c2) = if thorough { (100, 500) } else { (40, 200) };
    run.family("stack use of complement, membership and iteration", 16, |item, ctx| {
        let kind = KINDS[item % 4];
        let (n1, n2) = if item / 4 == 0 { (c1, c2) } else { (n1, n2) };
        let mut sized = vec![];
        for n in [n1, n2] {
            let Some(a) = built(ctx, kind, Shape::Block, n, Order::Up) else {
                return;
            };
            sized.push((
                n,
                a,
                Model::Set {
                    kind,
                    shape: Shape::Block,
                    n,
                },
            ));
        }
        ctx.c.states += 2;
        let what = ["complement", "contains and is_empty", "adding pieces", "iteration"][item / 4];
        ctx.case(
            || format!("{what} of {kind:?} sets of {n1} and of {n2} pieces"),
            |c| {
                let mut used = vec![];
                for (n, a, m) in &sized {
                    c.transitions += 1;
                    let u = match item / 4 {
                        0 => {
                            let (r, u) = stack_of(|| complement(a));
                            compare("the complement", &r, *n, |x| !m.has(x))?;
                            u
                        }
                        1 => {
                            let (r, u) = stack_of(|| (compare("the set", a, *n, |x| m.has(x)), is_empty(a)));
                            r.0?;
                            if r.1 {
                                return Err("is_empty is true".into());
                            }
                            u
                        }
                        2 => {
                            let (r, u) = stack_of(|| build(kind, Shape::Bridge, *n, Order::Inward));
                            let m = Model::Set {
                                kind,
                                shape: Shape::Bridge,
                                n: *n,
                            };
                            compare("the set", &r, *n, |x| m.has(x))?;
                            u
                        }
                        _ => {
                            let (r, u) = stack_of(|| iterate(a, *n));
                            r?;
                            u
                        }
                    };
                    used.push(u);
                }
                grew(&used, n1, n2)
            },
        );
    });
    run.finish()
}

fn grew(used: &[usize], n1: usize, n2: usize) -> Result<(), String> {
    if std::env::var_os("MC_STACK").is_some() {
        eprintln!("stack {used:?}");
    }
    if used[1] > used[0] + SLACK {
        return Err(format!(
            "uses {} bytes of stack with {n1} pieces but {} with {n2}",
            used[0], used[1]
        ));
    }
    Ok(())
}

/// Walks a set with the iterator methods that cross many pieces at once.
fn iterate(a: &Val<V>, n: usize) -> Result<(), String> {
    let want = |k: usize| 16 * (k / 8) as V + 16 + (k % 8) as V;
    let bad = |what: &str, got: Option<V>, w: Option<V>| -> Result<(), String> {
        if got == w {
            Ok(())
        } else {
            Err(format!("{what} gives {got:?} instead of {w:?}"))
        }
    };
    let last = 8 * n - 1;
    match a {
        Val::BS(s) => {
            let c = s.clone().into_iter().count();
            if c != 8 * n {
                return Err(format!("count gives {c} instead of {}", 8 * n));
            }
            bad(
                "nth to the last value",
                s.clone().into_iter().nth(last),
                Some(want(last)),
            )?;
            bad("nth past the end", s.clone().into_iter().nth(last + 1), None)?;
            bad(
                "nth_back to the first value",
                s.clone().into_iter().nth_back(last),
                Some(want(0)),
            )?;
            bad("last", s.clone().into_iter().last(), Some(want(last)))?;
            for (k, x) in s.clone().into_iter().enumerate().take(last + 1) {
                bad("next", Some(x), Some(want(k)))?;
            }
            for (k, x) in s.clone().into_iter().rev().enumerate().take(last + 1) {
                bad("next_back", Some(x), Some(want(last - k)))?;
            }
        }
        Val::LS(s) => {
            bad(
                "nth to the last value of the last piece",
                s.clone().into_iter().nth(last),
                Some(want(last)),
            )?;
            bad(
                "nth into the unbounded part",
                s.clone().into_iter().nth(last + 1),
                Some(16 * n as V + 16),
            )?;
            for (k, x) in s.clone().into_iter().enumerate().take(last + 1) {
                bad("next", Some(x), Some(want(k)))?;
            }
        }
        _ => {}
    }
    Ok(())
}
