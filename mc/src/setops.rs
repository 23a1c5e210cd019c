//! C01-C04: union, intersection, complement, emptiness / disjointness of all operands of all
//! fifteen types over the order domain, judged cell by cell against what the operands contain.

use crate::engine::*;
use crate::order::*;
use crate::val::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Union,
    Intersection,
    Complement,
    Emptiness,
}

fn cells(m: Mask) -> String {
    let v: Vec<String> = (0..128).filter(|c| m >> c & 1 == 1).map(|c| c.to_string()).collect();
    format!("{{{}}}", v.join(","))
}

fn binary(op: Op, a: &Node, b: &Node, swapped_too: bool, k: usize, c: &mut Counters) -> Result<(), String> {
    match op {
        Op::Union | Op::Intersection => {
            let (r, want) = if op == Op::Union {
                (union(&a.val, &b.val), a.seen | b.seen)
            } else {
                (intersection(&a.val, &b.val), a.seen & b.seen)
            };
            c.transitions += 1;
            let got = mask(&r, k);
            if got != want {
                return Err(format!(
                    "operands contain {} and {}; result should contain {} but contains {} of 0..={}; result is {:?}",
                    cells(a.seen),
                    cells(b.seen),
                    cells(want),
                    cells(got),
                    2 * k,
                    r
                ));
            }
        }
        Op::Emptiness => {
            let want = a.seen & b.seen == 0;
            let (d, i) = (disjoint(&a.val, &b.val), intersects(&a.val, &b.val));
            c.transitions += 2;
            let (d2, i2) = if swapped_too {
                c.transitions += 2;
                (disjoint(&b.val, &a.val), intersects(&b.val, &a.val))
            } else {
                (d, i)
            };
            if d != want || i == want || d2 != want || i2 == want {
                return Err(format!(
                    "operands contain {} and {}; disjoint is {d} (swapped {d2}), intersects is {i} (swapped {i2})",
                    cells(a.seen),
                    cells(b.seen)
                ));
            }
        }
        Op::Complement => unreachable!(),
    }
    Ok(())
}

fn unary(op: Op, a: &Node, k: usize, c: &mut Counters) -> Result<(), String> {
    match op {
        Op::Complement => {
            let r = complement(&a.val);
            c.transitions += 1;
            let got = mask(&r, k);
            let want = !a.seen & full(k);
            if got != want {
                return Err(format!(
                    "operand contains {}; complement should contain {} but contains {} of 0..={}; it is {r:?}",
                    cells(a.seen),
                    cells(want),
                    cells(got),
                    2 * k
                ));
            }
            let rr = complement(&r);
            c.transitions += 1;
            let got = mask(&rr, k);
            if got != a.seen {
                return Err(format!(
                    "operand contains {}; double complement contains {}; it is {rr:?}",
                    cells(a.seen),
                    cells(got)
                ));
            }
        }
        Op::Emptiness => {
            let got = is_empty(&a.val);
            c.transitions += 1;
            if got != (a.seen == 0) {
                return Err(format!("contains {}; is_empty is {got}", cells(a.seen)));
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn op_name(op: Op) -> &'static str {
    match op {
        Op::Union => "union",
        Op::Intersection => "intersection",
        Op::Complement => "complement",
        Op::Emptiness => "disjoint/intersects",
    }
}

/// All pairs of `xs` and `ys` (and swapped, unless they are the same list).
fn pairs(run: &mut Run, op: Op, name: &str, xs: &[Node], ys: &[Node], k: usize) {
    let same = std::ptr::eq(xs, ys);
    run.family(name, xs.len(), |i, ctx| {
        ctx.c.states += 1;
        for j in 0..ys.len() {
            let (a, b) = (&xs[i], &ys[j]);
            ctx.case(
                || format!("a = {}; b = {}; a.{}(b)", expr(xs, i), expr(ys, j), op_name(op)),
                |c| binary(op, a, b, !same, k, c),
            );
            if !same && op != Op::Emptiness {
                ctx.case(
                    || format!("a = {}; b = {}; b.{}(a)", expr(xs, i), expr(ys, j), op_name(op)),
                    |c| binary(op, b, a, false, k, c),
                );
            }
        }
    });
}

fn singles(run: &mut Run, op: Op, name: &str, xs: &[Node], k: usize) {
    run.family(name, xs.len().div_ceil(64), |blk, ctx| {
        for i in blk * 64..xs.len().min(blk * 64 + 64) {
            ctx.c.states += 1;
            ctx.case(
                || {
                    let f = if op == Op::Complement { "complement()" } else { "is_empty()" };
                    format!("a = {}; a.{f}", expr(xs, i))
                },
                |c| unary(op, &xs[i], k, c),
            );
        }
    });
}

/// A set of many pieces: cell membership and how it is built.
pub struct Wide {
    pub n: usize,
    pub shape: &'static str,
    pub order: &'static str,
    pub low: bool,
    pub high: bool,
    pub cells: usize,
    pub val: Val<V>,
    pub has: Vec<bool>,
}
impl Wide {
    pub fn expr(&self) -> String {
        format!(
            "wide set of {} {} pieces{}{} over cells 0..{}, united in {} order",
            self.n,
            self.shape,
            if self.low { " plus (..3)" } else { "" },
            if self.high { " plus an unbounded top" } else { "" },
            self.cells,
            self.order
        )
    }
}

/// The pieces of a shape: (start, start included, end, end included).
pub fn shape_pieces(n: usize, shape: &str) -> Vec<(V, bool, V, bool)> {
    (0..n)
        .map(|i| {
            let b = 4 * i as V + 5;
            match shape {
                "half-open" => (b, true, b + 2, false),
                "mixed-bounds" => (b, i % 2 == 0, b + 2, i / 2 % 2 == 0),
                "touching" => (b, true, b + 4, false),
                "point" => (b, true, b, true),
                "open" => (b, false, b + 2, false),
                "offset" => (b + 2, false, b + 4, true),
                _ => unreachable!(),
            }
        })
        .collect()
}

fn observe(v: &Val<V>, cells: usize) -> Vec<bool> {
    (0..cells).map(|c| v.contains(c as V)).collect()
}

pub fn wide(n: usize, shape: &'static str, order: &'static str, low: bool, high: bool) -> Option<Wide> {
    let cells = 4 * n + 13;
    let ps = shape_pieces(n, shape);
    let ix = build_order(n, order);
    note("union", || format!("building a wide set of {n} {shape} pieces in {order} order"));
    let val = catch(|| {
        let mut v = Val::BS(rangetools::BoundedSet::empty());
        for i in ix {
            let (a, ai, b, bi) = ps[i];
            v = union_v(v, br(a, ai, b, bi).0);
        }
        if low {
            v = union_v(v, ur(3, false).0);
        }
        if high {
            v = union_v(v, lr(cells as V - 4, true).0);
        }
        v
    })
    .ok()?;
    note_none();
    let has = observe(&val, cells);
    Some(Wide {
        n,
        shape,
        order,
        low,
        high,
        cells,
        val,
        has,
    })
}

fn build_order(n: usize, order: &str) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..n).collect();
    match order {
        "ascending" => {}
        "descending" => ix.reverse(),
        "odd-even" => ix.sort_by_key(|i| (i % 2 == 0, *i)),
        "inside-out" => ix.sort_by_key(|&i| (2 * i).abs_diff(n)),
        _ => unreachable!(),
    }
    ix
}

/// Unites the pieces of a wide set one by one (the unbounded ends after `tails_at` of them),
/// judging the result of every step.
fn assemble(ctx: &mut Ctx, n: usize, shape: &str, order: &str, low: bool, high: bool, tails_at: usize) {
    let cells = 4 * n + 13;
    let ps = shape_pieces(n, shape);
    let mut parts: Vec<(Val<V>, String)> = build_order(n, order)
        .into_iter()
        .map(|i| br(ps[i].0, ps[i].1, ps[i].2, ps[i].3))
        .collect();
    let mut tails = vec![];
    if low {
        tails.push(ur(3, false));
    }
    if high {
        tails.push(lr(cells as V - 4, true));
    }
    parts.splice(tails_at..tails_at, tails);
    ctx.c.states += 1;
    ctx.case(
        || format!("uniting {n} {shape} pieces in {order} order with ends low={low} high={high} after {tails_at}"),
        |c| {
            let mut v = Val::BS(rangetools::BoundedSet::empty());
            let mut has = vec![false; cells];
            for (k, (p, text)) in parts.iter().enumerate() {
                v = if k % 2 == 0 { union_v(v, p.clone()) } else { union_v(p.clone(), v) };
                c.transitions += 1;
                let all = n <= 20 || k + 1 == parts.len() || k % 16 == 0;
                for x in 0..cells {
                    let new = p.contains(x as V);
                    has[x] |= new;
                    if (all || new) && v.contains(x as V) != has[x] {
                        return Err(format!("after adding {text} (step {k}) the set {} {x}", if has[x] { "misses" } else { "wrongly contains" }));
                    }
                }
            }
            Ok(())
        },
    );
}

fn wide_pair(
    op: Op,
    a: &Val<V>,
    ah: &[bool],
    b: &Val<V>,
    bh: impl Fn(usize) -> bool,
    c: &mut Counters,
) -> Result<(), String> {
    let n = ah.len();
    match op {
        Op::Union | Op::Intersection => {
            let r = if op == Op::Union { union(a, b) } else { intersection(a, b) };
            c.transitions += 1;
            for x in 0..n {
                let want = if op == Op::Union { ah[x] || bh(x) } else { ah[x] && bh(x) };
                if r.contains(x as V) != want {
                    return Err(format!("result {} {x}", if want { "misses" } else { "wrongly contains" }));
                }
            }
        }
        Op::Emptiness => {
            let want = !(0..n).any(|x| ah[x] && bh(x));
            let (d, i) = (disjoint(a, b), intersects(a, b));
            c.transitions += 2;
            if d != want || i == want {
                return Err(format!("disjoint is {d}, intersects is {i}, but disjoint should be {want}"));
            }
        }
        Op::Complement => unreachable!(),
    }
    Ok(())
}

fn wide_families(run: &mut Run, op: Op) {
    let thorough = run.thorough;
    let shapes = ["half-open", "mixed-bounds", "touching", "point", "open", "offset"];
    let orders = ["ascending", "descending", "odd-even", "inside-out"];
    let sizes: Vec<usize> = if thorough {
        (5..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257, 300, 520, 1030]).collect()
    } else {
        (5..=12).chain([16, 17, 32, 33, 64, 65, 129, 260, 520, 1030]).collect()
    };
    let mut specs = vec![];
    for &n in &sizes {
        for (si, &shape) in shapes.iter().enumerate() {
            for (oi, &order) in orders.iter().enumerate() {
                // Large sets: each shape with one build order, rotating.
                if n > 20 && (si + oi) % orders.len() != 0 {
                    continue;
                }
                for t in 0..4 {
                    // Very large sets: every shape with one choice of unbounded ends, rotating.
                    if n > 200 && (si + t) % 4 != 0 {
                        continue;
                    }
                    specs.push((n, shape, order, t & 1 == 1, t & 2 == 2));
                }
            }
        }
    }
    if op == Op::Complement {
        run.family("wide sets: complement", specs.len(), |i, ctx| {
            let (n, shape, order, low, high) = specs[i];
            note("union", || "building".into());
            let Some(w) = wide(n, shape, order, low, high) else { return };
            ctx.c.states += 1;
            ctx.case(
                || format!("complement of {}", w.expr()),
                |c| {
                    let r = complement(&w.val);
                    let rr = complement(&r);
                    c.transitions += 2;
                    for x in 0..w.cells {
                        if r.contains(x as V) == w.has[x] {
                            return Err(format!("operand and complement agree on {x}"));
                        }
                        if rr.contains(x as V) != w.has[x] {
                            return Err(format!("double complement differs on {x}"));
                        }
                    }
                    Ok(())
                },
            );
        });
        return;
    }
    if op == Op::Union {
        // Assembling them, every step judged, the unbounded ends added first, halfway or last.
        run.family("wide sets: assembled step by step", specs.len(), |i, ctx| {
            let (n, shape, order, low, high) = specs[i];
            for tails in if low || high { 0..3 } else { 2..3 } {
                assemble(ctx, n, shape, order, low, high, [0, n / 2, n][tails]);
            }
        });
    }
    specs.retain(|s| s.0 <= 300);
    run.family("wide sets x ranges", specs.len(), |i, ctx| {
        let (n, shape, order, low, high) = specs[i];
        let Some(w) = wide(n, shape, order, low, high) else { return };
        ctx.c.states += 1;
        let e = w.expr();
        let top = w.cells - 1;
        // Endpoints (odd, so that a cell lies between any two): all of them for small sets, fewer
        // of them plus those around both ends otherwise.
        let step = if n <= 12 {
            2
        } else if n <= 17 {
            4
        } else if n <= 33 {
            6
        } else if n <= 65 {
            14
        } else {
            (n / 6) | 1
        };
        let step = step + step % 2;
        let mut eps: Vec<usize> = (1..top).step_by(step).collect();
        eps.extend([3, 5, 7, 9, top - 11, top - 9, top - 7, top - 5, top - 3, top - 1]);
        eps.sort();
        eps.dedup();
        assert!(eps.iter().all(|e| e % 2 == 1));
        let mut kind = 0;
        for &a in &eps {
            for &b in &eps {
                if b < a {
                    continue;
                }
                let kinds: &[(bool, bool)] = if n <= 6 {
                    &[(true, true), (true, false), (false, true), (false, false)]
                } else {
                    kind = (kind + 1) % 4;
                    match kind {
                        0 => &[(true, true)],
                        1 => &[(true, false)],
                        2 => &[(false, true)],
                        _ => &[(false, false)],
                    }
                };
                for &(ai, bi) in kinds {
                    let r = br(a as V, ai, b as V, bi);
                    ctx.case(
                        || format!("a = {e}; b = {}; a.{}(b)", r.1, op_name(op)),
                        |c| wide_pair(op, &w.val, &w.has, &r.0, |x| r.0.contains(x as V), c),
                    );
                    if kind % 2 == 0 {
                        ctx.case(
                            || format!("a = {e}; b = {}; b.{}(a)", r.1, op_name(op)),
                            |c| {
                                let bh: Vec<bool> = observe(&r.0, w.cells);
                                wide_pair(op, &r.0, &bh, &w.val, |x| w.has[x], c)
                            },
                        );
                    }
                }
            }
            for inc in [true, false] {
                for r in [lr(a as V, inc), ur(a as V, inc)] {
                    ctx.case(
                        || format!("a = {e}; b = {}; a.{}(b)", r.1, op_name(op)),
                        |c| wide_pair(op, &w.val, &w.has, &r.0, |x| r.0.contains(x as V), c),
                    );
                }
            }
        }
        if op == Op::Emptiness {
            ctx.case(
                || format!("a = {e}; a.is_empty()"),
                |c| {
                    c.transitions += 1;
                    if is_empty(&w.val) {
                        return Err("is_empty is true".into());
                    }
                    Ok(())
                },
            );
        }
    });
    // Two wide sets, of equal or different size, all shapes and kinds.
    let n2: Vec<(usize, usize)> = if thorough {
        vec![(5, 5), (6, 9), (9, 6), (16, 17), (33, 33), (64, 20), (65, 65), (129, 129), (260, 260), (520, 520)]
    } else {
        vec![(5, 5), (6, 9), (9, 6), (17, 17), (40, 33), (110, 130), (260, 260), (520, 520)]
    };
    let mut items = vec![];
    for &(n, m) in &n2 {
        for &s in &shapes {
            for &s2 in &shapes {
                items.push((n, m, s, s2));
            }
        }
    }
    run.family("wide sets x wide sets", items.len(), |i, ctx| {
        let (n, m, s, s2) = items[i];
        for t in 0..4 {
            for t2 in 0..4 {
                if n > 200 && (t + t2 + i) % 8 != 0 {
                    continue;
                }
                let Some(a) = wide(n, s, orders[t], t & 1 == 1, t & 2 == 2) else { continue };
                let Some(b) = wide(m, s2, orders[3 - t2], t2 & 1 == 1, t2 & 2 == 2) else { continue };
                ctx.c.states += 1;
                ctx.case(
                    || format!("a = {}; b = {}; a.{}(b)", a.expr(), b.expr(), op_name(op)),
                    |c| {
                        let top = a.cells.max(b.cells);
                        let ah = observe(&a.val, top);
                        let bh = observe(&b.val, top);
                        wide_pair(op, &a.val, &ah, &b.val, |x| bh[x], c)
                    },
                );
            }
        }
    });
}

/// A history that ends in a set: pieces united in an order, nothing copied on the way, so that the
/// set lies in memory as that history left it.
#[derive(Clone)]
pub struct Recipe {
    pub parts: Vec<(Val<V>, String)>,
    /// Whether each part is united with what is there (`part.union(set)`) rather than the reverse.
    pub flipped: bool,
}
pub const RECIPE_CELLS: usize = 33;
impl Recipe {
    pub fn expr(&self) -> String {
        let v: Vec<&str> = self.parts.iter().map(|p| &p.1[..]).collect();
        format!("the union of {} in this order{}", v.join(", "), if self.flipped { " (each .union(the rest))" } else { "" })
    }
    pub fn build(&self) -> Val<V> {
        let mut v = Val::BS(rangetools::BoundedSet::empty());
        for (p, _) in &self.parts {
            v = if self.flipped { union_v(p.clone(), v) } else { union_v(v, p.clone()) };
        }
        v
    }
}
fn permute(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permute(n - 1) {
        for at in 0..=p.len() {
            let mut q = p.clone();
            q.insert(at, n - 1);
            out.push(q);
        }
    }
    out
}
/// Up to five pieces in every order, one of them possibly joining two others, with and without
/// unbounded ends (first or last).
pub fn recipes(thorough: bool) -> Vec<Recipe> {
    let mut v = vec![];
    let shapes = ["half-open", "mixed-bounds", "touching", "point"];
    for n in 2..=5 {
        for (si, shape) in shapes.iter().enumerate() {
            for bridge in [None, Some((7, true, 13, false)), Some((10, false, 14, true))] {
                let m = n + bridge.is_some() as usize;
                if m > if thorough { 6 } else { 5 } || !thorough && m == 5 && si > 1 {
                    continue;
                }
                let ps: Vec<_> = shape_pieces(n, shape).into_iter().chain(bridge).collect();
                for perm in permute(m) {
                    let parts: Vec<_> = perm.iter().map(|&i| br(ps[i].0, ps[i].1, ps[i].2, ps[i].3)).collect();
                    for t in 0..4 {
                        for (flipped, first) in [(false, false), (false, true), (true, false), (true, true)] {
                            if first && t == 0 || !thorough && m == 5 && (flipped != first) {
                                continue;
                            }
                            let mut parts = parts.clone();
                            let mut ends = vec![];
                            if t & 1 == 1 {
                                ends.push(ur(3, false));
                            }
                            if t & 2 == 2 {
                                ends.push(lr(4 * n as V + 9, true));
                            }
                            let at = if first { 0 } else { parts.len() };
                            parts.splice(at..at, ends);
                            v.push(Recipe { parts, flipped });
                        }
                    }
                }
            }
        }
    }
    v
}

/// Operations on sets exactly as their histories left them.
fn histories(run: &mut Run, op: Op) {
    let rs = recipes(run.thorough);
    // Operands to meet them: ranges, and sets laid out in several ways.
    let mut others: Vec<Recipe> = vec![];
    let mut kind = 0;
    for a in (3..29).step_by(2) {
        for b in (a..29).step_by(if run.thorough { 2 } else { 4 }) {
            kind = (kind + 1) % 4;
            others.push(Recipe { parts: vec![br(a, kind & 1 == 0, b, kind & 2 == 0)], flipped: false });
        }
    }
    let ranges = others.len();
    for a in (3..29).step_by(2) {
        kind += 1;
        others.push(Recipe { parts: vec![lr(a, kind % 2 == 0)], flipped: true });
        others.push(Recipe { parts: vec![ur(a, kind % 2 == 1)], flipped: true });
    }
    let bare = others.len();
    for shape in ["offset", "mixed-bounds"] {
        let ps = shape_pieces(4, shape);
        for perm in [[0, 1, 2, 3], [3, 2, 1, 0], [2, 3, 1, 0], [1, 2, 3, 0]] {
            for t in 0..4 {
                let mut parts: Vec<_> = perm.iter().map(|&i| br(ps[i].0, ps[i].1, ps[i].2, ps[i].3)).collect();
                if t & 1 == 1 {
                    parts.push(ur(5, true));
                }
                if t & 2 == 2 {
                    parts.push(lr(21, false));
                }
                others.push(Recipe { parts, flipped: false });
            }
        }
    }
    let fresh = |i: usize| if i < bare { others[i].parts[0].0.clone() } else { others[i].build() };
    let name = |i: usize| if i < bare { others[i].parts[0].1.clone() } else { others[i].expr() };
    let Ok(has): Result<Vec<Vec<bool>>, _> = catch(|| (0..others.len()).map(|i| observe(&fresh(i), RECIPE_CELLS)).collect()) else { return };
    run.family("sets as their histories left them (no copies)", rs.len().div_ceil(4), |blk, ctx| {
        for r in &rs[blk * 4..rs.len().min(blk * 4 + 4)] {
            note("union", || r.expr());
            let Ok(h) = catch(|| observe(&r.build(), RECIPE_CELLS)) else { continue };
            ctx.c.states += 1;
            let same = |v: &Val<V>, want: &dyn Fn(usize) -> bool, what: &str| -> Result<(), String> {
                match (0..RECIPE_CELLS).find(|x| v.contains(*x as V) != want(*x)) {
                    Some(x) => Err(format!("{what} {} {x}", if want(x) { "misses" } else { "wrongly contains" })),
                    None => Ok(()),
                }
            };
            if op == Op::Complement {
                ctx.case(
                    || format!("a = {}; a.complement().complement()", r.expr()),
                    |c| {
                        c.transitions += 2;
                        let v = complement_v(r.build());
                        same(&v, &|x| !h[x], "the complement")?;
                        same(&complement_v(v), &|x| h[x], "the complement of the complement")
                    },
                );
                continue;
            }
            if op == Op::Emptiness {
                ctx.case(
                    || format!("a = {}; a.is_empty()", r.expr()),
                    |c| {
                        c.transitions += 1;
                        if is_empty(&r.build()) {
                            return Err("is_empty is true".into());
                        }
                        Ok(())
                    },
                );
            }
            for i in 0..others.len() {
                for turned in [false, true] {
                    // Bounded ranges: one way round each.
                    if i < ranges && turned != (i % 2 == 0) {
                        continue;
                    }
                    ctx.case(
                        || {
                            let (a, b) = if turned { (name(i), r.expr()) } else { (r.expr(), name(i)) };
                            format!("a = {a}; b = {b}; a.{}(b)", op_name(op))
                        },
                        |c| {
                            let two = || if turned { (fresh(i), r.build()) } else { (r.build(), fresh(i)) };
                            c.transitions += 1;
                            match op {
                                Op::Union => {
                                    let (a, b) = two();
                                    same(&union_v(a, b), &|x| h[x] || has[i][x], "the union")
                                }
                                Op::Intersection => {
                                    let (a, b) = two();
                                    same(&intersection_v(a, b), &|x| h[x] && has[i][x], "the intersection")
                                }
                                _ => {
                                    let want = !(0..RECIPE_CELLS).any(|x| h[x] && has[i][x]);
                                    let (a, b) = two();
                                    let d = disjoint_v(a, b);
                                    let (a, b) = two();
                                    let n = intersects_v(a, b);
                                    c.transitions += 1;
                                    if d != want || n == want {
                                        return Err(format!("disjoint is {d}, intersects is {n}, but disjoint should be {want}"));
                                    }
                                    Ok(())
                                }
                            }
                        },
                    );
                }
            }
        }
    });
}

pub fn main(op: Op) -> ! {
    let mut run = Run::new(match op {
        Op::Union => &["union"],
        Op::Intersection => &["intersection"],
        Op::Complement => &["complement"],
        Op::Emptiness => &["none"],
    });
    let thorough = run.thorough;
    if op == Op::Union || op == Op::Intersection || op == Op::Emptiness {
        let r4 = ranges(4);
        pairs(&mut run, op, "ranges x ranges, 4 endpoints", &r4, &r4, 4);
    }
    let (n3, capped) = run.stage("sets3", || reachable(3, 20_000));
    if capped {
        run.cap("reachable values over 3 endpoints exceed 20000");
    }
    let k5 = if thorough || op == Op::Complement { 6 } else { 5 };
    let all5 = run.stage("sets5", || few_pieces(k5, 2 * k5 - 1, 2 * k5 + 1));
    match op {
        Op::Complement | Op::Emptiness => {
            let (n4, capped) = run.stage("sets4", || reachable(4, 60_000));
            if capped {
                run.cap("reachable values over 4 endpoints exceed 60000");
            }
            singles(&mut run, op, "all reachable values, 3 endpoints", &n3, 3);
            singles(&mut run, op, "all reachable values, 4 endpoints", &n4, 4);
            singles(&mut run, op, &format!("all united sets, {k5} endpoints"), &all5, k5);
        }
        _ => {}
    }
    if op != Op::Complement {
        pairs(&mut run, op, "all reachable values x same, 3 endpoints", &n3, &n3, 3);
        let (n4, capped) = run.stage("sets4p", || reachable(4, 12_000));
        if capped {
            run.cap("reachable values over 4 endpoints exceed 12000");
        }
        pairs(&mut run, op, "all reachable values x same, 4 endpoints", &n4, &n4, 4);
        let kf = 8;
        let few = run.stage("few", || few_pieces(kf, 2, if thorough { 3 } else { 2 }));
        pairs(&mut run, op, &format!("sets of up to 2-3 pieces x same, {kf} endpoints"), &few, &few, kf);
        let rk: Vec<Node> = ranges(k5)
            .into_iter()
            .filter(|n| matches!(n.val, Val::BR(_) | Val::LR(_) | Val::UR(_)))
            .collect();
        pairs(&mut run, op, &format!("all united sets x crate ranges, {k5} endpoints"), &all5, &rk, k5);
        if thorough {
            let all = run.stage("all5", || few_pieces(5, 9, 11));
            pairs(&mut run, op, "all united sets x same, 5 endpoints", &all, &all, 5);
        }
    }
    histories(&mut run, op);
    wide_families(&mut run, op);
    run.finish()
}
