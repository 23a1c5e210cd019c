//! C07: == and Hash do not depend on how a union was assembled.

use mc::engine::*;
use mc::order::*;
use mc::val::*;

/// `Err` unless x == y (both ways) with equal hashes; different types are not comparable by ==.
fn eq(x: &Val<V>, y: &Val<V>, what: &str, c: &mut Counters) -> Result<(), String> {
    c.transitions += 1;
    match (x.same(y), y.same(x)) {
        (Some(true), Some(true)) => {
            if x.hash64() != y.hash64() {
                return Err(format!("{what}: equal but hashed differently: {x:?} and {y:?}"));
            }
            Ok(())
        }
        (None, None) => Ok(()),
        _ => Err(format!("{what}: not equal: {x:?} and {y:?}")),
    }
}

fn pair_laws(run: &mut Run, name: &str, nodes: &[Node], k: usize) {
    let empty_set: Val<V> = Val::BS(rangetools::BoundedSet::empty());
    let empty: Val<V> = Val::E(rangetools::EmptyRange::new());
    run.family(&format!("pairs: commutativity, ==, Hash ({name})"), nodes.len(), |i, ctx| {
        ctx.c.states += 1;
        let a = &nodes[i];
        ctx.case(
            || format!("a = {}; laws of one operand", expr(nodes, i)),
            |c| {
                eq(&a.val, &a.val.clone(), "a == a.clone()", c)?;
                let s = to_set(&a.val);
                eq(&union(&a.val, &a.val), &s, "a.union(a) == a.to_set()", c)?;
                eq(&union(&s, &s), &s, "s.union(s) == s", c)?;
                eq(&intersection(&a.val, &a.val), &to_inner(&a.val), "a.intersection(a) == a.to_inner()", c)?;
                eq(&intersection(&s, &s), &s, "s.intersection(s) == s", c)?;
                eq(&union(&a.val, &empty), &a.val, "a.union(EmptyRange) == a", c)?;
                eq(&union(&empty, &a.val), &a.val, "EmptyRange.union(a) == a", c)?;
                eq(&union(&a.val, &empty_set), &s, "a.union(BoundedSet::empty()) == a.to_set()", c)?;
                eq(&union(&empty_set, &a.val), &s, "BoundedSet::empty().union(a) == a.to_set()", c)?;
                Ok(())
            },
        );
        for j in 0..nodes.len() {
            let b = &nodes[j];
            ctx.case(
                || format!("a = {}; b = {}", expr(nodes, i), expr(nodes, j)),
                |c| {
                    if j <= i {
                        eq(&union(&a.val, &b.val), &union(&b.val, &a.val), "a.union(b) == b.union(a)", c)?;
                        eq(
                            &intersection(&a.val, &b.val),
                            &intersection(&b.val, &a.val),
                            "a.intersection(b) == b.intersection(a)",
                            c,
                        )?;
                    }
                    let (x, y) = (a.val.same(&b.val), b.val.same(&a.val));
                    if x != y {
                        return Err(format!("== is not symmetric: {:?}, {:?}", a.val, b.val));
                    }
                    if x == Some(true) && (a.seen != b.seen || a.val.hash64() != b.val.hash64()) {
                        return Err(format!("equal but different values or hashes: {:?}, {:?}", a.val, b.val));
                    }
                    if i == j && x != Some(true) {
                        return Err(format!("== is not reflexive: {:?}", a.val));
                    }
                    Ok(())
                },
            );
        }
        let _ = k;
    });
}

fn triples(run: &mut Run, name: &str, xs: &[Node], ys: &[Node], zs: &[Node]) {
    run.family(&format!("triples: associativity ({name})"), xs.len(), |i, ctx| {
        ctx.c.states += 1;
        let a = &xs[i].val;
        for j in 0..ys.len() {
            let b = &ys[j].val;
            let Ok(ab) = catch(|| union(a, b)) else { continue };
            for k in 0..zs.len() {
                let cc = &zs[k].val;
                ctx.case(
                    || format!("a = {}; b = {}; c = {}", expr(xs, i), expr(ys, j), expr(zs, k)),
                    |c| {
                        eq(&union(&ab, cc), &union(a, &union(b, cc)), "(a.union(b)).union(c) == a.union(b.union(c))", c)?;
                        // == is transitive.
                        if a.same(b) == Some(true) && b.same(cc) == Some(true) && a.same(cc) != Some(true) {
                            return Err("a == b and b == c but not a == c".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for at in 0..=p.len() {
            let mut q = p.clone();
            q.insert(at, n - 1);
            out.push(q);
        }
    }
    out
}

/// Adds every choice of `n` of the ranges in every order.
fn orders(run: &mut Run, name: &str, rs: &[Node], n: usize) {
    let perms = permutations(n);
    let m = rs.len();
    run.family(&format!("{n} ranges united in every order ({name})"), m, |first, ctx| {
        let mut pick: Vec<usize> = (0..n).map(|i| first + i).collect();
        if *pick.last().unwrap() >= m {
            return;
        }
        loop {
            ctx.c.states += 1;
            ctx.case(
                || {
                    let v: Vec<String> = pick.iter().map(|&i| expr(rs, i)).collect();
                    format!("BoundedSet::empty() united with each of {} in every order", v.join(", "))
                },
                |c| {
                    let mut base: Option<Val<V>> = None;
                    for p in &perms {
                        let mut v = Val::BS(rangetools::BoundedSet::empty());
                        for &x in p {
                            v = union_v(v, rs[pick[x]].val.clone());
                            c.transitions += 1;
                        }
                        match &base {
                            None => base = Some(v),
                            Some(b) => eq(b, &v, "different order", c)?,
                        }
                    }
                    Ok(())
                },
            );
            if ctx.failed() {
                return;
            }
            // Next combination with the same first element.
            let mut i = n;
            loop {
                if i == 1 {
                    return;
                }
                i -= 1;
                if pick[i] < m - (n - i) {
                    break;
                }
            }
            pick[i] += 1;
            for j in i + 1..n {
                pick[j] = pick[j - 1] + 1;
            }
        }
    });
}

/// Many ranges: every rotation, reversal and interleaving of the same ranges.
fn wide_orders(run: &mut Run) {
    use mc::setops::shape_pieces;
    let shapes = ["half-open", "mixed-bounds", "touching", "point", "open", "offset"];
    let sizes: &[usize] = if run.thorough { &[6, 7, 8, 15, 16, 17, 33, 65, 129, 260, 520] } else { &[6, 7, 8, 16, 17, 33, 65, 129, 260] };
    let mut items = vec![];
    for &n in sizes {
        for s in shapes {
            for tail in 0..4 {
                items.push((n, s, tail));
            }
        }
    }
    run.family("many ranges united in many orders", items.len(), |x, ctx| {
        let (n, shape, tail) = items[x];
        let mut parts: Vec<Val<V>> = shape_pieces(n, shape)
            .into_iter()
            .map(|(a, ai, b, bi)| br(a, ai, b, bi).0)
            .collect();
        // A range that joins three pieces, and the tails.
        let mid = 4 * (n / 2) as V + 5;
        parts.push(br(mid, false, mid + 8, true).0);
        if tail & 1 == 1 {
            parts.push(ur(6, true).0);
        }
        if tail & 2 == 2 {
            parts.push(lr(4 * n as V, true).0);
        }
        let m = parts.len();
        ctx.c.states += 1;
        let build = |order: &mut dyn Iterator<Item = usize>| {
            let mut v = Val::BS(rangetools::BoundedSet::empty());
            for i in order {
                v = union_v(v, parts[i].clone());
            }
            v
        };
        let base = match catch(|| build(&mut (0..m))) {
            Ok(b) => b,
            Err(_) => return,
        };
        // Every rotation of up to forty ranges, every 13th of more.
        for rot in (0..m).step_by(if m <= 40 { 1 } else { 13 }) {
            for way in 0..5 {
                ctx.case(
                    || format!("{n} {shape} pieces, tails {tail}, rotation {rot}, way {way}"),
                    |c| {
                        let at = |i: usize| (i + rot) % m;
                        let v = match way {
                            0 => build(&mut (0..m).map(at)),
                            1 => build(&mut (0..m).rev().map(at)),
                            2 => build(&mut (0..m).map(|i| if i % 2 == 0 { i / 2 } else { m - 1 - i / 2 }).map(at)),
                            3 => build(&mut (0..m).chain(0..m).map(at)),
                            _ => {
                                // Two halves, united as sets.
                                let x = build(&mut (0..m / 2).map(at));
                                let y = build(&mut (m / 2..m).map(at));
                                union_v(y, x)
                            }
                        };
                        c.transitions += m as u64;
                        eq(&base, &v, "different order", c)?;
                        eq(&union(&v, &base), &base, "idempotent", c)?;
                        eq(&intersection(&v, &base), &base, "intersection idempotent", c)
                    },
                );
            }
        }
    });
}

fn crate_ranges(k: usize, only_nonempty: bool) -> Vec<Node> {
    ranges(k)
        .into_iter()
        .filter(|n| matches!(n.val, Val::BR(_) | Val::LR(_) | Val::UR(_)))
        .filter(|n| !only_nonempty || n.seen != 0)
        .collect()
}

fn main() {
    let mut run = Run::new(&["union", "intersection"]);
    let thorough = run.thorough;
    let (n2, _) = run.stage("sets2", || reachable(2, 20_000));
    let (n3, c3) = run.stage("sets3", || reachable(3, 20_000));
    if c3 {
        run.cap("more than 20000 reachable values over 3 endpoints");
    }
    pair_laws(&mut run, "all reachable values, 3 endpoints", &n3, 3);
    triples(&mut run, "all reachable values, 2 endpoints", &n2, &n2, &n2);
    let r3 = crate_ranges(3, false);
    triples(&mut run, "all reachable values x ranges x ranges, 3 endpoints", &n3, &r3, &r3);
    let r4 = crate_ranges(4, true);
    for n in 2..=3 {
        orders(&mut run, "4 endpoints", &r4, n);
    }
    orders(&mut run, "3 endpoints", &crate_ranges(3, true), 4);
    let (n4, c4) = run.stage("sets4", || reachable(4, 20_000));
    if c4 {
        run.cap("more than 20000 reachable values over 4 endpoints");
    }
    pair_laws(&mut run, "all reachable values, 4 endpoints", &n4, 4);
    if thorough {
        triples(&mut run, "sets x sets x ranges, 3 endpoints", &n3, &n3, &r3);
        orders(&mut run, "4 endpoints", &r4, 4);
        orders(&mut run, "3 endpoints", &crate_ranges(3, true), 5);
    }
    wide_orders(&mut run);
    run.finish()
}
