//! C06: any chain of operations denotes the composed set. Reachable values are explored breadth
//! first to a fixpoint; every value carries the mask its history prescribes (the model), every
//! transition runs the real code, and every new value is also iterated.

use mc::engine::*;
use mc::order::*;
use mc::val::*;
use std::collections::HashMap;
use std::sync::Mutex;

/// Checks a result against the model: membership and, if it can be iterated, iteration.
fn agree(d: &Dom, v: &Val<V>, model: Mask, c: &mut Counters) -> Result<(), String> {
    let got = d.mask(v);
    if got != model {
        return Err(format!(
            "the operations prescribe {} but the result contains {} of {}..={}; it is {v:?}",
            d.cells(model),
            d.cells(got),
            d.lo(),
            d.hi()
        ));
    }
    let _ = c;
    Ok(())
}

fn iterate(d: &Dom, v: &Val<V>, model: Mask, c: &mut Counters) -> Result<(), String> {
    let want: Vec<V> = (d.lo()..=d.hi())
        .filter(|x| model >> (x - d.lo()) & 1 == 1)
        .map(|x| x as V)
        .collect();
    let n = want.len() + 2;
    let bounded = |got: Vec<V>, back: Option<Vec<V>>| {
        if got != want {
            return Err(format!("iterating yields {got:?} instead of {want:?}; it is {v:?}"));
        }
        if let Some(mut b) = back {
            b.reverse();
            if b != want {
                return Err(format!("iterating backwards yields {b:?} (reversed) instead of {want:?}; it is {v:?}"));
            }
        }
        Ok(())
    };
    c.transitions += 1;
    match v.clone() {
        Val::BR(r) => bounded(r.into_iter().take(n).collect(), Some(r.into_iter().rev().take(n).collect())),
        Val::BS(s) => bounded(s.clone().into_iter().take(n).collect(), Some(s.into_iter().rev().take(n).collect())),
        Val::E(e) => bounded(e.into_iter().collect(), None),
        Val::LR(_) | Val::LS(_) => {
            // Only values below the largest of the type are specified.
            let want: Vec<V> = want.into_iter().filter(|x| *x < V::MAX).collect();
            let next = want.len();
            let got: Vec<V> = match v.clone() {
                Val::LR(r) => {
                    if r.start.to_bound() == rangetools::Bound::Excluded(V::MAX) {
                        return Ok(());
                    }
                    r.into_iter().take(next).collect()
                }
                Val::LS(s) => {
                    if want.is_empty() {
                        return Ok(());
                    }
                    // The tail must itself start below the end of the type.
                    match catch(|| s.into_iter().take(next).collect::<Vec<V>>()) {
                        Ok(g) => g,
                        Err(p) => {
                            // A tail that starts after the largest value cannot be iterated.
                            if d.hi() == V::MAX as usize {
                                return Ok(());
                            }
                            return Err(format!("iterating panicked: {p}; it is {v:?}"));
                        }
                    }
                }
                _ => unreachable!(),
            };
            if got != want {
                return Err(format!("iterating yields {got:?} instead of {want:?}; it is {v:?}"));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

struct Space {
    nodes: Vec<Node>,
    ids: HashMap<String, usize>,
}

fn explore(run: &mut Run, d: Dom, cap: usize, set_pairs: bool) {
    let tag = format!("{} endpoints from {} step {}", d.k, d.base, d.stride);
    let mut sp = Space {
        nodes: ranges_over(d),
        ids: HashMap::new(),
    };
    // For ranges the observed mask is the model, computed from std membership or from the bounds.
    for n in &mut sp.nodes {
        n.seen = range_model(&d, &n.val);
    }
    for (i, n) in sp.nodes.iter().enumerate() {
        sp.ids.insert(key(&n.val, n.seen), i);
    }
    let ranges_n = sp.nodes.len();
    run.family(&format!("ranges ({tag})"), 1, |_, ctx| {
        for i in 0..ranges_n {
            ctx.c.states += 1;
            let n = &sp.nodes[i];
            ctx.case(|| expr(&sp.nodes, i), |c| {
                agree(&d, &n.val, n.seen, c)?;
                iterate(&d, &n.val, n.seen, c)
            });
        }
    });
    let mut from = 0;
    let mut level = 0;
    loop {
        let to = sp.nodes.len();
        if from == to || run.violated() {
            break;
        }
        let nodes = &sp.nodes;
        let ids = &sp.ids;
        let new: Mutex<Vec<(String, Node)>> = Mutex::new(vec![]);
        run.level(&format!("chains, level {level} ({tag})"), to - from, |x, ctx| {
            let i = from + x;
            let a = &nodes[i];
            let mut fresh: Vec<(String, Node)> = vec![];
            let mut seen_here: HashMap<String, ()> = HashMap::new();
            let mut step = |ctx: &mut Ctx, how: How, model: Mask, f: &dyn Fn() -> Val<V>| {
                let desc = || {
                    let mut n = nodes.to_vec();
                    n.push(Node { val: a.val.clone(), seen: 0, how: how.clone() });
                    expr(&n, n.len() - 1)
                };
                ctx.case(desc, |c| {
                    let r = f();
                    c.transitions += 1;
                    agree(&d, &r, model, c)?;
                    let kk = key(&r, model);
                    if !ids.contains_key(&kk) && seen_here.insert(kk.clone(), ()).is_none() {
                        iterate(&d, &r, model, c)?;
                        fresh.push((kk, Node { val: r, seen: model, how: how.clone() }));
                    }
                    Ok(())
                });
            };
            step(ctx, How::Complement(i), !a.seen & d.full(), &|| complement(&a.val));
            step(ctx, How::ToSet(i), a.seen, &|| to_set(&a.val));
            let upto = if set_pairs { to } else { ranges_n };
            for j in 0..upto {
                // Pairs of old values were tried at an earlier level; ranges come first.
                let b = &nodes[j];
                step(ctx, How::Union(i, j), a.seen | b.seen, &|| union(&a.val, &b.val));
                step(ctx, How::Intersection(i, j), a.seen & b.seen, &|| intersection(&a.val, &b.val));
                if j < from || !set_pairs && j < ranges_n && i >= ranges_n {
                    step(ctx, How::Union(j, i), a.seen | b.seen, &|| union(&b.val, &a.val));
                    step(ctx, How::Intersection(j, i), a.seen & b.seen, &|| intersection(&b.val, &a.val));
                }
            }
            ctx.c.states += 1;
            new.lock().unwrap().extend(fresh);
        });
        let mut new = new.into_inner().unwrap();
        new.sort_by(|a, b| a.0.cmp(&b.0));
        from = to;
        for (k, n) in new {
            if sp.ids.contains_key(&k) {
                continue;
            }
            if sp.nodes.len() >= cap {
                run.cap(&format!("{tag}: more than {cap} reachable values"));
                break;
            }
            sp.ids.insert(k, sp.nodes.len());
            sp.nodes.push(n);
        }
        level += 1;
        if level > 60 {
            run.cap(&format!("{tag}: no fixpoint after 60 levels"));
            break;
        }
    }
}

/// What a range denotes, from its bounds.
fn range_model(d: &Dom, v: &Val<V>) -> Mask {
    use rangetools::Bound::*;
    let mut m = 0;
    for x in d.lo()..=d.hi() {
        let t = x as V;
        let lo = |b: rangetools::LowerBound<V>| match b.to_bound() {
            Included(s) => t >= s,
            Excluded(s) => t > s,
        };
        let hi = |b: rangetools::UpperBound<V>| match b.to_bound() {
            Included(s) => t <= s,
            Excluded(s) => t < s,
        };
        let has = match v {
            Val::BR(r) => lo(r.start) && hi(r.end),
            Val::LR(r) => lo(r.start),
            Val::UR(r) => hi(r.end),
            Val::AR(_) => true,
            Val::E(_) => false,
            std => std.contains(t),
        };
        if has {
            m |= 1 << (x - d.lo());
        }
    }
    m
}

/// All sequences of three operations on sets of many pieces.
fn wide_chains(run: &mut Run) {
    use mc::setops::{wide, Wide};
    let sizes: &[usize] = if run.thorough { &[6, 9, 12, 17, 33, 65, 129, 260] } else { &[6, 9, 17, 33, 65, 129, 260] };
    let shapes = ["half-open", "mixed-bounds", "touching", "point", "open", "offset"];
    let mut items = vec![];
    for &n in sizes {
        for s in shapes {
            if n > 130 && !run.thorough && !matches!(s, "mixed-bounds" | "touching") {
                continue;
            }
            for t in 0..4 {
                items.push((n, s, t));
            }
        }
    }
    enum O {
        C,
        U(Val<V>, String),
        N(Val<V>, String),
    }
    run.family("chains of three operations on sets of many pieces", items.len(), |x, ctx| {
        let (n, shape, t) = items[x];
        let order = ["ascending", "descending", "odd-even", "inside-out"][t];
        let Some(w) = wide(n, shape, order, t & 1 == 1, t & 2 == 2) else { return };
        let Some(other) = wide(n, "offset", "descending", t & 2 == 2, t & 1 == 1) else { return };
        ctx.c.states += 1;
        let mid = 4 * (n / 2) as V + 5;
        let last = 4 * n as V + 1;
        let mut menu = vec![O::C];
        for (v, s) in [
            br(mid, true, mid + 8, false),
            br(5, false, mid + 2, true),
            br(1, true, last + 4, true),
            lr(mid + 2, false),
            ur(mid, true),
            (other.val.clone(), other.expr()),
        ] {
            menu.push(O::U(v.clone(), s.clone()));
            menu.push(O::N(v, s));
        }
        let has = |v: &Val<V>, w: &Wide| -> Vec<bool> { (0..w.cells).map(|c| v.contains(c as V)).collect() };
        let masks: Vec<Vec<bool>> = menu
            .iter()
            .map(|o| match o {
                O::C => vec![],
                O::U(v, _) | O::N(v, _) => has(v, &w),
            })
            .collect();
        let apply = |o: usize, v: &Val<V>, m: &mut [bool]| -> Val<V> {
            match &menu[o] {
                O::C => {
                    m.iter_mut().for_each(|b| *b = !*b);
                    complement(v)
                }
                O::U(r, _) => {
                    m.iter_mut().zip(&masks[o]).for_each(|(b, x)| *b |= x);
                    union(v, r)
                }
                O::N(r, _) => {
                    m.iter_mut().zip(&masks[o]).for_each(|(b, x)| *b &= x);
                    intersection(v, r)
                }
            }
        };
        let name = |o: usize| match &menu[o] {
            O::C => ".complement()".to_string(),
            O::U(_, s) => format!(".union({s})"),
            O::N(_, s) => format!(".intersection({s})"),
        };
        for o1 in 0..menu.len() {
            for o2 in 0..menu.len() {
                for o3 in 0..menu.len() {
                    ctx.case(
                        || format!("({}){}{}{}", w.expr(), name(o1), name(o2), name(o3)),
                        |c| {
                            let mut m = w.has.clone();
                            let mut v = w.val.clone();
                            for o in [o1, o2, o3] {
                                v = apply(o, &v, &mut m);
                                c.transitions += 1;
                            }
                            for (x, want) in m.iter().enumerate() {
                                if v.contains(x as V) != *want {
                                    return Err(format!("contains({x}) is {}", !want));
                                }
                            }
                            if let Val::BS(s) = v {
                                let want: Vec<V> = (0..w.cells).filter(|&x| m[x]).map(|x| x as V).collect();
                                let got: Vec<V> = s.into_iter().take(want.len() + 2).collect();
                                if got != want {
                                    return Err(format!("iterating yields {got:?} instead of {want:?}"));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

/// All sequences of three operations on sets as their histories left them, nothing copied on the way.
fn histories(run: &mut Run) {
    use mc::setops::{recipes, RECIPE_CELLS};
    let rs = recipes(run.thorough);
    let other = || {
        // Laid out with its highest piece first.
        let mut v = Val::BS(rangetools::BoundedSet::empty());
        for p in [br(17, true, 21, true), br(11, false, 14, true), br(6, true, 8, false)] {
            v = union_v(v, p.0);
        }
        v
    };
    let name = ["complement()", "union(9..15)", "intersection([8, 16])", "intersection(9..)", "intersection(..=14)", "union([17, 21] + (11, 14] + [6, 8))", "intersection([17, 21] + (11, 14] + [6, 8))"];
    let apply = |o: usize, v: Val<V>, m: &mut [bool]| -> Val<V> {
        let arg = match o {
            0 => {
                m.iter_mut().for_each(|b| *b = !*b);
                return complement_v(v);
            }
            1 => br(9, true, 15, false).0,
            2 => br(8, true, 16, true).0,
            3 => lr(9, true).0,
            4 => ur(14, true).0,
            _ => other(),
        };
        let has: Vec<bool> = (0..m.len()).map(|x| arg.contains(x as V)).collect();
        if o == 1 || o == 5 {
            m.iter_mut().zip(has).for_each(|(b, x)| *b |= x);
            union_v(v, arg)
        } else {
            m.iter_mut().zip(has).for_each(|(b, x)| *b &= x);
            intersection_v(v, arg)
        }
    };
    run.family("chains of three operations without copies", rs.len().div_ceil(4), |blk, ctx| {
        for r in &rs[blk * 4..rs.len().min(blk * 4 + 4)] {
            ctx.c.states += 1;
            for o in 0..343 {
                let os = [o % 7, o / 7 % 7, o / 49];
                ctx.case(
                    || format!("({}){}", r.expr(), os.map(|o| format!(".{}", name[o])).join("")),
                    |c| {
                        let mut m: Vec<bool> = (0..RECIPE_CELLS).map(|x| r.parts.iter().any(|p| p.0.contains(x as V))).collect();
                        let mut v = r.build();
                        for o in os {
                            v = apply(o, v, &mut m);
                            c.transitions += 1;
                        }
                        for (x, want) in m.iter().enumerate() {
                            if v.contains(x as V) != *want {
                                return Err(format!("contains({x}) is {}", !want));
                            }
                        }
                        let want: Vec<V> = (0..RECIPE_CELLS).filter(|&x| m[x]).map(|x| x as V).collect();
                        let got: Vec<V> = match v {
                            Val::BS(s) => s.into_iter().take(want.len() + 2).collect(),
                            Val::LS(s) if !want.is_empty() => s.into_iter().take(want.len()).collect(),
                            _ => return Ok(()),
                        };
                        if got != want {
                            return Err(format!("iterating yields {got:?} instead of {want:?}"));
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

fn main() {
    let mut run = Run::new(&[]);
    let top = V::MAX as usize;
    let thorough = run.thorough;
    explore(&mut run, Dom { k: 2, base: 1, stride: 2 }, 20_000, true);
    explore(&mut run, Dom { k: 3, base: 1, stride: 2 }, 20_000, true);
    explore(&mut run, Dom { k: 3, base: 0, stride: 1 }, 20_000, true);
    explore(&mut run, Dom { k: 3, base: top - 2, stride: 1 }, 20_000, true);
    explore(&mut run, Dom { k: 4, base: 1, stride: 2 }, 60_000, thorough);
    explore(&mut run, Dom { k: 4, base: 10, stride: 1 }, 60_000, thorough);
    if thorough {
        explore(&mut run, Dom { k: 4, base: 0, stride: 1 }, 60_000, true);
        explore(&mut run, Dom { k: 4, base: top - 3, stride: 1 }, 60_000, true);
        explore(&mut run, Dom { k: 5, base: 1, stride: 2 }, 300_000, false);
    }
    histories(&mut run);
    wide_chains(&mut run);
    run.finish()
}
