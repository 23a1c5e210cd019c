//! C11: iterating a lower-bounded range or set ascends through exactly its values, for any mix of
//! next and nth, as long as the values stay below the largest of the type. Explicit-state search
//! over iterator states, plus every short action sequence without merging states.

use mc::engine::*;
use mc::iters::*;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Next,
    Nth(usize),
}

fn skips(m: &Deque, wide: bool, ends: usize) -> Vec<usize> {
    let mut v: Vec<u128> = vec![0, 1, 2, 3];
    if wide {
        v.extend([127, 128, 255, 256, 257, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX as u128 - 1, u64::MAX as u128]);
    }
    let mut n = 0u128;
    for (a, b) in m.0.iter().take(ends) {
        n = n.saturating_add((b - a).saturating_add(1));
        v.extend([n.saturating_sub(2), n.saturating_sub(1), n, n.saturating_add(1)]);
    }
    if let Some(l) = m.len() {
        v.extend([l.saturating_sub(4), l.saturating_sub(3)]);
    }
    let mut v: Vec<usize> = v.into_iter().filter(|x| *x <= usize::MAX as u128).map(|x| x as usize).collect();
    v.sort();
    v.dedup();
    v
}

fn show(ty: &dyn Ty, o: Option<u128>) -> String {
    o.map_or("None".into(), |o| format!("Some({})", ty.show(o)))
}

/// Below the largest value of the type the answer is prescribed.
fn prescribed(o: Option<u128>, top: u128) -> bool {
    matches!(o, Some(x) if x < top)
}

fn observe(ty: &dyn Ty, it: &dyn FIt, m: &Deque, c: &mut Counters) -> Result<(), String> {
    c.transitions += 2;
    if it.size_hint().1.is_some() {
        return Err(format!("size_hint is {:?}: it claims an upper limit", it.size_hint()));
    }
    // The lower bound must not exceed what is there, which is "without end" to the library.
    if prescribed(m.front(), ty.top()) {
        let got = it.min();
        if got != m.front() {
            return Err(format!("min returned {}; expected {}", show(ty, got), show(ty, m.front())));
        }
    }
    let below: Vec<u128> = m.first(9).into_iter().filter(|o| *o < ty.top()).collect();
    let list = |v: &[u128]| v.iter().map(|o| ty.show(*o)).collect::<Vec<_>>().join(", ");
    c.transitions += 3;
    let n = below.len();
    let got = it.take(n);
    if got != below {
        return Err(format!("take({n}) gives [{}]; expected [{}]", list(&got), list(&below)));
    }
    // step_by asks for the step after each value: stay clear of the end.
    let clear: Vec<u128> = m.first(9).into_iter().filter(|o| ty.top() - *o > 4).collect();
    if clear.len() == 9 {
        let w: Vec<u128> = clear.iter().step_by(3).copied().collect();
        let got = it.step_by(3, w.len());
        if got != w {
            return Err(format!("step_by(3) gives [{}]; expected [{}]", list(&got), list(&w)));
        }
        let got = it.skip(4, 5);
        if got != clear[4..] {
            return Err(format!("skip(4) gives [{}]; expected [{}]", list(&got), list(&clear[4..])));
        }
    }
    Ok(())
}

struct Bounds {
    depth: usize,
    wide: bool,
    dedup: bool,
    /// Skip counts are tried around the ends of this many pieces.
    ends: usize,
}

fn explore(ctx: &mut Ctx, ty: &dyn Ty, name: &dyn Fn() -> String, val: &dyn LowVal, model: Deque, b: &Bounds) {
    if !prescribed(model.front(), ty.top()) {
        return;
    }
    let mut fresh = None;
    ctx.case(|| format!("{}, into_iter", name()), |_| {
        fresh = Some(val.iter());
        Ok(())
    });
    let Some(fresh) = fresh else { return };
    let mut seen: HashSet<(String, Deque)> = HashSet::new();
    let mut frontier: Vec<(Box<dyn FIt>, Deque, Vec<Act>)> = vec![(fresh, model, vec![])];
    for depth in 0..=b.depth {
        let mut next = vec![];
        for (it, m, path) in frontier {
            ctx.c.states += 1;
            let hist = |p: &[Act]| p.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(", ");
            ctx.case(|| format!("{}, after [{}]", name(), hist(&path)), |c| observe(ty, &*it, &m, c));
            if ctx.failed() {
                return;
            }
            if depth == b.depth {
                continue;
            }
            let acts = std::iter::once(Act::Next).chain(skips(&m, b.wide, b.ends).into_iter().map(Act::Nth));
            for a in acts {
                let mut m2 = m.clone();
                let want = match a {
                    Act::Next => m2.nth(0),
                    Act::Nth(n) => m2.nth(n),
                };
                if !prescribed(want, ty.top()) {
                    continue;
                }
                let mut i2 = it.cl();
                ctx.case(|| format!("{}, after [{}], {a:?}", name(), hist(&path)), |c| {
                    c.transitions += 1;
                    let got = match a {
                        Act::Next => i2.next(),
                        Act::Nth(n) => i2.nth(n),
                    };
                    if got == want {
                        Ok(())
                    } else {
                        Err(format!("returned {}; expected {}", show(ty, got), show(ty, want)))
                    }
                });
                if ctx.failed() {
                    return;
                }
                if b.dedup && !seen.insert((i2.dbg(), m2.clone())) {
                    continue;
                }
                let mut p2 = path.clone();
                p2.push(a);
                next.push((i2, m2, p2));
            }
        }
        frontier = next;
    }
}

fn of_range(ctx: &mut Ctx, ty: &dyn Ty, lo: u128, li: bool, b: &Bounds) {
    let name = || format!("{} range {}{}, ..)", ty.name(), if li { "[" } else { "(" }, ty.show(lo));
    let v = ty.low_range(lo, li);
    let first = if li { Some(lo) } else { lo.checked_add(1).filter(|x| *x <= ty.top()) };
    let model = Deque(first.map(|f| (f, ty.top())).into_iter().collect());
    explore(ctx, ty, &name, &*v, model, b);
}

fn of_set(ctx: &mut Ctx, ty: &dyn Ty, ps: &[Piece], lo: u128, li: bool, route: usize, b: &Bounds) {
    let name = || {
        let s: Vec<String> = ps.iter().map(|p| ty.show_piece(*p)).collect();
        format!("{} set of {} + {}{}, ..) by route {route}", ty.name(), s.join(" + "), if li { "[" } else { "(" }, ty.show(lo))
    };
    note("build", name);
    let Ok((set, model)) = catch(|| {
        let set = ty.low_set(ps, lo, li, route);
        let mut cuts: Vec<u128> = ps.iter().flat_map(|p| [p.lo, p.hi]).collect();
        cuts.push(lo);
        let m = intervals(|o| set.contains(o), &cuts, ty.top());
        (set, m)
    }) else {
        return;
    };
    if let Some(m) = model {
        explore(ctx, ty, &name, &*set, Deque(m), b);
    }
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    let tys = types();
    let two = Bounds { depth: 2, wide: true, dedup: true, ends: 4 };
    let three = Bounds { depth: 3, wide: true, dedup: true, ends: 4 };
    for ty in &tys {
        let ty = &**ty;
        let top = ty.top();
        let m = if ty.name() == "char" { 0xD7FF } else { top / 2 };
        let eps: Vec<u128> = if top < 256 { (0..=top).collect() } else { ty.window(if thorough { 4 } else { 2 }) };
        run.family(&format!("{}: ranges, depth 3", ty.name()), eps.len(), |i, ctx| {
            for li in [true, false] {
                of_range(ctx, ty, eps[i], li, &three);
            }
        });
        let mut ends = vec![0, 1, 2, 3, m, m + 1, m + 2, top - 3, top - 2, top - 1, top];
        ends.sort();
        ends.dedup();
        // One bounded piece (any, also overlapping the unbounded part), all routes.
        let ps = pieces(&ends);
        run.family(&format!("{}: sets with one bounded piece, all routes, depth 2", ty.name()), ps.len() + 1, |i, ctx| {
            for &lo in &ends {
                for li in [true, false] {
                    for route in 0..4 {
                        match ps.get(i) {
                            Some(&p) => of_set(ctx, ty, &[p], lo, li, route, &two),
                            None => of_set(ctx, ty, &[], lo, li, route, &three),
                        }
                    }
                }
            }
        });
        // Two and three short ascending pieces below the unbounded part.
        let short: Vec<Piece> = pieces(&ends)
            .into_iter()
            .filter(|p| ascending(&[*p]) && p.hi - p.lo <= if thorough { 3 } else { 2 })
            .collect();
        run.family(&format!("{}: sets with two and three bounded pieces, depth {}", ty.name(), if thorough { 3 } else { 2 }), short.len(), |i, ctx| {
            let b = if ctx.thorough { &three } else { &two };
            for &q in &short {
                if !ascending(&[short[i], q]) {
                    continue;
                }
                for &lo in &ends {
                    if lo < q.hi {
                        continue;
                    }
                    for li in [true, false] {
                        of_set(ctx, ty, &[q, short[i]], lo, li, 0, b);
                        if ctx.thorough || (lo ^ q.hi) & 3 == 0 {
                            for &r in &short {
                                if ascending(&[q, r]) && lo >= r.hi {
                                    of_set(ctx, ty, &[short[i], q, r], lo, li, 0, if ctx.thorough { &two } else { &Bounds { depth: 1, wide: true, dedup: true, ends: 4 } });
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    // Many pieces below the unbounded part.
    for (ti, name, sizes) in [(0, "u8", &[4usize, 5, 6, 7, 8, 9, 16, 17, 33, 50][..]), (2, "u16", &[129, 400][..])] {
        let ty = &*tys[ti];
        assert_eq!(ty.name(), name);
        let shapes = 6;
        run.family(&format!("{name}: sets of {} to {} pieces and an unbounded part", sizes[0], sizes[sizes.len() - 1]), sizes.len() * shapes, |i, ctx| {
            let n = sizes[i / shapes];
            let ps: Vec<Piece> = (0..n as u128)
                .map(|k| {
                    let lo = 4 * k;
                    let (li, len, hi_in) = match i % shapes {
                        0 => (true, 1, true),
                        1 => (true, 0, true),
                        2 => (true, 4, false),
                        3 => (false, if k % 2 == 0 { 1 } else { 3 }, false),
                        4 => (k % 2 == 0, 1 + k % 3, k % 4 < 2),
                        _ => (k % 3 == 0, if k % 3 == 0 { 0 } else { 4 }, true),
                    };
                    Piece { lo, li, hi: lo + len, hi_in }
                })
                .collect();
            let b = Bounds { depth: if n <= 17 { 3 } else if n <= 50 { 2 } else { 1 }, wide: false, dedup: true, ends: usize::MAX };
            for (lo, li) in [(4 * n as u128, true), (4 * n as u128 + 3, false)] {
                for route in 0..if n <= 17 { 4 } else { 2 } {
                    of_set(ctx, ty, &ps, lo, li, route, &b);
                }
            }
        });
    }
    // Without merging equal states.
    let raw = Bounds { depth: if thorough { 6 } else { 5 }, wide: false, dedup: false, ends: 4 };
    let ty = &*tys[0];
    let ps: Vec<Piece> = pieces(&[0, 1, 3, 5]).into_iter().filter(|p| ascending(&[*p])).collect();
    run.family("u8: every action sequence, no state merging", ps.len(), |i, ctx| {
        let r2 = Bounds { depth: raw.depth - 1, wide: false, dedup: false, ends: 4 };
        of_set(ctx, ty, &[ps[i]], 7, false, 0, &r2);
        for &q in &ps {
            if ascending(&[ps[i], q]) {
                of_set(ctx, ty, &[ps[i], q], 6, true, 0, &Bounds { depth: raw.depth - 2, wide: false, dedup: false, ends: 4 });
            }
        }
        of_range(ctx, ty, i as u128, i % 2 == 0, &raw);
    });
    // One iterator per history and no copies of it: whatever copying it would put straight stays.
    let straight: Vec<Vec<Piece>> = {
        let p = |lo: u128, li: bool, hi: u128, hi_in: bool| Piece { lo, li, hi, hi_in };
        let pool = [p(1, true, 3, false), p(5, true, 5, true), p(7, false, 8, false), p(8, false, 10, true), p(12, true, 14, true)];
        let mut v: Vec<Vec<Piece>> = vec![vec![]];
        for a in 0..5 {
            v.push(vec![pool[a]]);
            for b in (0..5).filter(|b| *b != a) {
                v.push(vec![pool[a], pool[b]]);
                for c in (0..5).filter(|c| *c != a && *c != b) {
                    v.push(vec![pool[a], pool[b], pool[c]]);
                    let rest: Vec<usize> = (0..5).filter(|x| ![a, b, c].contains(x)).collect();
                    v.push([a, b, c, rest[0], rest[1]].map(|i| pool[i]).to_vec());
                    v.push([a, b, c, rest[1], rest[0]].map(|i| pool[i]).to_vec());
                }
            }
        }
        v
    };
    run.family("u8: histories on one iterator, without copies", straight.len() * 6, |x, ctx| {
        let (ps, route, lo) = (&straight[x / 6], x % 2, [16, 14, 9][x % 6 / 2]);
        let cuts: Vec<u128> = ps.iter().flat_map(|p| [p.lo, p.hi]).chain([lo]).collect();
        let Ok(Some(model)) = catch(|| {
            let set = ty.low_set(ps, lo, false, route);
            intervals(|o| set.contains(o), &cuts, ty.top())
        }) else {
            return;
        };
        ctx.c.states += 1;
        let len = if ctx.thorough { 5u32 } else { 4 };
        for h in 0..5usize.pow(len) {
            let path: Vec<usize> = (0..len).map(|i| h / 5usize.pow(i) % 5).collect();
            note("build", || format!("set of {ps:?}"));
            let Ok(set) = catch(|| ty.low_set(ps, lo, false, route)) else { return };
            ctx.case(
                || format!("u8 set of {} and everything after {lo} by route {route}, skipping {path:?} (0: next, n: nth(n - 1)) without copies", ps.iter().map(|p| ty.show_piece(*p)).collect::<Vec<_>>().join(" + ")),
                |c| {
                    let mut it = set.iter();
                    let mut m = Deque(model.clone().into());
                    for i in 0..path.len() + 14 {
                        let a = path.get(i).copied().unwrap_or(0);
                        c.transitions += 1;
                        let (got, want) = if a == 0 { (it.next(), m.nth(0)) } else { (it.nth(a - 1), m.nth(a - 1)) };
                        if got != want {
                            return Err(format!("call {i} returned {}; expected {}", show(ty, got), show(ty, want)));
                        }
                    }
                    Ok(())
                },
            );
            if ctx.failed() {
                return;
            }
        }
    });
    // Ascending one by one through whole types.
    run.family("u8, i8, u16, i16, char: every value of the type, one by one", 5 * 4, |i, ctx| {
        let ty = tys.iter().find(|t| t.name() == ["u8", "i8", "u16", "i16", "char"][i % 5]).unwrap();
        let li = i / 5 % 2 == 0;
        let set = i / 10 == 1;
        let top = ty.top();
        ctx.c.states += 1;
        ctx.case(
            || format!("{} from the smallest value ({}), {}", ty.name(), if li { "included" } else { "excluded" }, if set { "set with [1, 5]" } else { "range" }),
            |c| {
                let p = Piece { lo: 1, li: true, hi: 5, hi_in: true };
                let v = if set { ty.low_set(&[p], 6, !li, 0) } else { ty.low_range(0, li) };
                let mut it = v.iter();
                for o in (0..top).filter(|o| v.contains(*o)) {
                    c.transitions += 1;
                    let got = it.next();
                    if got != Some(o) {
                        return Err(format!("next returned {}; expected {}", show(&**ty, got), ty.show(o)));
                    }
                }
                Ok(())
            },
        );
    });
    run.finish()
}
