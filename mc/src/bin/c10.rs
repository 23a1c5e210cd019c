//! C10: the iterators of bounded ranges and sets are double-ended queues of their values under any
//! mix of calls. Explicit-state search: a state is a real iterator with its model; every action is
//! applied to both; in every state every observer is compared.

use mc::engine::*;
use mc::iters::*;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Act {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
    RevNth(usize),
}

fn opt(ty: &dyn Ty, o: Option<u128>) -> String {
    o.map_or("None".into(), |o| format!("Some({})", ty.show(o)))
}

fn eq(ty: &dyn Ty, how: &str, got: Option<u128>, want: Option<u128>) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{how} returned {}; expected {}", opt(ty, got), opt(ty, want)))
    }
}

/// Skip counts worth trying in a state.
fn skips(m: &Deque, wide: bool, ends: usize) -> Vec<usize> {
    let mut v: Vec<u128> = vec![0, 1, 2, u64::MAX as u128];
    if wide {
        v.extend([127, 128, 255, 256, 257, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX as u128 - 1]);
    }
    let mut around = |n: u128| {
        v.extend([n.saturating_sub(2), n.saturating_sub(1), n, n.saturating_add(1)]);
    };
    if let Some(l) = m.len() {
        around(l);
    }
    // Where the pieces end, from either side.
    let mut n = 0u128;
    for (a, b) in m.0.iter().take(ends) {
        n = n.saturating_add((b - a).saturating_add(1));
        around(n);
    }
    let mut n = 0u128;
    for (a, b) in m.0.iter().rev().take(ends) {
        n = n.saturating_add((b - a).saturating_add(1));
        around(n);
    }
    let mut v: Vec<usize> = v.into_iter().filter(|x| *x <= usize::MAX as u128).map(|x| x as usize).collect();
    v.sort();
    v.dedup();
    v
}

fn apply(ty: &dyn Ty, it: &mut dyn BIt, m: &mut Deque, a: Act) -> Result<(), String> {
    let (got, want) = match a {
        Act::Next => (it.next(), m.nth(0)),
        Act::NextBack => (it.next_back(), m.nth_back(0)),
        Act::Nth(n) => (it.nth(n), m.nth(n)),
        Act::NthBack(n) => (it.nth_back(n), m.nth_back(n)),
        Act::RevNth(n) => (it.rev_nth(n), m.nth_back(n)),
    };
    eq(ty, &format!("{a:?}"), got, want)
}

/// Compares everything that can be asked of an iterator without changing it.
fn observe(ty: &dyn Ty, it: &dyn BIt, m: &Deque, c: &mut Counters) -> Result<(), String> {
    let left = m.len();
    let fits = left.filter(|n| *n <= usize::MAX as u128).map(|n| n as usize);
    let (lo, hi) = it.size_hint();
    c.transitions += 6;
    match fits {
        Some(n) => {
            if (lo, hi) != (n, Some(n)) {
                return Err(format!("size_hint is ({lo}, {hi:?}); {n} values are left"));
            }
            let l = it.len();
            if l != n {
                return Err(format!("len is {l}; {n} values are left"));
            }
            let l = it.count();
            if l != n {
                return Err(format!("count is {l}; {n} values are left"));
            }
        }
        None => {
            // More values than usize: any lower bound is right, no upper bound is.
            if hi.is_some() {
                return Err(format!("size_hint is ({lo}, {hi:?}); more values are left than usize can count"));
            }
        }
    }
    eq(ty, "last", it.last(), m.back())?;
    eq(ty, "min", it.min(), m.front())?;
    eq(ty, "max", it.max(), m.back())?;
    if let Some(n) = fits.filter(|n| *n <= 24) {
        let f = m.first(n);
        let b: Vec<u128> = f.iter().rev().copied().collect();
        let all = |how: &str, got: Vec<u128>, want: &[u128]| {
            if got == want {
                Ok(())
            } else {
                let s = |v: &[u128]| v.iter().take(30).map(|o| ty.show(*o)).collect::<Vec<_>>().join(", ");
                Err(format!("{how} gives [{}]; expected [{}]", s(&got), s(want)))
            }
        };
        c.transitions += 10;
        all("fold", it.fold(), &f)?;
        all("rfold", it.rfold(), &b)?;
        all("a for loop", it.for_loop(), &f)?;
        all("rev", it.rev(), &b)?;
        all("collect", it.collect(), &f)?;
        let (a, z) = it.extreme_by();
        eq(ty, "min_by_key", a, m.front())?;
        eq(ty, "max_by_key", z, m.back())?;
        for k in [1usize, 2, 3] {
            let w: Vec<u128> = f.iter().step_by(k).copied().collect();
            all(&format!("step_by({k})"), it.step_by(k), &w)?;
            let w: Vec<u128> = f.iter().skip(k).copied().collect();
            all(&format!("skip({k})"), it.skip(k), &w)?;
        }
        for (i, &o) in f.iter().enumerate() {
            if it.position(o) != Some(i) || it.rposition(o) != Some(i) {
                return Err(format!("position/rposition of {} is {:?}/{:?}; expected {i}", ty.show(o), it.position(o), it.rposition(o)));
            }
        }
        // A traversal that stops half way leaves the rest.
        if n >= 2 {
            let mut part = it.cl();
            all("an interrupted try_fold", part.try_fold_half(n / 2), &f[..n / 2])?;
            all("what an interrupted try_fold leaves", part.for_loop(), &f[n / 2..])?;
        }
    }
    Ok(())
}

struct Bounds {
    depth: usize,
    wide: bool,
    /// Merge equal states.
    dedup: bool,
    cap: usize,
    /// Skip counts are tried around the ends of this many pieces from either side.
    ends: usize,
}

/// Explores every history of actions from a fresh iterator. Returns whether a bound other than the
/// depth cut it short.
fn explore(ctx: &mut Ctx, ty: &dyn Ty, name: &dyn Fn() -> String, fresh: &dyn BIt, model: Deque, b: &Bounds) -> bool {
    let mut seen: HashSet<(String, Deque)> = HashSet::new();
    // The last component counts actions since exhaustion (an exhausted iterator may still move its
    // cursors, without end, so its histories are followed for a bounded number of actions).
    let mut frontier: Vec<(Box<dyn BIt>, Deque, Vec<Act>, usize)> = vec![(fresh.cl(), model, vec![], 0)];
    let after = if ctx.thorough { 3 } else { 2 };
    let mut fixpoint = false;
    let mut states = 0usize;
    for depth in 0..=b.depth {
        let mut next = vec![];
        if frontier.is_empty() {
            fixpoint = true;
            break;
        }
        for (it, m, path, dead) in frontier {
            ctx.c.states += 1;
            states += 1;
            let d = || {
                let s: Vec<String> = path.iter().map(|a| format!("{a:?}")).collect();
                format!("{}, after [{}]", name(), s.join(", "))
            };
            ctx.case(d, |c| observe(ty, &*it, &m, c));
            if ctx.failed() {
                return false;
            }
            if depth == b.depth || states > b.cap || dead >= after {
                continue;
            }
            let mut acts = vec![Act::Next, Act::NextBack];
            for n in skips(&m, b.wide, b.ends) {
                acts.push(Act::Nth(n));
                acts.push(Act::NthBack(n));
            }
            acts.push(Act::RevNth(1));
            for a in acts {
                let mut i2 = it.cl();
                let mut m2 = m.clone();
                let d = || {
                    let s: Vec<String> = path.iter().map(|a| format!("{a:?}")).collect();
                    format!("{}, after [{}], {a:?}", name(), s.join(", "))
                };
                ctx.case(d, |c| {
                    c.transitions += 1;
                    apply(ty, &mut *i2, &mut m2, a)
                });
                if ctx.failed() {
                    return false;
                }
                if b.dedup && !seen.insert((i2.dbg(), m2.clone())) {
                    continue;
                }
                let mut p2 = path.clone();
                p2.push(a);
                next.push((i2, m2, p2, if m.0.is_empty() { dead + 1 } else { 0 }));
            }
        }
        frontier = next;
    }
    !fixpoint && states > b.cap
}

fn of_range(ctx: &mut Ctx, ty: &dyn Ty, p: Piece, b: &Bounds) {
    let model = Deque(p.interval(ty.top()).into_iter().collect());
    let name = || format!("{} range {}", ty.name(), ty.show_piece(p));
    note("build", name);
    let Ok((it, _)) = catch(|| ty.range(p)) else { return };
    explore(ctx, ty, &name, &*it, model, b);
}

fn of_set(ctx: &mut Ctx, ty: &dyn Ty, ps: &[Piece], route: Route, b: &Bounds) {
    if route == Route::Complement && !ascending(ps) {
        return;
    }
    let name = || {
        let s: Vec<String> = ps.iter().map(|p| ty.show_piece(*p)).collect();
        format!("{} set of {} by route {route:?}", ty.name(), s.join(" + "))
    };
    note("build", name);
    let Ok((it, model)) = catch(|| {
        let set = ty.set(ps, route);
        let cuts: Vec<u128> = ps.iter().flat_map(|p| [p.lo, p.hi]).collect();
        (set.iter(), intervals(|o| set.contains(o), &cuts, ty.top()))
    }) else {
        return;
    };
    if let Some(model) = model {
        explore(ctx, ty, &name, &*it, Deque(model), b);
    }
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    let tys = types();
    let fix = Bounds { depth: 1000, wide: false, dedup: true, cap: usize::MAX, ends: 3 };
    for ty in &tys {
        let ty = &**ty;
        let top = ty.top();
        let m = if ty.name() == "char" { 0xD7FF } else { top / 2 };

        // Short ranges at both ends and in the middle: all histories, to a fixpoint.
        let w = if thorough { 8 } else { 5 };
        for (at, base) in [("bottom", 0), ("middle", m - w.min(m) / 2), ("top", top - w.min(top))] {
            let eps: Vec<u128> = (base..=(base + w).min(top)).collect();
            let ps = pieces(&eps);
            run.family(&format!("{}: short ranges at the {at}, fixpoint", ty.name()), ps.len(), |i, ctx| of_range(ctx, ty, ps[i], &fix));
        }

        // Ranges of any delicate width: histories of up to 2 actions with wide skips.
        let eps = ty.edges(if thorough { 2 } else { 1 });
        let mut eps2 = eps.clone();
        for x in [254, 255, 256, 257, 65535, 65536, (1u128 << 32) - 1, 1 << 32, u64::MAX as u128 - 1, u64::MAX as u128, 1 << 64] {
            if x < top {
                eps2.push(x);
                eps2.push(top - x);
            }
        }
        eps2.sort();
        eps2.dedup();
        let ps: Vec<Piece> = pieces(&eps2);
        let b = Bounds { depth: 2, wide: true, dedup: true, cap: usize::MAX, ends: 3 };
        let b3 = Bounds { depth: 3, wide: true, dedup: true, cap: usize::MAX, ends: 3 };
        run.family(&format!("{}: ranges of any delicate width, depth {}", ty.name(), if thorough { 3 } else { 2 }), ps.len(), |i, ctx| {
            of_range(ctx, ty, ps[i], if thorough { &b3 } else { &b })
        });

        // Sets of one or two short pieces, all routes, fixpoint.
        let mut eps = vec![0, 1, 2, m, m + 1, top - 2, top - 1, top];
        eps.sort();
        eps.dedup();
        let short: Vec<Piece> = pieces(&eps)
            .into_iter()
            .filter(|p| ascending(&[*p]) && (p.hi - p.lo <= 3 || top < 10))
            .collect();
        run.family(&format!("{}: sets of one or two short pieces, all routes, fixpoint", ty.name()), short.len() + 1, |i, ctx| {
            let Some(&p) = short.get(i) else {
                return of_set(ctx, ty, &[], Route::Union, &fix);
            };
            for r in ROUTES {
                of_set(ctx, ty, &[p], r, &fix);
                for &q in &short {
                    if r != Route::Union && !ascending(&[p, q]) {
                        continue;
                    }
                    of_set(ctx, ty, &[p, q], r, &fix);
                }
            }
        });
        // Sets with long pieces: depth 2 with wide skips.
        let long: Vec<Piece> = pieces(&eps).into_iter().filter(|p| ascending(&[*p])).collect();
        run.family(&format!("{}: sets of one or two pieces of any length, depth {}", ty.name(), if thorough { 3 } else { 2 }), long.len(), |i, ctx| {
            for &q in &long {
                if ascending(&[long[i], q]) {
                    of_set(ctx, ty, &[long[i], q], Route::Union, if thorough { &b3 } else { &b });
                }
            }
            of_set(ctx, ty, &[long[i]], Route::Union, &b3);
        });
        // Three and four short ascending pieces (some without values, some touching): fixpoint.
        let mut e3 = vec![0, 1, 2, 3, m, m + 1, top - 1, top];
        e3.sort();
        e3.dedup();
        let s3: Vec<Piece> = pieces(&e3).into_iter().filter(|p| ascending(&[*p]) && p.hi - p.lo <= 2).collect();
        run.family(&format!("{}: sets of three (thorough: four) short pieces, fixpoint", ty.name()), s3.len(), |i, ctx| {
            for &q in &s3 {
                if !ascending(&[s3[i], q]) {
                    continue;
                }
                for &r in &s3 {
                    if !ascending(&[q, r]) {
                        continue;
                    }
                    of_set(ctx, ty, &[s3[i], q, r], Route::Union, &fix);
                    if thorough {
                        for &t in &s3 {
                            if ascending(&[r, t]) {
                                of_set(ctx, ty, &[t, q, r, s3[i]], Route::Union, &fix);
                            }
                        }
                    }
                }
            }
        });
    }
    // Many pieces: all histories of up to 16 of them, short histories of more.
    for (ti, name, sizes) in [(0, "u8", &[5usize, 6, 7, 8, 9, 12, 16, 17, 33, 60][..]), (2, "u16", &[129, 400][..])] {
        let ty = &*tys[ti];
        assert_eq!(ty.name(), name);
        let shapes = 6;
        run.family(&format!("{name}: sets of {} to {} pieces", sizes[0], sizes[sizes.len() - 1]), sizes.len() * shapes, |i, ctx| {
            let n = sizes[i / shapes];
            let ps: Vec<Piece> = (0..n as u128)
                .map(|k| {
                    let lo = 4 * k;
                    let (li, len, hi_in) = match i % shapes {
                        0 => (true, 1, true),
                        1 => (true, 0, true),
                        2 => (true, 4, false),
                        // Every second piece holds no value.
                        3 => (false, if k % 2 == 0 { 1 } else { 3 }, false),
                        4 => (k % 2 == 0, 1 + k % 3, k % 4 < 2),
                        _ => (k % 3 == 0, if k % 3 == 0 { 0 } else { 4 }, true),
                    };
                    Piece { lo, li, hi: lo + len, hi_in }
                })
                .collect();
            let b = match n {
                0..=16 => Bounds { depth: 1000, wide: false, dedup: true, cap: usize::MAX, ends: usize::MAX },
                17..=40 => Bounds { depth: if ctx.thorough { 3 } else { 2 }, wide: false, dedup: true, cap: usize::MAX, ends: usize::MAX },
                41..=60 => Bounds { depth: 2, wide: false, dedup: true, cap: usize::MAX, ends: usize::MAX },
                _ => Bounds { depth: 1, wide: false, dedup: true, cap: usize::MAX, ends: usize::MAX },
            };
            of_set(ctx, ty, &ps, Route::Union, &b);
            if n <= 16 {
                of_set(ctx, ty, &ps, Route::Complement, &b);
                of_set(ctx, ty, &ps, Route::Window, &b);
            }
        });
    }
    // The same without merging equal states, in case an iterator hides state from its Debug output.
    let raw = Bounds { depth: if thorough { 5 } else { 4 }, wide: false, dedup: false, cap: usize::MAX, ends: 3 };
    let ty = &*tys[0];
    let eps: Vec<u128> = vec![0, 2, 3, 254, 255];
    let ps: Vec<Piece> = pieces(&eps).into_iter().filter(|p| ascending(&[*p]) && p.hi - p.lo <= 3).collect();
    run.family("u8: short ranges and sets, every action sequence, no state merging", ps.len(), |i, ctx| {
        of_range(ctx, ty, ps[i], &raw);
        let r2 = Bounds { depth: raw.depth - 1, wide: false, dedup: false, cap: usize::MAX, ends: 3 };
        for &q in &ps {
            if ascending(&[ps[i], q]) {
                of_set(ctx, ty, &[ps[i], q], Route::Union, &r2);
            }
        }
    });
    // One iterator per history and no copies of it: whatever copying it would put straight stays.
    let straight: Vec<Vec<Piece>> = {
        let p = |lo: u128, li: bool, hi: u128, hi_in: bool| Piece { lo, li, hi, hi_in };
        let pool = [p(1, true, 3, false), p(5, true, 5, true), p(7, false, 8, false), p(8, false, 10, true), p(253, true, 255, true)];
        let mut v: Vec<Vec<Piece>> = pool.iter().map(|p| vec![*p]).collect();
        for a in 0..5 {
            for b in (0..5).filter(|b| *b != a) {
                v.push(vec![pool[a], pool[b]]);
                for c in (0..5).filter(|c| *c != a && *c != b) {
                    v.push(vec![pool[a], pool[b], pool[c]]);
                    if (a * 3 + b + c) % 2 == 0 {
                        let rest: Vec<usize> = (0..5).filter(|x| ![a, b, c].contains(x)).collect();
                        v.push([a, b, c, rest[0], rest[1]].map(|i| pool[i]).to_vec());
                        v.push([a, b, c, rest[1], rest[0]].map(|i| pool[i]).to_vec());
                    }
                }
            }
        }
        v
    };
    let menu: Vec<Act> = [Act::Next, Act::NextBack]
        .into_iter()
        .chain((0..if thorough { 5 } else { 4 }).flat_map(|n| [Act::Nth(n), Act::NthBack(n)]))
        .collect();
    let len = 4u32;
    run.family("u8: histories on one iterator, without copies", straight.len() * menu.len(), |x, ctx| {
        let ps = &straight[x / menu.len()];
        let Ok(Some(model)) = catch(|| {
            let set = ty.set(ps, Route::Union);
            let cuts: Vec<u128> = ps.iter().flat_map(|p| [p.lo, p.hi]).collect();
            intervals(|o| set.contains(o), &cuts, ty.top())
        }) else {
            return;
        };
        ctx.c.states += 1;
        for h in 0..menu.len().pow(len - 1) {
            let path: Vec<Act> = (0..len as usize)
                .map(|i| if i == 0 { menu[x % menu.len()] } else { menu[h / menu.len().pow(i as u32 - 1) % menu.len()] })
                .collect();
            note("build", || format!("set of {ps:?}"));
            let Ok(mut it) = catch(|| ty.set(ps, Route::Union).iter()) else { return };
            ctx.case(
                || format!("u8 set of {}, {path:?} without copies", ps.iter().map(|p| ty.show_piece(*p)).collect::<Vec<_>>().join(" + ")),
                |c| {
                    let mut m = Deque(model.clone().into());
                    for &a in &path {
                        c.transitions += 1;
                        apply(ty, &mut *it, &mut m, a)?;
                        let l = m.len().unwrap() as usize;
                        if it.size_hint() != (l, Some(l)) {
                            return Err(format!("size_hint is {:?} with {l} left", it.size_hint()));
                        }
                    }
                    let back = h % 2 == 1;
                    while !m.0.is_empty() {
                        apply(ty, &mut *it, &mut m, if back { Act::NextBack } else { Act::Next })?;
                    }
                    apply(ty, &mut *it, &mut m, Act::Next)?;
                    apply(ty, &mut *it, &mut m, Act::NextBack)
                },
            );
            if ctx.failed() {
                return;
            }
        }
    });
    // Every u8 range: every skip count from a fresh iterator, from either end.
    run.family("u8: every range, every skip count up to 258 from either end", 256, |a, ctx| {
        let step = if ctx.thorough { 1 } else { 7 };
        for hi in (0..256u128).filter(|h| h % step == a as u128 % step || *h == 255 || *h == a as u128) {
            for (li, hi_in) in [(true, true), (true, false), (false, true), (false, false)] {
                let p = Piece { lo: a as u128, li, hi, hi_in };
                let Ok((it, _)) = catch(|| ty.range(p)) else { return };
                let model = Deque(p.interval(255).into_iter().collect());
                ctx.c.states += 1;
                ctx.case(
                    || format!("u8 range {}, one nth or nth_back", ty.show_piece(p)),
                    |c| {
                        for n in 0..=258 {
                            for act in [Act::Nth(n), Act::NthBack(n)] {
                                let (mut i2, mut m2) = (it.cl(), model.clone());
                                c.transitions += 1;
                                apply(ty, &mut *i2, &mut m2, act)?;
                                let (lo, h) = i2.size_hint();
                                let l = m2.len().unwrap() as usize;
                                if (lo, h) != (l, Some(l)) {
                                    return Err(format!("after {act:?} size_hint is ({lo}, {h:?}); {l} values are left"));
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    run.finish()
}
