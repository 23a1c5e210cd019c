//! C09: iterating a bounded set, forwards and backwards, yields exactly the values it contains,
//! however it was obtained.

use mc::engine::*;
use mc::iters::*;

/// One set, by one route. Building it is not what is judged here (nor is what it contains).
fn check(ctx: &mut Ctx, ty: &dyn Ty, ps: &[Piece], route: Route) {
    check_to(ctx, ty, ps, route, 700)
}
/// Sets of at most `full` values are walked from end to end.
fn check_to(ctx: &mut Ctx, ty: &dyn Ty, ps: &[Piece], route: Route, full: usize) {
    if route == Route::Complement && !ascending(ps) {
        return;
    }
    let desc = || {
        let s: Vec<String> = ps.iter().map(|p| ty.show_piece(*p)).collect();
        format!("{} set of {} by route {route:?}", ty.name(), s.join(" + "))
    };
    note("build", desc);
    let Ok((set, model)) = catch(|| {
        let set = ty.set(ps, route);
        let cuts: Vec<u128> = ps.iter().flat_map(|p| [p.lo, p.hi]).collect();
        let model = intervals(|o| set.contains(o), &cuts, ty.top());
        (set, model)
    }) else {
        return;
    };
    let Some(model) = model else { return };
    let model = Deque(model);
    ctx.c.states += 1;
    ctx.case(
        || format!("{} = {}", desc(), set.dbg()),
        |c| walk(ty, &*set.iter(), &model, full, 24, c),
    );
}

/// A few ordinals where things go wrong: the ends, neighbours, and distances around 2^64.
fn alphabet(ty: &dyn Ty, thorough: bool) -> Vec<u128> {
    let top = ty.top();
    let mut v = if top < 10 {
        (0..=top).collect()
    } else {
        let m = top / 2;
        let mut v = vec![0, 1, m, m + 1, top - 1, top];
        if thorough {
            v.extend([2, 3, m + 2, top - 2]);
        }
        if ty.name() == "char" {
            v.extend([0xD7FF, 0xD800]);
        }
        if top > usize::MAX as u128 {
            let word = usize::MAX as u128;
            v.extend([word, word + 1]);
        }
        v
    };
    v.sort();
    v.dedup();
    v
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    let tys = types();
    for ty in &tys {
        let ty = &**ty;
        let eps = alphabet(ty, thorough);
        let ps = pieces(&eps);
        run.family(&format!("{}: one and two pieces, all routes", ty.name()), ps.len() + 1, |i, ctx| {
            let Some(&p) = ps.get(i) else {
                for r in ROUTES {
                    check(ctx, ty, &[], r);
                }
                return;
            };
            for r in ROUTES {
                check(ctx, ty, &[p], r);
            }
            for &q in &ps {
                for r in ROUTES {
                    check(ctx, ty, &[p, q], r);
                }
            }
        });
        // Pieces of every delicate width, alone and between single values at the ends of the type.
        let eps = ty.window(if thorough { 3 } else { 1 });
        let top = ty.top();
        run.family(&format!("{}: one piece of any delicate width", ty.name()), eps.len(), |i, ctx| {
            for &hi in &eps {
                for (li, hi_in) in [(true, true), (true, false), (false, true), (false, false)] {
                    let p = Piece { lo: eps[i], li, hi, hi_in };
                    let first = Piece { lo: 0, li: true, hi: 0, hi_in: true };
                    let last = Piece { lo: top, li: true, hi: top, hi_in: true };
                    check(ctx, ty, &[p], Route::Union);
                    check(ctx, ty, &[last, p, first], Route::Union);
                }
            }
        });
        if top > 256 && top < if thorough { 1 << 21 } else { 1 << 16 } {
            let eps = [0, 1, top / 2, top - 1, top];
            let ps: Vec<Piece> = pieces(&eps).into_iter().filter(|p| ascending(&[*p])).collect();
            run.family(&format!("{}: two long pieces, value by value", ty.name()), ps.len(), |i, ctx| {
                for &q in &ps {
                    if ascending(&[ps[i], q]) {
                        check_to(ctx, ty, &[ps[i], q], Route::Union, 1 << 21);
                    }
                }
            });
        }
        // Three or more ascending pieces (touching ones included).
        let eps: Vec<u128> = {
            let top = ty.top();
            let m = if ty.name() == "char" { 0xD7FF } else { top / 2 };
            let mut v = vec![0, 1, 2, m, m + 1, top - 1, top];
            if thorough {
                v.push(m + 2);
            }
            v.sort();
            v.dedup();
            v
        };
        let ps: Vec<Piece> = pieces(&eps).into_iter().filter(|p| ascending(&[*p])).collect();
        run.family(&format!("{}: three to five ascending pieces", ty.name()), ps.len(), |i, ctx| {
            fn rec(ctx: &mut Ctx, ty: &dyn Ty, ps: &[Piece], cur: &mut Vec<Piece>, max: usize) {
                if cur.len() >= 3 {
                    let rev: Vec<Piece> = cur.iter().rev().copied().collect();
                    check(ctx, ty, cur, Route::Union);
                    check(ctx, ty, &rev, Route::Union);
                    for r in [Route::Complement, Route::BothCut] {
                        check(ctx, ty, cur, r);
                    }
                }
                if cur.len() == max || ctx.failed() {
                    return;
                }
                for &p in ps {
                    cur.push(p);
                    if ascending(cur) {
                        rec(ctx, ty, ps, cur, max);
                    }
                    cur.pop();
                }
            }
            rec(ctx, ty, &ps, &mut vec![ps[i]], if ctx.thorough { 5 } else { 4 });
        });
    }
    // Dense u8 sets: every subset pattern of a window near each end of the type, as runs.
    let bits = if thorough { 14 } else { 11 };
    for (name, base) in [("bottom", 0u128), ("middle", 122), ("top", 256 - bits as u128)] {
        let ty = &*tys[0];
        run.family(&format!("u8: every subset of {bits} neighbouring values at the {name}"), 1 << 6, |hi, ctx| {
            for lo in 0..1usize << (bits - 6) {
                let m = hi << (bits - 6) | lo;
                // Runs, with the four kinds of bounds in turn wherever they can express the run.
                for kind in 0..4 {
                    let (li, hi_in) = (kind & 1 == 0, kind & 2 == 0);
                    let mut ps = vec![];
                    let mut b = 0;
                    while b < bits {
                        if m >> b & 1 == 0 {
                            b += 1;
                            continue;
                        }
                        let a = b;
                        while b < bits && m >> b & 1 == 1 {
                            b += 1;
                        }
                        let (lo, hi) = (base + a as u128, base + b as u128 - 1);
                        let (li, lo) = if !li && lo > 0 { (false, lo - 1) } else { (true, lo) };
                        let (hi_in, hi) = if !hi_in && hi < 255 { (false, hi + 1) } else { (true, hi) };
                        ps.push(Piece { lo, li, hi, hi_in });
                    }
                    check(ctx, ty, &ps, Route::Union);
                    if lo % 8 == 0 {
                        check(ctx, ty, &ps, Route::Twice);
                    }
                }
            }
        });
    }
    // Wide sets: many pieces of each shape.
    let sizes: &[u128] = if thorough { &[40, 100, 250, 600, 1500] } else { &[40, 100, 250, 600] };
    run.family("u32: sets of up to 600 (thorough 1500) pieces", sizes.len() * 12, |i, ctx| {
        let ty = tys.iter().find(|t| t.name() == "u32").unwrap();
        let n = sizes[i / 12];
        let (shape, order) = (i % 4, i / 4 % 3);
        let (li, hi_in) = (shape & 1 == 0, shape & 2 == 0);
        // Pieces [5k, 5k+2] in four shapes; every third holds no value at all when both are excluded.
        let mut ps: Vec<Piece> = (0..n)
            .map(|k| Piece { lo: 5 * k, li, hi: 5 * k + if k % 3 == 0 { 1 } else { 3 }, hi_in })
            .collect();
        match order {
            0 => {}
            1 => ps.reverse(),
            _ => {
                let (a, b): (Vec<_>, Vec<_>) = ps.iter().partition(|p| p.lo % 2 == 0);
                ps = a.into_iter().chain(b).collect();
            }
        }
        let desc = format!("u32 set of {n} pieces, shape {shape}, insertion order {order}");
        note("build", || desc.clone());
        let Ok((set, model)) = catch(|| {
            let set = ty.set(&ps, Route::Union);
            let cuts: Vec<u128> = (0..=5 * n).collect();
            let model = intervals(|o| set.contains(o), &cuts, ty.top());
            (set, model)
        }) else {
            return;
        };
        let Some(model) = model else { return };
        ctx.c.states += 1;
        ctx.case(|| desc.clone(), |c| walk(&**ty, &*set.iter(), &Deque(model.clone()), 100_000, 24, c));
    });
    run.finish()
}
