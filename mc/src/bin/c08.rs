//! C08: iterating a bounded range, forwards and backwards, yields exactly the values it contains.

use mc::engine::*;
use mc::iters::*;

fn check(ctx: &mut Ctx, ty: &dyn Ty, p: Piece, full: usize) {
    ctx.c.states += 1;
    ctx.case(
        || format!("{} range {}", ty.name(), ty.show_piece(p)),
        |c| {
            let model = Deque(p.interval(ty.top()).into_iter().collect());
            let (it, _) = ty.range(p);
            walk(ty, &*it, &model, full, 20, c)
        },
    );
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    let tys = types();
    for ty in &tys {
        let ty = &**ty;
        let eps: Vec<u128> = if ty.top() < 256 {
            (0..=ty.top()).collect()
        } else {
            ty.window(if thorough { 20 } else { 5 })
        };
        run.family(&format!("{}: ranges", ty.name()), eps.len(), |i, ctx| {
            for &hi in &eps {
                for (li, hi_in) in [(true, true), (true, false), (false, true), (false, false)] {
                    check(ctx, ty, Piece { lo: eps[i], li, hi, hi_in }, 600);
                }
            }
        });
        // Whole spaces, value by value.
        if ty.top() > 256 && ty.top() < if thorough { 1 << 33 } else { 1 << 21 } {
            let top = ty.top();
            // (Of the 32-bit types: the whole type with every combination of endpoints.)
            let eps = [0, 1, top - 1, top];
            let ps = pieces(&eps);
            let ps: Vec<Piece> = if top < 1 << 16 || thorough && top < 1 << 21 { ps } else { ps.into_iter().filter(|p| p.lo == 0 && p.hi == top).collect() };
            run.family(&format!("{}: whole type", ty.name()), ps.len(), |i, ctx| {
                ctx.c.states += 1;
                let p = ps[i];
                ctx.case(
                    || format!("{} range {}", ty.name(), ty.show_piece(p)),
                    |c| {
                        let (mut it, _) = ty.range(p);
                        let mut back = it.cl();
                        let Some((a, b)) = p.interval(top) else {
                            return (it.next().is_none() && back.next_back().is_none()).then_some(()).ok_or("yields a value".into());
                        };
                        for o in a..=b {
                            c.transitions += 2;
                            if it.next() != Some(o) {
                                return Err(format!("next does not yield {}", ty.show(o)));
                            }
                            if back.next_back() != Some(b - (o - a)) {
                                return Err(format!("next_back does not yield {}", ty.show(b - (o - a))));
                            }
                        }
                        if it.next().is_some() || back.next_back().is_some() {
                            return Err("yields a value after the last".into());
                        }
                        Ok(())
                    },
                );
            });
        }
    }
    run.finish()
}
