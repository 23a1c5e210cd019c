//! C12: Step arithmetic of every built-in type, against arithmetic on ordinals.

use mc::engine::*;
use mc::for_types;
use mc::ordinal::*;

fn show<T: Ordinal>(x: Option<T>) -> String {
    x.map_or("None".into(), |x| format!("Some({})", x.show()))
}

/// All step operations from `o` by `n`.
#[inline]
fn step<T: Ordinal>(o: u128, n: usize, c: &mut Counters) -> Result<(), String> {
    let x = T::at(o);
    c.transitions += 4;
    let fwd = o.checked_add(n as u128).filter(|r| *r <= T::TOP).map(T::at);
    let bwd = o.checked_sub(n as u128).map(T::at);
    let got = T::forward_checked(x, n);
    if got != fwd {
        return Err(format!("forward_checked({}, {n}) is {}; expected {}", x.show(), show(got), show(fwd)));
    }
    let got = T::backward_checked(x, n);
    if got != bwd {
        return Err(format!("backward_checked({}, {n}) is {}; expected {}", x.show(), show(got), show(bwd)));
    }
    if let Some(want) = fwd {
        let got = T::forward(x, n);
        if got != want {
            return Err(format!("forward({}, {n}) is {}; expected {}", x.show(), got.show(), want.show()));
        }
    }
    if let Some(want) = bwd {
        let got = T::backward(x, n);
        if got != want {
            return Err(format!("backward({}, {n}) is {}; expected {}", x.show(), got.show(), want.show()));
        }
    }
    Ok(())
}

#[inline]
fn between<T: Ordinal>(a: u128, b: u128, c: &mut Counters) -> Result<(), String> {
    c.transitions += 1;
    let want = b.checked_sub(a).and_then(|d| usize::try_from(d).ok());
    let got = T::steps_between(&T::at(a), &T::at(b));
    if got != want {
        return Err(format!("steps_between({}, {}) is {got:?}; expected {want:?}", T::at(a).show(), T::at(b).show()));
    }
    Ok(())
}

/// Counts around every power of two, and the extremes.
fn counts(w: u64) -> Vec<usize> {
    let mut v: Vec<u64> = (0..=w).collect();
    for b in 0..64 {
        let p = 1u64 << b;
        for d in 0..=w {
            v.push(p.saturating_sub(d));
            v.push(p.saturating_add(d));
        }
    }
    for d in 0..=w {
        v.push(u64::MAX - d);
    }
    // Around the surrogate gap and the end of Unicode.
    for m in [0x800u64, 0xD800, 0xE000, 0x10FFFF, 0x10F7FF, 0x110000] {
        for d in 0..=w {
            v.push(m - d);
            v.push(m + d);
        }
    }
    v.sort();
    v.dedup();
    v.into_iter().filter_map(|x| usize::try_from(x).ok()).collect()
}

/// Ordinals around every power of two counted from the bottom, the middle and the top.
fn lattice<T: Ordinal>(w: u128) -> Vec<u128> {
    let mut v = vec![];
    let mut around = |m: u128| {
        for d in 0..=w {
            v.push(m.saturating_sub(d));
            v.push(m.saturating_add(d));
        }
    };
    for m in T::marks() {
        around(m);
    }
    let top = T::TOP;
    let mid = top / 2;
    for b in 0..128 {
        let p = 1u128 << b;
        if p < top {
            around(p);
            around(top - p);
            if p <= mid {
                around(mid + p);
                around(mid - p);
            }
        }
    }
    v.retain(|o| *o <= top);
    v.sort();
    v.dedup();
    v
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    for_types!(T in [u8, i8, u16, i16] {
        let name = T::NAME;
        let top = T::TOP as usize;
        let cs = counts(3);
        let full = top < 256 || thorough;
        run.family(&format!("{name}: every value, {} counts; distance of every pair", if full { "all" } else { "boundary" }), top + 1, |o, ctx| {
            ctx.c.states += 1;
            ctx.case(|| format!("{} by every count", T::at(o as u128).show()), |c| {
                if full {
                    for n in 0..=top + 300 {
                        step::<T>(o as u128, n, c)?;
                    }
                } else {
                    // Every count that lands within 40 of an end, and the lattice.
                    let o = o;
                    for d in 0..=40usize {
                        for n in [d, o.saturating_sub(d), o + d, (top - o).saturating_sub(d), top - o + d] {
                            step::<T>(o as u128, n, c)?;
                        }
                    }
                }
                for &n in &cs {
                    step::<T>(o as u128, n, c)?;
                }
                for b in 0..=top {
                    between::<T>(o as u128, b as u128, c)?;
                }
                Ok(())
            });
        });
    });
    // Every char: by small counts, over the gap, to the ends.
    let cs = counts(if thorough { 8 } else { 2 });
    let top = char::TOP as usize;
    let block = 1024;
    run.family("char: every value by boundary counts", top / block + 1, |i, ctx| {
        let (a, b) = (i * block, (i * block + block - 1).min(top));
        ctx.c.states += (b - a + 1) as u64;
        ctx.case(|| format!("chars {} to {}", char::at(a as u128).show(), char::at(b as u128).show()), |c| {
            for o in a..=b {
                for &n in &cs {
                    step::<char>(o as u128, n, c)?;
                }
                // Landing on, before and after the gap and the ends.
                for t in [0usize, 1, 0xD7FE, 0xD7FF, 0xD800, 0xD801, top - 1, top, top + 1] {
                    step::<char>(o as u128, t.abs_diff(o), c)?;
                }
                for t in [0usize, 1, 0xD7FE, 0xD7FF, 0xD800, 0xD801, top - 1, top, o / 2, o + (top - o) / 2] {
                    between::<char>(o as u128, t as u128, c)?;
                    between::<char>(t as u128, o as u128, c)?;
                }
            }
            Ok(())
        });
    });
    // All pairs of chars around the gap.
    let w: Vec<u128> = (0xD800u128 - 300..0xD800 + 300).collect();
    run.family("char: all pairs around the surrogate gap", w.len(), |i, ctx| {
        ctx.c.states += 1;
        ctx.case(|| format!("{} to its neighbours", char::at(w[i]).show()), |c| {
            for &o in &w {
                step::<char>(w[i], o.abs_diff(w[i]) as usize, c)?;
                between::<char>(w[i], o, c)?;
            }
            Ok(())
        });
    });
    for_types!(T in [u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, Letter] {
        let name = std::any::type_name::<T>();
        let os = lattice::<T>(if thorough { 16 } else { 6 });
        let cs = counts(if thorough { 16 } else { 6 });
        run.family(&format!("{name}: lattice of values, counts and distances"), os.len(), |i, ctx| {
            ctx.c.states += 1;
            let o = os[i];
            ctx.case(|| format!("{} on the lattice", T::at(o).show()), |c| {
                for &n in &cs {
                    step::<T>(o, n, c)?;
                }
                for &t in &os {
                    between::<T>(o, t, c)?;
                    // A count that lands on a lattice value exactly, or just past the ends.
                    for d in [t.abs_diff(o), t.abs_diff(o).saturating_add(1)] {
                        if let Ok(n) = usize::try_from(d) {
                            step::<T>(o, n, c)?;
                        }
                    }
                }
                Ok(())
            });
        });
    });
    run.finish()
}
