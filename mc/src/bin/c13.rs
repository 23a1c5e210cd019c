//! C13: indexing with a crate range selects what the std range with the same values selects.
//! The oracle is std indexing by a pair of std bounds, which needs no conversion.

use mc::engine::*;
use rangetools::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::ops::Bound as B;
use std::ops::{Index, IndexMut};

#[derive(Clone, Copy, Debug)]
enum R {
    Both(BoundedRange<usize>),
    Low(LowerBoundedRange<usize>),
    Up(UpperBoundedRange<usize>),
    All,
    Empty,
}

fn std_bound(b: Bound<usize>) -> B<usize> {
    match b {
        Bound::Included(x) => B::Included(x),
        Bound::Excluded(x) => B::Excluded(x),
    }
}

/// The start and end (exclusive) the range stands for, as positions in 0..=2^64.
fn span(r: R) -> Option<(u128, Option<u128>)> {
    let lo = |b: LowerBound<usize>| match b.to_bound() {
        Bound::Included(x) => x as u128,
        Bound::Excluded(x) => x as u128 + 1,
    };
    let hi = |b: UpperBound<usize>| match b.to_bound() {
        Bound::Included(x) => x as u128 + 1,
        Bound::Excluded(x) => x as u128,
    };
    match r {
        R::Both(r) => Some((lo(r.start), Some(hi(r.end)))),
        R::Low(r) => Some((lo(r.start), None)),
        R::Up(r) => Some((0, Some(hi(r.end)))),
        R::All => Some((0, None)),
        R::Empty => None,
    }
}

/// What std selects: offset and length in elements, or None if std panics. Checked twice: by std
/// itself (`get` with a pair of bounds) and by arithmetic; the two must agree or the harness is
/// wrong.
fn oracle_slice<T>(s: &[T], r: R) -> Option<(usize, usize)> {
    let got: Option<&[T]> = match r {
        R::Both(r) => {
            let b = (std_bound(r.start.to_bound()), std_bound(r.end.to_bound()));
            s.get(b)
        }
        R::Low(r) => s.get((std_bound(r.start.to_bound()), B::Unbounded)),
        R::Up(r) => s.get((B::Unbounded, std_bound(r.end.to_bound()))),
        R::All => s.get(..),
        // The std range holding the same values and needing the least of the container.
        R::Empty => s.get(0..0),
    };
    let got = got.map(|g| ((g.as_ptr() as usize - s.as_ptr() as usize) / std::mem::size_of::<T>().max(1), g.len()));
    let len = s.len() as u128;
    let want = match span(r) {
        None => Some((0, 0)),
        Some((a, b)) => {
            let b = b.unwrap_or(len);
            (a <= b && b <= len).then(|| (a as usize, (b - a) as usize))
        }
    };
    assert_eq!(got, want, "oracle disagreement on {r:?}");
    got
}

fn oracle_str(s: &str, r: R) -> Option<(usize, usize)> {
    let (o, l) = oracle_slice(s.as_bytes(), r)?;
    (s.is_char_boundary(o) && s.is_char_boundary(o + l)).then_some((o, l))
}

fn same(what: &str, got: Result<(usize, usize), String>, want: Option<(usize, usize)>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("{what} gives {} from offset {}; std indexing panics", g.1, g.0)),
        (Ok(g), Some(w)) => Err(format!("{what} gives {} from offset {}; std gives {} from offset {}", g.1, g.0, w.1, w.0)),
        (Err(p), Some(w)) => Err(format!("{what} panics ({p}); std gives {} from offset {}", w.1, w.0)),
    }
}

fn at<T, U: ?Sized>(base: *const T, sel: &U, size: usize) -> (usize, usize) {
    let n = std::mem::size_of_val(sel);
    (((sel as *const U as *const u8 as usize).wrapping_sub(base as *const u8 as usize)) / size, n / size)
}

/// Reading and writing through every range type on one container.
trait Cont {
    fn read(&self, r: R) -> Result<(usize, usize), String>;
    /// Writes through the range; returns where.
    fn write(&mut self, r: R) -> Option<Result<(usize, usize), String>>;
    fn oracle(&self, r: R) -> Option<(usize, usize)>;
    /// Positions that differ from the initial contents.
    fn changed(&self) -> Vec<usize>;
    fn reset(&mut self);
}

fn read_any<C: ?Sized, O: ?Sized>(c: &C, r: R, base: *const u8, size: usize) -> Result<(usize, usize), String>
where
    C: Index<BoundedRange<usize>, Output = O>
        + Index<LowerBoundedRange<usize>, Output = O>
        + Index<UpperBoundedRange<usize>, Output = O>
        + Index<UnboundedRange, Output = O>
        + Index<EmptyRange<usize>, Output = O>,
{
    catch(|| match r {
        R::Both(r) => at(base, &c[r], size),
        R::Low(r) => at(base, &c[r], size),
        R::Up(r) => at(base, &c[r], size),
        R::All => at(base, &c[UnboundedRange::new()], size),
        R::Empty => at(base, &c[EmptyRange::new()], size),
    })
}

fn write_any<C: ?Sized, O: ?Sized>(c: &mut C, r: R, base: *const u8, size: usize, put: fn(&mut O)) -> Option<Result<(usize, usize), String>>
where
    C: IndexMut<BoundedRange<usize>, Output = O>
        + IndexMut<LowerBoundedRange<usize>, Output = O>
        + IndexMut<UpperBoundedRange<usize>, Output = O>
        + IndexMut<UnboundedRange, Output = O>,
{
    if let R::Empty = r {
        return None;
    }
    Some(catch(|| {
        let o: &mut O = match r {
            R::Both(r) => &mut c[r],
            R::Low(r) => &mut c[r],
            R::Up(r) => &mut c[r],
            _ => &mut c[UnboundedRange::new()],
        };
        put(o);
        at(base, &*o, size)
    }))
}

struct VecC(Vec<u32>);
impl Cont for VecC {
    fn read(&self, r: R) -> Result<(usize, usize), String> {
        read_any(&self.0, r, self.0.as_ptr() as *const u8, 4)
    }
    fn write(&mut self, r: R) -> Option<Result<(usize, usize), String>> {
        let p = self.0.as_ptr() as *const u8;
        write_any(&mut self.0, r, p, 4, |s: &mut [u32]| s.iter_mut().for_each(|x| *x += 1000))
    }
    fn oracle(&self, r: R) -> Option<(usize, usize)> {
        oracle_slice(&self.0, r)
    }
    fn changed(&self) -> Vec<usize> {
        (0..self.0.len()).filter(|&i| self.0[i] != i as u32).collect()
    }
    fn reset(&mut self) {
        for (i, x) in self.0.iter_mut().enumerate() {
            *x = i as u32;
        }
    }
}
struct SliceC(Box<[u32]>);
impl Cont for SliceC {
    fn read(&self, r: R) -> Result<(usize, usize), String> {
        let s: &[u32] = &self.0;
        read_any(s, r, s.as_ptr() as *const u8, 4)
    }
    fn write(&mut self, r: R) -> Option<Result<(usize, usize), String>> {
        let p = self.0.as_ptr() as *const u8;
        let s: &mut [u32] = &mut self.0;
        write_any(s, r, p, 4, |s: &mut [u32]| s.iter_mut().for_each(|x| *x += 1000))
    }
    fn oracle(&self, r: R) -> Option<(usize, usize)> {
        oracle_slice(&self.0, r)
    }
    fn changed(&self) -> Vec<usize> {
        (0..self.0.len()).filter(|&i| self.0[i] != i as u32).collect()
    }
    fn reset(&mut self) {
        for (i, x) in self.0.iter_mut().enumerate() {
            *x = i as u32;
        }
    }
}
/// ASCII parts are written by making them upper case.
struct StringC(String, String);
impl Cont for StringC {
    fn read(&self, r: R) -> Result<(usize, usize), String> {
        read_any(&self.0, r, self.0.as_ptr(), 1)
    }
    fn write(&mut self, r: R) -> Option<Result<(usize, usize), String>> {
        let p = self.0.as_ptr();
        write_any(&mut self.0, r, p, 1, |s: &mut str| s.make_ascii_uppercase())
    }
    fn oracle(&self, r: R) -> Option<(usize, usize)> {
        oracle_str(&self.0, r)
    }
    fn changed(&self) -> Vec<usize> {
        (0..self.0.len()).filter(|&i| self.0.as_bytes()[i] != self.1.as_bytes()[i]).collect()
    }
    fn reset(&mut self) {
        self.0.make_ascii_lowercase();
    }
}
struct StrC(Box<str>, String);
impl Cont for StrC {
    fn read(&self, r: R) -> Result<(usize, usize), String> {
        let s: &str = &self.0;
        read_any(s, r, s.as_ptr(), 1)
    }
    fn write(&mut self, r: R) -> Option<Result<(usize, usize), String>> {
        let p = self.0.as_ptr();
        let s: &mut str = &mut self.0;
        write_any(s, r, p, 1, |s: &mut str| s.make_ascii_uppercase())
    }
    fn oracle(&self, r: R) -> Option<(usize, usize)> {
        oracle_str(&self.0, r)
    }
    fn changed(&self) -> Vec<usize> {
        (0..self.0.len()).filter(|&i| self.0.as_bytes()[i] != self.1.as_bytes()[i]).collect()
    }
    fn reset(&mut self) {
        self.0.make_ascii_lowercase();
    }
}

fn check(ctx: &mut Ctx, name: &str, c: &mut dyn Cont, r: R) {
    ctx.case(
        || format!("{name} indexed by {r:?}"),
        |n| {
            n.transitions += 2;
            let want = c.oracle(r);
            same("index", c.read(r), want)?;
            c.reset();
            if let Some(got) = c.write(r) {
                let ch = c.changed();
                c.reset();
                same("index_mut", got, want)?;
                if let Some((o, l)) = want {
                    if ch.iter().any(|i| *i < o || *i >= o + l) {
                        return Err(format!("writing through it changed positions {ch:?}"));
                    }
                } else if !ch.is_empty() {
                    return Err(format!("it panics but changed positions {ch:?}"));
                }
            }
            Ok(())
        },
    );
}

fn read_len<C: ?Sized>(c: &C, r: R) -> Result<usize, String>
where
    C: Index<BoundedRange<usize>, Output = [()]>
        + Index<LowerBoundedRange<usize>, Output = [()]>
        + Index<UpperBoundedRange<usize>, Output = [()]>
        + Index<UnboundedRange, Output = [()]>
        + Index<EmptyRange<usize>, Output = [()]>,
{
    catch(|| match r {
        R::Both(r) => c[r].len(),
        R::Low(r) => c[r].len(),
        R::Up(r) => c[r].len(),
        R::All => c[UnboundedRange::new()].len(),
        R::Empty => c[EmptyRange::new()].len(),
    })
}
fn write_len<C: ?Sized>(c: &mut C, r: R) -> Option<Result<usize, String>>
where
    C: IndexMut<BoundedRange<usize>, Output = [()]>
        + IndexMut<LowerBoundedRange<usize>, Output = [()]>
        + IndexMut<UpperBoundedRange<usize>, Output = [()]>
        + IndexMut<UnboundedRange, Output = [()]>,
{
    if let R::Empty = r {
        return None;
    }
    Some(catch(|| {
        let s: &mut [()] = match r {
            R::Both(r) => &mut c[r],
            R::Low(r) => &mut c[r],
            R::Up(r) => &mut c[r],
            _ => &mut c[UnboundedRange::new()],
        };
        s.len()
    }))
}

fn all_ranges(ends: &[usize]) -> Vec<R> {
    let mut v = vec![R::All, R::Empty];
    let lows: Vec<LowerBound<usize>> = ends.iter().flat_map(|&x| [LowerBound::included(x), LowerBound::excluded(x)]).collect();
    let ups: Vec<UpperBound<usize>> = ends.iter().flat_map(|&x| [UpperBound::included(x), UpperBound::excluded(x)]).collect();
    for &l in &lows {
        v.push(R::Low(LowerBoundedRange::new(l)));
        for &u in &ups {
            v.push(R::Both(BoundedRange::new(l, u)));
        }
    }
    for &u in &ups {
        v.push(R::Up(UpperBoundedRange::new(u)));
    }
    v
}

fn main() {
    let mut run = Run::new(&[]);
    let thorough = run.thorough;
    let max = usize::MAX;
    let lens = if thorough { 24 } else { 12 };
    let ends = |len: usize| -> Vec<usize> {
        let mut e: Vec<usize> = (0..=len + 3).collect();
        e.extend([255, 256, 65535, 65536, u32::MAX as usize, (u32::MAX as usize).saturating_add(1), isize::MAX as usize - 1, isize::MAX as usize, isize::MAX as usize + 1, max - 2, max - 1, max]);
        e.sort();
        e.dedup();
        e
    };
    run.family("Vec<u32> and [u32] of every length", lens + 1, |len, ctx| {
        let mut v = VecC((0..len as u32).collect());
        let mut s = SliceC((0..len as u32).collect());
        for r in all_ranges(&ends(len)) {
            ctx.c.states += 2;
            check(ctx, &format!("Vec of {len}"), &mut v, r);
            check(ctx, &format!("slice of {len}"), &mut s, r);
        }
    });
    // Longer containers: ends around 255/256 and 65535/65536.
    run.family("Vec<u32> and [u32] of 255 to 65537 elements", 6, |i, ctx| {
        let len = [255usize, 256, 257, 65535, 65536, 65537][i];
        let mut v = VecC((0..len as u32).collect());
        let mut s = SliceC((0..len as u32).collect());
        let mut e: Vec<usize> = vec![0, 1, 254, 255, 256, 257, len - 1, len, len + 1, max - 1, max];
        e.sort();
        e.dedup();
        for r in all_ranges(&e) {
            ctx.c.states += 2;
            check(ctx, &format!("Vec of {len}"), &mut v, r);
            check(ctx, &format!("slice of {len}"), &mut s, r);
        }
    });
    // Elements without size: the only slices that reach usize::MAX.
    run.family("Vec<()> and [()] of up to usize::MAX elements", 9, |i, ctx| {
        let len = [0, 1, 7, isize::MAX as usize, isize::MAX as usize + 1, max - 7, max - 2, max - 1, max][i];
        let mut v: Vec<()> = Vec::new();
        // SAFETY: a Vec of elements without size has room for usize::MAX of them.
        unsafe { v.set_len(len) };
        let mut e: Vec<usize> = vec![0, 1, 2, 6, 7, 8];
        for m in [u32::MAX as usize, isize::MAX as usize, max - 4] {
            e.extend((m.saturating_sub(4)..=m).chain(m..=m.saturating_add(4)));
        }
        e.sort();
        e.dedup();
        for r in all_ranges(&e) {
            // A start after usize::MAX: no std range says just that, and the empty ones closest to
            // it are within a container of usize::MAX elements. Nothing is claimed there.
            if len == max && matches!(span(r), Some((a, Some(_))) if a > max as u128) {
                continue;
            }
            ctx.c.states += 2;
            let want = match span(r) {
                None => Some((0, 0)),
                Some((a, b)) => {
                    let b = b.unwrap_or(len as u128);
                    (a <= b && b <= len as u128).then(|| (0, (b - a) as usize))
                }
            };
            let mut on = |name: &str, read: Result<usize, String>, write: Option<Result<usize, String>>| {
                ctx.case(
                    || format!("{name} of {len} indexed by {r:?}"),
                    |n| {
                        n.transitions += 2;
                        same("index", read.map(|l| (0, l)), want)?;
                        write.map_or(Ok(()), |w| same("index_mut", w.map(|l| (0, l)), want))
                    },
                );
            };
            let (a, b) = (read_len(&v, r), write_len(&mut v, r));
            on("Vec<()>", a, b);
            let (a, b) = (read_len(&v[..], r), write_len(&mut v[..], r));
            on("[()]", a, b);
        }
    });
    let texts: Vec<String> = {
        let mut t: Vec<String> = (0..=lens).map(|n| "abcdefghijklmnopqrstuvwxyz"[..n].to_string()).collect();
        // Characters of one to four bytes in every position.
        let cs = ["a", "\u{e9}", "\u{20ac}", "\u{10348}"];
        let n = if thorough { 4 } else { 3 };
        for k in 1..=n {
            for m in 0..4usize.pow(k) {
                t.push((0..k).map(|i| cs[m / 4usize.pow(i) % 4]).collect());
            }
        }
        t.sort();
        t.dedup();
        t
    };
    run.family("String and str, ASCII and multi-byte", texts.len(), |i, ctx| {
        let t = &texts[i];
        let mut a = StringC(t.clone(), t.clone());
        let mut b = StrC(t.clone().into_boxed_str(), t.clone());
        for r in all_ranges(&ends(t.len())) {
            ctx.c.states += 2;
            check(ctx, &format!("String {t:?}"), &mut a, r);
            check(ctx, &format!("str {t:?}"), &mut b, r);
        }
    });
    run.family("String and str of 255 to 65537 bytes", 6, |i, ctx| {
        let len = [255usize, 256, 257, 65535, 65536, 65537][i];
        let mut t: String = "a\u{e9}\u{20ac}\u{10348}".chars().cycle().take(len / 10 * 4).collect();
        while t.len() < len {
            t.push('z');
        }
        let mut a = StringC(t.clone(), t.clone());
        let mut b = StrC(t.clone().into_boxed_str(), t.clone());
        let mut e: Vec<usize> = (0..=10).chain(250..=257).chain(len - 12..=len + 1).chain([max - 1, max]).collect();
        e.sort();
        e.dedup();
        if len > 1000 {
            e.retain(|x| x % 3 != 2 || *x >= len - 2);
        }
        for r in all_ranges(&e) {
            ctx.c.states += 2;
            check(ctx, &format!("String of {len} bytes"), &mut a, r);
            check(ctx, &format!("str of {len} bytes"), &mut b, r);
        }
    });
    run.family("CStr, CString and OsString", lens + 1, |len, ctx| {
        let text = "abcdefghijklmnopqrstuvwxyz"[..len].to_string();
        let c = CString::new(text.clone()).unwrap();
        let cs: &CStr = &c;
        for e in ends(len) {
            for l in [LowerBound::included(e), LowerBound::excluded(e)] {
                let r = LowerBoundedRange::new(l);
                ctx.c.states += 1;
                ctx.case(
                    || format!("CStr {cs:?} indexed by {r:?}"),
                    |n| {
                        n.transitions += 1;
                        // std: the start must lie within the string or at its terminator.
                        let (a, _) = span(R::Low(r)).unwrap();
                        let want = (a <= len as u128).then(|| (a as usize, len - a as usize));
                        if let Ok(a) = usize::try_from(a) {
                            let std = catch(|| (cs[a..].as_ptr() as usize - cs.as_ptr() as usize, cs[a..].to_bytes().len())).ok();
                            assert_eq!(std, want, "oracle disagreement");
                        }
                        let got = catch(|| {
                            let g: &CStr = &cs[r];
                            (g.as_ptr() as usize - cs.as_ptr() as usize, g.to_bytes().len())
                        });
                        same("index", got, want)
                    },
                );
            }
        }
        ctx.case(
            || format!("CString {c:?} and OsString {text:?} indexed by UnboundedRange"),
            |n| {
                n.transitions += 3;
                let g: &CStr = &c[UnboundedRange::new()];
                if g.as_ptr() != c.as_ptr() || g.to_bytes() != text.as_bytes() {
                    return Err(format!("CString gives {g:?}"));
                }
                let mut o = OsString::from(text.clone());
                let want = o[..].as_encoded_bytes().as_ptr_range();
                let g: &OsStr = &o[UnboundedRange::new()];
                if g.as_encoded_bytes().as_ptr_range() != want {
                    return Err(format!("OsString gives {g:?}"));
                }
                let g: &mut OsStr = &mut o[UnboundedRange::new()];
                if g.as_encoded_bytes().as_ptr_range() != want {
                    return Err(format!("OsString gives {g:?} for writing"));
                }
                g.make_ascii_uppercase();
                if o.to_str().unwrap() != text.to_uppercase() {
                    return Err(format!("writing gives {o:?}"));
                }
                Ok(())
            },
        );
    });
    run.finish()
}
