//! Iterators over any element type behind one interface that speaks ordinals, and their reference
//! model: a double-ended queue of ordinals, kept as disjoint ascending intervals.

use crate::engine::Counters;
use crate::ordinal::*;
use crate::val::{self, Val};
use rangetools::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::marker::PhantomData;

/// How many values a counting traversal may yield before it is stopped.
pub const RUNAWAY: usize = 3_000_000;

/// An iterator of the library, forward part.
pub trait FIt: Send {
    fn next(&mut self) -> Option<u128>;
    fn nth(&mut self, n: usize) -> Option<u128>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn min(&self) -> Option<u128>;
    fn dbg(&self) -> String;
    fn cl(&self) -> Box<dyn FIt>;
    /// The first `n` values by `take`.
    fn take(&self, n: usize) -> Vec<u128>;
    /// The `i`-th values for i = 0, k, 2k.. (at most `n` of them) by `step_by`.
    fn step_by(&self, k: usize, n: usize) -> Vec<u128>;
    /// `skip(k)`, then `n` values.
    fn skip(&self, k: usize, n: usize) -> Vec<u128>;
}

/// A double-ended iterator of the library.
pub trait BIt: Send {
    fn next(&mut self) -> Option<u128>;
    fn next_back(&mut self) -> Option<u128>;
    fn nth(&mut self, n: usize) -> Option<u128>;
    fn nth_back(&mut self, n: usize) -> Option<u128>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn dbg(&self) -> String;
    fn cl(&self) -> Box<dyn BIt>;
    fn count(&self) -> usize;
    fn last(&self) -> Option<u128>;
    fn min(&self) -> Option<u128>;
    fn max(&self) -> Option<u128>;
    fn fold(&self) -> Vec<u128>;
    fn rfold(&self) -> Vec<u128>;
    fn for_loop(&self) -> Vec<u128>;
    fn rev(&self) -> Vec<u128>;
    fn collect(&self) -> Vec<u128>;
    fn try_fold_half(&mut self, stop_after: usize) -> Vec<u128>;
    fn step_by(&self, k: usize) -> Vec<u128>;
    fn skip(&self, k: usize) -> Vec<u128>;
    fn rev_nth(&mut self, n: usize) -> Option<u128>;
    fn rposition(&self, o: u128) -> Option<usize>;
    fn position(&self, o: u128) -> Option<usize>;
    fn extreme_by(&self) -> (Option<u128>, Option<u128>);
}

fn guard(v: &mut Vec<u128>, x: u128) {
    assert!(v.len() < RUNAWAY, "the iterator yields more than {RUNAWAY} values");
    v.push(x);
}

struct W<I, T>(I, PhantomData<T>);

impl<T: Ordinal, I> BIt for W<I, T>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone + std::fmt::Debug + Send + 'static,
{
    fn next(&mut self) -> Option<u128> {
        self.0.next().map(T::ord)
    }
    fn next_back(&mut self) -> Option<u128> {
        self.0.next_back().map(T::ord)
    }
    fn nth(&mut self, n: usize) -> Option<u128> {
        self.0.nth(n).map(T::ord)
    }
    fn nth_back(&mut self, n: usize) -> Option<u128> {
        self.0.nth_back(n).map(T::ord)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn cl(&self) -> Box<dyn BIt> {
        Box::new(W(self.0.clone(), PhantomData))
    }
    fn count(&self) -> usize {
        self.0.clone().count()
    }
    fn last(&self) -> Option<u128> {
        self.0.clone().last().map(T::ord)
    }
    fn min(&self) -> Option<u128> {
        self.0.clone().min().map(T::ord)
    }
    fn max(&self) -> Option<u128> {
        self.0.clone().max().map(T::ord)
    }
    fn fold(&self) -> Vec<u128> {
        self.0.clone().fold(vec![], |mut v, x| {
            guard(&mut v, x.ord());
            v
        })
    }
    fn rfold(&self) -> Vec<u128> {
        self.0.clone().rfold(vec![], |mut v, x| {
            guard(&mut v, x.ord());
            v
        })
    }
    fn for_loop(&self) -> Vec<u128> {
        let mut v = vec![];
        for x in self.0.clone() {
            guard(&mut v, x.ord());
        }
        v
    }
    fn rev(&self) -> Vec<u128> {
        let mut v = vec![];
        for x in self.0.clone().rev() {
            guard(&mut v, x.ord());
        }
        v
    }
    fn collect(&self) -> Vec<u128> {
        let v: Vec<T> = self.0.clone().collect();
        v.into_iter().map(T::ord).collect()
    }
    fn try_fold_half(&mut self, stop_after: usize) -> Vec<u128> {
        let mut v = vec![];
        let mut left = stop_after;
        let _ = self.0.try_fold((), |(), x| {
            v.push(x.ord());
            left -= 1;
            if left == 0 {
                None
            } else {
                Some(())
            }
        });
        v
    }
    fn step_by(&self, k: usize) -> Vec<u128> {
        let mut v = vec![];
        for x in self.0.clone().step_by(k) {
            guard(&mut v, x.ord());
        }
        v
    }
    fn skip(&self, k: usize) -> Vec<u128> {
        let mut v = vec![];
        for x in self.0.clone().skip(k) {
            guard(&mut v, x.ord());
        }
        v
    }
    fn rev_nth(&mut self, n: usize) -> Option<u128> {
        self.0.by_ref().rev().nth(n).map(T::ord)
    }
    fn rposition(&self, o: u128) -> Option<usize> {
        self.0.clone().rposition(|x| x.ord() == o)
    }
    fn position(&self, o: u128) -> Option<usize> {
        self.0.clone().position(|x| x.ord() == o)
    }
    fn extreme_by(&self) -> (Option<u128>, Option<u128>) {
        (
            self.0.clone().min_by_key(|x| x.ord()).map(T::ord),
            self.0.clone().max_by_key(|x| x.ord()).map(T::ord),
        )
    }
}

struct WF<I, T>(I, PhantomData<T>);
impl<T: Ordinal, I> FIt for WF<I, T>
where
    I: Iterator<Item = T> + Clone + std::fmt::Debug + Send + 'static,
{
    fn next(&mut self) -> Option<u128> {
        self.0.next().map(T::ord)
    }
    fn nth(&mut self, n: usize) -> Option<u128> {
        self.0.nth(n).map(T::ord)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn min(&self) -> Option<u128> {
        self.0.clone().min().map(T::ord)
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn cl(&self) -> Box<dyn FIt> {
        Box::new(WF(self.0.clone(), PhantomData))
    }
    fn take(&self, n: usize) -> Vec<u128> {
        self.0.clone().take(n).map(T::ord).collect()
    }
    fn step_by(&self, k: usize, n: usize) -> Vec<u128> {
        self.0.clone().step_by(k).take(n).map(T::ord).collect()
    }
    fn skip(&self, k: usize, n: usize) -> Vec<u128> {
        self.0.clone().skip(k).take(n).map(T::ord).collect()
    }
}

/// One bounded range: ordinals of the endpoints and whether they are included.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Piece {
    pub lo: u128,
    pub li: bool,
    pub hi: u128,
    pub hi_in: bool,
}
impl Piece {
    /// The values it holds.
    pub fn interval(&self, top: u128) -> Option<(u128, u128)> {
        let a = if self.li {
            self.lo
        } else if self.lo < top {
            self.lo + 1
        } else {
            return None;
        };
        let b = if self.hi_in {
            self.hi
        } else if self.hi > 0 {
            self.hi - 1
        } else {
            return None;
        };
        (a <= b).then_some((a, b))
    }
}

/// How a bounded set with given pieces is obtained.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Route {
    /// Union in the order given.
    Union,
    /// Complement of everything around the pieces (which must ascend without overlapping).
    Complement,
    /// Complement of the complement of the union.
    Twice,
    /// (union with a lower-bounded range) intersected with an upper-bounded range.
    LowerCut,
    /// (union with an upper-bounded range) intersected with a lower-bounded range.
    UpperCut,
    /// Lower-bounded set intersected with an upper-bounded set.
    BothCut,
    /// (union with both) intersected with a bounded range.
    Window,
    /// Set of the pieces intersected with a set of one covering range.
    SetSet,
}
pub const ROUTES: [Route; 8] = [
    Route::Union,
    Route::Complement,
    Route::Twice,
    Route::LowerCut,
    Route::UpperCut,
    Route::BothCut,
    Route::Window,
    Route::SetSet,
];

/// A built set: its iterator (if building and iterating did not panic) and its membership.
pub trait SetVal {
    fn contains(&self, o: u128) -> bool;
    fn iter(&self) -> Box<dyn BIt>;
    fn dbg(&self) -> String;
}
/// The set itself (until it is iterated for the first time: it may lie in memory differently from
/// its copy) and a copy.
struct S<T>(BoundedSet<T>, RefCell<Option<BoundedSet<T>>>);
impl<T: Ordinal> SetVal for S<T> {
    fn contains(&self, o: u128) -> bool {
        self.0.contains(T::at(o))
    }
    fn iter(&self) -> Box<dyn BIt> {
        Box::new(W(self.1.take().unwrap_or_else(|| self.0.clone()).into_iter(), PhantomData))
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}
/// A lower-bounded value (range or set).
pub trait LowVal {
    fn contains(&self, o: u128) -> bool;
    fn iter(&self) -> Box<dyn FIt>;
    fn dbg(&self) -> String;
}
struct LR<T>(LowerBoundedRange<T>);
impl<T: Ordinal> LowVal for LR<T> {
    fn contains(&self, o: u128) -> bool {
        self.0.contains(T::at(o))
    }
    fn iter(&self) -> Box<dyn FIt> {
        Box::new(WF(self.0.into_iter(), PhantomData))
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}
struct LS<T>(LowerBoundedSet<T>, RefCell<Option<LowerBoundedSet<T>>>);
impl<T: Ordinal> LowVal for LS<T> {
    fn contains(&self, o: u128) -> bool {
        self.0.contains(T::at(o))
    }
    fn iter(&self) -> Box<dyn FIt> {
        Box::new(WF(self.1.take().unwrap_or_else(|| self.0.clone()).into_iter(), PhantomData))
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}

/// An element type, seen through ordinals.
pub trait Ty: Sync + Send {
    fn name(&self) -> &'static str;
    fn top(&self) -> u128;
    fn show(&self, o: u128) -> String;
    fn window(&self, w: u128) -> Vec<u128>;
    fn edges(&self, w: u128) -> Vec<u128>;
    fn range(&self, p: Piece) -> (Box<dyn BIt>, String);
    fn range_contains(&self, p: Piece, o: u128) -> bool;
    fn set(&self, ps: &[Piece], route: Route) -> Box<dyn SetVal>;
    fn low_range(&self, lo: u128, li: bool) -> Box<dyn LowVal>;
    fn low_set(&self, ps: &[Piece], lo: u128, li: bool, route: usize) -> Box<dyn LowVal>;
    fn show_piece(&self, p: Piece) -> String {
        format!(
            "{}{}, {}{}",
            if p.li { "[" } else { "(" },
            self.show(p.lo),
            self.show(p.hi),
            if p.hi_in { "]" } else { ")" }
        )
    }
}

pub struct Tp<T>(PhantomData<fn() -> T>);

fn lower<T>(t: T, inc: bool) -> LowerBound<T> {
    if inc {
        LowerBound::included(t)
    } else {
        LowerBound::excluded(t)
    }
}
fn upper<T>(t: T, inc: bool) -> UpperBound<T> {
    if inc {
        UpperBound::included(t)
    } else {
        UpperBound::excluded(t)
    }
}
pub fn mk<T: Ordinal>(p: Piece) -> BoundedRange<T> {
    BoundedRange::new(lower(T::at(p.lo), p.li), upper(T::at(p.hi), p.hi_in))
}

fn uni<T: Ordinal>(ps: &[Piece]) -> Val<T> {
    let mut s = Val::BS(BoundedSet::empty());
    for p in ps {
        s = val::union_v(s, Val::BR(mk(*p)));
    }
    s
}

impl<T: Ordinal> Ty for Tp<T> {
    fn name(&self) -> &'static str {
        std::any::type_name::<T>().rsplit("::").next().unwrap()
    }
    fn top(&self) -> u128 {
        T::TOP
    }
    fn show(&self, o: u128) -> String {
        T::at(o).show()
    }
    fn window(&self, w: u128) -> Vec<u128> {
        window::<T>(w)
    }
    fn edges(&self, w: u128) -> Vec<u128> {
        edges::<T>(w)
    }
    fn range(&self, p: Piece) -> (Box<dyn BIt>, String) {
        let r = mk::<T>(p);
        (Box::new(W(r.into_iter(), PhantomData)), format!("{r:?}"))
    }
    fn range_contains(&self, p: Piece, o: u128) -> bool {
        mk::<T>(p).contains(T::at(o))
    }
    fn set(&self, ps: &[Piece], route: Route) -> Box<dyn SetVal> {
        let lo = ps.iter().map(|p| p.lo).min().unwrap_or(0);
        let hi = ps.iter().map(|p| p.hi).max().unwrap_or(0);
        let ur = |o, i| Val::UR(UpperBoundedRange::new(upper(T::at(o), i)));
        let lr = |o, i| Val::LR(LowerBoundedRange::new(lower(T::at(o), i)));
        let v = match route {
            Route::Union => uni(ps),
            Route::Complement => {
                if ps.is_empty() {
                    val::complement_v(Val::AS(UnboundedSet::<T>::Full))
                } else {
                    // Everything around the pieces.
                    let mut s = val::to_set(&ur(ps[0].lo, !ps[0].li));
                    for w in ps.windows(2) {
                        let gap = Piece { lo: w[0].hi, li: !w[0].hi_in, hi: w[1].lo, hi_in: !w[1].li };
                        s = val::union_v(s, Val::BR(mk(gap)));
                    }
                    let l = ps[ps.len() - 1];
                    s = val::union_v(s, lr(l.hi, !l.hi_in));
                    val::complement_v(s)
                }
            }
            Route::Twice => val::complement_v(val::complement_v(uni::<T>(ps))),
            Route::LowerCut => {
                let s = val::union_v(uni(ps), lr(hi, false));
                val::intersection_v(s, ur(hi, true))
            }
            Route::UpperCut => {
                let s = val::union_v(uni(ps), ur(lo, false));
                val::intersection_v(s, lr(lo, true))
            }
            Route::BothCut => {
                let a = val::union_v(uni(ps), lr(hi, false));
                let b = val::union_v(uni(ps), ur(lo, false));
                val::intersection_v(a, b)
            }
            Route::Window => {
                let a = val::union_v(val::union_v(uni(ps), lr(hi, false)), ur(lo, false));
                let all = Piece { lo, li: true, hi, hi_in: true };
                val::intersection_v(a, Val::BR(mk(all)))
            }
            Route::SetSet => {
                let all = Piece { lo, li: true, hi, hi_in: true };
                val::intersection_v(uni(ps), val::to_set(&Val::BR(mk(all))))
            }
        };
        match v {
            Val::BS(s) => Box::new(S(s.clone(), RefCell::new(Some(s)))),
            other => panic!("{route:?} gave a {}", other.kind()),
        }
    }
    fn low_range(&self, lo: u128, li: bool) -> Box<dyn LowVal> {
        Box::new(LR(LowerBoundedRange::new(lower(T::at(lo), li))))
    }
    /// Routes: 0 union, 1 union with the unbounded part first, 2 double complement, 3 intersection
    /// of an unbounded set with a lower-bounded range, 4 complement of an upper-bounded set.
    fn low_set(&self, ps: &[Piece], lo: u128, li: bool, route: usize) -> Box<dyn LowVal> {
        let tail = Val::LR(LowerBoundedRange::new(lower(T::at(lo), li)));
        let v = match route {
            0 => val::union_v(uni(ps), tail),
            1 => {
                let mut s = val::to_set(&tail);
                for p in ps {
                    s = val::union_v(s, Val::BR(mk(*p)));
                }
                s
            }
            2 => val::complement_v(val::complement_v(val::union_v(uni(ps), tail))),
            _ => {
                let first = ps.iter().map(|p| p.lo).min().unwrap_or(lo).min(lo);
                let below = Val::UR(UpperBoundedRange::new(upper(T::at(first), false)));
                let s = val::union_v(val::union_v(uni(ps), tail), below);
                val::intersection_v(s, Val::LR(LowerBoundedRange::new(lower(T::at(first), true))))
            }
        };
        match v {
            Val::LS(s) => Box::new(LS(s.clone(), RefCell::new(Some(s)))),
            Val::LR(r) => Box::new(LR(r)),
            other => panic!("route {route} gave a {}", other.kind()),
        }
    }
}

pub fn types() -> Vec<Box<dyn Ty>> {
    let mut v: Vec<Box<dyn Ty>> = vec![];
    crate::for_types!(T {
        v.push(Box::new(Tp::<T>(PhantomData)));
    });
    v
}

/// All bounded ranges with endpoints in `eps` (reversed ones included).
pub fn pieces(eps: &[u128]) -> Vec<Piece> {
    let mut v = vec![];
    for &lo in eps {
        for &hi in eps {
            for (li, hi_in) in [(true, true), (true, false), (false, true), (false, false)] {
                v.push(Piece { lo, li, hi, hi_in });
            }
        }
    }
    v
}

/// Whether the pieces ascend with order-theoretic gaps or touching only (as the complement route
/// needs): each is order-non-empty and ends where the next may start.
pub fn ascending(ps: &[Piece]) -> bool {
    ps.iter().all(|p| p.lo < p.hi || p.lo == p.hi && p.li && p.hi_in)
        && ps
            .windows(2)
            .all(|w| w[0].hi < w[1].lo || w[0].hi == w[1].lo && !(w[0].hi_in && w[1].li))
}

/// What `contains` says, as ascending intervals of ordinals. `cuts` are the only places where
/// membership may change. `None` if it is not constant between them.
pub fn intervals(contains: impl Fn(u128) -> bool, cuts: &[u128], top: u128) -> Option<VecDeque<(u128, u128)>> {
    let mut out: VecDeque<(u128, u128)> = VecDeque::new();
    let mut add = |a: u128, b: u128, inside: bool| {
        if inside {
            match out.back_mut() {
                Some(l) if a > 0 && l.1 == a - 1 => l.1 = b,
                _ => out.push_back((a, b)),
            }
        }
    };
    if top < 256 {
        for o in 0..=top {
            add(o, o, contains(o));
        }
        return Some(out);
    }
    let mut cuts = cuts.to_vec();
    cuts.extend([0, top]);
    cuts.sort();
    cuts.dedup();
    for (i, &c) in cuts.iter().enumerate() {
        add(c, c, contains(c));
        if let Some(&n) = cuts.get(i + 1) {
            if n - c > 1 {
                let (a, b) = (c + 1, n - 1);
                let x = contains(a);
                if contains(b) != x || contains(a + (b - a) / 2) != x {
                    return None;
                }
                add(a, b, x);
            }
        }
    }
    Some(out)
}

/// The model: values still to come, as ascending disjoint intervals.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Deque(pub VecDeque<(u128, u128)>);

impl Deque {
    /// The number of values, if it fits.
    pub fn len(&self) -> Option<u128> {
        let mut n = 0u128;
        for &(a, b) in &self.0 {
            n = n.checked_add((b - a).checked_add(1)?)?;
        }
        Some(n)
    }
    pub fn front(&self) -> Option<u128> {
        self.0.front().map(|x| x.0)
    }
    pub fn back(&self) -> Option<u128> {
        self.0.back().map(|x| x.1)
    }
    pub fn nth(&mut self, n: usize) -> Option<u128> {
        let mut n = n as u128;
        while let Some(&(a, b)) = self.0.front() {
            if b - a < n {
                n -= b - a + 1;
                self.0.pop_front();
            } else {
                let x = a + n;
                if x == b {
                    self.0.pop_front();
                } else {
                    self.0[0].0 = x + 1;
                }
                return Some(x);
            }
        }
        None
    }
    pub fn nth_back(&mut self, n: usize) -> Option<u128> {
        let mut n = n as u128;
        while let Some(&(a, b)) = self.0.back() {
            if b - a < n {
                n -= b - a + 1;
                self.0.pop_back();
            } else {
                let x = b - n;
                if x == a {
                    self.0.pop_back();
                } else {
                    self.0.back_mut().unwrap().1 = x - 1;
                }
                return Some(x);
            }
        }
        None
    }
    /// The first `n` values.
    pub fn first(&self, n: usize) -> Vec<u128> {
        let mut m = self.clone();
        (0..n).map_while(|_| m.nth(0)).collect()
    }
    pub fn last(&self, n: usize) -> Vec<u128> {
        let mut m = self.clone();
        (0..n).map_while(|_| m.nth_back(0)).collect()
    }
}

/// Walks the whole range if it has at most `full` values, and otherwise the first and last `edge`.
pub fn walk(ty: &dyn Ty, it: &dyn BIt, model: &Deque, full: usize, edge: usize, c: &mut Counters) -> Result<(), String> {
    let show = |v: &[u128]| {
        let s: Vec<String> = v.iter().take(12).map(|o| ty.show(*o)).collect();
        format!("[{}{}] ({} values)", s.join(", "), if v.len() > 12 { ", .." } else { "" }, v.len())
    };
    let eq = |how: &str, got: &[u128], want: &[u128]| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{how} yields {}; expected {}", show(got), show(want)))
        }
    };
    let small = model.len().filter(|n| *n <= full as u128);
    let n = small.map_or(edge, |n| n as usize);
    let ends = small.is_some();
    for back in [false, true] {
        let how = if back { "next_back" } else { "next" };
        let mut it = it.cl();
        let want = if back { model.last(n) } else { model.first(n) };
        let mut got = vec![];
        for _ in 0..n {
            let x = if back { it.next_back() } else { it.next() };
            c.transitions += 1;
            match x {
                Some(x) => got.push(x),
                None => break,
            }
        }
        eq(how, &got, &want)?;
        if ends {
            for _ in 0..3 {
                c.transitions += 1;
                let x = if back { it.next_back() } else { it.next() };
                if let Some(x) = x {
                    return Err(format!("{how} yields {} after the {n} values it contains", ty.show(x)));
                }
            }
        }
    }
    if ends {
        let want = model.first(n);
        eq("a for loop", &it.for_loop(), &want)?;
        eq("collect", &it.collect(), &want)?;
        eq("fold", &it.fold(), &want)?;
        let want = model.last(n);
        eq("rev", &it.rev(), &want)?;
        eq("rfold", &it.rfold(), &want)?;
    }
    Ok(())
}

