//! The order domain: k endpoints and one probe in every cell they cut the order into, so that the
//! cells a value contains (a bit mask) say everything an order-only operation can depend on.

use crate::engine::{catch, note, note_none};
use crate::val::*;
use rangetools::*;
use std::collections::HashMap;

/// Element type of the order domain.
pub type V = u16;
/// The `i`-th endpoint (cells: even values lie strictly between, below or above the endpoints).
pub fn ep(i: usize) -> V {
    2 * i as V + 1
}

/// An alphabet of `k` endpoints `base, base+stride, ...`. With stride 2 every cell of the order has
/// a probe; with stride 1 the endpoints are neighbouring values with nothing in between.
#[derive(Clone, Copy)]
pub struct Dom {
    pub k: usize,
    pub base: usize,
    pub stride: usize,
}
impl Dom {
    pub fn ep(&self, i: usize) -> V {
        (self.base + self.stride * i) as V
    }
    /// The smallest and the largest probed value.
    pub fn lo(&self) -> usize {
        self.base.saturating_sub(1)
    }
    pub fn hi(&self) -> usize {
        (self.base + self.stride * (self.k - 1) + 1).min(V::MAX as usize)
    }
    pub fn mask(&self, v: &Val<V>) -> Mask {
        let mut m = 0;
        for c in self.lo()..=self.hi() {
            if v.contains(c as V) {
                m |= 1 << (c - self.lo());
            }
        }
        m
    }
    pub fn full(&self) -> Mask {
        (1 << (self.hi() - self.lo() + 1)) - 1
    }
    pub fn cells(&self, m: Mask) -> String {
        let v: Vec<String> = (self.lo()..=self.hi())
            .filter(|c| m >> (c - self.lo()) & 1 == 1)
            .map(|c| c.to_string())
            .collect();
        format!("{{{}}}", v.join(","))
    }
}

pub type Mask = u128;

/// Cells `0..=2k` contained in `v`.
pub fn mask(v: &Val<V>, k: usize) -> Mask {
    let mut m = 0;
    for c in 0..=2 * k {
        if v.contains(c as V) {
            m |= 1 << c;
        }
    }
    m
}
pub fn full(k: usize) -> Mask {
    (1 << (2 * k + 1)) - 1
}

/// How an operand was obtained.
#[derive(Clone)]
pub enum How {
    Leaf(String),
    ToSet(usize),
    Complement(usize),
    Union(usize, usize),
    Intersection(usize, usize),
}

#[derive(Clone)]
pub struct Node {
    pub val: Val<V>,
    /// Observed through `contains`.
    pub seen: Mask,
    pub how: How,
}

pub fn expr(nodes: &[Node], i: usize) -> String {
    match &nodes[i].how {
        How::Leaf(s) => s.clone(),
        How::ToSet(a) => format!("{}.to_set()", expr(nodes, *a)),
        How::Complement(a) => format!("{}.complement()", expr(nodes, *a)),
        How::Union(a, b) => format!("{}.union({})", expr(nodes, *a), expr(nodes, *b)),
        How::Intersection(a, b) => format!("{}.intersection({})", expr(nodes, *a), expr(nodes, *b)),
    }
}

pub fn lower(t: V, inc: bool) -> LowerBound<V> {
    if inc {
        LowerBound::included(t)
    } else {
        LowerBound::excluded(t)
    }
}
pub fn upper(t: V, inc: bool) -> UpperBound<V> {
    if inc {
        UpperBound::included(t)
    } else {
        UpperBound::excluded(t)
    }
}
fn inc_s(i: bool) -> &'static str {
    if i {
        "included"
    } else {
        "excluded"
    }
}
pub fn br(a: V, ai: bool, b: V, bi: bool) -> (Val<V>, String) {
    (
        Val::BR(BoundedRange::new(lower(a, ai), upper(b, bi))),
        format!(
            "BoundedRange::new(LowerBound::{}({a}), UpperBound::{}({b}))",
            inc_s(ai),
            inc_s(bi)
        ),
    )
}
pub fn lr(a: V, ai: bool) -> (Val<V>, String) {
    (
        Val::LR(LowerBoundedRange::new(lower(a, ai))),
        format!("LowerBoundedRange::new(LowerBound::{}({a}))", inc_s(ai)),
    )
}
pub fn ur(a: V, ai: bool) -> (Val<V>, String) {
    (
        Val::UR(UpperBoundedRange::new(upper(a, ai))),
        format!("UpperBoundedRange::new(UpperBound::{}({a}))", inc_s(ai)),
    )
}
pub fn exhausted(a: V, b: V) -> std::ops::RangeInclusive<V> {
    let mut r = a..=b;
    r.by_ref().for_each(drop);
    r
}

/// Every range of every range type over endpoints `0..k`.
pub fn ranges(k: usize) -> Vec<Node> {
    ranges_over(Dom { k, base: 1, stride: 2 })
}
pub fn ranges_over(dom: Dom) -> Vec<Node> {
    let k = dom.k;
    let ep = |i| dom.ep(i);
    let mut v: Vec<(Val<V>, String)> = vec![];
    v.push((Val::E(EmptyRange::new()), "EmptyRange::<u16>::new()".into()));
    v.push((Val::A(..), "(..)".into()));
    v.push((Val::AR(UnboundedRange::new()), "UnboundedRange::new()".into()));
    for i in 0..k {
        let a = ep(i);
        v.push((Val::F(a..), format!("({a}u16..)")));
        v.push((Val::T(..a), format!("(..{a}u16)")));
        v.push((Val::TI(..=a), format!("(..={a}u16)")));
        for inc in [true, false] {
            v.push(lr(a, inc));
            v.push(ur(a, inc));
        }
        for j in 0..k {
            let b = ep(j);
            v.push((Val::R(a..b), format!("({a}u16..{b})")));
            v.push((Val::I(a..=b), format!("({a}u16..={b})")));
            if a <= b && j - i <= 1 {
                v.push((
                    Val::I(exhausted(a, b)),
                    format!("{{ let mut r = {a}u16..={b}; r.by_ref().for_each(drop); r }}"),
                ));
            }
            for (x, y) in [(true, true), (true, false), (false, true), (false, false)] {
                v.push(br(a, x, b, y));
            }
        }
    }
    v.into_iter()
        .map(|(val, s)| {
            let seen = dom.mask(&val);
            Node {
                val,
                seen,
                how: How::Leaf(s),
            }
        })
        .collect()
}

pub fn key(v: &Val<V>, m: Mask) -> String {
    format!("{v:?}|{m:x}")
}

/// Every set value reachable from ranges over k endpoints by to_set, union and intersection with a
/// range, and complement, explored breadth first to a fixpoint. The first `ranges(k).len()` nodes
/// are the ranges. Panicking operations are skipped here. `cap` bounds the number of nodes.
pub fn reachable(k: usize, cap: usize) -> (Vec<Node>, bool) {
    let mut nodes = ranges(k);
    let nr = nodes.len();
    // One operand per distinct crate range value is enough to combine with.
    let with: Vec<usize> = (0..nr)
        .filter(|&i| matches!(nodes[i].val, Val::BR(_) | Val::LR(_) | Val::UR(_)))
        .collect();
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut queue: Vec<usize> = vec![];
    let mut capped = false;
    let mut push = |nodes: &mut Vec<Node>, queue: &mut Vec<usize>, r: Result<Val<V>, String>, how: How| {
        let Ok(val) = r else { return };
        if !val.is_set() {
            return;
        }
        let Ok(seen) = catch(|| mask(&val, k)) else { return };
        let kk = key(&val, seen);
        if ids.contains_key(&kk) {
            return;
        }
        if nodes.len() >= cap {
            capped = true;
            return;
        }
        ids.insert(kk, nodes.len());
        queue.push(nodes.len());
        nodes.push(Node { val, seen, how });
    };
    for i in 0..nr {
        let v = nodes[i].val.clone();
        note("to_set", || format!("{}.to_set()", expr(&nodes, i)));
        let r = catch(|| to_set(&v));
        push(&mut nodes, &mut queue, r, How::ToSet(i));
        note("complement", || format!("{}.complement()", expr(&nodes, i)));
        let r = catch(|| complement(&v));
        push(&mut nodes, &mut queue, r, How::Complement(i));
    }
    let mut q = 0;
    while q < queue.len() {
        let i = queue[q];
        q += 1;
        let v = nodes[i].val.clone();
        note("complement", || format!("{}.complement()", expr(&nodes, i)));
        let r = catch(|| complement(&v));
        push(&mut nodes, &mut queue, r, How::Complement(i));
        for &j in &with {
            let w = nodes[j].val.clone();
            note("union", || format!("{}.union({})", expr(&nodes, i), expr(&nodes, j)));
            let r = catch(|| union(&v, &w));
            push(&mut nodes, &mut queue, r, How::Union(i, j));
            note("intersection", || {
                format!("{}.intersection({})", expr(&nodes, i), expr(&nodes, j))
            });
            let r = catch(|| intersection(&v, &w));
            push(&mut nodes, &mut queue, r, How::Intersection(i, j));
        }
    }
    note_none();
    (nodes, capped)
}

/// Non-overlapping ascending families of at most `p` bounded pieces over endpoints `0..k`, joined
/// with an optional unbounded piece on either side, built by union in ascending order.
pub fn few_pieces(k: usize, p: usize, tails: usize) -> Vec<Node> {
    // A piece as a cell interval: [2i+1 or 2i+2 ..= 2j+1 or 2j] with its bounds.
    let mut pieces: Vec<(usize, usize, Val<V>, String)> = vec![];
    for i in 0..k {
        for j in i..k {
            for (ai, bi) in [(true, true), (true, false), (false, true), (false, false)] {
                if i == j && !(ai && bi) {
                    continue;
                }
                let lo = 2 * i + 1 + !ai as usize;
                let hi = 2 * j + 1 - !bi as usize;
                let (v, s) = br(ep(i), ai, ep(j), bi);
                pieces.push((lo, hi, v, s));
            }
        }
    }
    pieces.sort_by_key(|x| (x.0, x.1));
    let mut out = vec![];
    // tail options: None or a cell bound
    let mut lows: Vec<Option<(usize, Val<V>, String)>> = vec![None];
    let mut highs: Vec<Option<(usize, Val<V>, String)>> = vec![None];
    for i in 0..k {
        for inc in [true, false] {
            let (v, s) = ur(ep(i), inc);
            lows.push(Some((2 * i + 1 - !inc as usize, v, s)));
            let (v, s) = lr(ep(i), inc);
            highs.push(Some((2 * i + 1 + !inc as usize, v, s)));
        }
    }
    fn rec(
        pieces: &[(usize, usize, Val<V>, String)],
        from_cell: usize,
        left: usize,
        cur: &mut Vec<usize>,
        all: &mut Vec<Vec<usize>>,
    ) {
        all.push(cur.clone());
        if left == 0 {
            return;
        }
        for (n, p) in pieces.iter().enumerate() {
            if p.0 >= from_cell {
                cur.push(n);
                rec(pieces, p.1 + 1, left - 1, cur, all);
                cur.pop();
            }
        }
    }
    let mut combos = vec![];
    rec(&pieces, 0, p, &mut vec![], &mut combos);
    for lo in &lows {
        for hi in &highs {
            let nt = lo.is_some() as usize + hi.is_some() as usize;
            for c in &combos {
                if nt > 0 && c.len() + nt > tails {
                    continue;
                }
                if nt == 0 && c.is_empty() {
                    continue;
                }
                let first = c.first().map(|&n| pieces[n].0);
                let last = c.last().map(|&n| pieces[n].1);
                if let Some((e, _, _)) = lo {
                    if first.map_or(false, |f| f <= *e) {
                        continue;
                    }
                    if let (Some((s, _, _)), true) = (hi, c.is_empty()) {
                        if s <= e {
                            continue;
                        }
                    }
                }
                if let Some((s, _, _)) = hi {
                    if last.map_or(false, |l| l >= *s) {
                        continue;
                    }
                }
                let mut parts: Vec<(&Val<V>, &str)> = vec![];
                if let Some((_, v, s)) = lo {
                    parts.push((v, s));
                }
                for &n in c {
                    parts.push((&pieces[n].2, &pieces[n].3));
                }
                if let Some((_, v, s)) = hi {
                    parts.push((v, s));
                }
                if let Some(n) = join(&parts, k) {
                    out.push(n);
                }
            }
        }
    }
    note_none();
    out
}

/// The union of the parts, in order (`None` if that panics).
pub fn join(parts: &[(&Val<V>, &str)], k: usize) -> Option<Node> {
    let s = || {
        let mut s = format!("{}.to_set()", parts[0].1);
        for p in &parts[1..] {
            s.push_str(&format!(".union({})", p.1));
        }
        s
    };
    note("union", s);
    let val = catch(|| {
        let mut v = to_set(parts[0].0);
        for p in &parts[1..] {
            v = union(&v, p.0);
        }
        v
    })
    .ok()?;
    let seen = catch(|| mask(&val, k)).ok()?;
    Some(Node {
        val,
        seen,
        how: How::Leaf(s()),
    })
}
