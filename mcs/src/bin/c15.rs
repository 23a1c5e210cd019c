//! C15: serialising and deserialising any bound, range or set gives back an equal value with the
//! same contents, in JSON (text and tree), CBOR and bincode (fixed and variable width), alone and
//! embedded between other fields; equal values have identical forms.

use bincode::Options;
use mc::engine::*;
use mc::order::*;
use mc::setops::wide;
use mc::val::Val;
use rangetools::{Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, Rangetools, UnboundedRange, UnboundedSet, UpperBound, UpperBoundedRange};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt::Debug;

/// Embedding: fields before and after, so that a form that consumes too little or too much shows.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Around<X> {
    before: u8,
    it: X,
    list: Vec<X>,
    after: String,
}

fn eq<X: PartialEq + Debug>(how: &str, got: Result<X, String>, want: &X) -> Result<(), String> {
    match got {
        Ok(g) if g == *want => Ok(()),
        Ok(g) => Err(format!("{how} gives back {g:?} instead of {want:?}")),
        Err(e) => Err(format!("{how} fails: {e}")),
    }
}

fn es(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// The serialised forms (JSON, CBOR, bincode), after checking that each reads back as `x`.
fn forms<X: Serialize + DeserializeOwned + PartialEq + Debug>(x: &X, c: &mut Counters) -> Result<(String, Vec<u8>, Vec<u8>), String> {
    c.transitions += 4;
    let json = serde_json::to_string(x).map_err(|e| format!("JSON cannot serialise: {e}"))?;
    eq("JSON", serde_json::from_str::<X>(&json).map_err(es), x)?;
    let mut cbor = vec![];
    ciborium::into_writer(x, &mut cbor).map_err(|e| format!("CBOR cannot serialise: {e}"))?;
    eq("CBOR", ciborium::from_reader::<X, _>(&cbor[..]).map_err(es), x)?;
    let bin = bincode::serialize(x).map_err(|e| format!("bincode cannot serialise: {e}"))?;
    eq("bincode", bincode::deserialize::<X>(&bin).map_err(es), x)?;
    let o = bincode::DefaultOptions::new();
    let var = o.serialize(x).map_err(es)?;
    eq("bincode with variable widths (no trailing bytes allowed)", o.deserialize::<X>(&var).map_err(es), x)?;
    Ok((json, cbor, bin))
}

/// The same through in-memory trees.
fn trees<X: Serialize + DeserializeOwned + PartialEq + Debug>(x: &X) -> Result<(), String> {
    let tree = serde_json::to_value(x).map_err(es)?;
    eq("a JSON tree", serde_json::from_value::<X>(tree).map_err(es), x)?;
    let tree = ciborium::Value::serialized(x).map_err(es)?;
    eq("a CBOR tree", tree.deserialized::<X>().map_err(es), x)
}

type Forms = (String, Vec<u8>, Vec<u8>);

fn whole<X: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(x: &X, c: &mut Counters) -> Result<Forms, String> {
    let f = forms(x, c)?;
    trees(x)?;
    let a = Around { before: 7, it: x.clone(), list: vec![x.clone(), x.clone()], after: "end".into() };
    c.transitions += 2;
    let j = serde_json::to_string(&a).map_err(es)?;
    eq("embedded in JSON", serde_json::from_str(&j).map_err(es), &a)?;
    let b = bincode::serialize(&a).map_err(es)?;
    eq("embedded in bincode", bincode::deserialize(&b).map_err(es), &a)?;
    // A copy has the identical form.
    let again = forms(&x.clone(), c)?;
    if again != f {
        return Err("serialising twice gives two forms".into());
    }
    Ok(f)
}

/// For further element types: JSON and bincode only.
fn lite<X: Serialize + DeserializeOwned + PartialEq + Debug>(x: &X, c: &mut Counters) -> Result<(), String> {
    c.transitions += 2;
    let j = serde_json::to_string(x).map_err(es)?;
    eq("JSON", serde_json::from_str(&j).map_err(es), x)?;
    let b = bincode::serialize(x).map_err(es)?;
    eq("bincode", bincode::deserialize(&b).map_err(es), x)
}

/// The deserialised value contains the same values.
fn contents<X: Serialize + DeserializeOwned>(x: &X, has: &dyn Fn(&X, V) -> bool, probes: &[V]) -> Result<(), String> {
    let j: X = serde_json::from_str(&serde_json::to_string(x).map_err(es)?).map_err(es)?;
    let b: X = bincode::deserialize(&bincode::serialize(x).map_err(es)?).map_err(es)?;
    for &p in probes {
        if has(x, p) != has(&j, p) || has(x, p) != has(&b, p) {
            return Err(format!("the value read back differs on {p}"));
        }
    }
    Ok(())
}

fn of_val(v: &Val<V>, probes: &[V], c: &mut Counters) -> Result<Option<Forms>, String> {
    macro_rules! go {
        ($x:expr) => {{
            let f = whole($x, c)?;
            contents($x, &|x, p| x.contains(p), probes)?;
            Ok(Some(f))
        }};
    }
    match v {
        Val::BR(x) => go!(x),
        Val::LR(x) => go!(x),
        Val::UR(x) => go!(x),
        Val::AR(x) => go!(x),
        Val::E(x) => go!(x),
        Val::BS(x) => go!(x),
        Val::LS(x) => go!(x),
        Val::US(x) => go!(x),
        Val::AS(x) => go!(x),
        _ => Ok(None),
    }
}

/// The value after detours that should not matter (those that do not panic).
fn others(v: &Val<V>) -> Vec<(&'static str, Val<V>)> {
    use mc::val::{complement, intersection, union};
    if !v.is_set() {
        return vec![];
    }
    let mut out = vec![];
    let mut add = |how, r: Result<Val<V>, String>| {
        if let Ok(w) = r {
            out.push((how, w));
        }
    };
    let none = Val::BS(BoundedSet::empty());
    let all = Val::AS(UnboundedSet::Full);
    add("its union with itself", catch(|| union(v, v)));
    add("its intersection with itself", catch(|| intersection(v, v)));
    add("its double complement", catch(|| complement(&complement(v))));
    add("its union with the empty set", catch(|| union(v, &none)));
    add("the empty set's union with it", catch(|| union(&none, v)));
    add("its intersection with the full set", catch(|| intersection(v, &all)));
    add("the full set's intersection with it", catch(|| intersection(&all, v)));
    out
}

fn nodes(run: &mut Run, name: &str, nodes: &[Node], k: usize) {
    let probes: Vec<V> = (0..=2 * k as V).collect();
    // By kind, so that values of one type are compared with each other.
    let forms: Vec<std::sync::Mutex<Option<Forms>>> = nodes.iter().map(|_| Default::default()).collect();
    run.level(name, nodes.len(), |i, ctx| {
        ctx.c.states += 1;
        ctx.case(
            || format!("{} = {:?}", expr(nodes, i), nodes[i].val),
            |c| {
                let f = of_val(&nodes[i].val, &probes, c)?;
                // Equal values obtained in other ways.
                for (how, w) in others(&nodes[i].val) {
                    if w.same(&nodes[i].val) == Some(true) && of_val(&w, &[], c)? != f {
                        return Err(format!("{how} is equal to it but serialises differently"));
                    }
                }
                *forms[i].lock().unwrap() = f;
                Ok(())
            },
        );
    });
    if run.violated() {
        return;
    }
    // Equal values (by ==) must have equal forms: group by hash, compare within groups.
    let mut groups: HashMap<(&str, u64), Vec<usize>> = HashMap::new();
    for (i, n) in nodes.iter().enumerate() {
        groups.entry((n.val.kind(), n.val.hash64())).or_default().push(i);
    }
    let groups: Vec<Vec<usize>> = groups.into_values().filter(|g| g.len() > 1).collect();
    run.family(&format!("{name}: equal values, identical forms"), groups.len(), |g, ctx| {
        for (n, &i) in groups[g].iter().enumerate() {
            for &j in &groups[g][n + 1..] {
                if nodes[i].val.same(&nodes[j].val) == Some(true) {
                    ctx.case(
                        || format!("{} and {}", expr(nodes, i), expr(nodes, j)),
                        |c| {
                            c.transitions += 1;
                            if *forms[i].lock().unwrap() == *forms[j].lock().unwrap() {
                                Ok(())
                            } else {
                                Err("they are equal but serialise differently".into())
                            }
                        },
                    );
                }
            }
        }
    });
}

fn bounds<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(ctx: &mut Ctx, t: &T) {
    for inc in [true, false] {
        let b = if inc { Bound::Included(t.clone()) } else { Bound::Excluded(t.clone()) };
        ctx.c.states += 3;
        ctx.case(|| format!("{b:?} as raw, lower and upper bound"), |c| {
            lite(&b, c)?;
            lite(&LowerBound::from(b.clone()), c)?;
            lite(&UpperBound::from(b.clone()), c)?;
            Ok(())
        });
    }
}

/// Ranges and sets over extreme values of other element types.
fn other<T: Copy + Ord + Serialize + DeserializeOwned + Debug + std::hash::Hash + Send + Sync + 'static>(ctx: &mut Ctx, pts: &[T], i: usize) {
    let low = |t, inc| if inc { LowerBound::included(t) } else { LowerBound::excluded(t) };
    let up = |t, inc| if inc { UpperBound::included(t) } else { UpperBound::excluded(t) };
    bounds(ctx, &pts[i]);
    for ai in [true, false] {
        let l = LowerBoundedRange::new(low(pts[i], ai));
        let u = UpperBoundedRange::new(up(pts[i], ai));
        ctx.case(|| format!("{l:?} and {u:?}, as ranges and sets"), |c| {
            lite(&l, c)?;
            lite(&u, c)?;
            lite(&l.to_set(), c)?;
            lite(&u.to_set(), c)?;
            Ok(())
        });
        for &b in pts {
            for bi in [true, false] {
                let r = BoundedRange::new(low(pts[i], ai), up(b, bi));
                ctx.c.states += 1;
                ctx.case(|| format!("{r:?}, its set, complement and unions"), |c| {
                    lite(&r, c)?;
                    lite(&r.to_set(), c)?;
                    let s: UnboundedSet<T> = r.complement();
                    lite(&s, c)?;
                    lite(&r.union(u), c)?;
                    lite(&r.union(l), c)?;
                    for &x in pts {
                        let q = BoundedRange::new(LowerBound::included(x), UpperBound::included(x));
                        let s: BoundedSet<T> = Rangetools::union(r, q);
                        lite(&s, c)?;
                    }
                    Ok(())
                });
            }
        }
    }
    ctx.case(|| "empty and unbounded values".into(), |c| {
        lite(&EmptyRange::<T>::new(), c)?;
        lite(&UnboundedRange::new(), c)?;
        lite(&BoundedSet::<T>::empty(), c)?;
        lite(&UnboundedSet::<T>::Full, c)?;
        Ok(())
    });
}

fn main() {
    // Building operands is not what is judged here.
    let mut run = Run::new(&["serde"]);
    let thorough = run.thorough;
    let k = if thorough { 5 } else { 4 };
    let rs = ranges(k + 3);
    nodes(&mut run, "u16: every range of every kind", &rs, k + 3);
    let (all, capped) = run.stage("reachable", || reachable(k, 60_000));
    if capped {
        run.cap("reachable sets");
    }
    nodes(&mut run, &format!("u16: every set reachable over {k} endpoints"), &all, k);
    let few = run.stage("few pieces", || few_pieces(if thorough { 8 } else { 5 }, 3, 3));
    let kk = if thorough { 8 } else { 5 };
    nodes(&mut run, "u16: sets of up to three pieces over more endpoints", &few, kk);
    // Wide sets, in several insertion orders: the same set each time.
    let sizes: &[usize] = if thorough { &[5, 16, 17, 33, 100, 257, 700] } else { &[5, 16, 17, 33, 100, 257] };
    run.family("wide sets, every shape and tail, equal whatever the insertion order", sizes.len() * 16, |i, ctx| {
        let n = sizes[i / 16];
        let (shape, low, high) = (["half-open", "mixed-bounds", "touching", "point"][i % 4], i / 4 % 2 == 1, i / 8 % 2 == 1);
        let mut first: Option<(Val<V>, Option<Forms>)> = None;
        for order in ["ascending", "descending", "odd-even", "inside-out"] {
            let Some(w) = wide(n, shape, order, low, high) else { return };
            let v = w.val;
            ctx.c.states += 1;
            let probes: Vec<V> = (0..(4 * n + 6) as V).step_by(if n > 100 { 7 } else { 1 }).collect();
            let mut f = None;
            ctx.case(|| format!("set of {n} pieces, shape {shape}, order {order}, lower tail {low}, upper tail {high}"), |c| {
                f = of_val(&v, &probes, c)?;
                if let Some((w, g)) = &first {
                    if v.same(w) == Some(true) && f != *g {
                        return Err("an equal set assembled in another order serialises differently".into());
                    }
                }
                Ok(())
            });
            if first.is_none() {
                first = Some((v, f));
            }
        }
    });
    let strs: Vec<String> = ["", "a", "\"quoted\"\n", "\u{20ac}"].iter().map(|s| s.to_string()).collect();
    run.family("String and other non-Copy bounds", strs.len(), |i, ctx| {
        bounds(ctx, &strs[i]);
        bounds(ctx, &vec![strs[i].clone(); i]);
        bounds(ctx, &(i as u8, strs[i].clone()));
        // (JSON reads null as the absent option, so an optional endpoint is left to the others.)
        bounds(ctx, &[1.5f64, -0.0, f64::MAX, f64::MIN_POSITIVE][i]);
    });
    macro_rules! t {
        ($($t:ty: [$($v:expr),*]);*) => {$({
            let pts: Vec<$t> = vec![$($v),*];
            run.family(concat!(stringify!($t), ": extreme values"), pts.len(), |i, ctx| other(ctx, &pts, i));
        })*}
    }
    t!(u8: [0, 1, 255]; i64: [i64::MIN, -1, i64::MAX]; u64: [0, 1 << 53, u64::MAX]; u128: [0, u64::MAX as u128 + 1, u128::MAX]; char: ['\0', 'a', '\u{d7ff}', '\u{e000}', '\u{10ffff}']; bool: [false, true]; (i8, u8): [(-1, 0), (0, 5), (0, 6)]);
    run.finish()
}
