import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
SETS=["src/bounded_set.rs","src/lower_bounded_set.rs","src/upper_bounded_set.rs","src/unbounded_set.rs"]
p("C01","Union contains exactly the values of either operand",
 "For any two operands of any of the fifteen supported types (six std ranges, five crate ranges, four crate sets), the result of union contains a value if and only if at least one operand contains it. This holds for empty, reversed, touching, nested and overlapping operands, for every combination of included and excluded endpoints, for sets with any number of pieces, and never panics.",
 ["inputs","programs"],"all 15x15 operand type pairs, all operand values up to order isomorphism of endpoints, all probed values",
 "The tests try one or two hand-picked operands per type pair, always with integer endpoints a step apart, and probe five or six values; relative orderings of endpoints, excluded bounds and sets with several pieces are almost untested.",
 ["src/implementations/union/*.rs"]+SETS+["src/bound.rs","src/union.rs"],
 [("add_range merges a range with every piece it overlaps","src/bounded_set.rs"),("defragment absorbs bounded pieces into the unbounded ends and detects a full set","src/lower_bounded_set.rs, src/upper_bounded_set.rs, src/unbounded_set.rs"),("per type pair union impls","src/implementations/union/")],
 ["Rangetools::union followed by contains on the result"],
 [dict(name="ranges",meaning="sorted, non-empty, non-overlapping pieces",where="src/bounded_set.rs")])
p("C02","Intersection contains exactly the values common to both operands",
 "For any two operands of any of the fifteen supported types, the result of intersection contains a value if and only if both operands contain it. This holds for empty, reversed, touching, nested and overlapping operands, for every combination of included and excluded endpoints, for sets with any number of pieces on either side, and never panics.",
 ["inputs","programs"],"all 15x15 operand type pairs, all operand values up to order isomorphism of endpoints, all probed values",
 "Each type pair has one test with one or two operands; sets on both sides with pieces that interleave are never tried (the shipped lower-bounded set intersection lost pieces of its right operand and every test passed).",
 ["src/implementations/intersection/*.rs"]+SETS+["src/bound.rs","src/intersection.rs"],
 [("piecewise intersection of pieces and unbounded ends","src/implementations/intersection/*_set.rs"),("max of lower bounds, min of upper bounds","src/implementations/intersection/bounded_range.rs, src/bound.rs")],
 ["Rangetools::intersection followed by contains on the result"])
p("C03","Complement contains exactly the values outside the operand",
 "For any operand of any of the fifteen supported types, its complement contains a value if and only if the operand does not; complementing twice gives back the same values. This holds for empty, reversed, single-point and touching operands, for every combination of included and excluded endpoints, for sets with any number of pieces, and never panics.",
 ["inputs","programs"],"all 15 operand types, all operand values up to order isomorphism of endpoints, all probed values",
 "One test per type, each with one value and a structural comparison against a hand-built result; excluded bounds, empty ranges and sets with more than two pieces are not tried.",
 ["src/implementations/complement/*.rs","src/bound.rs"]+SETS,
 [("bounds flip between included and excluded","src/bound.rs"),("complement of a set is the intersection of the complements of its pieces","src/implementations/complement/*_set.rs")],
 ["Rangetools::complement followed by contains on the result"])
p("C04","Emptiness, disjointness and overlap tests agree with the operands' contents",
 "A range or set reports itself empty exactly when its endpoints by their order alone admit no value (start after end, or start equal to end with either one excluded; a set when it has no non-empty piece; anything unbounded on a side is never empty; an explicit empty range always is). For any two operands of any supported types, disjoint is true exactly when no value can lie in both by that same rule, intersects is always its negation, and both are symmetric in their operands.",
 ["inputs","programs"],"all 15 types and 15x15 type pairs, all operand values up to order isomorphism of endpoints",
 "Tests check is_empty on a handful of results and disjoint/intersects only in two doc examples.",
 ["src/lib.rs","src/implementations/rangetools/*.rs","src/implementations/intersection/*.rs"]+SETS,
 [("is_empty by bound comparison","src/implementations/rangetools/"),("disjoint = intersection is empty; intersects = not disjoint","src/lib.rs")],
 ["Rangetools::is_empty, disjoint, intersects"])
p("C05","Entering the library preserves a range's values",
 "Converting any std range into the crate's range form, any range into its set form, or building a crate range or set from bounds keeps exactly the same values and the same emptiness as the source. This includes reversed ranges and std ranges that have already been iterated partly or to exhaustion, which keep exactly the values they still contain.",
 ["inputs","histories"],"all std range types, all endpoints of u8 and i8 and boundary endpoints of the other integer types and char, all iteration prefixes of the source range",
 "Tests only convert fresh, well-formed ranges with small endpoints.",
 ["src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/unbounded_range.rs","src/empty_range.rs","src/implementations/rangetools/*.rs"]+SETS,
 [("From impls from std ranges","src/*_range.rs"),("to_inner / to_set","src/implementations/rangetools/")],
 ["From/Into, to_inner, to_set, new, then contains and is_empty"])
p("C06","Any chain of operations denotes the composed set",
 "Starting from any ranges and applying any finite sequence of unions, intersections and complements, in any order and with intermediate results reused as operands, the final value contains exactly the values given by performing the same sequence on mathematical sets. When the final value is iterable, iterating it yields exactly those values once each in ascending order.",
 ["histories","programs"],"all operation sequences of any length over a bounded endpoint alphabet (explored to a fixpoint of reachable values)",
 "Tests apply at most two or three operations; a corrupted internal invariant only shows several operations later.",
 SETS+["src/implementations/union/*.rs","src/implementations/intersection/*.rs","src/implementations/complement/*.rs","src/bound.rs"],
 [("pieces stay sorted, non-empty and non-overlapping after every operation","src/bounded_set.rs add_range; defragment in the other sets")],
 ["contains and iteration after every operation of a chain"],
 [dict(name="ranges / upper_bounded_range / lower_bounded_range",meaning="the pieces of a set",where="src/*_set.rs")])
p("C07","Equality and hashing are blind to how a union was assembled",
 "Up to ==, union is commutative, associative and idempotent, has the empty range and empty set as identity, and adding the same ranges in any order gives equal sets; intersection is commutative and idempotent up to == in the same sense. Values that are equal hash equally, == is an equivalence relation, and equal values contain the same elements.",
 ["inputs","histories"],"all set values over a bounded endpoint alphabet, all pairs and triples, all insertion orders of up to 5 ranges",
 "Tests compare a few results with ==, never the same set assembled in two different orders, and never hash anything.",
 SETS+["src/bound.rs","src/implementations/union/*.rs","src/implementations/intersection/*.rs"],
 [("pieces kept sorted and merged so the representation is canonical","src/bounded_set.rs"),("derived PartialEq/Eq/Hash","src/*.rs")],
 ["==, Hash"])
p("C08","Iterating a bounded range yields exactly its values, in order, and ends",
 "Iterating a bounded range of any iterable type forwards yields exactly the values it contains, each once, in ascending order, and then ends; iterating it backwards yields the same values in descending order. This holds for every combination of included and excluded endpoints, for empty and reversed ranges, and when endpoints are the smallest or largest value of the type, in debug and release builds alike.",
 ["inputs","configurations"],"all u8 and i8 ranges, boundary windows of every other integer type, char and a user-defined Step type; debug and release arithmetic",
 "Tests iterate i32 ranges with small endpoints in debug builds only; ranges touching the type's minimum or maximum panicked or looped and no test noticed.",
 ["src/bounded_range.rs","src/step.rs"],
 [("BoundedRangeIter next / next_back","src/bounded_range.rs")],
 ["BoundedRange::into_iter, Iterator, DoubleEndedIterator"])
p("C09","Iterating a bounded set yields exactly its values, in order, and ends",
 "Iterating a bounded set forwards yields exactly the values it contains, each once, in strictly ascending order across all of its pieces, and then ends; iterating backwards yields the same values in descending order. This holds however the set was obtained, for pieces that hold no value of the type, touch each other or reach the smallest or largest value of the type, and for pieces with more values than a machine word can count, in debug and release builds alike.",
 ["inputs","histories","configurations"],"all sets of up to 3 pieces over boundary windows of each iterable type and all sets over a small alphabet, by all construction routes; debug and release arithmetic",
 "Tests iterate sets of at most three small i32 pieces built by union.",
 ["src/bounded_set.rs","src/bounded_range.rs","src/step.rs"],
 [("BoundedSetIter walks its piece iterators front to back / back to front","src/bounded_set.rs")],
 ["BoundedSet::into_iter"])
p("C10","Bounded iterators obey the Iterator contracts under any mix of calls",
 "For bounded range and bounded set iterators, any interleaving of next, next_back, nth and nth_back (with any skip count, including past the end) returns what a double-ended queue of the remaining values would return, and once exhausted they stay exhausted. At every point of such a history size_hint brackets the number of values left and is exact with a correct len and count whenever that number fits in usize, and last, min, max, fold, rfold, rev and clones agree with the remaining values.",
 ["histories","inputs","configurations"],"all call sequences (explored to a fixpoint of iterator states) from every start range or set in the alphabet; debug and release arithmetic",
 "Tests call one method once on a fresh iterator; mixed front/back histories, skips past the end and size hints midway are untested.",
 ["src/bounded_range.rs","src/bounded_set.rs"],
 [("BoundedRangeIter nth, nth_back, size_hint, last","src/bounded_range.rs"),("BoundedSetIter nth, nth_back, size_hint, last drop exhausted piece iterators","src/bounded_set.rs")],
 ["Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator methods"])
p("C11","Iterating a lower-bounded range or set ascends through exactly its values",
 "Iterating a lower-bounded range or set yields the values it contains in strictly ascending order starting from the least, first through all bounded pieces and then without end, skipping none, as long as the values stay below the largest of the type. Any mix of next and nth with any skip counts returns the corresponding values of that sequence, min returns its first value, and size_hint reports no upper limit.",
 ["inputs","histories","configurations"],"all lower-bounded ranges and sets over the alphabet, all sequences of next/nth calls up to a depth; debug and release arithmetic",
 "Tests use one or two i32 sets with a single bounded piece and at most three calls.",
 ["src/lower_bounded_range.rs","src/lower_bounded_set.rs"],
 [("LowerBoundedSetIter drains the bounded pieces before the unbounded tail; nth subtracts what the pieces consumed","src/lower_bounded_set.rs")],
 ["LowerBoundedRange::into_iter, LowerBoundedSet::into_iter"])
p("C12","Step arithmetic counts successors exactly for every built-in type",
 "For every integer type and char, stepping forward or backward by a count lands on the value exactly that many successors or predecessors away (skipping the surrogate gap for char) and the checked forms return nothing exactly when no such value exists; the unchecked forms agree whenever it exists. The step distance between two values is the exact number of successor steps, absent exactly when the start exceeds the end or the number does not fit in usize.",
 ["inputs","configurations"],"all starts and counts of the 8-bit and 16-bit types and all chars, boundary lattices for the wider types; debug and release arithmetic",
 "No test calls the stepping functions; they are exercised only indirectly through small i32 iterations.",
 ["src/step.rs"],
 [("Step impls by macro for integers, by hand for char","src/step.rs")],
 ["Step::forward_checked, backward_checked, forward, backward, steps_between"])
p("C13","Indexing with a crate range selects what the equivalent std range selects",
 "Indexing a str, String, slice, Vec, CStr, CString or OsString with a crate range of usize yields the very same elements at the same place in memory, readable and writable, as indexing with the std range holding the same values. It panics exactly when that std indexing would (out of bounds, reversed, not on a character boundary, end not representable), and in release builds too never yields a different slice instead.",
 ["inputs","configurations"],"all bound combinations with endpoints 0..len+2 and near usize::MAX, on containers of every length up to 8 including multi-byte text; debug and release arithmetic",
 "Tests index a few in-range positions of one ASCII string or vector per container type and never test rejection.",
 ["src/implementations/index/*.rs","src/bounded_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/empty_range.rs"],
 [("Index/IndexMut delegate through conversion to std ranges","src/implementations/index/")],
 ["Index, IndexMut"])
p("C14","Bound ordering reflects which values the bounds admit",
 "Lower bounds and upper bounds over any ordered type are totally ordered consistently with equality and with every comparison method: a lower bound is smaller exactly when it admits strictly more values, an upper bound is greater exactly when it admits strictly more, by endpoint order with included before excluded for lower bounds and after it for upper bounds. Incomparable endpoints give incomparable bounds, flipping a bound twice gives it back and a flipped lower bound taken as an upper bound admits exactly the values it rejected, and mapping applies the function to the endpoint and keeps the inclusiveness.",
 ["inputs"],"all pairs and triples of bounds over a small ordered alphabet and over a partially ordered one",
 "Only two comparisons of bounds appear (in doc examples); nothing tests mixed included/excluded ordering.",
 ["src/bound.rs"],
 [("PartialOrd/Ord for LowerBound and UpperBound","src/bound.rs"),("flipped, map, to_bound","src/bound.rs")],
 ["PartialOrd, Ord, min, max, flipped, map, to_bound"])
p("C15","Serialising and deserialising gives back an equal value",
 "With the serde feature on, serialising any bound, range or set and deserialising the result gives back a value equal to the original that contains the same values, in self-describing and in compact positional formats alike. Equal values have identical serialised forms.",
 ["inputs"],"all bounds, ranges and all reachable sets over a small endpoint alphabet; JSON, CBOR and bincode",
 "No test serialises anything.",
 ["src/*.rs"],
 [("derived Serialize/Deserialize","src/bound.rs, src/*_range.rs, src/*_set.rs")],
 ["serde round trips"])
p("C16","Every pair of types composes, and exactly the lower-bounded results iterate",
 "Union, intersection, disjoint and intersects compile for every pair of the fifteen supported types and complement for every type, over any Copy and Ord element type. The result can be iterated exactly when its operand types guarantee a lower bound (both operands for union, either for intersection, and for complement an operand unbounded below), and from both ends with a known length when they guarantee both bounds. This holds for standard element types and for user-defined Step types (for the latter, where a result is one of the crate's own types; std's ranges only iterate the types std steps).",
 ["programs"],"all operation / operand type combinations",
 "The tests fix some result types but have a single compile-fail doc test for non-iterability and none for double-ended iteration or element types that cannot be stepped.",
 ["src/lib.rs","src/union.rs","src/intersection.rs","src/complement.rs","src/implementations/**"],
 [("Output associated types of the operation impls","src/implementations/"),("IntoIterator only on lower-bounded types","src/bounded_range.rs, src/bounded_set.rs, src/lower_bounded_range.rs, src/lower_bounded_set.rs, src/empty_range.rs")],
 ["the type of each operation's result"])
p("C17","Leaving the library as a std range preserves the values or panics",
 "Converting a crate range to a std range yields a range with exactly the same values of the element type whenever the std type can represent them, including every empty range for the two-sided std types; when it cannot, the conversion panics rather than returning a range with different values, in debug and release builds alike. Converting a std range in and back out to the same std type never changes its values.",
 ["inputs","configurations"],"all u8 and i8 crate ranges, boundary windows of every other integer type and char; debug and release arithmetic",
 "Tests convert two small i32 ranges per target; unsigned empty ranges at zero panicked or became full ranges unnoticed.",
 ["src/bounded_range.rs","src/empty_range.rs","src/lower_bounded_range.rs","src/upper_bounded_range.rs","src/unbounded_range.rs"],
 [("From impls into std ranges step excluded or included endpoints by one","src/*_range.rs")],
 ["From/Into std ranges"])
p("C18","Set operations complete for any number of pieces",
 "Union, intersection, disjointness tests, complement, membership and iteration of sets with many pieces always return, with the right result, using an amount of stack that does not grow with the number of pieces. In particular adding a range that merges any number of pieces at once neither panics, aborts nor loops.",
 ["inputs","configurations"],"all merge spans over sets of each size up to a bound, all operations on all operand kinds at two large sizes with their stack use compared; unoptimised and optimised builds",
 "No test builds a set with more than four pieces; merging ten thousand pieces overflowed a default thread stack in debug builds.",
 SETS,
 [("merging loops","src/bounded_set.rs add_range, src/unbounded_set.rs defragment")],
 ["union, intersection, complement on large sets"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
