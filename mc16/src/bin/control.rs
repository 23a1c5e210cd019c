//! Control: the library itself compiles and links.
fn main() {
    let r = rangetools::BoundedRange { start: rangetools::LowerBound::included(1), end: rangetools::UpperBound::excluded(3) };
    let _ = r;
}
