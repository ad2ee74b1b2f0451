use crate::sym::*;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use typelalr::lex::dfa::remove_overlap;
use typelalr::lex::nfa::Match;

fn range() -> Match { Match { range: u32()..u32() } }
fn has(m: &Match, c: u32) -> bool { m.range.start <= c && c < m.range.end }

/// an arbitrary range, or one with bounds of the given width
fn narrow(bits: usize) -> Match {
    let r = range();
    if bits > 0 { assume(r.range.start < 1 << bits); assume(r.range.end < 1 << bits); }
    r
}

/// C03: remove_overlap on param(0) arbitrary ranges (of param(1) bits, if given), judged at an arbitrary code point.
#[no_mangle]
pub extern "C" fn h_partition() {
    let n = param(0);
    let v: Vec<Match> = (0..n).map(|_| narrow(param(1))).collect();
    // the ranges are handed over as an ordered set, so their order here does not matter
    if param(2) > 0 {
        for w in v.windows(2) { assume(w[0].range.start < w[1].range.start || (w[0].range.start == w[1].range.start && w[0].range.end < w[1].range.end)); }
    }
    let c = u32();
    let set: BTreeSet<Match> = v.iter().cloned().collect();
    let r = match catch(|| remove_overlap(&set)) { Ok(r) => r, Err(()) => { fail("splitting ranges panicked"); return } };
    let covered = v.iter().fold(false, |a, m| a | has(m, c));
    let mut k = 0u32;
    for o in &r {
        check(o.range.start < o.range.end, "an output range is empty");
        k += has(o, c) as u32;
        out(o.range.start as u64);
        out(o.range.end as u64);
        for m in &v {
            let inside = (m.range.start <= o.range.start) & (o.range.end <= m.range.end);
            let apart = (m.range.end <= o.range.start) | (o.range.end <= m.range.start) | (m.range.start >= m.range.end);
            check(inside | apart, "an output range straddles an input range");
        }
    }
    check(k <= 1, "output ranges overlap");
    check((k == 1) == covered, "output ranges do not cover exactly the input characters");
    reach(r.len() as u64);
}

/// C03: membership, overlap and disjointness of two arbitrary ranges.
#[no_mangle]
pub extern "C" fn h_range_preds() {
    let (a, b, c) = (range(), range(), u32());
    check(a.contains_u32(c) == has(&a, c), "contains_u32 disagrees with membership");
    let lo = a.range.start.max(b.range.start);
    let hi = a.range.end.min(b.range.end);
    let common = lo < hi;
    check(a.intersects(&b) == common, "intersects disagrees with the character sets");
    check(a.is_disjoint(&b) == !common, "is_disjoint disagrees with the character sets");
    if has(&a, c) & has(&b, c) { check(a.intersects(&b), "a shared character, but no intersection"); reach(1); } else { reach(2); }
    let x = ch();
    check(a.matches(x) == has(&a, x as u32), "matches disagrees with membership");
    let s = Match::char(x);
    check(s.matches(x), "a character range does not match its character");
    let y = ch();
    check(s.matches(y) == (x == y), "a character range matches another character");
    let by = u8();
    check(Match::byte(by).contains_u32(c) == (by as u32 == c), "a byte range matches another byte");
    out(common as u64);
}

/// C23: ranges are totally ordered, consistently with equality.
#[no_mangle]
pub extern "C" fn h_match_order() {
    let (a, b, c) = (range(), range(), range());
    let ab = a.cmp(&b);
    check(a.cmp(&a) == Ordering::Equal, "a range does not equal itself");
    check(b.cmp(&a) == ab.reverse(), "range order is not antisymmetric");
    check(a.partial_cmp(&b) == Some(ab), "partial order of ranges differs from the total one");
    check((ab == Ordering::Equal) == (a == b), "range order disagrees with equality");
    check((a == b) == (a.range.start == b.range.start && a.range.end == b.range.end), "equality of ranges is not equality of bounds");
    if a.cmp(&b) != Ordering::Greater && b.cmp(&c) != Ordering::Greater { check(a.cmp(&c) != Ordering::Greater, "range order is not transitive"); reach(1); }
    if a < b { reach(2); }
    out(ab as i8 as u64);
}
