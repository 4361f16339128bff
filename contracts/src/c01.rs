//! C01: regions as sets of cells.
use crate::src::Src;
use textual::canvas::Region;

/// The set a region denotes: mathematical integers, so no wrap-around.
fn member(r: &Region, x: i32, y: i32) -> bool {
    let (x, y) = (x as i64, y as i64);
    x >= r.x as i64
        && x < r.x as i64 + r.width as i64
        && y >= r.y as i64
        && y < r.y as i64 + r.height as i64
}

/// Regions whose far edges are representable coordinates (`right, bottom <= i32::MAX`).
fn region<S: Src>(s: &mut S) -> Region {
    let r = Region { x: s.i32(), y: s.i32(), width: s.i32(), height: s.i32() };
    s.note(&|| format!("{r:?}"));
    s.assume(r.x as i64 + r.width as i64 <= i32::MAX as i64);
    s.assume(r.y as i64 + r.height as i64 <= i32::MAX as i64);
    s.assume(r.x as i64 + r.width as i64 >= i32::MIN as i64);
    s.assume(r.y as i64 + r.height as i64 >= i32::MIN as i64);
    r
}

pub fn c01_intersection<S: Src>(s: &mut S) {
    let a = region(s);
    let b = region(s);
    let (px, py) = (s.i32(), s.i32());
    s.note(&|| format!("probe ({px},{py})"));
    let r = a.intersection(&b);
    assert!(r.width >= 0 && r.height >= 0, "intersection has a negative size: {r:?}");
    assert!(
        member(&r, px, py) == (member(&a, px, py) && member(&b, px, py)),
        "cell is in the intersection iff it is in both regions: {r:?}"
    );
    // the corners of the result (when not empty) lie in both: probes that random search always tries
    if r.width > 0 && r.height > 0 {
        for (x, y) in [(r.x, r.y), (r.x + (r.width - 1), r.y + (r.height - 1))] {
            assert!(member(&a, x, y) && member(&b, x, y), "result leaves an operand: {r:?}");
        }
        // and it is maximal: one step beyond each edge is outside one of the operands
        for (x, y) in [
            (r.x as i64 - 1, r.y as i64),
            (r.x as i64, r.y as i64 - 1),
            (r.x as i64 + r.width as i64, r.y as i64),
            (r.x as i64, r.y as i64 + r.height as i64),
        ] {
            if x >= i32::MIN as i64 && x <= i32::MAX as i64 && y >= i32::MIN as i64 && y <= i32::MAX as i64 {
                assert!(
                    !(member(&a, x as i32, y as i32) && member(&b, x as i32, y as i32)),
                    "result misses a common cell: {r:?}"
                );
            }
        }
    } else {
        // empty: then no corner of one lies in the other and so on; checked by the probe and by the overlap formula
        let ox = (a.x as i64).max(b.x as i64) < (a.x as i64 + a.width as i64).min(b.x as i64 + b.width as i64);
        let oy = (a.y as i64).max(b.y as i64) < (a.y as i64 + a.height as i64).min(b.y as i64 + b.height as i64);
        assert!(!(ox && oy), "overlapping regions have an empty intersection: {a:?} {b:?}");
    }
    let r2 = b.intersection(&a);
    assert!(r == r2, "intersection is not symmetric: {r:?} {r2:?}");
}

pub fn c01_contains<S: Src>(s: &mut S) {
    let a = region(s);
    let (px, py) = (s.i32(), s.i32());
    s.note(&|| format!("probe ({px},{py})"));
    assert!(a.contains_point(px, py) == member(&a, px, py), "containment differs from the set of cells");
    assert!(a.is_empty() == (a.width <= 0 || a.height <= 0), "emptiness");
    if member(&a, px, py) {
        assert!(!a.is_empty(), "a region with a cell is not empty");
    }
    if !a.is_empty() {
        let (x, y) = (a.x + (a.width - 1), a.y + (a.height - 1));
        assert!(a.contains_point(a.x, a.y) && a.contains_point(x, y), "corner cells are inside");
        assert!(!a.contains_point(x + 1, y) && !a.contains_point(x, y + 1), "cells past the edge are outside");
    }
    let (x, y, w, h) = (s.i32(), s.i32(), s.i32(), s.i32());
    let n = Region::new(x, y, w, h);
    s.note(&|| format!("new({x},{y},{w},{h})"));
    assert!(n.x == x && n.y == y && n.width == w.max(0) && n.height == h.max(0), "construction clamps only negative sizes: {n:?}");
    let (a, b, c, d) = (s.u16(), s.u16(), s.u16(), s.u16());
    let n = Region::from_u16(a, b, c, d);
    assert!(n.x == a as i32 && n.y == b as i32 && n.width == c as i32 && n.height == d as i32, "conversion changes the region");
}
