//! C06 (tracks) and C07 (cells): the grid layout, observed through `arrange` and `compute_track_info`.
use crate::src::Src;
use tcss::types::{ComputedStyle, Layout as Kind, Scalar, Unit};
use textual::layouts::{arrange_children, GridLayout, Layout, LayoutChild, LayoutNode, Viewport, WidgetPlacement};
use textual::{Region, Size};

pub struct Leaf(pub u16, pub u16);
impl LayoutNode for Leaf {
    fn desired_size(&self) -> Size {
        Size { width: self.0, height: self.1 }
    }
    fn intrinsic_height_for_width(&self, _w: u16) -> u16 {
        self.1
    }
}
pub fn child<'a>(index: usize, style: ComputedStyle, leaf: &'a Leaf) -> LayoutChild<'a> {
    LayoutChild { index, style, desired_size: Size { width: leaf.0, height: leaf.1 }, node: leaf }
}
fn show(p: &[WidgetPlacement]) -> String {
    p.iter().map(|p| format!("{}:{:?}", p.child_index, p.region)).collect::<Vec<_>>().join(" ")
}
fn region<S: Src>(s: &mut S) -> Region {
    Region { x: s.range(-20, 20) as i32, y: s.range(-20, 20) as i32, width: s.range(0, 200) as i32, height: s.range(0, 120) as i32 }
}
type Block = (usize, usize, usize, usize);

/// Where the property puts each child; None: left out.
fn oracle(spans: &[(u16, u16)], rows: usize, cols: usize) -> Vec<Option<Block>> {
    let mut out: Vec<Option<Block>> = vec![];
    let mut stuck = false;
    for &(rs, cs) in spans {
        let mut found = None;
        if !stuck {
            let last = out.iter().flatten().last().map(|b| (b.0, b.1));
            'look: for r in 0..rows {
                for c in 0..cols {
                    if last.is_some_and(|l| (r, c) <= l) {
                        continue;
                    }
                    let (h, w) = ((rs.max(1) as usize).min(rows - r), (cs.max(1) as usize).min(cols - c));
                    let free = out.iter().flatten().all(|b| b.0 >= r + h || r >= b.0 + b.2 || b.1 >= c + w || c >= b.1 + b.3);
                    if free {
                        found = Some((r, c, h, w));
                        break 'look;
                    }
                }
            }
        }
        stuck |= found.is_none();
        out.push(found);
    }
    out
}

/// Fixed track sizes, so that the rectangle of every block is known exactly.
pub fn c07_blocks<S: Src>(s: &mut S) {
    let (cols, rows) = (s.range(0, 6) as usize, s.range(0, 6) as usize);
    let auto_rows = s.below(4) == 0;
    let (gv, gh) = (s.range(0, 3) as i32, s.range(0, 3) as i32);
    let cw: Vec<i32> = (0..cols.max(1)).map(|_| s.range(1, 9) as i32).collect();
    let n = s.range(1, 9) as usize;
    let rows = if auto_rows { if cols == 0 { 1 } else { n.div_ceil(cols) } } else { rows };
    let rh: Vec<i32> = (0..rows.max(1)).map(|_| s.range(1, 5) as i32).collect();
    let mut st = ComputedStyle::default();
    st.layout = Kind::Grid;
    st.grid.columns = Some(cols as u16);
    st.grid.rows = if auto_rows { None } else { Some(rows as u16) };
    st.grid.column_widths = cw.iter().map(|&w| Scalar::cells(w as f64)).collect();
    st.grid.row_heights = rh.iter().map(|&h| Scalar::cells(h as f64)).collect();
    st.grid.gutter = (Scalar::cells(gv as f64), Scalar::cells(gh as f64));
    let leaf = Leaf(s.range(0, 30) as u16, s.range(0, 10) as u16);
    let mut spans = vec![];
    let mut margins = vec![];
    let mut kids = vec![];
    for i in 0..n {
        let mut cs = ComputedStyle::default();
        let sp = if s.bool() { (1, 1) } else { (s.range(0, 4) as u16, s.range(0, 4) as u16) };
        cs.grid_placement.row_span = sp.0;
        cs.grid_placement.column_span = sp.1;
        let m = if s.below(4) == 0 { [s.range(0, 2) as i32, s.range(0, 2) as i32, s.range(0, 2) as i32, s.range(0, 2) as i32] } else { [0; 4] };
        cs.margin.top = Scalar::cells(m[0] as f64);
        cs.margin.right = Scalar::cells(m[1] as f64);
        cs.margin.bottom = Scalar::cells(m[2] as f64);
        cs.margin.left = Scalar::cells(m[3] as f64);
        spans.push(sp);
        margins.push(m);
        kids.push(child(i * 3 + 7, cs, &leaf));
    }
    let avail = region(s);
    s.note(&|| format!("grid {cols}x{rows} auto rows {auto_rows} gutter {gv} {gh} widths {cw:?} heights {rh:?} spans (row, column) {spans:?} margins {margins:?} in {avail:?}"));
    let mut layout = GridLayout::new();
    let got = layout.arrange(&st, &kids, avail, Viewport::from(avail));
    let want = oracle(&spans, rows, cols);
    let extent = |t: &[i32], g: i32, a: usize, n: usize| -> i32 { t[a..a + n].iter().sum::<i32>() + g * (n as i32 - 1) };
    let start = |t: &[i32], g: i32, a: usize| -> i32 { t[..a].iter().map(|v| v + g).sum::<i32>() };
    let expect: Vec<(usize, Region)> = want
        .iter()
        .enumerate()
        .filter_map(|(i, b)| {
            b.map(|b| {
                let m = margins[i];
                (
                    i * 3 + 7,
                    Region {
                        x: avail.x + start(&cw, gh, b.1) + m[3],
                        y: avail.y + start(&rh, gv, b.0) + m[0],
                        width: (extent(&cw, gh, b.1, b.3) - m[1] - m[3]).max(0),
                        height: (extent(&rh, gv, b.0, b.2) - m[0] - m[2]).max(0),
                    },
                )
            })
        })
        .collect();
    let have: Vec<(usize, Region)> = got.iter().map(|p| (p.child_index, p.region)).collect();
    assert!(have == expect, "placed {} expected {expect:?}", show(&got));
    // the track information agrees with the placements
    let info = layout.compute_track_info(&st, &kids, avail);
    for r in 0..rows {
        for c in 0..cols {
            let own: Vec<usize> = want
                .iter()
                .enumerate()
                .filter_map(|(i, b)| b.filter(|b| b.0 <= r && r < b.0 + b.2 && b.1 <= c && c < b.1 + b.3).map(|_| i * 3 + 7))
                .collect();
            assert!(own.len() <= 1);
            assert!(info.cell_occupancy[r][c] == own.first().copied(), "track information gives cell {r},{c} to {:?}, the layout to {own:?}", info.cell_occupancy[r][c]);
        }
    }
    for (c, x) in info.col_positions.iter().take(cols).enumerate() {
        assert!(*x == start(&cw, gh, c), "column boundary {c} at {x}");
    }
    for (r, y) in info.row_positions.iter().take(rows).enumerate() {
        assert!(*y == start(&rh, gv, r), "row boundary {r} at {y}");
    }
}

/// The same through the public dispatcher, and with plain children on fractional tracks: regions of different children
/// never overlap, whatever the tracks are.
pub fn c07_disjoint<S: Src>(s: &mut S) {
    let cols = s.range(1, 6) as usize;
    let mut st = ComputedStyle::default();
    st.layout = Kind::Grid;
    st.grid.columns = Some(cols as u16);
    st.grid.rows = if s.bool() { None } else { Some(s.range(1, 6) as u16) };
    st.grid.gutter = (Scalar::cells(s.range(0, 2) as f64), Scalar::cells(s.range(0, 2) as f64));
    st.width = [None, Some(auto()), Some(Scalar::fr(1.0))][s.below(3)];
    st.height = [None, Some(auto()), Some(Scalar::fr(1.0))][s.below(3)];
    for _ in 0..s.below(4) {
        st.grid.column_widths.push(track(s).0);
    }
    for _ in 0..s.below(4) {
        st.grid.row_heights.push(track(s).0);
    }
    let leaf = Leaf(s.range(0, 30) as u16, s.range(0, 10) as u16);
    let n = s.range(1, 9) as usize;
    let mut spans = vec![];
    let kids: Vec<_> = (0..n)
        .map(|i| {
            let mut cs = ComputedStyle::default();
            cs.grid_placement.row_span = s.range(0, 3) as u16;
            cs.grid_placement.column_span = s.range(0, 3) as u16;
            spans.push((cs.grid_placement.row_span, cs.grid_placement.column_span));
            child(i, cs, &leaf)
        })
        .collect();
    let avail = region(s);
    s.note(&|| format!("{:?} width {:?} height {:?} spans {spans:?} leaf {}x{} in {avail:?}", st.grid, st.width, st.height, leaf.0, leaf.1));
    let got = arrange_children(&st, &kids, avail);
    for (i, a) in got.iter().enumerate() {
        assert!(a.region.width >= 1 && a.region.height >= 1, "empty region {}", show(&got));
        for b in &got[i + 1..] {
            assert!(a.child_index < b.child_index, "order {}", show(&got));
            let (p, q) = (a.region, b.region);
            assert!(p.x + p.width <= q.x || q.x + q.width <= p.x || p.y + p.height <= q.y || q.y + q.height <= p.y, "overlap {}", show(&got));
        }
    }
    let rows = st.grid.rows.map(|r| r as usize).unwrap_or(n.div_ceil(cols));
    let placed: Vec<usize> = oracle(&spans, rows, cols).iter().enumerate().filter(|(_, b)| b.is_some()).map(|(i, _)| i).collect();
    assert!(got.iter().map(|p| p.child_index).collect::<Vec<_>>() == placed, "placed {} expected children {placed:?}", show(&got));
}

/// A track specification and its weight in thousandths (0: not fractional).
fn track<S: Src>(s: &mut S) -> (Scalar, i64) {
    match s.below(5) {
        0 => (Scalar::cells(s.range(0, 20) as f64), 0),
        1 => (Scalar { value: s.range(0, 60) as f64, unit: Unit::Percent }, 0),
        2 => {
            let w = s.range(1, 5);
            (Scalar::fr(w as f64), w * 1000)
        }
        3 => {
            let w = s.range(1, 4000);
            (Scalar::fr(w as f64 / 1000.0), w)
        }
        _ => {
            let w = s.range(1, 400);
            (Scalar::fr(w as f64 / 100.0), w * 10)
        }
    }
}
/// Lay out one plain child per track along one axis and read the tracks off their regions.
fn tracks_of(axis_cols: bool, specs: &[Scalar], count: usize, avail: i32, gutter: i32) -> Vec<(i32, i32)> {
    let mut st = ComputedStyle::default();
    st.layout = Kind::Grid;
    let leaf = Leaf(3, 2);
    let kids: Vec<_> = (0..count).map(|i| child(i, ComputedStyle::default(), &leaf)).collect();
    let mut layout = GridLayout::new();
    let g = Scalar::cells(gutter as f64);
    let (c, r) = if axis_cols { (count, 1) } else { (1, count) };
    st.grid.columns = Some(c as u16);
    st.grid.rows = Some(r as u16);
    st.grid.gutter = (g, g);
    let reg = if axis_cols { Region { x: 11, y: 5, width: avail, height: 1 } } else { Region { x: 11, y: 5, width: 1, height: avail } };
    if axis_cols {
        st.grid.column_widths = specs.to_vec();
    } else {
        st.grid.row_heights = specs.to_vec();
    }
    let got = layout.arrange(&st, &kids, reg, Viewport::from(reg));
    assert!(got.len() == count, "{} of {count} children placed", got.len());
    got.iter().map(|p| if axis_cols { (p.region.x - 11, p.region.width) } else { (p.region.y - 5, p.region.height) }).collect()
}

/// C06: sizes of the tracks.
pub fn c06_tracks<S: Src>(s: &mut S) {
    let axis = s.bool();
    let count = s.range(1, 9) as usize;
    let nspec = s.below(count + 2);
    let all_fr = s.bool();
    let specs: Vec<(Scalar, i64)> = (0..nspec)
        .map(|_| {
            let t = track(s);
            if all_fr && t.1 == 0 { (Scalar::fr(2.0), 2000) } else { t }
        })
        .collect();
    let avail = if s.below(8) == 0 { s.range(0, 60000) } else { s.range(0, 300) } as i32;
    let gutter = s.range(0, 4) as i32;
    let sc: Vec<Scalar> = specs.iter().map(|t| t.0).collect();
    s.note(&|| format!("{} of {count} tracks {sc:?} in {avail} cells, gutter {gutter}", if axis { "columns" } else { "rows" }));
    let got = tracks_of(axis, &sc, count, avail, gutter);
    let of = |i: usize| if specs.is_empty() { (Scalar::fr(1.0), 1000) } else { specs[i % specs.len()] };
    // order, minimum, gutters
    let mut at = 0;
    for (i, t) in got.iter().enumerate() {
        assert!(t.1 >= 1, "track {i} is empty: {got:?}");
        assert!(t.0 == at, "track {i} starts at {} instead of {at}: {got:?}", t.0);
        at += t.1 + gutter;
    }
    // sizes
    let space = (avail - gutter * (count as i32 - 1)).max(0) as i64;
    let mut rest = space;
    let total: i64 = (0..count).map(|i| of(i).1).sum();
    let mut fixed_ok = true;
    for i in 0..count {
        let (sp, w) = of(i);
        if w > 0 {
            continue;
        }
        let exact = if sp.unit == Unit::Cells { sp.value * 100.0 } else { sp.value * space as f64 };
        let size = got[i].1 as f64 * 100.0;
        if exact >= 100.0 {
            assert!(size <= exact + 0.001 && size > exact - 100.0 - 0.001, "track {i} asks for {}/100 and gets {}", exact, got[i].1);
        }
        fixed_ok &= exact >= 100.0 || exact == 0.0;
        rest -= if exact >= 100.0 { got[i].1 as i64 } else { 0 };
    }
    if total == 0 || !fixed_ok {
        return;
    }
    if (0..count).all(|i| of(i).1 == 0 || of(i).1 * rest >= total) {
        let sum: i64 = (0..count).filter(|&i| of(i).1 > 0).map(|i| got[i].1 as i64).sum();
        assert!(sum == rest, "fractional tracks take {sum} of {rest} cells: {got:?}");
        for i in 0..count {
            let w = of(i).1;
            if w > 0 {
                let d = got[i].1 as i64 * total - w * rest;
                assert!(d.abs() < total, "track {i} has {} cells for a share of {w}/{total} of {rest}", got[i].1);
            }
        }
    }
}
/// Automatic tracks share the space left by fixed ones equally.
pub fn c06_auto<S: Src>(s: &mut S) {
    let axis = s.bool();
    let count = s.range(1, 8) as usize;
    let sc: Vec<Scalar> = (0..count).map(|_| if s.below(3) == 0 { Scalar::cells(s.range(1, 9) as f64) } else { auto() }).collect();
    let (avail, gutter) = (s.range(0, 300) as i32, s.range(0, 3) as i32);
    s.note(&|| format!("tracks {sc:?} in {avail} cells, gutter {gutter}"));
    let got = tracks_of(axis, &sc, count, avail, gutter);
    let autos = sc.iter().filter(|t| t.unit == Unit::Auto).count() as i32;
    let fixed: i32 = sc.iter().filter(|t| t.unit != Unit::Auto).map(|t| t.value as i32).sum();
    let rest = (avail - gutter * (count as i32 - 1)).max(0) - fixed;
    let mut at = 0;
    for (i, t) in got.iter().enumerate() {
        assert!(t.1 >= 1 && t.0 == at, "track {i}: {got:?}");
        at += t.1 + gutter;
        if sc[i].unit != Unit::Auto {
            assert!(t.1 == sc[i].value as i32, "track {i}: {got:?}");
        } else if autos > 0 && rest >= autos {
            assert!(t.1 == rest / autos || t.1 == (rest + autos - 1) / autos, "track {i}: {got:?}");
        }
    }
    if autos > 0 && rest >= autos {
        assert!(at - gutter == avail.max(gutter * (count as i32 - 1)), "tracks end at {}: {got:?}", at - gutter);
    }
}
/// Content-sized tracks of an automatic container: the content sizes when they fit, never empty and never more than the
/// space when it allows one cell each.
pub fn c06_content<S: Src>(s: &mut S) {
    let count = s.range(1, 7) as usize;
    let axis = s.bool();
    let gutter = s.range(0, 3) as i32;
    let sizes: Vec<u16> = (0..count).map(|_| s.range(0, 30) as u16).collect();
    let leaves: Vec<Leaf> = sizes.iter().map(|&v| if axis { Leaf(v, 1) } else { Leaf(1, v) }).collect();
    let kids: Vec<_> = (0..count).map(|i| child(i, ComputedStyle::default(), &leaves[i])).collect();
    let avail = s.range(0, 150) as i32;
    let mut st = ComputedStyle::default();
    st.layout = Kind::Grid;
    let g = Scalar::cells(gutter as f64);
    st.grid.gutter = (g, g);
    let (c, r) = if axis { (count, 1) } else { (1, count) };
    st.grid.columns = Some(c as u16);
    st.grid.rows = Some(r as u16);
    if axis { st.width = Some(auto()) } else { st.height = Some(auto()) }
    let reg = if axis { Region { x: 0, y: 0, width: avail, height: 1 } } else { Region { x: 0, y: 0, width: 1, height: avail } };
    s.note(&|| format!("content sizes {sizes:?} in {avail} cells, gutter {gutter}, columns {axis}"));
    let got: Vec<(i32, i32)> = GridLayout::new()
        .arrange(&st, &kids, reg, Viewport::from(reg))
        .iter()
        .map(|p| if axis { (p.region.x, p.region.width) } else { (p.region.y, p.region.height) })
        .collect();
    let total: i32 = sizes.iter().map(|&v| v as i32).sum();
    let room = avail - gutter * (count as i32 - 1);
    let mut at = 0;
    for (i, t) in got.iter().enumerate() {
        assert!(t.1 >= 1 && t.0 == at, "track {i}: {got:?}");
        at += t.1 + gutter;
        if total <= room {
            assert!(t.1 == (sizes[i] as i32).max(1), "track {i} has content {} and gets {}", sizes[i], t.1);
        } else if room >= 0 {
            let share = sizes[i] as i64 * room as i64;
            let d = share - t.1 as i64 * total as i64;
            assert!((0..total as i64).contains(&d) || (t.1 == 1 && d < 0), "track {i} has content {} of {total} and gets {} of {room}", sizes[i], t.1);
        }
    }
}
pub fn auto() -> Scalar {
    Scalar { value: 0.0, unit: Unit::Auto }
}
