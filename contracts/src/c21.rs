//! C21: docks, alignment, own offsets, absolute children and layers, observed through the public dispatchers.
use crate::c07::{Leaf, child};
use crate::src::Src;
use tcss::types::{AlignHorizontal, AlignVertical, ComputedStyle, Dock, Layout as Kind, Position, Scalar, Unit};
use textual::Region;
use textual::layouts::{
    GridLayout, HorizontalLayout, Layout, LayoutChild, VerticalLayout, Viewport, arrange_children, arrange_children_with_layers, arrange_children_with_pre_layout,
    arrange_children_with_viewport,
};

type Placed = Vec<(usize, Region)>;

/// Percentages are taken from quarters so that the floating point result is exact.
fn offset<S: Src>(s: &mut S) -> Option<Scalar> {
    match s.below(5) {
        0 => Some(Scalar::cells(s.range(-9, 9) as f64)),
        1 => Some(Scalar { value: [-100.0, -50.0, -25.0, 25.0, 50.0, 100.0, 150.0][s.below(7)], unit: [Unit::Percent, Unit::Width, Unit::Height, Unit::ViewWidth, Unit::ViewHeight][s.below(5)] }),
        _ => None,
    }
}
fn length<S: Src>(s: &mut S) -> Option<Scalar> {
    match s.below(4) {
        0 => Some(Scalar::cells(s.range(0, 30) as f64)),
        1 => Some(Scalar { value: [25.0, 50.0, 75.0, 100.0][s.below(4)], unit: [Unit::Percent, Unit::Width, Unit::Height, Unit::ViewWidth, Unit::ViewHeight][s.below(5)] }),
        _ => None,
    }
}
fn moved_by(o: &Option<Scalar>, r: Region, vp: (i32, i32), horizontal: bool) -> i32 {
    let Some(o) = o else { return 0 };
    let basis = match o.unit {
        Unit::Percent => if horizontal { r.width } else { r.height },
        Unit::Width => r.width,
        Unit::Height => r.height,
        Unit::ViewWidth => vp.0,
        Unit::ViewHeight => vp.1,
        _ => return o.value as i32,
    };
    (o.value as i64 * basis as i64 / 100) as i32
}
fn own(style: &ComputedStyle, r: Region, vp: (i32, i32)) -> Region {
    Region { x: r.x + moved_by(&style.offset_x, r, vp, true), y: r.y + moved_by(&style.offset_y, r, vp, false), ..r }
}
fn copy<'a>(c: &LayoutChild<'a>) -> LayoutChild<'a> {
    LayoutChild { index: c.index, style: c.style.clone(), desired_size: c.desired_size, node: c.node }
}
fn size_of(c: &LayoutChild, a: Region, vp: (i32, i32)) -> (i32, i32) {
    let basis = |u: Unit, own: i32| match u {
        Unit::Percent => own,
        Unit::Width => a.width,
        Unit::Height => a.height,
        Unit::ViewWidth => vp.0,
        _ => vp.1,
    };
    let cut = |s: &Scalar, own: i32| if s.unit == Unit::Cells { s.value as i64 } else { s.value as i64 * basis(s.unit, own) as i64 / 100 };
    let near = |s: &Scalar, own: i32| if s.unit == Unit::Cells { s.value as i64 } else { (s.value as i64 * basis(s.unit, own) as i64 * 2 + 100).div_euclid(200) };
    let one = |want: &Option<Scalar>, hi: &Option<Scalar>, lo: &Option<Scalar>, own: i32, natural: u16| {
        let mut v = want.as_ref().map_or(natural as i64, |w| near(w, own));
        if let Some(h) = hi {
            v = v.min(cut(h, own));
        }
        if let Some(l) = lo {
            v = v.max(cut(l, own));
        }
        v.max(0) as i32
    };
    let s = &c.style;
    (one(&s.width, &s.max_width, &s.min_width, a.width, c.desired_size.width), one(&s.height, &s.max_height, &s.min_height, a.height, c.desired_size.height))
}

fn one_layer(st: &ComputedStyle, kids: &[LayoutChild], a: Region, vp: (i32, i32), absolute: bool) -> Placed {
    let view = Viewport { width: vp.0, height: vp.1 };
    let mut out = vec![];
    let mut side = [0i32; 4];
    for c in kids {
        let Some(d) = c.style.dock else { continue };
        let (w, h) = (c.desired_size.width as i32, c.desired_size.height as i32);
        let r = match d {
            Dock::Top => Region { x: a.x, y: a.y, width: a.width, height: h },
            Dock::Bottom => Region { x: a.x, y: a.y + a.height - h, width: a.width, height: h },
            Dock::Left => Region { x: a.x, y: a.y, width: w, height: a.height },
            Dock::Right => Region { x: a.x + a.width - w, y: a.y, width: w, height: a.height },
        };
        let k = match d {
            Dock::Top => 0,
            Dock::Right => 1,
            Dock::Bottom => 2,
            Dock::Left => 3,
        };
        side[k] = side[k].max(if k % 2 == 0 { h } else { w });
        out.push((c.index, own(&c.style, r, vp)));
    }
    let room = Region { x: a.x + side[3], y: a.y + side[0], width: (a.width - side[1] - side[3]).max(0), height: (a.height - side[0] - side[2]).max(0) };
    let floats = |c: &LayoutChild| absolute && c.style.position == Position::Absolute;
    let flow: Vec<LayoutChild> = kids.iter().filter(|c| c.style.dock.is_none() && !floats(c)).map(copy).collect();
    let laid = match st.layout {
        Kind::Grid => GridLayout::new().arrange(st, &flow, room, view),
        Kind::Vertical => VerticalLayout.arrange(st, &flow, room, view),
        Kind::Horizontal => HorizontalLayout.arrange(st, &flow, room, view),
    };
    let style = |i: usize| &kids.iter().find(|c| c.index == i).unwrap().style;
    let m = |s: &Scalar| s.value as i32;
    let x0 = laid.iter().map(|p| p.region.x - m(&style(p.child_index).margin.left)).min().unwrap_or(0);
    let x1 = laid.iter().map(|p| p.region.x + p.region.width + m(&style(p.child_index).margin.right)).max().unwrap_or(0);
    let y0 = laid.iter().map(|p| p.region.y - m(&style(p.child_index).margin.top)).min().unwrap_or(0);
    let y1 = laid.iter().map(|p| p.region.y + p.region.height + m(&style(p.child_index).margin.bottom)).max().unwrap_or(0);
    let (fx, fy) = ((room.width - (x1 - x0)).max(0), (room.height - (y1 - y0)).max(0));
    let dx = match st.align_horizontal {
        AlignHorizontal::Left => 0,
        AlignHorizontal::Center => fx / 2,
        AlignHorizontal::Right => fx,
    };
    let dy = match st.align_vertical {
        AlignVertical::Top => 0,
        AlignVertical::Middle => fy / 2,
        AlignVertical::Bottom => fy,
    };
    for p in &laid {
        let r = Region { x: p.region.x + dx, y: p.region.y + dy, ..p.region };
        out.push((p.child_index, own(style(p.child_index), r, vp)));
    }
    for c in kids.iter().filter(|c| c.style.dock.is_none() && floats(c)) {
        let (width, height) = size_of(c, room, vp);
        out.push((c.index, own(&c.style, Region { x: room.x, y: room.y, width, height }, vp)));
    }
    out
}
fn sorted(p: Vec<textual::layouts::WidgetPlacement>) -> Placed {
    p.iter().map(|p| (p.child_index, p.region)).collect()
}
const NAMES: [&str; 4] = ["default", "below", "above", "top"];

fn scene<S: Src>(s: &mut S, leaves: &mut Vec<Leaf>, layers: bool) -> (ComputedStyle, Vec<ComputedStyle>) {
    let mut st = ComputedStyle::default();
    st.layout = [Kind::Vertical, Kind::Horizontal, Kind::Grid][s.below(3)];
    if st.layout == Kind::Grid {
        st.grid.columns = Some(s.range(1, 3) as u16);
        st.grid.column_widths = (0..3).map(|_| Scalar::cells(s.range(1, 12) as f64)).collect();
        st.grid.row_heights = (0..3).map(|_| Scalar::cells(s.range(1, 6) as f64)).collect();
    }
    st.align_horizontal = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right][s.below(3)];
    st.align_vertical = [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom][s.below(3)];
    if layers && s.below(3) != 0 {
        st.layers = Some((0..s.range(0, 4)).map(|_| NAMES[s.below(4)].to_string()).collect());
    }
    let n = s.range(0, 6) as usize;
    let mut styles = vec![];
    for _ in 0..n {
        leaves.push(Leaf(s.range(0, 24) as u16, s.range(0, 9) as u16));
        let mut c = ComputedStyle::default();
        match s.below(6) {
            0 => c.dock = Some([Dock::Top, Dock::Right, Dock::Bottom, Dock::Left][s.below(4)]),
            1 => c.position = Position::Absolute,
            _ => {}
        }
        if s.below(8) == 0 {
            c.position = Position::Absolute;
        }
        c.width = length(s);
        c.height = length(s);
        if s.below(4) == 0 {
            c.max_width = length(s);
            c.min_height = length(s);
            c.max_height = length(s);
            c.min_width = length(s);
        }
        if s.below(3) == 0 {
            c.margin.top = Scalar::cells(s.range(0, 3) as f64);
            c.margin.right = Scalar::cells(s.range(0, 3) as f64);
            c.margin.bottom = Scalar::cells(s.range(0, 3) as f64);
            c.margin.left = Scalar::cells(s.range(0, 3) as f64);
        }
        c.offset_x = offset(s);
        c.offset_y = offset(s);
        if layers && s.below(3) != 0 {
            c.layer = Some(NAMES[s.below(4)].to_string());
        }
        styles.push(c);
    }
    (st, styles)
}
fn region<S: Src>(s: &mut S) -> Region {
    Region { x: s.range(-20, 20) as i32, y: s.range(-20, 20) as i32, width: s.range(0, 60) as i32, height: s.range(0, 30) as i32 }
}
fn tell<S: Src>(s: &mut S, what: &str, st: &ComputedStyle, kids: &[LayoutChild], a: Region, vp: (i32, i32)) {
    s.note(&|| {
        let k: Vec<String> = kids
            .iter()
            .map(|c| {
                let x = &c.style;
                format!(
                    "{{{} size {}x{} dock {:?} {:?} width {:?} height {:?} min {:?} {:?} max {:?} {:?} margin {:?} offset {:?} {:?} layer {:?}}}",
                    c.index, c.desired_size.width, c.desired_size.height, x.dock, x.position, x.width, x.height, x.min_width, x.min_height, x.max_width, x.max_height, x.margin, x.offset_x, x.offset_y, x.layer
                )
            })
            .collect();
        format!("{what}: {:?} layout, align {:?} {:?}, layers {:?}, in {a:?}, viewport {vp:?}; children {}", st.layout, st.align_horizontal, st.align_vertical, st.layers, k.join(" "))
    });
}

pub fn c21_place<S: Src>(s: &mut S) {
    let mut leaves = vec![];
    let (st, styles) = scene(s, &mut leaves, false);
    let kids: Vec<LayoutChild> = styles.into_iter().zip(&leaves).enumerate().map(|(i, (c, l))| child(i * 2 + 5, c, l)).collect();
    let a = region(s);
    let vp = (s.range(1, 90) as i32, s.range(1, 50) as i32);
    let how = s.below(3);
    tell(s, ["with a viewport", "plain", "configured"][how], &st, &kids, a, vp);
    let (got, want) = match how {
        0 => (arrange_children_with_viewport(&st, &kids, a, Viewport { width: vp.0, height: vp.1 }), one_layer(&st, &kids, a, vp, true)),
        1 => (arrange_children(&st, &kids, a), one_layer(&st, &kids, a, (a.width, a.height), true)),
        _ => (arrange_children_with_pre_layout(|_| {}, &st, &kids, a), one_layer(&st, &kids, a, (a.width, a.height), false)),
    };
    let got = sorted(got);
    assert!(got == want, "placed {got:?}, expected {want:?}");
}

pub fn c21_layers<S: Src>(s: &mut S) {
    let mut leaves = vec![];
    let (st, styles) = scene(s, &mut leaves, true);
    let kids: Vec<LayoutChild> = styles.into_iter().zip(&leaves).enumerate().map(|(i, (c, l))| child(i * 2 + 5, c, l)).collect();
    let a = region(s);
    let vp = (s.range(1, 90) as i32, s.range(1, 50) as i32);
    tell(s, "layers", &st, &kids, a, vp);
    let got = sorted(arrange_children_with_layers(&st, &kids, a, Viewport { width: vp.0, height: vp.1 }));
    let order = st.layers.clone().unwrap_or(vec!["default".into()]);
    let name = |c: &LayoutChild| c.style.layer.clone().unwrap_or("default".into());
    let mut names: Vec<String> = vec![];
    for n in kids.iter().map(name).filter(|n| !order.contains(n)).chain(order.iter().cloned()) {
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let mut want = vec![];
    for n in names {
        let g: Vec<LayoutChild> = kids.iter().filter(|c| name(c) == n).map(copy).collect();
        if !g.is_empty() {
            want.extend(one_layer(&st, &g, a, vp, true));
        }
    }
    assert!(got == want, "placed {got:?}, expected {want:?}");
}
