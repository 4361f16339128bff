//! C08: the vertical and horizontal layouts against an exact (rational) computation of every placement.

use crate::src::Src;
use tcss::types::{BoxSizing, ComputedStyle, Scalar, Unit};
use textual::layouts::{HorizontalLayout, Layout, LayoutChild, LayoutNode, VerticalLayout, Viewport};
use textual::{Region, Size};

/// A widget whose height depends on the width it gets.
pub struct Wraps(pub u16, pub u16);
impl LayoutNode for Wraps {
    fn desired_size(&self) -> Size {
        Size { width: self.0, height: self.1 }
    }
    fn intrinsic_height_for_width(&self, w: u16) -> u16 {
        natural(self.1, w)
    }
}
fn natural(h: u16, w: u16) -> u16 {
    if h == u16::MAX { 3 } else { h + (40u16.saturating_sub(w)) / 10 }
}
/// An exact number: n / d with d > 0.
#[derive(Clone, Copy, Debug)]
struct Q(i128, i128);
impl Q {
    fn of(n: i128) -> Q {
        Q(n, 1)
    }
    fn new(n: i128, d: i128) -> Q {
        fn gcd(a: i128, b: i128) -> i128 {
            if b == 0 { a.abs().max(1) } else { gcd(b, a % b) }
        }
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let g = gcd(n, d);
        Q(n / g, d / g)
    }
    fn add(self, o: Q) -> Q {
        Q::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
    }
    fn sub(self, o: Q) -> Q {
        self.add(Q(-o.0, o.1))
    }
    fn mul(self, o: Q) -> Q {
        Q::new(self.0 * o.0, self.1 * o.1)
    }
    fn div(self, o: Q) -> Q {
        Q::new(self.0 * o.1, self.1 * o.0)
    }
    fn floor(self) -> i32 {
        self.0.div_euclid(self.1) as i32
    }
    fn trunc(self) -> i32 {
        (self.0 / self.1) as i32
    }
    fn less(self, o: Q) -> bool {
        self.0 * o.1 < o.0 * self.1
    }
    fn max(self, o: Q) -> Q {
        if self.less(o) { o } else { self }
    }
    fn min(self, o: Q) -> Q {
        if o.less(self) { o } else { self }
    }
}
/// Generated values are multiples of 1/8, so this is exact.
fn q(v: f64) -> Q {
    Q::new((v * 8.0) as i128, 8)
}
fn basis(u: Unit, own: i32, a: Region, vp: (i32, i32)) -> i32 {
    match u {
        Unit::Percent => own,
        Unit::Width => a.width,
        Unit::Height => a.height,
        Unit::ViewWidth => vp.0,
        _ => vp.1,
    }
}
fn relative(u: Unit) -> bool {
    !matches!(u, Unit::Cells | Unit::Fraction | Unit::Auto)
}
fn limit(s: &Scalar, own: i32, a: Region, vp: (i32, i32)) -> Q {
    if relative(s.unit) { q(s.value).mul(Q::new(basis(s.unit, own, a, vp) as i128, 100)) } else { q(s.value) }
}
fn within(x: i32, hi: &Option<Scalar>, lo: &Option<Scalar>, own: i32, a: Region, vp: (i32, i32)) -> i32 {
    let x = hi.as_ref().map_or(x, |m| x.min(limit(m, own, a, vp).trunc()));
    lo.as_ref().map_or(x, |m| x.max(limit(m, own, a, vp).trunc()))
}
fn m(s: &Scalar) -> i32 {
    s.value as i32
}
fn boxed(x: i32, s: &ComputedStyle, horizontal: bool) -> i32 {
    let p = if horizontal { m(&s.padding.left) + m(&s.padding.right) } else { m(&s.padding.top) + m(&s.padding.bottom) };
    x + if s.box_sizing == BoxSizing::ContentBox { p } else { 0 }
}
type Placed = Vec<(usize, Region)>;

fn row(kids: &[LayoutChild], sizes: &[(u16, u16)], a: Region, vp: (i32, i32)) -> Placed {
    let shares = |c: &LayoutChild, n: u16| match &c.style.width {
        Some(w) if w.unit == Unit::Fraction => Some((w.value * 1000.0) as i128),
        Some(w) if w.unit != Unit::Auto => None,
        _ => (n == u16::MAX).then_some(1000),
    };
    let mut carry = Q::of(0);
    let (mut fixed, mut margins, mut total) = (0, 0, 0);
    let mut widths = vec![];
    let mut prev = 0;
    for (i, c) in kids.iter().enumerate() {
        let (l, r) = (m(&c.style.margin.left), m(&c.style.margin.right));
        margins += if i == 0 { l } else { (l - prev).max(0) } + r;
        prev = r;
        if let Some(w) = shares(c, sizes[i].0) {
            total += w;
            widths.push(None);
            continue;
        }
        let exact = match &c.style.width {
            Some(w) if w.unit == Unit::Cells => Q::of(boxed(m(w), &c.style, true) as i128),
            Some(w) if relative(w.unit) => limit(w, a.width, a, vp).add(Q::of(boxed(0, &c.style, true) as i128)),
            _ => Q::of(sizes[i].0 as i128),
        };
        let x = exact.add(carry);
        carry = x.sub(Q::of(x.floor() as i128));
        fixed += x.floor();
        widths.push(Some(x.floor()));
    }
    let rest = (a.width - fixed - margins).max(0);
    let share = |i: usize| if total > 0 { ((rest as i128 * shares(&kids[i], sizes[i].0).unwrap()) / total) as i32 } else { 0 };
    let sharing: Vec<usize> = (0..kids.len()).filter(|&i| widths[i].is_none()).collect();
    let mut over = if total > 0 { rest - sharing.iter().map(|&i| share(i)).sum::<i32>() } else { 0 };
    for i in sharing {
        widths[i] = Some(share(i) + (over > 0) as i32);
        over -= (over > 0) as i32;
    }
    assert!(over == 0, "the oracle itself left {over} cells over");
    let mut x = a.x;
    let mut prev = 0;
    let mut out = vec![];
    for (i, c) in kids.iter().enumerate() {
        let s = &c.style;
        let w = within(widths[i].unwrap(), &s.max_width, &s.min_width, a.width, a, vp);
        let raw = match &s.height {
            Some(h) if h.unit == Unit::Auto => natural(sizes[i].1, w.clamp(0, 65535) as u16) as i32,
            Some(h) if h.unit == Unit::Percent => boxed(limit(h, a.height, a, vp).trunc(), s, false),
            Some(h) if h.unit == Unit::Cells => boxed(m(h), s, false),
            _ => a.height,
        };
        let h = within(raw, &s.max_height, &s.min_height, a.height, a, vp);
        let auto = s.height.as_ref().is_some_and(|h| h.unit == Unit::Auto);
        let h = if auto { h } else { (h - m(&s.margin.top) - m(&s.margin.bottom)).max(0) };
        let l = m(&s.margin.left);
        x += if i == 0 { l } else { (l - prev).max(0) };
        out.push((c.index, Region { x, y: a.y + m(&s.margin.top), width: w, height: h }));
        prev = m(&s.margin.right);
        x += w + prev;
    }
    out
}

/// None where nothing at all is left for the fractions: the code falls back to one row each there, and whether
/// floating point leaves a hair more than nothing is not part of the property.
fn stack(kids: &[LayoutChild], sizes: &[(u16, u16)], a: Region, vp: (i32, i32)) -> Option<Placed> {
    let fr = |c: &LayoutChild, n: u16| match &c.style.height {
        Some(h) => (h.unit == Unit::Fraction).then(|| q(h.value)),
        None => (n == u16::MAX).then(|| Q::of(1)),
    };
    let width = |i: usize| {
        let s = &kids[i].style;
        let (base, fills) = match &s.width {
            Some(w) if w.unit == Unit::Cells => (m(w), false),
            Some(w) if w.unit == Unit::Auto => (sizes[i].0 as i32, false),
            Some(w) if w.unit == Unit::Percent => (limit(w, a.width, a, vp).add(Q(1, 2)).floor(), true),
            _ => (a.width, true),
        };
        let w = if fills { (base - m(&s.margin.left) - m(&s.margin.right)).max(0) } else { base };
        within(w, &s.max_width, &s.min_width, a.width, a, vp)
    };
    let fixed = |i: usize, whole: i32| {
        let s = &kids[i].style;
        match &s.height {
            Some(h) if h.unit == Unit::Cells => Q::of(boxed(m(h), s, false) as i128),
            Some(h) if h.unit == Unit::Auto => Q::of(natural(sizes[i].1, width(i).clamp(0, 65535) as u16) as i128),
            Some(h) => {
                let b = match h.unit {
                    Unit::Percent | Unit::Height => whole,
                    Unit::Width | Unit::ViewWidth => vp.0,
                    _ => vp.1,
                };
                q(h.value).mul(Q::new(b as i128, 100))
            }
            None => Q::of(sizes[i].1 as i128),
        }
    };
    let gap = |i: usize| {
        let t = q(kids[i].style.margin.top.value);
        if i == 0 { t } else { t.sub(q(kids[i - 1].style.margin.bottom.value)).max(Q::of(0)) }
    };
    let mut used = Q::of(0);
    let mut total = Q::of(0);
    for i in 0..kids.len() {
        used = used.add(gap(i)).add(q(kids[i].style.margin.bottom.value));
        match fr(&kids[i], sizes[i].1) {
            Some(w) => total = total.add(w),
            None => used = used.add(fixed(i, vp.1)),
        }
    }
    let rest = Q::of(vp.1 as i128).sub(used);
    if rest.0 == 0 && total.0 != 0 {
        return None;
    }
    let one = if Q::of(0).less(total) && Q::of(0).less(rest) { rest.div(total) } else { Q::of(1) };
    let mut y = Q::of(a.y as i128);
    let mut out = vec![];
    for (i, c) in kids.iter().enumerate() {
        let s = &c.style;
        let share = fr(c, sizes[i].1);
        let raw = share.map_or_else(|| fixed(i, a.height), |w| w.mul(one));
        let raw = s.max_height.as_ref().map_or(raw, |l| raw.min(limit(l, a.height, a, vp)));
        let raw = s.min_height.as_ref().map_or(raw, |l| raw.max(limit(l, a.height, a, vp)));
        let (mt, mb) = (q(s.margin.top.value), q(s.margin.bottom.value));
        let fills = share.is_some() || s.height.as_ref().is_some_and(|h| matches!(h.unit, Unit::Percent | Unit::Height));
        let h = if fills { raw.sub(mt).sub(mb).max(Q::of(0)) } else { raw };
        y = y.add(gap(i));
        let end = y.add(h);
        out.push((c.index, Region { x: a.x + m(&s.margin.left), y: y.floor(), width: width(i), height: (end.floor() - y.floor()).max(0) }));
        y = end.add(mb);
    }
    Some(out)
}

fn scalar<S: Src>(s: &mut S, vertical: bool) -> Option<Scalar> {
    match s.below(6) {
        0 => None,
        1 => Some(Scalar::cells(s.range(0, 30) as f64)),
        2 => Some(Scalar { value: s.range(1, 8) as f64 / [1.0, 2.0, 8.0][s.below(3)], unit: Unit::Fraction }),
        3 => Some(Scalar { value: 1.0, unit: Unit::Fraction }),
        4 => Some(Scalar { value: 0.0, unit: Unit::Auto }),
        _ => {
            let units = if vertical { &[Unit::Percent, Unit::Percent, Unit::Width, Unit::Height, Unit::ViewWidth, Unit::ViewHeight][..] } else { &[Unit::Percent][..] };
            Some(Scalar { value: if s.bool() { [25.0, 50.0, 75.0, 100.0][s.below(4)] } else { s.range(0, 400) as f64 / 4.0 }, unit: units[s.below(units.len())] })
        }
    }
}
/// Limits are multiples of a quarter, so that the code's floating point products are exact.
fn bound<S: Src>(s: &mut S) -> Option<Scalar> {
    match s.below(4) {
        0 => Some(Scalar::cells(s.range(0, 25) as f64)),
        1 => Some(Scalar { value: [25.0, 50.0, 75.0, 100.0][s.below(4)], unit: [Unit::Percent, Unit::Width, Unit::Height, Unit::ViewWidth, Unit::ViewHeight][s.below(5)] }),
        _ => None,
    }
}
fn scene<S: Src>(s: &mut S, horizontal: bool) -> Vec<(ComputedStyle, Wraps)> {
    let n = s.range(0, 7);
    let plain = s.bool();
    (0..n)
        .map(|_| {
            let mut c = ComputedStyle::default();
            if plain && s.below(3) != 0 {
                let f = Some(Scalar { value: s.range(1, 3) as f64, unit: Unit::Fraction });
                if horizontal {
                    c.width = f;
                } else {
                    c.height = f;
                }
            } else {
                c.width = scalar(s, horizontal);
                c.height = scalar(s, !horizontal);
                if !horizontal && c.width.as_ref().is_some_and(|w| w.unit == Unit::Percent) {
                    c.width.as_mut().unwrap().value = [25.0, 50.0, 75.0, 100.0][s.below(4)];
                }
                if horizontal && c.height.as_ref().is_some_and(|h| h.unit == Unit::Percent) {
                    c.height.as_mut().unwrap().value = [25.0, 50.0, 75.0, 100.0][s.below(4)];
                }
            }
            if !plain && s.below(3) == 0 {
                c.max_width = bound(s);
                c.max_height = bound(s);
                c.min_width = bound(s);
                c.min_height = bound(s);
            }
            if s.below(3) == 0 {
                c.margin.top = Scalar::cells(s.range(0, 4) as f64);
                c.margin.right = Scalar::cells(s.range(0, 4) as f64);
                c.margin.bottom = Scalar::cells(s.range(0, 4) as f64);
                c.margin.left = Scalar::cells(s.range(0, 4) as f64);
            }
            if s.below(4) == 0 {
                c.padding.left = Scalar::cells(s.range(0, 2) as f64);
                c.padding.right = Scalar::cells(s.range(0, 2) as f64);
                c.padding.top = Scalar::cells(s.range(0, 2) as f64);
                c.padding.bottom = Scalar::cells(s.range(0, 2) as f64);
                c.box_sizing = [BoxSizing::BorderBox, BoxSizing::ContentBox][s.below(2)];
            }
            let fill = |s: &mut S, hi: i64| if s.below(6) == 0 { u16::MAX } else { s.range(0, hi) as u16 };
            let size = Wraps(fill(s, 30), fill(s, 9));
            (c, size)
        })
        .collect()
}
fn check<S: Src>(s: &mut S, horizontal: bool) {
    let parts = scene(s, horizontal);
    let a = Region { x: s.range(-20, 20) as i32, y: s.range(-20, 20) as i32, width: s.range(0, 120) as i32, height: s.range(0, 60) as i32 };
    let vp = if s.bool() { (a.width, a.height) } else { (s.range(1, 160) as i32, s.range(1, 60) as i32) };
    let sizes: Vec<(u16, u16)> = parts.iter().map(|p| (p.1.0, p.1.1)).collect();
    let leaves: Vec<Wraps> = parts.iter().map(|p| Wraps(p.1.0, p.1.1)).collect();
    let kids: Vec<LayoutChild> =
        parts.iter().zip(&leaves).enumerate().map(|(i, (p, l))| LayoutChild { index: i * 2 + 3, style: p.0.clone(), desired_size: l.desired_size(), node: l }).collect();
    s.note(&|| {
        let k: Vec<String> = kids
            .iter()
            .map(|c| {
                let x = &c.style;
                format!(
                    "{{{} size {}x{} width {:?} height {:?} min {:?} {:?} max {:?} {:?} margin {:?} padding {:?} {:?}}}",
                    c.index, c.desired_size.width, c.desired_size.height, x.width, x.height, x.min_width, x.min_height, x.max_width, x.max_height, x.margin, x.padding, x.box_sizing
                )
            })
            .collect();
        format!("{} in {a:?}, viewport {vp:?}: {}", if horizontal { "row" } else { "stack" }, k.join(" "))
    });
    let view = Viewport { width: vp.0, height: vp.1 };
    let st = ComputedStyle::default();
    let (got, want) = if horizontal {
        (HorizontalLayout.arrange(&st, &kids, a, view), Some(row(&kids, &sizes, a, vp)))
    } else {
        (VerticalLayout.arrange(&st, &kids, a, view), stack(&kids, &sizes, a, vp))
    };
    let Some(want) = want else { return };
    let got: Placed = got.iter().map(|p| (p.child_index, p.region)).collect();
    assert!(got == want, "placed {got:?}, expected {want:?}");
}
pub fn c08_row<S: Src>(s: &mut S) {
    check(s, true);
}
pub fn c08_stack<S: Src>(s: &mut S) {
    check(s, false);
}
