//! C10: scroll offsets stay in range. The invariant is inductive: any state that satisfies it, any operation, any
//! argument. `new` establishes it.
use crate::src::Src;
use textual::scroll::ScrollState;

/// Largest useful offset, in mathematical integers (capped at the largest representable coordinate).
fn max_off(content: i32, view: i32) -> i32 {
    (content as i64 - view as i64).clamp(0, i32::MAX as i64) as i32
}
fn inv(t: &ScrollState) -> bool {
    t.offset_x >= 0
        && t.offset_x <= max_off(t.virtual_width, t.viewport_width)
        && t.offset_y >= 0
        && t.offset_y <= max_off(t.virtual_height, t.viewport_height)
}
fn state<S: Src>(s: &mut S) -> ScrollState {
    let mut t = ScrollState::new(s.i32(), s.i32(), s.i32(), s.i32());
    assert!(inv(&t) && t.offset_x == 0 && t.offset_y == 0, "a new state is in range: {t:?}");
    t.offset_x = s.i32();
    t.offset_y = s.i32();
    if !s.symbolic() {
        t.offset_x = t.offset_x.clamp(0, max_off(t.virtual_width, t.viewport_width));
        t.offset_y = t.offset_y.clamp(0, max_off(t.virtual_height, t.viewport_height));
    }
    s.assume(inv(&t));
    t
}
fn moved(old: i32, delta: i64, max: i32) -> i32 {
    (old as i64 + delta).clamp(0, max as i64) as i32
}
/// `got` is floor(v) clamped to 0..=max, stated without a floor function.
fn landed(got: i32, v: f32, max: i32) -> bool {
    if got < 0 || got > max {
        return false;
    }
    if v.is_nan() {
        return true;
    }
    let (g, v) = (got as f64, v as f64);
    (g <= v && v < g + 1.0) || (got == 0 && v < 1.0) || (got == max && v >= g)
}

fn step<S: Src>(s: &mut S, t: &mut ScrollState) {
    let old = t.clone();
    let op = s.below(7);
    let amount = s.i32();
    let (w, h) = (s.i32(), s.i32());
    let (fx, fy) = (s.f32() * if s.symbolic() { 1.0 } else { 3000.0 }, s.f32());
    let (hx, hy) = (s.bool(), s.bool());
    s.note(&|| format!("op {op} amount {amount} size {w}x{h} to {fx},{fy} {hx}/{hy} on {old:?}"));
    let (mx, my) = (max_off(old.virtual_width, old.viewport_width), max_off(old.virtual_height, old.viewport_height));
    assert!(t.max_scroll_x() == mx && t.max_scroll_y() == my, "largest offset");
    assert!(t.can_scroll_x() == (mx > 0) && t.can_scroll_y() == (my > 0), "can scroll exactly when there is somewhere to go");
    match op {
        0 => {
            t.scroll_up(amount);
            assert!(t.offset_x == old.offset_x && t.offset_y == moved(old.offset_y, -(amount as i64), my), "scroll up: {t:?}");
        }
        1 => {
            t.scroll_down(amount);
            assert!(t.offset_x == old.offset_x && t.offset_y == moved(old.offset_y, amount as i64, my), "scroll down: {t:?}");
        }
        2 => {
            t.scroll_left(amount);
            assert!(t.offset_y == old.offset_y && t.offset_x == moved(old.offset_x, -(amount as i64), mx), "scroll left: {t:?}");
        }
        3 => {
            t.scroll_right(amount);
            assert!(t.offset_y == old.offset_y && t.offset_x == moved(old.offset_x, amount as i64, mx), "scroll right: {t:?}");
        }
        4 => {
            t.scroll_to(hx.then_some(fx), hy.then_some(fy));
            assert!(if hx { landed(t.offset_x, fx, mx) } else { t.offset_x == old.offset_x }, "scroll to x: {t:?}");
            assert!(if hy { landed(t.offset_y, fy, my) } else { t.offset_y == old.offset_y }, "scroll to y: {t:?}");
        }
        5 => {
            t.set_viewport(w, h);
            assert!(t.viewport_width == w && t.viewport_height == h, "viewport size");
            assert!(t.offset_x == old.offset_x.clamp(0, max_off(old.virtual_width, w)), "offset after resizing the viewport: {t:?}");
            assert!(t.offset_y == old.offset_y.clamp(0, max_off(old.virtual_height, h)), "offset after resizing the viewport: {t:?}");
        }
        _ => {
            t.set_virtual_size(w, h);
            assert!(t.virtual_width == w && t.virtual_height == h, "content size");
            assert!(t.offset_x == old.offset_x.clamp(0, max_off(w, old.viewport_width)), "offset after the content changed: {t:?}");
            assert!(t.offset_y == old.offset_y.clamp(0, max_off(h, old.viewport_height)), "offset after the content changed: {t:?}");
        }
    }
    if op < 5 {
        assert!(
            t.virtual_width == old.virtual_width && t.virtual_height == old.virtual_height && t.viewport_width == old.viewport_width && t.viewport_height == old.viewport_height,
            "scrolling changes no size"
        );
    }
    if op < 6 {
        assert!(t.virtual_width == old.virtual_width && t.virtual_height == old.virtual_height, "content size unchanged");
    } else {
        assert!(t.viewport_width == old.viewport_width && t.viewport_height == old.viewport_height, "viewport size unchanged");
    }
    assert!(inv(t), "offset out of range: {t:?}");
}

/// One operation from any state that satisfies the invariant (the induction step).
pub fn c10_step<S: Src>(s: &mut S) {
    let mut t = state(s);
    step(s, &mut t);
}

/// The reported percentage is the position between the two ends.
pub fn c10_percent<S: Src>(s: &mut S) {
    let t = state(s);
    s.note(&|| format!("{t:?}"));
    for (p, o, m) in [
        (t.scroll_percent_x(), t.offset_x, max_off(t.virtual_width, t.viewport_width)),
        (t.scroll_percent_y(), t.offset_y, max_off(t.virtual_height, t.viewport_height)),
    ] {
        assert!((0.0..=1.0).contains(&p), "percentage {p} out of range");
        if o == 0 {
            assert!(p == 0.0, "percentage at the start");
        } else if o == m {
            assert!(p == 1.0, "percentage at the end");
        }
    }
}

/// Histories.
pub fn c10_history<S: Src>(s: &mut S) {
    let mut t = ScrollState::new(s.i32(), s.i32(), s.i32(), s.i32());
    assert!(inv(&t), "a new state is in range: {t:?}");
    for _ in 0..s.range(1, 12) {
        step(s, &mut t);
    }
}
