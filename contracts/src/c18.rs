//! C18: the text input.
use crate::src::Src;
use textual::{Input, KeyCode, Widget};
use unicode_segmentation::UnicodeSegmentation;

const CHARS: &[char] = &[
    'a', 'b', ' ', '[', ']', '\\', 'é', '界', '🙂', '\u{301}', '\u{308}', '\u{200d}', '\u{fe0f}', '🇩', '🇪', '🇫', '👩', '👧', '\u{1f3fd}', 'ᄀ', 'ᅡ', 'ᆨ', '가', 'क', '\u{94d}', 'ष', '\u{200b}', '\r', '\n',
];
fn count(t: &str) -> usize {
    t.graphemes(true).count()
}
/// Byte position of cursor position i.
fn place(t: &str, i: usize) -> usize {
    t.grapheme_indices(true).nth(i).map_or(t.len(), |g| g.0)
}
pub fn c18_history<S: Src>(s: &mut S) {
    let mut w: Input<()> = Input::new();
    if s.bool() {
        w.set_placeholder("type [here]");
    }
    w.set_focus(s.bool());
    let (mut text, mut cursor) = (String::new(), 0usize);
    let palette: &[char] = if s.below(3) == 0 { &CHARS[..6] } else { CHARS };
    let n = 1 + s.below(16);
    for _ in 0..n {
        let on = !(w.is_disabled() || !w.is_visible());
        let what = match s.below(14) {
            0..=4 => {
                let c = palette[s.below(palette.len())];
                w.on_event(KeyCode::Char(c));
                if on {
                    let at = place(&text, cursor);
                    text.insert(at, c);
                    let after = at + c.len_utf8();
                    // behind the user-perceived character that holds the typed one
                    cursor = (0..=count(&text)).find(|&i| place(&text, i) >= after).unwrap();
                }
                format!("type {c:?}")
            }
            5 | 6 => {
                w.on_event(KeyCode::Backspace);
                if on && cursor > 0 {
                    text.replace_range(place(&text, cursor - 1)..place(&text, cursor), "");
                    cursor -= 1;
                }
                "backspace".into()
            }
            7 => {
                w.on_event(KeyCode::Delete);
                if on {
                    text.replace_range(place(&text, cursor)..place(&text, cursor + 1), "");
                }
                "delete".into()
            }
            8 | 9 => {
                let k = [KeyCode::Left, KeyCode::Right, KeyCode::Home, KeyCode::End, KeyCode::Up, KeyCode::Enter][s.below(6)];
                w.on_event(k);
                if on {
                    cursor = match k {
                        KeyCode::Left => cursor.saturating_sub(1),
                        KeyCode::Right => (cursor + 1).min(count(&text)),
                        KeyCode::Home => 0,
                        KeyCode::End => count(&text),
                        _ => cursor,
                    };
                }
                format!("{k:?}")
            }
            10 => {
                let i = if s.below(5) == 0 { usize::MAX } else { s.below(12) };
                w.set_cursor(i);
                cursor = i.min(count(&text));
                format!("set_cursor({i})")
            }
            11 => {
                text = (0..s.below(8)).map(|_| palette[s.below(palette.len())]).collect();
                w.set_value(text.clone());
                cursor = cursor.min(count(&text));
                format!("set_value({text:?})")
            }
            12 => {
                let f = s.bool();
                w.set_focus(f);
                format!("set_focus({f})")
            }
            _ => {
                let (d, v) = (s.below(3) == 0, s.below(3) != 0);
                w.set_disabled(d);
                w.set_visible(v);
                format!("disabled {d} visible {v}")
            }
        };
        s.note(&|| what.clone());
        assert!(w.value() == text, "after {what}: the value is {:?}, expected {text:?}", w.value());
        assert!(w.cursor() <= count(&text), "after {what}: cursor {} in {text:?} of {} characters", w.cursor(), count(&text));
        assert!(w.cursor() == cursor, "after {what}: the cursor in {text:?} is {}, expected {cursor}", w.cursor());
    }
}
