//! C25: the text of a colour gives exactly the colour it writes; no text crashes the reader.
use crate::src::Src;
use rich::Color;
use tcss::parser::values::parse_color;
use tcss::types::RgbaColor;

/// the colours of CSS
const CSS: &str = "aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4 black 000000 \
blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0 chartreuse 7fff00 chocolate d2691e \
coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b \
darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 \
darkorchid 9932cc darkred 8b0000 darksalmon e9967a darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f \
darkturquoise 00ced1 darkviolet 9400d3 deeppink ff1493 deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff \
firebrick b22222 floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700 goldenrod daa520 \
gray 808080 green 008000 greenyellow adff2f grey 808080 honeydew f0fff0 hotpink ff69b4 indianred cd5c5c indigo 4b0082 ivory fffff0 \
khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6 lightcoral f08080 \
lightcyan e0ffff lightgoldenrodyellow fafad2 lightgray d3d3d3 lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a \
lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 lightslategrey 778899 lightsteelblue b0c4de lightyellow ffffe0 \
lime 00ff00 limegreen 32cd32 linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 \
mediumpurple 9370db mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 \
midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead navy 000080 oldlace fdf5e6 olive 808000 \
olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6 palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee \
palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080 \
rebeccapurple 663399 red ff0000 rosybrown bc8f8f royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 \
seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb slateblue 6a5acd slategray 708090 slategrey 708090 snow fffafa \
springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347 turquoise 40e0d0 violet ee82ee wheat f5deb3 \
white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32";
fn names() -> Vec<(&'static str, (u8, u8, u8))> {
    let w: Vec<&str> = CSS.split_whitespace().collect();
    w.chunks(2)
        .map(|p| {
            let v = u32::from_str_radix(p[1], 16).unwrap();
            (p[0], ((v >> 16) as u8, (v >> 8) as u8, v as u8))
        })
        .collect()
}
fn letters<S: Src>(s: &mut S, t: &str) -> String {
    match s.below(3) {
        0 => t.to_string(),
        1 => t.to_uppercase(),
        _ => t.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn blanks<S: Src>(s: &mut S) -> &'static str {
    ["", "", " ", "  ", "\t", "\n"][s.below(6)]
}
/// a channel as it is written, and its value if it has one
fn channel<S: Src>(s: &mut S) -> (String, Option<u8>) {
    match s.below(9) {
        0 => (["256", "-1", "", "1.5", "x", "50%", "١", "99999999999", "1 2"][s.below(9)].to_string(), None),
        1 => (format!("{:03}", 7), Some(7)),
        _ => {
            let v = [0, 255, s.range(0, 255)][s.below(3)];
            (v.to_string(), Some(v as u8))
        }
    }
}
fn part<S: Src>(s: &mut S) -> (String, f64) {
    let q = s.range(0, 8) as f64 / 8.0;
    (if s.bool() { format!("{q}") } else { format!("{q:.3}") }, q)
}
/// red, green and blue of a hue, in 0..=255
fn hsl(h: f64, sat: f64, l: f64) -> [f64; 3] {
    let c = (1.0 - (2.0 * l - 1.0).abs()) * sat;
    [0.0, 8.0, 4.0].map(|n: f64| {
        // distance of the hue from the one where this channel is full, in sixths of the circle
        let k = (n + h / 30.0).rem_euclid(12.0);
        let a = c / 2.0;
        (l - a * (k - 3.0).min(9.0 - k).min(1.0).max(-1.0)) * 255.0
    })
}
/// a colour as it is written, and what it should be: Some(None) for an error, None when nothing is said about it
type Want = Option<Option<([f64; 3], f64, bool)>>;
fn exact(r: u8, g: u8, b: u8, a: f64) -> Want {
    Some(Some(([r as f64, g as f64, b as f64], a, true)))
}
fn hex_text<S: Src>(s: &mut S, n: usize) -> (String, Option<Vec<u8>>) {
    let mut t = String::new();
    let mut v = vec![];
    let odd = s.below(5) == 0;
    let at = s.below(n.max(1));
    let mut fine = true;
    for i in 0..n {
        if odd && i == at {
            t.push(['g', 'é', ' ', '-', '漢', 'İ', 'Ａ', '\u{301}', '𝔸', '+', '/', ':', '@', '`', 'G'][s.below(15)]);
            fine = false;
            v.push(0);
        } else {
            let d = s.below(16) as u8;
            let c = char::from_digit(d as u32, 16).unwrap();
            t.push(if s.bool() { c.to_ascii_uppercase() } else { c });
            v.push(d);
        }
    }
    if t.trim_end() != t {
        fine = false;
    }
    (t, if fine { Some(v) } else { None })
}
fn written<S: Src>(s: &mut S) -> (String, Want) {
    match s.below(6) {
        0 | 1 => {
            let n = [3, 4, 6, 8, s.below(11)][s.below(5)];
            let (t, v) = hex_text(s, n);
            if t.trim_end() != t {
                return (format!("#{t}"), None);
            }
            let want = match (v, n) {
                (Some(v), 3) => exact(v[0] * 17, v[1] * 17, v[2] * 17, 1.0),
                (Some(v), 4) => exact(v[0] * 17, v[1] * 17, v[2] * 17, v[3] as f64 * 17.0 / 255.0),
                (Some(v), 6) => exact(v[0] * 16 + v[1], v[2] * 16 + v[3], v[4] * 16 + v[5], 1.0),
                (Some(v), 8) => exact(v[0] * 16 + v[1], v[2] * 16 + v[3], v[4] * 16 + v[5], (v[6] * 16 + v[7]) as f64 / 255.0),
                _ => Some(None),
            };
            (format!("#{t}"), want)
        }
        2 => {
            let c = [channel(s), channel(s), channel(s)];
            let n = [3, 3, 4, s.below(3)][s.below(4)];
            let mut p: Vec<String> = c.iter().take(n).map(|x| x.0.clone()).collect();
            let mut a = 1.0;
            if n == 4 {
                let (t, v) = part(s);
                (a, _) = (v, p.push(t));
            }
            let t = p.iter().map(|x| format!("{}{x}{}", blanks(s), blanks(s))).collect::<Vec<_>>().join(",");
            let f = if n == 4 && s.bool() { "rgba" } else { "rgb" };
            let f = letters(s, f);
            let want = match (n >= 3, c[0].1, c[1].1, c[2].1) {
                (true, Some(r), Some(g), Some(b)) => exact(r, g, b, a),
                _ => Some(None),
            };
            (format!("{f}({t})"), want)
        }
        3 => {
            let h = [s.range(0, 360), s.range(-1000, 1000), s.range(0, 12) * 30][s.below(3)] as f64;
            let (x, l) = (s.range(0, 20) * 5, s.range(0, 20) * 5);
            let mut p = vec![format!("{h}"), format!("{x}%"), format!("{l}%")];
            let mut a = 1.0;
            if s.bool() {
                let (t, v) = part(s);
                (a, _) = (v, p.push(t));
            }
            let t = p.iter().map(|x| format!("{}{x}{}", blanks(s), blanks(s))).collect::<Vec<_>>().join(",");
            let f = if p.len() == 4 && s.bool() { "hsla" } else { "hsl" };
            let f = letters(s, f);
            (format!("{f}({t})"), Some(Some((hsl(h, x as f64 / 100.0, l as f64 / 100.0), a, false))))
        }
        4 => {
            let all = names();
            let (n, (r, g, b)) = all[s.below(all.len())];
            (letters(s, n), exact(r, g, b, 1.0))
        }
        _ => {
            let all = names();
            let mut t: Vec<char> = all[s.below(all.len())].0.chars().collect();
            let at = s.below(t.len());
            match s.below(3) {
                0 => t.insert(at, ['x', 'é', '_', '-'][s.below(4)]),
                1 => t[at] = 'q',
                _ => t.truncate(at),
            }
            let t: String = t.into_iter().collect();
            let want = match all.iter().find(|n| n.0 == t) {
                Some((_, (r, g, b))) => exact(*r, *g, *b, 1.0),
                None => Some(None),
            };
            (t, want)
        }
    }
}
fn same(got: Option<&RgbaColor>, want: &Option<([f64; 3], f64, bool)>, t: &str) {
    match (got, want) {
        (None, None) => {}
        (Some(c), Some((v, a, sharp))) => {
            for (x, w) in [c.r, c.g, c.b].iter().zip(v) {
                let d = (*x as f64 - w).abs();
                assert!(if *sharp { d == 0.0 } else { d < 1.01 }, "{t:?} gives {c:?}, not {v:?}");
            }
            assert!((c.a as f64 - a).abs() < 1e-6, "{t:?}: alpha is {}, not {a}", c.a);
            assert!(!c.auto && c.ansi.is_none() && c.theme_var.is_none(), "{t:?} gives {c:?}");
        }
        (g, w) => panic!("{t:?} gives {g:?}, should be {w:?}"),
    }
}
/// Colours in every documented form, alone and in front of the rest of a stylesheet.
pub fn c25_written<S: Src>(s: &mut S) {
    let (t, want) = written(s);
    let around = format!("{}{t}{}", blanks(s), blanks(s));
    s.note(&|| format!("{around:?}"));
    let got = RgbaColor::parse(&around).ok();
    if let Some(w) = &want {
        same(got.as_ref(), w, &around);
    }
    // in a stylesheet: one word, or a function
    let one_word = !t.chars().any(|c| c.is_whitespace()) || t.contains('(');
    if !one_word || t.contains([';', '}']) || t.matches('(').count() != t.matches(')').count() {
        return;
    }
    let (more, alpha, rest) = match s.below(7) {
        0 => (String::new(), None, String::new()),
        1 => (";".to_string(), None, ";".to_string()),
        2 => (" }".to_string(), None, " }".to_string()),
        3 => (" solid;".to_string(), None, " solid;".to_string()),
        4 => (" 40 ;".to_string(), None, " 40 ;".to_string()),
        k => {
            let p = s.range(0, 400) as f64 / 4.0;
            let rest = ["", ";", " é"][s.below(3)];
            let gap = if k == 5 { " " } else { ["  ", "\t", "\n", " \t"][s.below(4)] };
            (format!("{gap}{p}%{rest}"), Some(p / 100.0), rest.to_string())
        }
    };
    let text = format!("{}{t}{more}", blanks(s));
    s.note(&|| format!("in a stylesheet: {text:?}"));
    match (parse_color(&text), &want) {
        (Ok((left, c)), Some(Some((v, a, sharp)))) => {
            same(Some(&c), &Some((*v, alpha.unwrap_or(*a), *sharp)), &text);
            assert_eq!(left, rest, "what is left of {text:?}");
        }
        (Err(_), Some(None)) | (_, None) => {}
        (g, w) => panic!("{text:?} gives {g:?}, should be {w:?}"),
    }
}
fn any_text<S: Src>(s: &mut S) -> String {
    const BITS: [&str; 36] = [
        "#", "(", ")", ",", "rgb", "rgba", "hsl", "hsla", "RGB(", "rgb(", "hsl(", "a", "f", "0", "9", "12", "255", "256", "-", ".", "%", " ", "é", "漢", "\u{301}", "İ", "K", "nan", "inf", "1e40", "auto", "transparent", "red", "$", ";", "𝔸",
    ];
    (0..s.below(9)).map(|_| BITS[s.below(36)]).collect()
}
/// Any text at all is read or rejected.
pub fn c25_any<S: Src>(s: &mut S) {
    let mut t = if s.bool() { any_text(s) } else { written(s).0 };
    if s.bool() {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..s.below(3) {
            let (i, j) = (s.below(c.len() + 1), s.below(c.len() + 1));
            match s.below(3) {
                0 => c.insert(i, ['(', ')', ',', 'é', '#', '%', '漢'][s.below(7)]),
                1 if i < c.len() => {
                    c.remove(i);
                }
                2 if i < c.len() && j < c.len() => c.swap(i, j),
                _ => {}
            }
        }
        t = c.into_iter().collect();
    }
    s.note(&|| format!("{t:?}"));
    let got = RgbaColor::parse(&t);
    let _ = parse_color(&t);
    let look = Color::parse(&t);
    let _ = rich::Style::parse(&t);
    let _ = rich::ParsedMarkup::parse(&format!("[{t}]x"));
    let w = t.trim();
    if let Some(h) = w.strip_prefix('#') {
        let ok = h.chars().all(|c| c.is_ascii_hexdigit());
        let n = h.chars().count();
        assert_eq!(got.is_ok(), ok && [3, 4, 6, 8].contains(&n), "{t:?} gives {got:?}");
        assert_eq!(look.is_ok(), ok && [3, 6].contains(&n), "{t:?} gives {look:?}");
    } else if w.is_empty() {
        assert!(got.is_err() && look.is_err(), "an empty text is no colour");
    } else if let Ok(c) = &got {
        let l = w.to_lowercase();
        assert_eq!(c.auto, l == "auto", "{t:?} gives {c:?}");
        assert!(c.ansi.is_none() && c.theme_var.is_none(), "{t:?} gives {c:?}");
        if l == "transparent" {
            assert_eq!(c.a, 0.0, "{t:?} gives {c:?}");
        }
    }
}
/// The colours of markup.
pub fn c25_rich<S: Src>(s: &mut S) {
    let all = names();
    let (t, want): (String, Option<(u8, u8, u8)>) = match s.below(4) {
        0 | 1 => {
            let n = [3, 6, s.below(9)][s.below(3)];
            let (t, v) = hex_text(s, n);
            s.assume(t.trim_end() == t);
            let want = match (v, n) {
                (Some(v), 3) => Some((v[0] * 17, v[1] * 17, v[2] * 17)),
                (Some(v), 6) => Some((v[0] * 16 + v[1], v[2] * 16 + v[3], v[4] * 16 + v[5])),
                _ => None,
            };
            (format!("#{t}"), want)
        }
        2 => {
            let c = [channel(s), channel(s), channel(s), channel(s)];
            let n = [3, 3, s.below(5)][s.below(3)];
            let t = c.iter().take(n).map(|x| format!("{}{}{}", blanks(s), x.0, blanks(s))).collect::<Vec<_>>().join(",");
            let want = match (n, c[0].1, c[1].1, c[2].1) {
                (3, Some(r), Some(g), Some(b)) => Some((r, g, b)),
                _ => None,
            };
            (format!("rgb({t})"), want)
        }
        _ => {
            let (n, c) = all[s.below(all.len())];
            (letters(s, n), Some(c))
        }
    };
    let around = format!("{}{t}{}", blanks(s), blanks(s));
    s.note(&|| format!("{around:?}"));
    let got = Color::parse(&around).ok();
    if !t.starts_with('#') && !t.contains('(') && got.is_none() {
        return; // not every name of CSS is one of markup
    }
    assert_eq!(got.as_ref().map(|c| c.to_rgb()), want, "{around:?} gives {got:?}");
    if let (Some(c), Color::Named(n)) = (want, got.clone().unwrap_or(Color::Rgb(0, 0, 0))) {
        assert_eq!((n.clone(), c), (t.to_lowercase(), all.iter().find(|x| x.0 == n).map(|x| x.1).unwrap()));
    }
    // and the same on a tag
    if !around.trim().contains(char::is_whitespace) && want.is_some() {
        let m = rich::ParsedMarkup::parse(&format!("[{}]x[/]", t)).expect("a tag with a colour");
        let fg = m.spans().first().and_then(|p| p.style.fg.clone()).map(|c| c.to_rgb());
        assert_eq!(fg, want, "[{t}]x");
    }
}
