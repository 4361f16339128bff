//! Executable contracts over the real crates in /repo (path dependencies). Each contract is a function
//! generic in the source of its inputs; see `src`.
pub mod src;
use src::{Playback, Rng, Src};

pub struct Case {
    pub prop: &'static str,
    pub name: &'static str,
    /// 0: run for the time budget; otherwise a maximum number of evaluations.
    pub limit: u64,
    pub native: fn(&mut Rng),
    pub playback: fn(&mut Playback),
}

macro_rules! cases {
    ($($prop:literal $m:ident :: $f:ident;)*) => {
        pub static CASES: &[Case] = &[$(Case {
            prop: $prop,
            name: stringify!($f),
            limit: 0,
            native: $m::$f::<Rng>,
            playback: $m::$f::<Playback>,
        }),*];
    };
}

/// Kani proofs: the contract on symbolic inputs. The cover at the end guards against vacuity.
macro_rules! proofs {
    ($($m:ident :: $f:ident $(unwind $n:literal)? ;)*) => {
        #[cfg(kani)]
        mod proofs {
            $(
                #[kani::proof]
                $(#[kani::unwind($n)])?
                fn $f() {
                    crate::$m::$f(&mut crate::src::Sym);
                    kani::cover!(true, "end of contract reached");
                }
            )*
        }
    };
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
pub mod c24;
mod c25;
mod c26;
mod c27;

cases! {
    "C01" c01::c01_intersection;
    "C01" c01::c01_contains;
    "C02" c02::c02_history;
    "C02" c02::c02_large;
    "C03" c03::c03_history;
    "C04" c04::c04_split;
    "C04" c04::c04_cut;
    "C04" c04::c04_pad;
    "C04" c04::c04_simplify;
    "C05" c05::c05_new;
    "C05" c05::c05_floor;
    "C05" c05::c05_ops;
    "C05" c05::c05_large;
    "C05" c05::c05_shares;
    "C06" c07::c06_tracks;
    "C06" c07::c06_auto;
    "C06" c07::c06_content;
    "C07" c07::c07_blocks;
    "C07" c07::c07_disjoint;
    "C08" c08::c08_row;
    "C08" c08::c08_stack;
    "C09" c09::c09_fixed_units;
    "C09" c09::c09_percent;
    "C09" c09::c09_percent_exact;
    "C09" c09::c09_chrome;
    "C10" c10::c10_step;
    "C10" c10::c10_percent;
    "C10" c10::c10_history;
    "C11" c11::c11_thumb_bounds;
    "C11" c11::c11_thumb_small;
    "C11" c11::c11_painted;
    "C11" c11::c11_thumb_monotone;
    "C12" c12::c12_matching;
    "C12" c12::c12_chains;
    "C12" c12::c12_tree;
    "C12" c12::c12_nested;
    "C12" c12::c12_lists;
    "C13" c12::c13_cascade;
    "C13" c12::c13_ties;
    "C13" c12::c13_properties;
    "C13" c12::c13_long;
    "C13" c12::c13_columns;
    "C14" c14::c14_blend;
    "C14" c14::c14_blend_amount;
    "C14" c14::c14_tint;
    "C14" c14::c14_toward;
    "C14" c14::c14_opacity;
    "C14" c14::c14_contrast;
    "C15" c15::c15_parse;
    "C15" c15::c15_content;
    "C15" c15::c15_any;
    "C15" c15::c15_escape;
    "C15" c15::c15_shown;
    "C16" c16::c16_focus;
    "C17" c17::c17_history;
    "C17" c17::c17_rows;
    "C18" c18::c18_history;
    "C19" c19::c19_glyphs;
    "C19" c19::c19_combine;
    "C19" c19::c19_drawing;
    "C20" c20::c20_wrap;
    "C20" c20::c20_overflow;
    "C21" c21::c21_place;
    "C21" c21::c21_layers;
    "C22" c22::c22_segment_style;
    "C22" c22::c22_segment_assoc;
    "C22" c22::c22_segment_empty;
    "C22" c22::c22_rich_style;
    "C22" c22::c22_rich_assoc;
    "C22" c22::c22_rich_empty;
    "C22" c22::c22_wild;
    "C24" c24::c24_pump;
    "C24" c24::c24_bubble;
    "C25" c25::c25_written;
    "C25" c25::c25_any;
    "C25" c25::c25_rich;
    "C26" c26::c26_lines;
    "C26" c26::c26_region;
    "C26" c26::c26_text;
    "C27" c27::c27_match;
}
proofs! {
    c01::c01_intersection;
    c01::c01_contains;
    c09::c09_fixed_units;
    c09::c09_chrome;
    c09::c09_percent_exact;
    c10::c10_step;
    c10::c10_percent;
    c11::c11_thumb_small;
    c14::c14_blend;
    c14::c14_blend_amount;
    c14::c14_tint;
    c14::c14_toward;
    c14::c14_opacity;
    c14::c14_contrast;
    c22::c22_segment_style;
    c22::c22_segment_assoc;
    c22::c22_segment_empty;
    c22::c22_rich_style;
    c22::c22_rich_assoc;
    c22::c22_rich_empty;
}

#[allow(dead_code)]
fn _unused<S: Src>(_: S) {}
