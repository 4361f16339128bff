"""What decides each property. verus: spec templates (specs/), kani: contract functions of contracts/ run on symbolic
inputs (complete unless listed in kani_bounded), native: the executable contracts, always run."""
CHECKS = {
 'C01': dict(kani=['c01_intersection', 'c01_contains'],
    technique='Kani: loop-free contracts of the region operations proved on the real code for all 32-bit inputs',
    note='Complete over all regions whose far edges are representable coordinates (assumed), all probe points. CBMC bit-precise machine arithmetic; Kani/CBMC trusted.'),
 'C02': dict(verus=['C02_canvas.rs'],
    technique='Verus: exact postconditions (every cell, inside and outside the clip) and loop invariants on the extracted drawing functions, for all sizes, coordinates, texts and clip stacks',
    note='Canvas::new, clear, push/pop/current_clip, put_char, put_str, put_grapheme, render_strip and render_strips under contract. Segmentation into graphemes and display widths come from unicode crates and are uninterpreted (width 1 or 2); colour mixing is uninterpreted here (C14) and searched.',
    assumptions=['graphemes()/display_width are uninterpreted, a grapheme is 1 or 2 cells wide (true of unicode_display_width)', 'the resolved colour is an uninterpreted function of the colour and what is below it (searched)', 'iterator adapters and Option adapters are rewritten to loops/matches with the same body', 'far edges of clip regions are representable']),
 'C03': dict(verus=['C03_flush.rs'],
    technique='Verus: the whole emission verified against a specification of a terminal; invariant carried from flush to flush, so all histories of frames',
    note='blank_split_graphemes, emit_cell, flush_full, flush_diff and flush under contract: writes become operations of a ghost terminal (cursor, style, positions, two-cell graphemes). The bytes themselves are checked by an executable contract with a terminal emulator on random frame histories.',
    assumptions=['a terminal has automatic margins, as many columns as the canvas, and uses the display width the canvas computed', 'writes succeed; execute!/write! emit the sequence they are named after (searched on the bytes)', 'derived equality of Cell compares all its fields', 'cells hold RGB colours or none (C02)', 'the style of a two-cell grapheme is that of its left half']),
 'C04': dict(verus=['C04_strip.rs'],
    technique='Verus: exact cell-by-cell postconditions and loop invariants on the extracted segment and strip functions, for all lines, cuts and widths',
    note='Segment::new/styled/blank/split_at/split_cells and Strip::new/from_*/blank/crop/divide/join/adjust_cell_length/text_align/justify/simplify, build_segment under contract (justify: every gap of the text gets its share of the missing cells, the last ones one more, and the shares add up). SmallVec is read as Vec, HashMap metadata and styles are opaque. apply_style and the metadata are searched natively.',
    assumptions=['unicode crates: a text is the concatenation of its graphemes, each 1 or 2 cells wide, widths add up, both sides of a cut at a grapheme boundary have the graphemes they had, a blank at such a boundary is a grapheme of its own', 'derived Clone/PartialEq are faithful', 'total widths fit usize', 'justify is proved on characters (that a widened blank stays a grapheme of its own is searched)', 'from_iter is searched, not proved']),
 'C05': dict(verus=['C05_fraction.rs'],
    technique='Verus: pre/postconditions and loop invariant on the extracted fraction functions, all inputs',
    note='All arithmetic functions of the fraction type under contract incl. the gcd loop (universal property of gcd). Preconditions: intermediate products fit 64 bits. Assumed: i64::abs.'),
 'C06': dict(verus=['C06_tracks.rs'],
    technique='Verus: contracts, loop invariants and the cumulative-rounding lemma on the extracted track distribution (with the fraction code it calls)',
    note='distribute_space, resolve_tracks and resolve_tracks_with_content under contract, down to the gcd loop of the fractions. Iterator chains are rewritten to index loops by the extraction (listed in the evidence). Assumed: the two f64 conversions (weight in thousandths, size asked for by a fixed/percentage track) return values in stated ranges; sizes below 2^20 cells, at most 256 tracks, weights adding up to at most 262.',
    assumptions=['f64 conversions scale_fr and resolve_scalar are uninterpreted functions with bounded results', 'iterator adapters (map/collect/enumerate/filter/count/sum) are rewritten to loops with the same body']),
 'C07': dict(verus=['C07_grid.rs'],
    technique='Verus: contracts and loop invariants on the extracted placement functions, including arrange itself',
    note='OccupancyGrid, compute_cell_assignments, child_region, column/row counts and GridLayout::arrange under contract; disjointness and reading order follow as theorems. Assumed: contracts of the track resolution (proved under C06) and of the size resolver (C09), f64 margins as bounded integers.',
    assumptions=['style fields not read by the placement are dropped from the extracted types', 'margins and gutters below 2^24 / 2^16 cells', 'iterator expressions of child_region are rewritten to equivalent helpers']),
 'C08': dict(verus=['C08_vertical.rs', 'C08_horizontal.rs'],
    technique='Verus: exact postconditions (every placement of every child) and loop invariants on the two extracted arrange functions; order, distance and exact filling follow as theorems',
    note='VerticalLayout::arrange, its width and rounding helpers, and HorizontalLayout::arrange with the remainder and fraction code under contract, for all child lists. An executable contract compares the real f64 code with an exact rational computation.',
    assumptions=['floating point is read as real arithmetic (the real f64 code is searched natively); the exact-zero rest, where a fraction falls back to one row, is excluded from the search', 'Fraction arithmetic is exact (C05)', 'coordinates, margins and sizes below 2^27 cells', 'box-sizing helpers and intrinsic heights are arbitrary functions of their arguments (C09)', 'iterator chains are rewritten to the equivalent loops']),
 'C09': dict(verus=['C09_sizes.rs'], kani=['c09_fixed_units', 'c09_chrome', 'c09_percent_exact'],
    technique='Verus: contract of every function of the size resolver (floats read as reals); Kani: the same on the real code in machine arithmetic',
    note='All thirteen functions of the size resolver under contract for all styles, sizes and percentages. Machine arithmetic: complete with Kani for cells, automatic, fractional and absent sizes, for border/padding/box-sizing, and for 0/25/50/100 % of every 32-bit size; f64 rounding of other percentages is a seeded search.',
    assumptions=['f64 arithmetic is read as real arithmetic in the Verus proof (casts saturate and truncate as in Rust)', 'f64 rounding of percentages other than 0, 25, 50 and 100 is searched, not proved', 'padding below 2^27 cells, boxes representable in 32 bits', 'style fields the functions do not read are dropped']),
 'C10': dict(kani=['c10_step', 'c10_percent'],
    technique='Kani: inductive invariant and exact postcondition of every scroll operation, all 32-bit states and arguments',
    note='The induction step is proved for every state satisfying the invariant, every operation and argument (floats included), so histories of any length are covered.'),
 'C11': dict(verus=['C11_bar.rs'], kani=['c11_thumb_small'], kani_bounded={'c11_thumb_small': 'track <= 255 cells, content <= 1023, integer positions, machine f32'},
    technique='Verus: contracts on thumb_bounds and both bar painters (every cell of the exact picture) with lemmas on the thumb; bounded Kani and native search for the f32 rounding',
    note='thumb_bounds, render_vertical and render_horizontal under contract for all tracks, contents, windows, positions and thicknesses: every cell is the track, the thumb or an eighth of its ends exactly as the thumb bounds say. Lemmas: the thumb is never empty, stays within the track, touches both ends exactly at both extremes and never moves backwards. Floats are read as reals in that proof; what f32 rounding does is bounded (Kani) and searched.',
    assumptions=['f32 arithmetic is read as real arithmetic in the Verus proof; machine rounding is decided only within the Kani bound and searched natively beyond it', 'put_char has the contract proved in C02', 'tracks shorter than 2^24 cells', 'a bar whose content is exactly the track is drawn without thumb and excluded', 'div_euclid/rem_euclid and slices of glyph tables are rewritten to helpers with the same definition']),
 'C12': dict(verus=['C12_match.rs', 'C12_flatten.rs', 'C12_resolve.rs'],
    technique='Verus: contracts and loop invariants on the extracted matching functions against a recursive definition of assignability',
    note='matches_selector, matches_compound and matches_complex under contract for all selectors, widgets and paths of any depth; combine_selectors, flatten_rule and flatten_stylesheet give exactly the rules written out, for nesting of any depth and lists of any length. resolve_dirty_styles and resolve_styles compute exactly the marked widgets and all widgets in those from their own path, and a lemma shows that every shown widget then has its proper style. Parsing is covered by the executable contract only (bounded search).',
    assumptions=['equality of strings is equality of their characters (axiom_str_ext, str_is, id_is)', 'the bitflags containment test is written out', 'SelectorContext::from_theme and parse_stylesheet are searched, not proved', 'inheritance, inline styles and the cascade are uninterpreted functions in the walk (cascade: C13)', 'a widget keeps the contract of the Widget trait; for_each_child (a closure) is rewritten to a loop over the children', 'hidden subtrees keep their styles (the code skips them)', 'a clone of a selector, rule or declaration is equal to it']),
 'C13': dict(verus=['C13_cascade.rs', 'C13_apply.rs'],
    technique='Verus: contract of compute_style (exactly the matching rules, in strictly increasing priority), of both specificity functions and of every kind of declaration; the winner is a theorem over them',
    note='compute_style, both specificity functions, the matching functions, apply_declaration (all 89 kinds: the named properties get the declared value, every other property keeps its own) and Border::all under contract for all stylesheets. Theorem: every property has the value of the last declaration in (specificity, source order) that names it, or its initial one.',
    assumptions=['slice::sort_by returns a sorted permutation', 'derive(Ord) on Specificity compares ids, classes, types in this order (searched)', 'what a colour or text style means under a theme, and merging of the additive text styles, are uninterpreted (searched)', 'derived Clone is faithful', 'fewer than 2^32 simple selectors per complex selector']),
 'C14': dict(kani=['c14_blend', 'c14_blend_amount', 'c14_tint', 'c14_toward', 'c14_opacity', 'c14_contrast'],
    technique='Kani: contracts of every mixing function proved for all channels, factors and opacities (bit-precise f32)',
    note='Loop-free real code, all u8 channels, all f32/f64 factors; colours are literal (no theme variable), opacities in [0,1].'),
 'C15': dict(verus=['C15_markup.rs', 'C15_tags.rs', 'C15_content.rs', 'C15_look.rs'],
    technique='Verus: the lexer and the tag-stack parser under exact contracts against a recursive definition of the markup language; styling, nesting and escape round trip as theorems over those contracts',
    note='Lexer (new, remaining, peek, advance, consume_text, consume_tag, consume_escape, next), Parser (all functions), parse, style_at, SegmentIterator::next and the four escape_markup copies are proved for every text; every character ends up with the styles of exactly the tags open where it stands, the innermost on top. Content::from_markup, lines, lines_with_spans and render_line_with_spans show, for all texts and spans, exactly the lines of the text, every byte with the styles and entries of the spans over it. What a tag means (TagContent::parse, parse_link, parse_meta, Style::parse, parse_modifier, TextStyle::apply) and which names close one (entry_matches) are under contract against the table of modifiers and the grammar of links and actions. How a colour is written and the widgets that show text literally are searched.',
    assumptions=['the reading of a colour (Color::parse) is uninterpreted in the proof and searched against a table', 'merging styles and actions is uninterpreted, except that an empty one adds nothing (see C22)', 'str slicing, trim, find, to_lowercase, split, contains and String::push helpers have assumed contracts', 'the conversion of a style and the look of links are proved separately (C15_look.rs) over uninterpreted colour mixing (C14)', 'collect and for loops over iterators are rewritten to index loops', 'inputs shorter than 2^31 characters']),
 'C16': dict(verus=['C16_focus.rs'],
    technique='Verus: contracts over an algebraic tree of widgets on the extracted focus functions, containers and interactive widgets, with lemmas on order, numbering and cyclic moves',
    note='WidgetTree::{set_focus_index, update_focus, focus_next, focus_previous, focus_by_id, with_focused, focus_is_valid}, the recursive searches, and count_focusable/clear_focus/focus_nth/child_count/get_child_mut of the containers (those written by the delegation macro included) and interactive widgets under contract for all trees and focus states. Lemmas: the n-th place can take focus, places are numbered in document order, every widget that can take focus has a number, n moves visit each once, back undoes forward.',
    assumptions=['child widgets keep the contract of the Widget trait (behavioural subtyping: proved for each container against its children and for the leaves listed)', 'a widget that can take focus has no parts that can (the command palette is compound)', 'fewer than usize::MAX widgets; Center and Middle have exactly one child (their constructors assert it)', 'the closure of dispatch_key is searched natively', 'a focused widget reports it through is_focused (proved for Switch, Button, Input, OptionList)', 'shared references in iterators and boxes of children are rewritten to values']),
 'C17': dict(verus=['C17_options.rs'],
    technique='Verus: data-structure invariant and exact postconditions on every state-changing function of the option list',
    note='next_enabled_from, normalize_selected, move_selection, set_selected, set_items, set_items_with_state, set_markup, new, refresh_display, index_for_row, on_event and on_mouse establish or preserve the invariant, including that the child widgets show every option with the highlighted class on exactly the highlighted one, so histories of any length are covered. Lists of at most 2^31-1 options.',
    assumptions=['the inner container shows the children it was given and handling of a mouse event there leaves the list alone (searched)', 'Static shows text and classes as set (searched)', 'three iterator expressions are trusted helpers']),
 'C18': dict(verus=['C18_input.rs'],
    technique='Verus: data-structure invariant and exact postconditions on every state-changing function of the text input',
    note='insert_char, backspace, delete, set_value, set_cursor, clear and on_event preserve 0 <= cursor <= number of user-perceived characters and change the value by exactly one insertion or removal, for histories of any length.',
    assumptions=['segmentation into user-perceived characters is uninterpreted, except that whether a boundary precedes a character depends only on the text before it and that character (UAX 29)', 'String insert, replace_range and the grapheme iterators have assumed contracts', 'take_while/count and Option adapters are rewritten to helpers', 'refresh_display does not change value or cursor (searched)']),
 'C19': dict(verus=['C19_keylines.rs'],
    technique='Verus: exact postcondition (arm by arm, every cell) and loop invariants on the extracted drawing functions; the glyph table is enumerated completely against the Unicode names',
    note='combine_quads, KeylineCanvas::new/get/set/add_widget_box/add_grid/add_grid_with_occupancy/render under contract for all areas, positions and occupancies. The glyph table (a HashMap behind a LazyLock, outside Verus) is compared with the Unicode names for all 4^4 quads on every run.',
    assumptions=['positions strictly increasing and below usize::MAX, far edges of boxes representable', 'vec![x; n] has n elements x', 'iterator/Option adapters and min/max are rewritten to helpers', 'put_char has the contract proved in C02']),
 'C20': dict(verus=['C20_wrap.rs', 'C15_content.rs'],
    technique='Verus: contracts, ghost layouts and loop invariants on the extracted wrapping functions, with a lemma that nothing visible is lost',
    note='break_word, wrap_line, wrap_line_with_spans, split_strip_by_width, truncate_with_ellipsis and wrap_with_line_end_overflow under contract for all texts, spans and widths from 2 cells on. Lemmas: the pieces laid one behind the other are the visible characters of the line.',
    assumptions=['cell widths are uninterpreted: joining texts does not make them wider, a user-perceived character takes one or two cells', 'split_whitespace, find, split and the grapheme iterators have assumed contracts', 'render_line_with_spans enters with the contract proved for it in C15_content (spans at character boundaries: C15)', 'Strip::crop at character boundaries gives the characters between (C04)', 'tags stand between user-perceived characters, not within one', 'iterator chains, closures and continue are rewritten to the equivalent loops', 'widths and texts below usize::MAX / 4']),
 'C21': dict(verus=['C21_dock.rs'],
    technique='Verus: contracts and loop invariants on the extracted dispatchers, docking, alignment, offset, absolute placement and layer grouping',
    note='Complete contracts, composed from the functions up to arrange_children_with_layers. The three layouts are any functions of their arguments here (their own contracts: C06, C07, C08); HashMap is an assumed contract.',
    assumptions=['floating point is read as real arithmetic (offset and size percentages); the real f64 code is searched natively', 'coordinates, margins, offsets and sizes below 2^27 cells', 'std HashMap keyed by layer name has an assumed contract; names enter only through equality', 'partition/map/collect/any iterator chains are rewritten to the equivalent loops', 'size resolver and intrinsic heights are arbitrary functions (C05, C09)']),
 'C22': dict(verus=['C22_style.rs'], kani=['c22_segment_style', 'c22_segment_empty', 'c22_segment_assoc', 'c22_rich_style', 'c22_rich_empty', 'c22_rich_assoc'],
    technique='Verus: exact contracts of style layering, for colours of every kind, with associativity and grouping as theorems; Kani: the same contracts on the compiled code',
    note='apply, is_empty and the constructors of both style types, Segment::{apply_style, set_style} and Strip::apply_style under contract with colours, texts and actions arbitrary; Kani decides the layering functions again bit-precisely for literal RGB colours.',
    assumptions=['clone of a colour, a text or an action table is faithful', 'iter().map().collect() of Strip::apply_style is rewritten to an index loop', 'Strip::from_segments keeps the segments (proved for C04)']),
 'C24': dict(verus=['C24_pump.rs', 'C24_send.rs', 'C24_bubble.rs'],
    technique='Verus: an invariant over the real event loop (handled == taken from the channel plus produced by keys and clicks; screen == tree at every wait) and exact contracts of the sending side and of bubbling; the real loop searched in a pseudo-terminal',
    note='App::event_loop_async and drain_command_palette, AppContext/EventContext/MountContext::{post, set_timer, set_interval, sender}, IntervalHandle, MessageEnvelope and WidgetTree::bubble_message under contract; the native search runs real applications in a pseudo-terminal and reads log and screen.',
    assumptions=['tokio: an unbounded channel hands on every message once, in the order it was put in; a spawned task is the code it runs; select! takes any branch that is ready', 'the operations of the tree, the palette, the tooltip and the terminal are opaque: what they do to the picture is arbitrary, except that a query which finds nothing (or reports no change) changes nothing and that losing focus when nothing can take it shows no difference', 'Canvas::flush puts what was drawn on the screen (proved for C03)', 'handlers do not take the tree apart while a message is on its way up', 'cursor blinking and other changes without an event are not in the claim']),
 'C25': dict(verus=['C25_colour.rs', 'C25_hue.rs', 'C25_rich.rs'],
    technique='Verus: exact contracts of every function that reads a colour, on byte-accurate slices; the hue formula against that of CSS over the reals; the tables of names searched natively',
    note='RgbaColor::{parse, parse_hex, parse_hex_digit, parse_hex_pair, parse_rgb_func, parse_hsl_func, parse_u8, parse_f32, parse_percentage, rgb, rgba, auto, theme_variable}, find_color_end, parse_optional_alpha, parse_color and rich Color::{parse, parse_hex, parse_hex_digit, parse_hex_pair, parse_rgb_func, parse_named} under contract for all texts; hsl_to_rgb and hue_to_rgb give exactly the colour circle of CSS; every slice is shown to lie on character boundaries in order.',
    assumptions=['str::{trim, to_lowercase, find, split, parse} have assumed contracts (numbers, trimming and lower case are uninterpreted)', 'the tables of names (parse_named, is_known_color, to_rgb) are opaque in the proofs; the native search compares every name with a table of its own', 'floating point is read as real arithmetic in the hue formula (the f32 code is searched, hues in whole degrees); the float quotients v/255 and v/100 are uninterpreted', 'texts below 2^31 characters in find_color_end (its depth counter is an i32)', 'nom\'s IResult is read as a plain Result']),
 'C26': dict(verus=['C26_frame.rs'],
    technique='Verus: the exact cells of every line of a box, function by function, for all widths, labels and contents; glyph tables, colours and text widgets searched natively against an oracle of their own',
    note='RenderCache::{new, border_*, padding_*, has_border, inner_size, render_content_row, render_horizontal_border_row, render_partial_middle_row, render_labeled_middle_row, apply_outline, render_line}, render_row, render_label_in_row, repeat_segment, repeat_char_segment, render_container_chrome, inner_region_for_container, inner_region_from_cache and Region::new under contract: every cell of every line, hence also exactly the width.',
    assumptions=['Strip::{crop, adjust_cell_length, blank, from_segments, from_segment} and Segment::{styled, new, blank} have the contracts proved for C04 (restated)', 'the pieces of a border are one cell each (get_box, generate_box, build_border_box_per_edge and join_edges are opaque in the proofs; the native search compares glyph, colour and background of every cell for every kind)', 'effective_background and pad_style are opaque', 'widths, paddings and labels below 2^32 cells (2^28 for regions)', 'Static::render and align_content are searched natively, not under contract']),
 'C27': dict(verus=['C27_fuzzy.rs'],
    technique='Verus: completeness and soundness of the search for any query and candidate (no placement of the first n characters ends earlier than the greedy one), and the exact markup of a highlighted candidate',
    note='FuzzySearch::match_candidate with its nested collect_offsets, Matcher::{highlight, match_score}, escape_markup and push_escaped_char under contract; the native search reads the highlighted text back with the real markup parser.',
    assumptions=['scores are opaque except for their sign: the score of at least one position is positive, a factor of 1.5 or 2 and a larger score stay positive (floats)', 'lower_chars lower-cases each character by itself, str::find finds the query in one piece exactly when it is there, byte_to_char_index counts the characters before a byte', 'str::chars().collect() and for loops over it are rewritten to index loops over the same characters; the HashSet of positions to a list', 'texts shorter than 2^63 characters']),
}
for k, v in CHECKS.items():
    v.setdefault('verus', []); v.setdefault('kani', []); v.setdefault('kani_bounded', {}); v.setdefault('level', 'proof')
    v.setdefault('assumptions', [])
NOT_APPLICABLE = {
 'C23': 'Totality of the nom-based grammars over all UTF-8 strings: the code is built from parser-combinator closures and &str slicing that Verus does not accept, and Kani only reaches strings of a few bytes; no contract within reach decides it.',
}
