#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that statements are easy to diff)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
T='crates/textual/src/'
C='crates/tcss/src/'
R='crates/rich/src/'
prop('C01','Region intersection and containment are exact set operations',
 'Intersecting two screen regions yields exactly the cells that lie in both of them, and the containment and emptiness tests agree with that same set of cells. This holds for every position and size, including negative origins, off-screen and empty regions, and no combination of in-range regions panics or wraps around.',
 ['inputs'],'all pairs of regions with 32-bit coordinates and all probe points','Unit tests check a handful of overlapping rectangles; the defects live at negative origins, touching edges and coordinates near the integer limits.',
 [T+'canvas.rs'],[('Region::intersection / contains_point / is_empty / new',T+'canvas.rs')],['Region public methods'])
prop('C02','Drawing only changes cells inside the screen and every active clip',
 'Whatever is drawn on a canvas (characters, strings, wide graphemes, styled lines), at any coordinates and under any nesting of clip regions, the only cells that change are inside the screen and inside every active clip region, and no drawing call panics. Inside that area each grapheme lands in the cell(s) asked for: a two-cell grapheme owns a head cell and a continuation cell, or is not drawn at all. Removing a clip restores exactly the clip that was active before it was added.',
 ['inputs','histories'],'all canvas sizes, coordinates, texts and push/pop/draw histories','Tests draw a few short ASCII strings at friendly coordinates with at most one or two clips.',
 [T+'canvas.rs'],[('current_clip, push_clip, pop_clip',T+'canvas.rs'),('put_char, put_str, put_grapheme, render_strip, render_strips',T+'canvas.rs')],['canvas cell contents after each call'])
prop('C03','Each flush leaves the terminal showing exactly the drawn frame',
 'After every flush, full or differential, a terminal that obeys the emitted control sequences shows exactly the frame that was drawn: same graphemes, colours and text attributes in every cell (what remains of a partly overwritten two-cell grapheme counts as a blank in the style of that cell). This holds for every history of frames, whatever the previous frame contained.',
 ['histories'],'all sequences of frames drawn and flushed on one canvas, with wide graphemes, colours and attributes','Tests look at the emitted bytes of one or two frames; stale cells only appear for particular transitions between consecutive frames.',
 [T+'canvas.rs'],[('flush, flush_to/diff emission, attribute/colour tracking, previous-frame swap',T+'canvas.rs')],['bytes written by flush, interpreted by a terminal'])
prop('C04','Cutting, joining and padding styled lines conserve every cell',
 'Cropping, dividing, joining, padding, aligning and simplifying a styled line keep every remaining cell\'s text and style exactly as it was, in order, and the line\'s reported cell width always equals the display width of its text. Pieces of a division concatenate back to the original cells, a crop contains exactly the cells of the requested interval, and an adjustment to a requested width has exactly that width. A two-cell grapheme cut through the middle by a crop is replaced by a blank of the same style, so that widths stay exact; splitting a single segment keeps it whole on the left.',
 ['inputs','programs'],'all lines (any segments, styles, wide and zero-width graphemes) and all cut positions and widths','Tests use short ASCII lines and one wide character; errors need a cut inside a segment, at a boundary, past the end, or through a wide grapheme.',
 [T+'strip.rs',T+'segment.rs',T+'grapheme.rs'],[('Segment::split_at, split_cells, blank, new, styled',T+'segment.rs'),('Strip::crop, divide, join, adjust_cell_length, text_align',T+'strip.rs')],['segments and cell_length of the resulting strips'])
prop('C05','Fraction arithmetic used for layout is exact',
 'Sums, differences, products and ratios of layout fractions are mathematically exact and kept in lowest terms with a positive denominator. The integer part and fractional part of any fraction add back to it, with the fractional part in [0,1) also for negative values. Two fractions compare equal exactly when they are the same number.',
 ['inputs'],'all numerators and non-zero denominators whose exact result is representable','Tests check a dozen literal fractions; sign, normalisation and negative-floor errors show on inputs they do not sample.',
 [T+'fraction.rs'],[('Fraction::new/floor/fract/Add/Sub/Mul/mul_ratio, gcd',T+'fraction.rs')],['public arithmetic results'])
prop('C06','Grid tracks tile the available space exactly',
 'When a container\'s width or height is divided into grid columns or rows, every track is at least one cell, each track starts where the previous one ended plus the gutter, and tracks keep their order. Fixed and percentage tracks get exactly the size they ask for (in whole cells, at least one); when the space left over gives every fractional track at least one cell, the fractional tracks together take exactly what is left and each differs from its proportional share by less than one cell, whatever the weights. Automatic tracks (when there are no fractional ones) share what is left equally in the same way, and content-sized tracks get their content size whenever it fits.',
 ['inputs','configurations'],'all track specifications, counts, available sizes and gutters','Tests fix a few terminal widths; off-by-one cells depend on remainders of particular widths and weights.',
 [T+'layouts/grid.rs',T+'fraction.rs'],[('distribute_space, resolve_tracks, resolve_tracks_with_content',T+'layouts/grid.rs')],['regions returned by the grid layout'])
prop('C07','Grid children never share a cell and never leave the grid',
 'Children of a grid are assigned cells in reading order: each child takes the first position after the previous child\'s start where a block of its requested column and row span (clamped at the grid edge) is free. The block lies inside the grid and no grid cell is ever given to two children. The region handed to a child without its own size and margin is exactly the rectangle covered by the tracks it spans, including the gutters between them, and its margin moves and shrinks that rectangle. A child is left out only when there is no such position, and then all later ones too. The cell occupancy reported for drawing grid lines agrees with the placements.',
 ['inputs','configurations'],'all grid sizes, child counts and span combinations','Tests use small grids with one or two spanning children; overlaps need a particular order of row and column spans.',
 [T+'layouts/grid.rs'],[('OccupancyGrid::{find_next_free,can_fit,occupy}, GridLayout::arrange, compute_cell_assignments, child_region',T+'layouts/grid.rs')],['placements returned by the grid layout and its track information'])
prop('C08','Linear layouts place each child once, in order, without overlap',
 'Vertical and horizontal layouts return exactly one placement per child, in child order. Along the main axis the distance between consecutive children is exactly the larger of the two margins that meet, so children never overlap; a vertical stack keeps the exact running position and rounds it down to rows only when it places a child, so rounding never accumulates and no row is lost or counted twice. Children with fractional sizes share what the others and the margins leave of the row (of the screen height in a stack) in proportion to their weights so that together they fill it exactly, odd cells of a row going one each to the first of them. Every child respects its own maximum and minimum size, the minimum winning; in a stack a fractional, percentage or filling height is then reduced by the margins of the child itself.',
 ['inputs','configurations'],'all child lists with any mix of fixed, percentage, automatic and fractional sizes, margins and min/max limits','Tests lay out two or three children at one screen size; lost or duplicated cells depend on remainders and margins.',
 [T+'layouts/vertical.rs',T+'layouts/horizontal.rs',T+'layouts/mod.rs'],[('VerticalLayout::arrange, resolve_child_width, floor_to_cell',T+'layouts/vertical.rs'),('HorizontalLayout::arrange',T+'layouts/horizontal.rs')],['placements returned by the layouts'])
prop('C09','Box sizing resolves to the size the style asks for',
 'A box\'s width and height resolve to exactly what its style asks for: cells as given, percentages of the parent (and, for heights, of the parent width or of the viewport, by unit) rounded to the nearest cell, automatic sizes from the content, fractional and absent sizes filling the available space. Border and padding are added only under content-box sizing, each visible border edge counting one cell and each padding its own size.',
 ['inputs','configurations'],'all styles (unit, value, box-sizing, border, padding, limits) and parent sizes','Tests check single literal styles; the interaction of limits, chrome and units is a product space.',
 [T+'layouts/size_resolver.rs'],[('resolve_width*, resolve_height*, chrome helpers',T+'layouts/size_resolver.rs')],['resolved sizes'])
prop('C10','Scroll offsets stay inside the scrollable range',
 'After any sequence of scrolling, resizing the viewport and changing the content size, both scroll offsets lie between zero and the largest useful offset (content size minus viewport, or zero when the content fits). Scrolling to a position inside the range lands exactly there, relative scrolling moves by exactly the requested amount unless stopped at an end, and no amount or size causes a crash or wrap-around. The reported scroll percentage is 0 at the start, 1 at the end and always between them.',
 ['histories','inputs'],'all operation sequences with all 32-bit arguments','Tests apply two or three operations with small positive values; the bound breaks after a shrink, a negative amount or an extreme value.',
 [T+'scroll.rs'],[('ScrollState setters and scroll_* operations',T+'scroll.rs')],['offset_x/offset_y/max scroll'])
prop('C11','The scrollbar thumb reflects the visible window',
 'A scrollbar paints every cell of its region and nothing else, and for any window smaller than the content and any position in range the thumb lies entirely inside the track. The thumb touches the start of the track when scrolled to the start and reaches the end when scrolled to the end, is never empty and has the length and place of the visible part to within one step, and never moves backwards as the position increases; when the content fits there is no thumb to grab. (Content exactly as long as the track is excluded.)',
 ['inputs'],'all track lengths, content sizes, window sizes and positions','Tests render a few fixed proportions; rounding at the ends depends on the exact ratio.',
 [T+'scrollbar.rs'],[('render_vertical, render_horizontal',T+'scrollbar.rs')],['rendered strips'])
prop('C12','A selector matches exactly when CSS says it does',
 'A complex selector matches a widget exactly when its right-most part matches the widget and the remaining parts can be assigned to ancestors in order, a child combinator requiring the direct parent and a descendant combinator any ancestor (sibling combinators never match). The answer considers every possible choice of ancestors and depends only on types, ids, classes, widget states and the theme. A nested rule matches like its selector written out in full, and resolving the styles of a tree gives each widget the rules that match its own path.',
 ['inputs','programs'],'all selectors and all widget paths of any depth','Tests use chains of two or three selectors on shallow trees, where a greedy choice of ancestor cannot go wrong.',
 [C+'parser/cascade.rs',C+'parser/selectors.rs',C+'parser/flatten.rs',T+'style_resolver.rs'],[('matches_selector, matches_compound, matches_complex',C+'parser/cascade.rs'),('combine_selectors',C+'parser/flatten.rs'),('resolve_dirty_styles',T+'style_resolver.rs')],['computed styles'])
prop('C13','The winning declaration is the most specific, then the latest',
 'For every widget and every style property, the value applied is the one declared by the matching rule whose selector is most specific (ids, then classes and states, then types), and among equals the one that comes last in the source. A rule with several selectors counts with the most specific one that matches, rules that do not match have no influence, and a declaration changes only the property it names; a variable stands for the colour the theme gives it. (The additive text-style properties are excluded.)',
 ['inputs','programs','configurations'],'all stylesheets and widgets','Tests pit two rules against each other; ordering errors need several rules, selector lists or ties.',
 [C+'parser/cascade.rs',C+'parser/stylesheet.rs'],[('compute_style, apply_declaration',C+'parser/cascade.rs'),('CompoundSelector::specificity, ComplexSelector::specificity',C+'parser/stylesheet.rs')],['computed style values'])
prop('C14','Colour mixing stays between its inputs and is exact at the ends',
 'Mixing, tinting or compositing two colours gives, in every channel, a value between the two inputs; with factor zero or one (or a fully transparent or opaque overlay) the result is exactly the corresponding input colour, and mixing a colour with itself changes nothing. Opacity is only changed by operations documented to change it, and inversion applied twice is the identity.',
 ['inputs'],'all colour pairs and factors','Tests check a few literal colours at 0, 0.5 and 1.',
 [C+'types/color.rs'],[('RgbaColor::{blend,tint,blend_over,blend_toward,inverse,with_opacity}',C+'types/color.rs')],['resulting channels'])
prop('C15','Markup parsing conserves text and nests styles properly',
 'Parsing markup yields exactly the text outside tags (with escapes decoded), and every style or action applies exactly to the text between its opening tag and the tag that closes it, all ranges lying on character boundaries inside the text. [/] closes the most recently opened tag, and [/name] the innermost open tag with that word together with everything opened inside it. Where styles nest, the innermost one wins, and iterating over the styled pieces reproduces the whole text. Escaping any text and parsing it gives that text back with no styling.',
 ['inputs','programs'],'all markup strings and tag nestings','Tests parse short examples with one or two levels of nesting.',
 [R+'parser/markup.rs',R+'parser/lexer.rs',R+'markup.rs',T+'content.rs'],[('Parser stack handling',R+'parser/markup.rs'),('Lexer',R+'parser/lexer.rs'),('SegmentIterator, style_at',R+'markup.rs')],['parsed text, spans and segments'])
prop('C16','Focus moves through every focusable widget in order and wraps',
 'Moving focus forward (or backward) as often as there are widgets that can take focus visits each of them exactly once, in document order with wrap-around, and going forward then backward returns to the same widget. After every focus move, also after widgets have been disabled, hidden (or something around them), or shown again, exactly one widget is focused, it can take focus (it is enabled and neither it nor anything around it is hidden), and keys are delivered to exactly that widget. Focusing by id focuses the first widget in document order that can take focus and has the id.',
 ['histories','programs'],'all widget trees and sequences of focus moves and tree changes','Tests use fixed trees of two or three buttons with no changes in between.',
 [T+'tree.rs',T+'widget.rs'],[('focus_next/focus_previous/update_focus/set_focus_index',T+'tree.rs'),('count_focusable/focus_nth',T+'widget.rs')],['which widget reports focus and receives keys'])
prop('C17','An option list always highlights an enabled option',
 'After any sequence of key presses, clicks, selection requests and item changes, the highlighted index of an option list is inside the list and, whenever some option is enabled, refers to an enabled option, which is the one shown highlighted. Up and Down move to the nearest enabled option in that direction and stay put if there is none; other keys do not move it. Asking for a disabled option (or one past the end) highlights the nearest enabled one after it, else the nearest before it, and clicking selects exactly the option displayed on the clicked row if it is enabled.',
 ['histories'],'all item lists with disabled and multi-line options and all operation sequences','Tests use lists of three items with at most one disabled.',
 [T+'widget/option_list.rs'],[('normalize_selected, next_enabled_from, move_selection, set_selected, set_items, set_items_with_state, on_event, on_mouse, index_for_row',T+'widget/option_list.rs')],['selected index, pending selection and highlighted child'])
prop('C18','Text editing keeps the cursor on a character boundary of the value',
 'After any sequence of typing, deleting, moving and programmatic changes, the input cursor is between zero and the number of user-perceived characters of the value. Typing inserts exactly the typed character at the cursor and leaves the cursor right behind the user-perceived character that then holds it; backspace and delete remove exactly the one user-perceived character before or after the cursor; setting the value or the cursor keeps the cursor within the value; disabled or hidden inputs do not react to keys; and nothing else of the value changes.',
 ['histories','inputs'],'all editing sequences over all characters, including combining and wide ones','Tests type ASCII and a single emoji.',
 [T+'widget/input.rs',T+'grapheme.rs'],[('insert_char, backspace, delete, set_value, set_cursor',T+'widget/input.rs')],['value and cursor'])
prop('C19','Keylines join up and use the glyph with exactly the right arms',
 'Every box-drawing glyph chosen for a cell has exactly the arms (direction and weight) that were requested for it, every combination of arms of one weight that Unicode can draw has a glyph, and combining lines in a cell keeps the heavier of each arm. Adding a box of at least two by two cells draws exactly its outline; adding a grid draws exactly the lines at the given increasing positions; adding a grid with occupied cells draws exactly its outer border and the lines between neighbouring cells with different occupants. All of it is clipped to the drawing area, keeps what was drawn before, and rendering shows each cell with the glyph for its arms at the right place and nothing else.',
 ['inputs'],'all arm combinations, box positions and sizes, grids and occupancies, including partly or fully outside the area','Tests check a few glyphs and one or two boxes.',
 [T+'box_drawing.rs',T+'keyline_canvas.rs'],[('get_box_char, combine_quads',T+'box_drawing.rs'),('KeylineCanvas::set/add_widget_box/add_grid/add_grid_with_occupancy/render',T+'keyline_canvas.rs')],['glyph per cell'])
prop('C20','Wrapped text fits the width and loses no words',
 'Wrapping text to a width of at least two cells yields lines none of which is wider than that width, for plain and for marked-up text alike. Reading the wrapped lines in order gives back every non-blank character of the text in order with its style, breaking inside a word only when the word alone is wider than the line, and every original line contributes at least one wrapped line, the last of them marked as its end. Without wrapping no line is wider than the width either: it is clipped, ended by an ellipsis, or folded, and folding loses no character.',
 ['inputs'],'all texts, styles and widths','Tests wrap two or three words at one width.',
 [T+'content.rs'],[('wrap_with_line_end_overflow, wrap_line, wrap_line_with_spans, break_word, split_strip_by_width, truncate_with_ellipsis',T+'content.rs')],['wrapped strips'])
prop('C21','Docks, alignment, offsets and layers place children exactly where they ask',
 'Each docked child lies against its edge of the parent, spanning the parent along that edge and as thick as the child asks; the other children are laid out in the space left, which is the parent minus, on each side, the thickest strip docked there, never negative. Aligning a group shifts all of it by one common amount (all of the free space around its margin boxes for right and bottom, half of it for the middle, nothing when there is no free space), never changing sizes or relative positions; a child\'s own offset moves that child only. Absolutely positioned children start at the origin of the space left, take the size their own style asks within its limits, and influence no other child. Every layer is arranged in the whole parent on its own, every child is placed once, layers the parent does not list come first (in order of appearance) and the listed ones follow in the parent\'s order.',
 ['inputs','configurations'],'all parents, child lists, docks, alignments, offsets, positions and layer lists','Tests dock one header and one footer in an 80x24 screen.',
 [T+'layouts/mod.rs'],[('arrange_docked_widgets, apply_alignment, apply_offset, resolve_absolute_placement, build_layers, arrange_children_with_viewport, arrange_children_with_layers',T+'layouts/mod.rs')],['placements returned by the dispatchers'])
prop('C22','Style layering is right-biased and loses no attribute',
 'Applying one text style on top of another takes each colour from the upper style when it sets one and from the lower style otherwise, and keeps every text attribute either of them sets. Applying an empty style changes nothing and layering is associative, so styles can be applied in any grouping.',
 ['inputs'],'all pairs and triples of styles','Tests combine two literal styles.',
 [T+'segment.rs',R+'style.rs'],[('Style::apply',T+'segment.rs'),('Style::apply',R+'style.rs')],['resulting style'])
prop('C23','Any stylesheet text parses or is rejected without crashing',
 'Parsing any text as a stylesheet, a colour, a style value or markup either succeeds or returns an error; it never panics, overflows the stack on flat input, or hangs.',
 ['inputs'],'all UTF-8 strings','Tests parse well-formed examples and a few malformed ones.',
 [C+'parser/mod.rs',C+'types/color.rs',R+'parser/lexer.rs'],[('nom grammar',C+'parser/mod.rs')],['no panic'])
prop('C24','Messages are handled once and in order, and the screen follows',
 'Every message posted to a running application (posted directly, sent through a cloned sender, by a one-shot timer, or by each tick of an interval until it is cancelled) is handed to the message handler exactly once, with the sender it was posted under, and messages of one sender in the order it posted them. A message the focused widget produces for a key first meets the widgets around it, from the innermost outwards until one of them stops it, each seeing what the one before left, and is then handed to the message handler exactly once with the widget as its sender; a message produced by a mouse event is handed to it directly, once. Whenever the application goes back to waiting for events the screen shows everything handled so far: it was redrawn after the last message, key, click or change of size that changed the widgets.',
 ['schedules','histories'],'all interleavings of senders, timers, intervals, keys, mouse events and changes of size','Tests do not run the event loop.',
 [T+'lib.rs',T+'context.rs',T+'message.rs',T+'tree.rs'],[('App::event_loop_async, drain_command_palette',T+'lib.rs'),('post, set_timer, set_interval, sender and IntervalHandle',T+'context.rs'),('MessageEnvelope',T+'message.rs'),('bubble_message',T+'tree.rs')],['calls of handle_message','the terminal'])
prop('C25','The text of a colour gives exactly the colour it writes',
 'For every text, reading it as a colour gives a colour or an error and never crashes. Styles (TCSS): #RGB, #RGBA, #RRGGBB and #RRGGBBAA in either letter case give exactly those channels (one digit d of a short form counts as dd, the alpha is its value over 255); a # with any other number of digits, or with a character that is no hexadecimal digit, is rejected. rgb(r, g, b) and rgba(r, g, b, a) give the three whole numbers from 0 to 255 and the alpha as written (1 without one); fewer than three, or a number out of range or not whole, is rejected. hsl(h, s%, l%) and hsla(h, s%, l%, a) give the colour with that hue (in degrees, whole turns make no difference), saturation and lightness, to within rounding. A name in any letter case gives the colour CSS gives it, auto and transparent the special colours; a name that is none is rejected. Blanks around the text and around the numbers do not matter. In a stylesheet the colour ends behind its closing parenthesis or before the first blank, semicolon or closing brace outside parentheses, a percentage behind it replaces its alpha and nothing else, and everything further on is left to be read. Markup colours (#RGB, #RRGGBB, rgb(r, g, b), names) follow the same rules.',
 ['inputs'],'all texts','Tests read a few dozen well-formed colours and four malformed ones, all in ASCII.',
 [C+'types/color.rs',C+'parser/values.rs',R+'color.rs'],[('RgbaColor::parse and its helpers',C+'types/color.rs'),('parse_color, find_color_end, parse_optional_alpha',C+'parser/values.rs'),('Color::parse and its helpers',R+'color.rs')],['RgbaColor::parse','tcss::parser::values::parse_color','rich::Color::parse, to_rgb'])
prop('C26','A frame encloses its content cell for cell',
 'A box W cells wide and H high that draws its own frame is H lines of exactly W cells. A visible top (bottom) border edge takes the whole first (last) line, a visible left (right) edge the first (last) column of the other lines; each is drawn with the glyphs of its own kind (the top and the bottom line bring their corners, which are there when both sides are) and in its own colour or else the text colour, whatever was drawn before. A key-line border of one direction has no edge in the other. Inside the sides stand the padding, blank in the box\'s background, and the content, cut off or filled up with blanks to exactly what remains; a line too narrow for that is cut off on the right. A title stands in the first line and a subtitle in the last: in the border, or between the sides when that border is missing; aligned as asked with border on both ends, whole when it fits, else cut short with an ellipsis, and left out where there is no room for that. (A label is set off by a blank on either side where the line has corners or sides.) An outline replaces the outermost cells of the finished line and nothing else. The region left for children, and for the lines of a text, is what remains of W and H inside edges and padding, never negative; a text leaves the line of a title that has no border of its own free, and its lines are placed there as the alignments ask.',
 ['inputs','histories'],'all border and outline kinds per edge, colours, paddings, labels, contents and sizes; any boxes drawn before','Tests render a handful of ten-cell boxes with the same border on all four edges.',
 [T+'render_cache.rs',T+'border_render.rs',T+'border_box.rs',T+'containers.rs',T+'widget/static_widget.rs'],[('RenderCache::{new, render_line, apply_outline, inner_size} and its rows',T+'render_cache.rs'),('render_row, render_label_in_row',T+'border_render.rs'),('get_box and its cache',T+'border_box.rs'),('render_container_chrome, inner_region_for_container',T+'containers.rs'),('Static::render, align_content',T+'widget/static_widget.rs')],['strips returned by render_line','the canvas after a widget is rendered'])
prop('C27','Fuzzy matching finds a query exactly when its characters appear in order, and highlighting marks just those',
 'For every query and candidate text, a candidate matches (its score is above zero) exactly when both are not empty and the characters of the query stand in the candidate in the same order, with anything in between; unless matching is case-sensitive, two characters count as the same when the first characters of their lower-case forms are the same. For a match the positions returned count characters of the candidate as it was given, one per character of the query, ascending, each holding that character; when the query stands in the candidate in one piece the positions are such a piece. Without a match there are no positions. The highlighted candidate is markup that reads back as exactly the candidate, with the match style (by default reverse; when one is set) on the matched characters that are not blank and on no others. (The time a search takes and the order of scores are not claimed.)',
 ['inputs'],'all queries, candidates, styles and both case modes','Tests match two pairs of ASCII texts.',
 [T+'fuzzy.rs'],[('FuzzySearch::match_candidate, collect_offsets',T+'fuzzy.rs'),('Matcher::highlight, match_score, escape_markup',T+'fuzzy.rs')],['score and positions of match_candidate','markup returned by highlight'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
