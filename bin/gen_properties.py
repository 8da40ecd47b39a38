#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
IFC = "src/views/input_field_content.rs"; IF = "src/views/input_field.rs"
LV = "src/views/list_view.rs"; TV = "src/views/text_view.rs"; MV = "src/views/mad_view.rs"
ES = "src/events/event_source.rs"

prop("C01", "Input field edits change the text exactly as named",
 "Seen as one flat character sequence (lines joined by newlines), every editing operation of the input field changes exactly the characters it names and no other: typing inserts the character at the cursor and leaves the cursor just after it, newline splits the line, backspace and delete remove one character or join two lines, delete-word removes one contiguous word-and-blank run next to the cursor inside a line (at the end of a line, deleting the word on the right only moves the cursor), moving a line swaps it with its neighbour, the cursor keeping its column in it, and setting or clearing the content replaces it. Movement, selection, focus, scrolling and copy never change the text.",
 ["inputs", "histories"], "every operation sequence, from every reachable content/cursor/selection state, for every character class",
 "unit tests check five hand-written word operations on short lines; the operations compose over arbitrary histories and multi-line states",
 [IFC, IF], [("insert_char/insert_new_line/del_char_*/del_word_*/swap_lines", IFC), ("apply_keycode_event/put_char/del_*", IF)],
 ["InputField::get_content, content().lines(), content().cursor_pos()"])
prop("C02", "Input field content and cursor always stay valid, without panic",
 "After any sequence of public operations and events the input field holds at least one line, its cursor and the ends of its selection designate an existing line and a position between 0 and that line's length, no line contains a newline, carriage return or backspace, and no operation panics. Reading the content back and setting it again reproduces the same text, and is_content, is_empty, line counts and the lines exposed agree with the text returned by get_content.",
 ["inputs", "histories", "configurations"], "every operation history, any multi-line text including empty lines, wide and zero-width characters, any area, empty ones included",
 "tests only run short single-purpose edits and never check the invariant between operations",
 [IFC, IF], [("fix_selection, set_cursor_pos, set_str, clear", IFC), ("fix_scroll", IF)],
 ["content().cursor_pos(), content().selection(), get_content(), is_content()"])
prop("C03", "Selection, copy, cut and typing over agree on the same text",
 "Copying returns exactly the characters from the first to the last selected position inclusive (the character under the cursor when nothing wider is selected); cutting returns the same string and removes exactly it, so that pasting it back at the resulting cursor restores the text. Typing, newline or delete-type keys applied on a wide selection replace or remove exactly the selected text, moving without shift drops the selection and moving with shift keeps its origin.",
 ["inputs", "histories"], "every text, every selection (single or multi line, forward or backward, touching line ends), every history leading to it",
 "no test covers cut or copy; multi-line selections are never built in tests",
 [IFC, IF], [("selection, selection_string, del_selection, unselect, make_selection", IFC), ("copy_selection, cut_selection, apply_keycode_event", IF)],
 ["copy_selection, cut_selection, selection_string, has_wide_selection"])
prop("C04", "Cursor movements reach the documented position and report changes",
 "Each cursor movement (char, word, line, page, home/end, start/end, mouse click target) leads to the position its name documents: left/right walk the flat text one character at a time across line ends, up/down keep the display column clamped to the reached line, page moves go one field height, home/end go to the line bounds, word moves stop at a word boundary of the line (the start of a word going left, its last character going right). Every movement returns true exactly when the cursor moved, and is a no-op when there is nothing further in that direction.",
 ["inputs", "histories"], "every text and cursor position, every movement, every field height",
 "word moves are tested on two fixed lines; cross-line moves, pages and the boolean are untested",
 [IFC, IF], [("move_*", IFC), ("page_up/page_down/apply_keycode_event", IF)], ["bool results, cursor_pos()"])
prop("C05", "The cursor stays visible in the input field's viewport",
 "After every operation or event which edits the content, moves the cursor, resizes the field or gives it the focus, the cell of the cursor lies inside the field's area, for single and multi-line content, in every area with room for a character. The mouse wheel and the scroll functions scroll by one line without moving the cursor, and tell whether they did. The viewport never scrolls beyond the content: content that fits is shown from its start, and no more is hidden than necessary to display the cursor with its context margin.",
 ["inputs", "histories", "configurations"], "every edit and movement history, area sizes from 1x1 up, contents longer/taller than the area, wide characters",
 "no test looks at the scroll at all",
 [IF], [("fix_scroll", IF)], ["scroll(), display output"])
prop("C06", "The input field draws its whole area, its text window, nothing else",
 "Displaying an input field writes every cell of its area, the last one given, exactly once and no cell outside, and never panics however small the area is: each visible cell shows the character (or the mask in password mode, never the text itself) of the text at that scrolled position, cells beyond the text are blank, and an ellipsis marks cut lines. When focused, exactly one cell, the one of the cursor, has the cursor style, the cells of a wide selection have the selection style, and the rest the field style.",
 ["inputs", "histories", "configurations"], "every content/selection/scroll state, area geometry, focus and password setting",
 "rendering of views is never tested",
 [IF], [("display_on", IF)], ["emulated terminal cells after display_on"])
prop("C07", "Events reach the input field only when it should take them",
 "An input field consumes an event (returns true) exactly when it handled it: key events are applied only when focused, unmapped combinations and events when unfocused change nothing and return false. A click inside an unfocused field only gives it the focus, a click inside a focused one puts the cursor on the character drawn there, any mouse event inside the area is consumed, and events outside of it change nothing and return false; new-line keys insert a newline only in multi-line fields where they are declared, otherwise they are left to the caller.",
 ["inputs", "histories", "configurations"], "every event (key code x modifiers, mouse kind x position) in every field state and configuration",
 "event dispatch has no test; the mapping from screen cell to character depends on scroll state and width",
 [IF], [("apply_event, apply_timed_event, apply_key_combination, apply_mouse_event", IF)], ["bool results, focused(), cursor_pos()"])
prop("C08", "List view selection always designates a displayed row",
 "Every selection operation of a list view lands on a row passing the filter; next/previous line selection visits the displayed rows in order, each exactly once per turn, wrapping around and never stopping on a hidden row. Adding rows (sorted or not), setting or removing a filter and scrolling keep the same row selected, clearing the rows unselects, and the total and displayed counts always match rows and filter.",
 ["inputs", "histories"], "every history of add, filter, unfilter, select, unselect, clear, over any rows, sort order and view height",
 "list view has no test",
 [LV], [("add_row, set_filter, remove_filter, retain, try_select_next, select_*_line, unselect", LV)], ["get_selection, row_counts, has_selection"])
prop("C09", "List view scrolling is bounded and keeps the selection visible",
 "The list never panics nor scrolls past its rows: scrolling by n lines or pages counts displayed rows and moves by n bounded at both ends (at the bottom at most one blank line is left, none when all rows fit), the selected row being kept visible. After a selection change the selected row is visible, and a view which showed the bottom when a row is appended still shows it.",
 ["inputs", "histories", "configurations"], "every history of scroll/select/add/filter/resize, body heights from 1, any number of rows including 0",
 "list view has no test",
 [LV], [("try_scroll_lines, try_scroll_pages, make_selection_visible, scroll_to_bottom, do_scroll_show_bottom, update_dimensions", LV)], ["displayed cells, scrollbar(), bool results"])
prop("C10", "List view draws the right rows and columns inside its area",
 "Displaying a list view writes inside its area only: title row, separator, then one line per visible displayed row in order and blank lines below the last, each cell the column's rendering of that row cut or padded to the column width, columns separated consistently between header and body. The selected row alone has the selected background, and a scrollbar whose thumb mirrors the scroll is drawn in the last column, below the titles, exactly when displayed rows exceed the body height. Nothing panics in an area too small for the list.",
 ["inputs", "histories", "configurations"], "every rows/filter/scroll/selection state, column spec, area wide enough for the minimal columns and at least 3 rows high, single column characters",
 "list view rendering has no test",
 [LV], [("write_on, update_dimensions", LV)], ["emulated terminal cells after write_on"])
prop("C11", "Text views scroll inside their content and report it",
 "Whatever the sequence of scrolls by lines or pages (rounded away from zero), key events and resizes, the scroll of a text view ends between zero and the content height minus the view height (zero when it fits). A relative scroll moves by exactly the requested amount clamped to these bounds, line, page and key moves return true exactly when the scroll changed, and setting the scroll returns the one obtained.",
 ["inputs", "histories", "configurations"], "every scroll history over content heights and view heights, including content shorter than the view and extreme requests",
 "views have no test",
 [TV, MV], [("set_scroll, try_scroll_lines, try_scroll_pages, apply_event", TV), ("resize, update", MV)], ["scroll, bool results"])
prop("C12", "Text views draw exactly the scrolled window of the text",
 "Writing a text view or mad view draws, at each row of its area, the formatted line at scroll plus that row, then blank lines below the end, and a scrollbar in the last column exactly when the content is higher than the area and it was not disabled. Every cell of the area is overwritten whatever was there before and no cell outside it is touched. Nothing panics in areas too small for the text.",
 ["inputs", "histories", "configurations"], "every text, skin scrollbar setting, scroll and area",
 "views have no test",
 [TV, MV, "src/displayable_line.rs"], [("write_on", TV), ("DisplayableLine", "src/displayable_line.rs")], ["emulated terminal cells after write_on"])
prop("C13", "Scrollbar thumb stays in its track and mirrors the position",
 "A scrollbar is present exactly when the content exceeds the available height, and then its thumb is a non empty range inside the track. The thumb touches the top when the scroll is zero and the bottom when the end of the content is shown, moves monotonically with the scroll, and its length never depends on the scroll by more than one row. In a track of more than three rows, it doesn't touch an end while something is hidden on this side, unless it is reduced to one row.",
 ["inputs"], "every scroll, content height, available height from 1 and area top within u16, scroll bounded by the content",
 "no test",
 ["src/area.rs", "src/skin.rs"], [("compute_scrollbar", "src/area.rs"), ("Area::scrollbar", "src/area.rs")], ["compute_scrollbar, Area::scrollbar"])
prop("C14", "Wrapped text never exceeds the requested width",
 "Whatever the markdown and the skin, once formatted or wrapped at a width leaving room for at least one character after the line's own marker, no produced line is wider than that width, in terminal columns counting wide characters, margins, bullets, quote marks and numbering. Wrapping never panics nor loops, widths below 3 are refused with an error by the wrapping functions, and a composite which already fits is returned unchanged as one line.",
 ["inputs", "configurations"], "every text with any character widths and styles, every composite kind and list depth, every width leaving room for the marker and one (possibly wide) character, every list indentation mode",
 "tests sample two or three sentences at a few widths",
 ["src/fit/wrap.rs", "src/text.rs", "src/skin.rs", "src/code.rs"], [("hard_wrap_composite, hard_wrap_lines", "src/fit/wrap.rs"), ("code::justify_blocks", "src/code.rs")], ["wrap::hard_wrap_composite, MadSkin::text, FmtText lines"])
prop("C15", "Wrapping preserves text, styles, order and word separation",
 "The sequence of non-blank characters of the wrapped lines, with the style of each, is the one of the source in the same order; only blanks at the line breaks are dropped. Two words separated by blanks in the source are never glued, a word (a run of non-blank characters of one style) is split only when it does not fit alone on a line, and continuation lines keep the kind (list item continuation, quote, code...) of the source line.",
 ["inputs", "configurations"], "every text, style pattern, composite kind and width",
 "tests only count lines or check one sample",
 ["src/fit/wrap.rs", "src/tokens.rs", "src/composite.rs"], [("tokenize, hard_wrap_composite, follow_up_composite", "src/fit/wrap.rs")], ["wrap::hard_wrap_composite, hard_wrap_lines"])
prop("C16", "Tables render aligned, inside the width, with their cells intact",
 "All rows and rules of a table rendered at a given width have the same total width and it does not exceed the available width. Every line has the same number of columns at the same offsets, cells keep their content, order and alignment, wrapped over continuation rows when too wide and padded with empty cells, and only the rightmost columns are dropped when the width cannot hold them all; rendering never panics. The public table fitter gives widths which hold in the available one, keeps columns which don't need to be reduced, and tells when they are.",
 ["inputs", "configurations"], "every table shape (ragged rows, rules, alignments), cell contents and widths, available widths from 5 up, columns with room for the mark of their cells",
 "tests check one or two tables",
 ["src/tbl.rs", "src/fit/tbl_fit.rs", "src/text.rs"], [("Table::fix_columns", "src/tbl.rs"), ("TblFit", "src/fit/tbl_fit.rs")], ["rendered FmtText, FmtTableRow"])
prop("C17", "Fitting a composite obeys the width and only removes the excess",
 "Fitting a composite to a width yields a composite not wider than it, without panic for any content; one which already fits is unchanged, and filling or extending gives exactly the width with padding on the side the alignment says. What is kept are characters of the original in order with their style, truncation is marked by an ellipsis or a closing character, and left-aligned fits keep the start, right-aligned ones the end, and centered ones the middle, with as much removed on both sides.",
 ["inputs", "configurations"], "every composite (styles, kinds, character widths, empty parts), every width greater than the marker of the composite, alignment and mark configuration",
 "tests check a dozen sample strings",
 ["src/fit/composite_fit.rs", "src/composite.rs"], [("Fitter::fit, Zone", "src/fit/composite_fit.rs"), ("fill_width, extend_width", "src/composite.rs")], ["Fitter::fit, FmtComposite::fill_width/extend_width"])
prop("C18", "Cropped writing never exceeds its budget and drops no fitting text",
 "A crop writer never emits more columns than it was allowed, and the remaining allowance always equals the initial one minus the columns written. For each item queued it emits the longest prefix that fits, characters that exactly fit included, string cropping and filling report exactly the columns used, and spacings write exactly their width.",
 ["inputs", "histories"], "every sequence of writes of strings and characters of any widths, every initial budget",
 "tests cover string fitting on a few samples",
 ["src/fit/crop_writer.rs", "src/fit/str_fit.rs", "src/fit/filling.rs"], [("CropWriter::queue_*", "src/fit/crop_writer.rs"), ("StrFit", "src/fit/str_fit.rs"), ("Filling::queue_*", "src/fit/filling.rs")], ["emitted columns, CropWriter::allowed"])
prop("C19", "Formatted lines show their text, aligned and styled as the skin says",
 "Displayed without truncation, a formatted line shows its markers, text and padding in the skin's styles: exactly the width of the area when the skin completes lines, aligned left, right or center inside its margins as the line style says, list items with bullet and indentation of their depth, code blocks padded to a common width. Every character of the text is visible exactly once, in order, with the composition of its line style and inline styles.",
 ["inputs", "configurations"], "every markdown line kind, alignment, margin, width and inline style",
 "tests check a few header and code samples",
 ["src/skin.rs", "src/composite.rs", "src/line.rs", "src/text.rs", "src/displayable_line.rs", "src/code.rs"], [("MadSkin::write_fmt_composite, write_fmt_line", "src/skin.rs")], ["emulated terminal cells of displayed lines"])
prop("C20", "Styles, characters and skins survive serialization",
 "Writing a color, a compound style, line style, styled char, scrollbar style or skin to its textual form and parsing it back gives a value that displays the same. Parsing accepts the documented syntax whatever the order of the tokens, gives each named or built color and each attribute its own meaning (gray levels stopping at 23), and rejects texts having a token which isn't in this syntax rather than reading it as something else (marker characters other than blanks, digits and parentheses; margins under 65536).",
 ["inputs"], "every combination of foreground, background, attributes (but reset), alignment, margins and character; every documented color syntax",
 "tests check one skin and a few strings",
 ["src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs", "src/parse/parse_compound_style.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs", "src/serde/serde_skin.rs", "src/serde/serde_scrollbar_style.rs"], [("parse_*", "src/parse"), ("PushStyleTokens", "src/parse/mod.rs"), ("serde impls", "src/serde")], ["parse functions, Display, serde_json"])
prop("C21", "Ticker beams tick on period, for their count, until stopped",
 "A beam started for n ticks sends its payload exactly n times unless stopped, its k-th tick never earlier than k periods after its start, and an infinite beam ticks until stopped. Stopping a beam (or all) lets at most one more of its ticks through and none afterwards, leaves the other beams running, and starting beams while others run never changes them.",
 ["schedules", "histories"], "every interleaving of ticking threads with start/stop calls, any number of beams, counts and periods",
 "no test; the property is about races between the stopping call and the ticking threads",
 ["src/events/tick_beam.rs"], [("Ticker::start_tick_beam, stop_beam, stop_all_beams", "src/events/tick_beam.rs")], ["ticks received on tick_receiver with times"])
prop("C22", "The event source delivers every event once, in order, under handshake",
 "Every terminal event is delivered exactly once and in order, except those discarded by option, and keys of an escape sequence that completes, which come instead as one sequence on their own channel; an incomplete sequence is flushed as individual events in order, losing nothing. After each delivered event the source delivers nothing more until it is unblocked; unblocking with quit ends the source and closes its channels, and the event count equals the number of events delivered.",
 ["schedules", "histories", "configurations"], "every event stream and interleaving of consumer unblocks with terminal input, with each option setting",
 "no test at all; needs a terminal and a second thread",
 [ES, "src/events/escape_sequence.rs", "src/events/timed_event.rs"], [("EventSource::with_options thread loop", ES), ("unblock", ES)], ["receiver(), escape_sequence_receiver(), shared_event_count() over a pty"])
prop("C23", "Double clicks are recognised exactly for close, same-place clicks",
 "A left button event is flagged as double click exactly when the preceding completed left click was at the same cell less than the double-click delay before; clicks elsewhere, later, or with other buttons are never flagged. Other events never carry the flag.",
 ["histories", "inputs"], "every stream of mouse events with positions and times",
 "no test; depends on event history and time",
 [ES, "src/events/timed_event.rs"], [("double click detection", ES)], ["TimedEvent.double_click"])
prop("C24", "A question always returns one of its answers",
 "Asking a question writes it with its options and returns the key of an answer the user typed, comparing whole lines without their trailing white space; an empty line selects the default when there is one, and any other line is refused with a message, the next line being then awaited. No other value is ever returned, and the end of the input ends the asking, with the default answer if there is one and an error otherwise.",
 ["inputs", "histories"], "every set of answers, default, and sequence of typed lines",
 "no test (interactive)",
 ["src/ask.rs"], [("Question::ask", "src/ask.rs")], ["returned answer and stdout for a given stdin"])
prop("C25", "Style composition keeps each part's contribution",
 "Combining compound styles lets the overlaid style's colors win where it has some, keeps the base's otherwise, and unites attributes, so that composing is associative and an empty style changes nothing. Blending moves foreground and background each towards the target by the given weight (unchanged at 0, the target at 1, up to the rounding of color conversions; an absent color stays absent), and a styled char always displays with its current style.",
 ["inputs", "histories"], "every pair/triple of styles, every weight and sequence of style mutations",
 "no test",
 ["src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/color.rs"], [("CompoundStyle::overwrite_with, blend_with", "src/compound_style.rs"), ("StyledChar setters", "src/styled_char.rs")], ["get_fg/get_bg/attributes, rendered escape codes"])
prop("C29", "Skin-wide changes reach exactly their styles",
 "Setting the foreground or background of a whole skin, of its headers, its global background, restricting it to ASCII, blending it into a color or starting from a skin without style changes the styles these operations are documented for, for every color and whatever was changed before, and leaves every other style, mark, alignment and margin of the skin as it was.",
 ["histories"], "every history of changes on every skin",
 "no test",
 ["src/skin.rs", "src/scrollbar_style.rs"], [("MadSkin::set_fg, set_bg, set_headers_fg, set_headers_bg, set_global_bg, limit_to_ascii, no_style", "src/skin.rs")], ["the fields of the skin"])
prop("C26", "Inline templates substitute arguments literally",
 "Printing an inline markdown template replaces each placeholder with its argument taken literally: markdown characters in an argument are shown as is and never change the style of anything else, and the argument takes the style of the place where it is inserted. The text of the template around the arguments is formatted as if the arguments were plain words.",
 ["inputs"], "every template and every argument including markdown syntax and placeholder syntax",
 "no test checks the printed result",
 ["src/macros.rs", "src/inline.rs", "src/skin.rs"], [("mad_write_inline!, write_composite", "src/macros.rs")], ["emulated terminal cells of the written template"])
prop("C27", "Areas and rectangles stay inside what they are cut from",
 "Padding an area by amounts which fit in it, or reducing it to a maximal width, gives an area inside it, of the requested size, centered up to one column for the maximal width; an area contains exactly the positions of its cells. A rectangle of at least two columns and rows draws exactly the cells of its border, and of its interior when it is filled, each once with its char and style, and nothing outside.",
 ["inputs", "configurations"], "every area position and size, paddings and rectangle kinds",
 "no test",
 ["src/area.rs", "src/rect.rs"], [("Area::pad, pad_for_max_width, contains", "src/area.rs"), ("Rect::draw", "src/rect.rs")], ["Area fields, emulated terminal cells after draw"])
prop("C28", "A progress bar shows its value in exactly its width",
 "A progress bar of a given length for a part between 0 and 1 never displays more columns than its length, nothing filled at 0, all filled at 1, and between the number of eighths of column nearest to the exact proportion, so that it grows with the part. Formatted in a width, it is completed with blanks to this width on the side its alignment says.",
 ["inputs"], "every length and width, every part between 0 and 1",
 "no test",
 ["src/views/progress.rs"], [("ProgressBar Display", "src/views/progress.rs")], ["Display output"])
prop("C30", "Every way of showing a text gives its formatting for its place",
 "All the functions of the module and of the skin which make, print or write a markdown text, snippet, raw text or expanded template show exactly the lines that formatting it for the width of their target gives: the width the terminal has at this time for terminal texts and for what's printed or written, one fixed size standing for an unknown one; the given width, or no wrapping at all, for the other texts and for snippets; the width of the area less the column of a scrollbar for area texts, of which those written in an area cover it, from their first line, without scrollbar, and touch nothing else. Every line of a text ends with a new line, a snippet brings none, the write functions leave nothing unflushed, raw texts are not interpreted and no style is left to the terminal. Views and input fields shown on the standard output show there, at once, what they write elsewhere.",
 ["inputs", "configurations", "histories"], "every text, skin, terminal size (resized between calls, or no terminal) and every entry point",
 "no test has a terminal; the existing ones never print",
 ["src/skin.rs", "src/lib.rs", "src/text.rs", "src/inline.rs", "src/area.rs"], [("MadSkin::print_*, write_*, term_text, area_text", "src/skin.rs"), ("terminal_size, full_screen", "src/area.rs"), ("module functions", "src/lib.rs")], ["what comes out of a process on its pseudo terminal"])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
