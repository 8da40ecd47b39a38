"""The checks: for each property, what is model checked, recorded and validated."""
import os

PROPS = {}


def traces(ctx, cmd, module, quick, thorough, rounds=6, consts=None, args=(), max_s=600):
    """record with the harness, validate with TLC; several seeds in the thorough tier"""
    n = rounds if ctx.thorough else 1
    for k in range(n):
        if k > 0 and ctx.elapsed() > max_s:
            break
        out = os.path.join(ctx.work, "traces.ndjson")
        _, full = ctx.harness(cmd, out, thorough if ctx.thorough else quick, seed=ctx.seed + 1000 * k, args=args)
        ctx.validate(module, out, regen=" ".join(full), consts=consts)
        os.unlink(out)


# the arithmetic of the specification, for all integers: module, initial predicate, length
PROOFS = dict(C05=[("Ind_Viewport", "Init", 0)], C09=[("Ind_Viewport", "Init", 0)],
              C11=[("Ind_View", "Init", 1)], C12=[("Ind_View", "Init", 1)], C13=[("Ind_Scrollbar", "Init", 0)],
              C21=[("Ind_Ticker", "Start", 0), ("Ind_Ticker", "Init", 1)],
              C27=[("Ind_Areas", "Init", 0)], C28=[("Ind_Areas", "Init", 0)])


def proofs(ctx):
    for module, init, length in PROOFS.get(ctx.prop, []):
        ctx.prove(module, init, length)


def editor(quick, thorough):
    def run(ctx):
        ctx.model_check("MC_Editor", "MC_Editor_thorough" if ctx.thorough else "MC_Editor")
        if ctx.prop in ("C05", "C06", "C07"):
            # what's on screen, with wide and zero-width chars
            ctx.model_check("MC_Editor", "MC_Editor_wide_thorough" if ctx.thorough else "MC_Editor_wide")
        traces(ctx, "ed", "Trace_Editor", quick, thorough)
        if ctx.prop in ("C01", "C02", "C03", "C04"):
            # the content, driven without its field
            traces(ctx, "ct", "Trace_Content", 12000, 80000, rounds=3, max_s=700)
    return run


ED_ASSUME = ["characters range over a closed alphabet of ASCII, Latin-1, CJK, emoji, zero-width and blank characters"]
for pid, q, t in (("C01", 40000, 200000), ("C02", 25000, 100000), ("C03", 40000, 200000), ("C04", 40000, 200000),
                  ("C05", 60000, 200000), ("C06", 15000, 40000), ("C07", 40000, 200000)):
    PROPS[pid] = dict(run=editor(q, t), assumptions=ED_ASSUME,
                      technique="TLA+ specification of the editor (TLC exhaustive on small texts) + TLC trace validation of recorded InputField histories",
                      note="Every state and operation of the specification is checked exhaustively for texts up to 3 characters; the real InputField is driven through every small text/cursor/selection/operation combination and through seeded random histories, each step compared with the specification's step. Trusts TLC, the harness and its terminal emulator; sampled beyond the small scope.")


def listview(quick, thorough):
    def run(ctx):
        ctx.model_check("MC_List", "MC_List_thorough" if ctx.thorough else "MC_List")
        traces(ctx, "lv", "Trace_List", quick, thorough)
    return run


for pid, q, t in (("C08", 30000, 150000), ("C09", 30000, 150000), ("C10", 12000, 40000)):
    PROPS[pid] = dict(run=listview(q, t),
                      assumptions=["areas hold the minimal widths of the columns and at least 3 rows",
                                   "cells and titles are made of single column characters",
                                   "update_dimensions is called when the area changes, as documented"],
                      technique="TLA+ specification of the list view (TLC exhaustive on small lists) + TLC trace validation of recorded ListView histories",
                      note="Selection, scroll, filter, order and drawing of the specification are checked exhaustively on lists of up to 3 (thorough: 4) rows; seeded random histories of the real ListView are compared with it step by step. Trusts TLC, the harness and its terminal emulator; sampled beyond the small scope.")


def view(cmd, module):
    def mk(q, t):
        def run(ctx):
            ctx.model_check("MC_View", "MC_View_thorough" if ctx.thorough else "MC_View")
            traces(ctx, cmd, module, q, t)
        return run
    return mk


VW_NOTE = "The scroll arithmetic and the thumbs are checked exhaustively on small contents and heights; histories of the real views are compared step by step with the specification, with what is drawn seen through a terminal emulator. Trusts TLC, the harness and its emulator; sampled beyond the small scope."
for pid, cmd, module, q, t, a in (
        ("C11", "vw", "Trace_View", 60000, 200000, ["heights of at least 1"]),
        ("C12", "vw", "Trace_View", 20000, 80000, ["areas wide enough for the margins and marks of the lines and one character", "rows drawn are compared with the rows of the same formatted lines drawn alone (whose content is the subject of C19)"]),
        ("C13", "sb", "Trace_Scrollbar", 60000, 400000, ["available height of at least 1"])):
    PROPS[pid] = dict(run=view(cmd, module)(q, t), assumptions=a, note=VW_NOTE,
                      technique="TLA+ specification of scrolled views and scrollbars (TLC exhaustive on small sizes) + TLC validation of what the real views do")


def wrap(q, t):
    def run(ctx):
        ctx.model_check("MC_Wrap", "MC_Wrap_thorough" if ctx.thorough else "MC_Wrap")
        traces(ctx, "wr", "Trace_Wrap", q, t)
    return run


for pid, q, t in (("C14", 30000, 200000), ("C15", 30000, 200000)):
    PROPS[pid] = dict(run=wrap(q, t),
                      assumptions=["widths leaving room for one character (two columns if one is wide) after the marker of the line"],
                      technique="TLA+ specification of line breaking (TLC: all ways of breaking all small sources) + TLC validation of what hard_wrap_composite and the formatted texts produce",
                      note="The specification says which breakings are right; it's checked on every source and breaking of up to 4 (thorough: 5) chars over a small alphabet; lines wrapped by the real code, from dense small cases and from generated markdown with any skin, are judged by it. Trusts TLC and the harness; sampled beyond the small scope.")


def render(cmd, mc, module, q, t):
    def run(ctx):
        ctx.model_check(mc, mc + "_thorough" if ctx.thorough else mc)
        traces(ctx, cmd, module, q, t)
    return run


PROPS["C16"] = dict(run=render("rd", "MC_Table", "Trace_Table", 5000, 25000),
                    assumptions=["widths of at least 5", "columns wide enough for the mark of a marked cell and a character (else only the absence of panic is checked)"],
                    technique="TLA+ specification of table fitting (TLC: all choices of column widths on all small tables) + TLC validation of the tables of formatted texts",
                    note="The specification leaves the widths of the columns free inside their bounds and says which rows, cells, alignments and rules then come; it's checked on all tables of 2 (thorough: 3) lines. Tables formatted by the real code from generated markdown are judged by it, structure and display. Trusts TLC and the harness; sampled beyond the small scope.")
PROPS["C19"] = dict(run=render("rd", "MC_Render", "Trace_Render", 40000, 200000),
                    assumptions=["list, quote and code marks of single column"],
                    technique="TLA+ specification of what a formatted line shows, cell by cell (TLC exhaustive on small lines) + TLC validation of what the real code displays",
                    note="Each line displayed by the real code (texts, tables, inline snippets, with any skin, width, completion) is compared, char by char and style by style, with the one computed by the specification. Trusts TLC, the harness and its reading of the control sequences; sampled.")

PROPS["C17"] = dict(run=render("ft", "MC_Fit", "Trace_Fit", 30000, 200000),
                    assumptions=["widths greater than the marker of the line, if it has one", "sources without literal ellipsis"],
                    technique="TLA+ specification of elided composites (TLC: all elisions of all small sources) + TLC validation of histories of fits, fills and extensions",
                    note="The specification says which elisions are right for an alignment and what padding comes; it's checked on all elisions of sources of up to 4 (thorough: 6) chars. Histories of operations on real composites, from a dense small alphabet and from generated markdown, are judged step by step. Trusts TLC and the harness; sampled beyond the small scope.")
PROPS["C18"] = dict(run=render("cr", "MC_Crop", "Trace_Crop", 40000, 300000),
                    assumptions=["tabs in strings are replaced with the default replacement", "gentle strings have only single column chars, as documented", "no control chars other than tabs"],
                    technique="TLA+ specification of cropped writing (TLC exhaustive on small budgets) + TLC validation of histories of the real crop writer",
                    note="Histories of all writing operations of a real CropWriter, and the StrFit and Filling functions, are compared with the specification step by step: chars emitted, style, remaining columns. Trusts TLC and the harness; sampled beyond the small scope.")


def style(mcs, q, t):
    def run(ctx):
        for mc in mcs:
            ctx.model_check(mc, mc + "_thorough" if ctx.thorough else mc)
        traces(ctx, "st", "Trace_Style", q, t)
    return run


ST_TECH = "TLA+ specification of the syntax of styles, of their algebra and of skins (TLC exhaustive on small texts, styles and histories) + TLC validation of what the real code parses, writes and computes"
PROPS["C20"] = dict(run=style(["MC_Style", "MC_Skin"], 40000, 200000), technique=ST_TECH,
                    assumptions=["marker chars other than blanks, digits and parentheses", "margins under 65536",
                                 "hexadecimal colors of 3 or 6 digits, no sign before numbers, no isolated parenthesis"],
                    note="The specification reads texts char by char; that what's written is read back, and that order doesn't matter, is checked on all texts of up to 3 tokens and on histories of skins. Texts, right and wrong, values, JSON skins go through the real code, which is compared with the specification both ways. Trusts TLC, the harness, serde_json; sampled.")
PROPS["C25"] = dict(run=style(["MC_Style"], 30000, 150000), technique=ST_TECH,
                    assumptions=["blends of the 16 colors depending on the terminal, and of 241 and 242, are only checked for what stays unchanged"],
                    note="Algebraic laws are checked on the specification for all small styles; histories of styled chars, compound and line styles of the real code are compared step by step, with what's displayed after each step. Blends are checked at both ends, on gray levels, and by luminosity between. Trusts TLC and the harness; sampled.")
PROPS["C29"] = dict(run=style(["MC_Skin"], 40000, 200000), technique=ST_TECH, assumptions=[],
                    note="Which styles each skin wide change reaches is said by the specification and checked on all short histories; histories of changes on the real skins are compared with it step by step, every style of the skin being observed. Trusts TLC and the harness; sampled.")


PROPS["C24"] = dict(run=render("ak", "MC_Ask", "Trace_Ask", 4000, 20000),
                    assumptions=["non empty keys which don't end with a white space", "questions and answers in lines of paragraph, narrower than the terminal", "typed lines are UTF-8"],
                    technique="TLA+ specification of the asking (TLC exhaustive on small questions and inputs, ending included) + TLC validation of programs asking questions",
                    note="All inputs of up to 3 (thorough: 4) lines to small questions are checked on the specification. Programs asking series of questions, with Question and with the ask! macro, nested ones too, are fed with lines sharing one input; what they print and what they get is compared with the specification, question by question. Trusts TLC and the harness; sampled.")
PROPS["C26"] = dict(run=render("tp", "MC_Inline", "Trace_Inline", 12000, 60000),
                    assumptions=["templates and arguments of one line without tab, and without literal ellipsis"],
                    technique="TLA+ specification of inline templates, parsing included (TLC: all small templates and arguments) + TLC validation of what's written and printed",
                    note="The specification parses the template itself; that filling with words is the same as parsing the text with the words in place, and that arguments change nothing around them, is checked on all templates of up to 4 (thorough: 5) tokens. What the macros and functions write and print with any skin is compared char by char, style by style. Trusts TLC and the harness; sampled.")
GM_TECH = "TLA+ specification of areas, rectangles and bars (TLC exhaustive on small sizes) + TLC validation of what the real code computes and draws"
PROPS["C27"] = dict(run=render("gm", "MC_Geometry", "Trace_Geometry", 30000, 200000), technique=GM_TECH,
                    assumptions=["paddings which fit in the area (larger ones panic, deliberately)", "rectangles of at least 2 columns and 2 rows"],
                    note="Areas and drawn cells computed by the real code, over all small sizes then random ones, are compared with the specification. Trusts TLC, the harness and its terminal emulator; sampled beyond the small scope.")
PROPS["C28"] = dict(run=render("gm", "MC_Geometry", "Trace_Geometry", 30000, 200000), technique=GM_TECH,
                    assumptions=["parts between 0 and 1"],
                    note="Bars displayed by the real code, over all small lengths and dense parts then random ones, are compared with the specification. Trusts TLC and the harness; sampled beyond the small scope.")


def threads(cmd, mcs, module, q, t, rounds=4):
    def run(ctx):
        for mc in mcs:
            ctx.model_check(mc, mc + "_thorough" if ctx.thorough else mc)
        traces(ctx, cmd, module, q, t, rounds=rounds, max_s=450)
    return run


PROPS["C21"] = dict(run=threads("tk", ["MC_Ticker"], "Trace_Ticker", 40000, 150000),
                    assumptions=["a tick which should come is waited for during 8 seconds at least"],
                    technique="TLA+ specification of the beams of a ticker with clock, threads and channel (TLC: all interleavings of two beams, stops included, with liveness) + TLC validation of histories of real tickers",
                    note="All interleavings of two beams with their stops are checked on the specification, safety and termination. Histories of real tickers, with up to 6 beams started and stopped in any order, are checked: number of ticks, times never too early, silence after the stop, end of all threads. The interleavings of the real threads are those which happen. Trusts TLC, the clock and the harness; sampled.")
ES_TECH = "TLA+ specification of the event source: sequences, combinations, options, clicks, thread and channels (TLC: all interleavings for all short inputs, with liveness) + TLC validation of real event sources reading a pseudo terminal"
ES_NOTE = "All short inputs and interleavings are checked on the specification, nothing being lost, one event being delivered at a time, and the end coming. Real event sources, each in its process with a pseudo terminal, are fed with keys, sequences, mouse, pastes, resizes; what they deliver is compared with the specification event by event. Trusts TLC, the pseudo terminal of the kernel, crossterm's parser for well formed input and the harness; sampled."
PROPS["C22"] = dict(run=threads("es", ["MC_EventSource"], "Trace_EventSource", 6000, 40000), technique=ES_TECH, note=ES_NOTE,
                    assumptions=["one unblock per event", "the terminal sends well formed sequences in one piece", "sequences aren't read while they're typed"])
PROPS["C23"] = dict(run=threads("es", ["MC_Clicks"], "Trace_EventSource", 5000, 40000), technique=ES_TECH, note=ES_NOTE,
                    assumptions=["times are those the events carry, which are checked to be between the read and the reception"])
PROPS["C30"] = dict(run=render("pr", "MC_Output", "Trace_Output", 9000, 60000),
                    assumptions=["areas wide enough for the lines of their text (else only the absence of panic is checked)"],
                    technique="TLA+ specification of the ways of showing a text on a terminal which is resized (TLC: all ways and breakings of a small text) + TLC validation of what processes show on a pseudo terminal",
                    note="Which width each entry formats for, what's shown where and how it ends is specified; that nothing is wider than its place, lost or out of the area follows on a small text. Processes with a pseudo terminal, resized between calls, or without terminal, use all entries; the bytes they output are compared cell by cell with the display the specification gives of the lines formatted for the width it says. Trusts TLC, the pseudo terminal and the harness; sampled.")


def with_proofs(run):
    def both(ctx):
        run(ctx)
        proofs(ctx)
    return both


for pid in PROOFS:
    PROPS[pid]["run"] = with_proofs(PROPS[pid]["run"])
    PROPS[pid]["technique"] += " + Apalache proof of the arithmetic of the specification for all integers"
