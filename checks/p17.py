"""P17: indenting."""
import re

import parce
from parce.indent import (ALIGN, AbstractIndenter, BLANK, CURRENT_INDENT, DEDENT, INDENT, NO_DEDENT, NO_INDENT, NO_STRIP, PREFER_INDENT, Indent, Indenter)
import parce.action as A
import common
import langspec

PROPERTY = "P17"
RULE = ("model: random lines with an indenter whose events are written in the lines themselves; the result of indent() over random ranges against a reference computed from the documented meaning of the events; again indenting, increase/decrease, "
        "auto-indent of one messed-up line, stripping.  lang: bundled languages (also mixed, with registered indents for generated languages) with hostile text: only leading whitespace of the lines in the range changes, repeated indenting is stable, "
        "CSS and LilyPond indents against bracket counting.  Non-trivial: at least one line changes; distinct by (text, range, settings).")
PLAN = {"quick": {"model": 8000, "lang": 4000, "brackets": 3000, "mixed": 2500},
        "thorough": {"model": 120000, "lang": 60000, "brackets": 50000, "mixed": 50000}}
REQUIRED = {"lines_changed": 3000, "lines_kept": 3000, "prefer": 300, "align": 300, "noindent": 300, "increase": 500, "decrease": 500, "auto": 500, "stripped": 300, "outside": 500, "auto_fixed": 100, "auto_prefer": 100,
            "mixed_lines": 1000}
ASSUMPTIONS = ["auto_indent() is compared with indent() on documents without special (preferred, unchangeable, blank) lines above"]


def lines_of(text):
    return text.split("\n")


def lead(s):
    return s[:len(s) - len(s.lstrip())]


# ------------------------------------------------------------ own indenter

EVENT = re.compile(r"[{}:|/]|\^+")


class Own(AbstractIndenter):
    r"""``{`` indent, ``}`` dedent, ``:`` no more dedents, ``|`` and ``/`` align the last indent with three or five chars, ``^``s at the end: prefer that many
    spaces, ``!`` at the end: may not change, ``~`` no strip; empty: blank"""
    def indent_events(self, block, prev_indents=()):
        self.prev = list(prev_indents)
        text = block.text()
        s = text.strip()
        if not s:
            yield BLANK
        if self.explicit:
            yield CURRENT_INDENT, lead(text)
        if s.endswith("!"):
            yield NO_INDENT
        if "~" in s:
            yield NO_STRIP
        for m in EVENT.finditer(s):
            c = m.group()
            if c == "{":
                yield INDENT
            elif c == "}":
                yield DEDENT
            elif c == ":":
                yield NO_DEDENT
            elif c == "|":
                yield ALIGN, "   "
            elif c == "/":
                yield ALIGN, "     "
            else:
                yield PREFER_INDENT, " " * len(c)

    explicit = False


def analyse(line):
    """what the events of the line mean, by a stack machine different from the code's counters"""
    s = line.strip()
    ops = []
    before = True
    start = 0
    stack = []      # indents opened in this line
    end = 0
    prefer = None
    for m in EVENT.finditer(s):
        c = m.group()
        if c == "{":
            stack.append(None)
            before = False
        elif c == "}":
            if before:
                start += 1
            elif stack:
                stack.pop()
            else:
                end += 1
        elif c == ":":
            before = False
        elif c in "|/":
            if stack and stack[-1] is None:     # the first one counts
                stack[-1] = "   " if c == "|" else "     "
        else:
            prefer = " " * len(c)
    return {"start": start, "opens": stack, "end": end, "prefer": prefer, "fixed": s.endswith("!"), "blank": not s}


def reference(lines, first, last, ind, blanks):
    """indent the lines first..last (inclusive)"""
    out = list(lines)
    levels = [""]       # the indent of each open level
    pending = []
    for n, line in enumerate(lines[:last + 1]):
        a = analyse(line)
        for p in pending:
            levels.append(levels[-1] + (p if p is not None else ind))
        for _ in range(a["start"]):
            if len(levels) > 1:
                levels.pop()
        if not a["fixed"] and (blanks or not a["blank"]):
            if n < first:
                if a["prefer"] is None:
                    levels[-1] = lead(line)
            else:
                new = a["prefer"] if a["prefer"] is not None else levels[-1]
                out[n] = new + line[len(lead(line)):]
        for _ in range(a["end"]):
            if len(levels) > 1:
                levels.pop()
        pending = a["opens"]
    return out


def rand_line(r, special=True):
    t = ''.join(r.choice(["{", "{", "}", "}", ":", "a", "b ", "|", "/", " ", "~" if special else "c"]) for _ in range(r.randrange(0, 7))).strip()
    if special:
        c = r.random()
        if c < .1:
            t += "!"
        elif c < .18:
            t += "^" * r.randrange(1, 6)
    return r.choice(["", "", " ", "  ", "    ", "\t", " \t ", "   "]) + t + r.choice(["", "", "", " ", "  "])


def check_only_leading(ctx, old, new, first, last):
    o, n = lines_of(old), lines_of(new)
    ctx.equal(len(n), len(o), "number of lines")
    for i, (a, b) in enumerate(zip(o, n)):
        if i < first or i > last:
            if a != b:
                ctx.fail("line outside the range changed", line=i, before=a, after=b)
            ctx.count("outside")
        else:
            if a.lstrip() != b.lstrip():
                ctx.fail("more than leading whitespace changed", line=i, before=a, after=b)
        ctx.count("lines_changed" if a != b else "lines_kept")


def rand_range(ctx, d, text):
    """cursor and the first and last line that may be changed by indent()"""
    r = ctx.rng
    n = len(text)
    c = r.random()
    if c < .3:
        a, b = 0, None
    elif c < .4:
        a = b = r.randrange(n + 1)
    else:
        a, b = sorted((r.randrange(n + 1), r.randrange(n + 1)))
        if r.random() < .2:
            b = None
    while b is not None and b > a and text[b - 1] == "\n":
        b -= 1      # whether a line that begins at the end is in the range is not specified
    cur = parce.Cursor(d, a, b)
    bs = n if b is None else b
    starts = [0] + [m.end() for m in re.finditer("\n", text)]
    first = next((i for i, s in enumerate(starts) if s >= a), len(starts))
    line_a = text.count("\n", 0, a)
    line_b = text.count("\n", 0, bs)
    ctx.note(range=(a, b))
    return cur, first, line_a, line_b


def case_model(ctx):
    r = ctx.rng
    special = r.random() < .7
    text = "\n".join(rand_line(r, special) for _ in range(r.randrange(1, 12)))
    d = parce.Document(None, text) if r.random() < .5 else parce.Document(text=text)
    i = Own()
    i.indent_string = r.choice(["  ", "    ", "\t", "   ", " "])
    i.indent_blank_lines = r.random() < .6
    i.explicit = r.random() < .3
    ctx.note(text=text, indent_string=i.indent_string, blanks=i.indent_blank_lines)
    cur, first, la, lb = rand_range(ctx, d, text)
    lines = lines_of(text)
    want = "\n".join(reference(lines, first, lb, i.indent_string, i.indent_blank_lines))
    for l in lines[first:lb + 1]:
        a = analyse(l)
        ctx.count("prefer", a["prefer"] is not None)
        ctx.count("noindent", a["fixed"])
        ctx.count("align", "   " in a["opens"])
    i.indent(cur)
    got = d.text()
    check_only_leading(ctx, text, got, first, lb)
    ctx.equal(got, want, "indented text")
    if got != text:
        ctx.distinct(text, ctx.detail["range"], i.indent_string, i.indent_blank_lines)
        d.undo()
        ctx.equal(d.text(), text, "indenting is not one undo step")
        d.redo()
        ctx.equal(d.text(), got, "redo")
    # again
    i.indent(parce.Cursor(d, *same_range(got, la, lb, ctx.detail["range"], first)))
    ctx.equal(d.text(), got, "indenting again changes the text")
    # increase, decrease
    text = d.text()
    cur, first, la, lb = rand_range(ctx, d, text)
    ctx.note(text=text)
    lines = lines_of(text)
    fixed = [analyse(l)["fixed"] for l in lines]
    want = [i.indent_string + l if la <= k <= lb and not fixed[k] else l for k, l in enumerate(lines)]
    pa, pb = cur.pos, cur.end
    i.increase_indent(cur)
    ctx.equal(lines_of(d.text()), want, "increase_indent()")
    ctx.count("increase")
    c2 = parce.Cursor(d, *line_range(d.text(), la, lb))
    i.decrease_indent(c2)
    ctx.equal(d.text(), text, "decreasing after increasing does not restore the text")
    # decrease on its own
    cur, first, la, lb = rand_range(ctx, d, text)
    want = []
    for k, l in enumerate(lines):
        if la <= k <= lb and not fixed[k]:
            x = lead(l)
            l = l[len(i.indent_string):] if x.startswith(i.indent_string) else l[len(x):]
        want.append(l)
    i.decrease_indent(cur)
    ctx.equal(lines_of(d.text()), want, "decrease_indent()")
    ctx.count("decrease", d.text() != text)
    # strip
    text = d.text()
    ctx.note(text=text)
    cur, first, la, lb = rand_range(ctx, d, text)
    want = [l.rstrip() if la <= k <= lb and "~" not in l else l for k, l in enumerate(lines_of(text))]
    i.strip_trailing_blanks(cur)
    ctx.equal(lines_of(d.text()), want, "strip_trailing_blanks()")
    ctx.count("stripped", d.text() != text)
    # auto indent of one line
    if special:
        bad = lines_of(d.text())
        k = r.randrange(len(bad))
        pos = sum(len(l) + 1 for l in bad[:k]) + r.randrange(len(bad[k]) + 1)
        ctx.note(text=d.text(), line=k)
        i.auto_indent(parce.Cursor(d, pos, pos))
        got = lines_of(d.text())
        ctx.check(got[:k] == bad[:k] and got[k + 1:] == bad[k + 1:], "auto_indent() changed another line")
        ctx.check(got[k].lstrip() == bad[k].lstrip(), "auto_indent() changed more than the indent", got=got[k])
        a = analyse(bad[k])
        if a["fixed"]:
            ctx.equal(got[k], bad[k], "auto_indent() changed the indent of a line that may not change")
            ctx.count("auto_fixed")
        elif a["prefer"] is not None:
            ctx.equal(lead(got[k]), a["prefer"], "auto_indent() does not use the preferred indent")
            ctx.count("auto_prefer")
    else:
        t = "\n".join(l if l.strip() else l + "x" for l in lines_of(d.text()))
        d.set_text(t)
        i.indent(parce.Cursor(d, 0, None))
        good = lines_of(d.text())
        k = r.randrange(len(good))
        bad = list(good)
        bad[k] = r.choice(["", " ", "      ", "\t"]) + good[k].lstrip()
        d.set_text("\n".join(bad))
        pos = sum(len(l) + 1 for l in bad[:k]) + r.randrange(len(bad[k]) + 1)
        ctx.note(text=d.text(), line=k)
        i.auto_indent(parce.Cursor(d, pos, pos))
        got = lines_of(d.text())
        ctx.check(got[:k] == bad[:k] and got[k + 1:] == bad[k + 1:], "auto_indent() changed another line")
        ctx.check(got[k].lstrip() == bad[k].lstrip(), "auto_indent() changed more than the indent", got=got[k])
        if k and all("|" not in l and "/" not in l for l in good) and consistent(good[:k + 1]):
            ctx.count("auto")
            ctx.equal(got[k], good[k], "auto_indent() differs from indenting everything", line=k)
    ctx.sample({"text": text[:150]})


def consistent(lines):
    """no dedent below the first level, and no level opened after others are closed in the same line"""
    depth = 0
    for l in lines:
        a = analyse(l)
        if a["end"] and a["opens"]:
            return False
        depth -= a["start"]
        if depth < 0:
            return False
        depth += len(a["opens"]) - a["end"]
        if depth < 0 or a["start"] and (a["opens"] or a["end"]) or a["end"] or len(a["opens"]) > 1:
            return False
    return True


def line_range(text, la, lb):
    starts = [0] + [m.end() for m in re.finditer("\n", text)] + [len(text) + 1]
    return starts[la], starts[lb + 1] - 1


def same_range(text, la, lb, old, first):
    """a range selecting the same lines in the changed text"""
    starts = [0] + [m.end() for m in re.finditer("\n", text)] + [len(text) + 1]
    if first > lb:
        # no line begins in the range
        return starts[la] + 1 if starts[la] + 1 < starts[la + 1] else starts[la], None if old[1] is None else starts[lb + 1] - 1
    return starts[first], None if old[1] is None else starts[lb + 1] - 1


# ------------------------------------------------------------ languages

class Brackets(Indent):
    """Indents on { and }."""
    def events(self, block, tokens, prev_indents):
        for t in tokens:
            for c in t.text:
                if c == "b":
                    yield INDENT
                elif c == "c":
                    yield DEDENT


def case_lang(ctx):
    r = ctx.rng
    i = Indenter()
    spec = None
    if r.random() < .25:
        g = langspec.Gen(r, unique_actions=True, nested_groups=False)
        spec = g.spec()
        ctx.note(spec=spec)
        lang = langspec.build_language(spec)
        lexicon = lang.root
        if r.random() < .8:
            i.add_indent(lang, Brackets())
            ctx.check(isinstance(i.get_indent(lang), Brackets), "get_indent()")
        text = "\n".join(r.choice(["", " ", "   "]) + g.text(r.randrange(0, 14)) for _ in range(r.randrange(1, 6)))
    else:
        langs = common.languages()
        if r.random() < .5:
            langs = [x for x in langs if x[1].language.__name__ in ("Css", "LilyPond", "Html", "Latex")] or langs
        q, lexicon = r.choice(langs)
        ctx.note(language=q)
        text = common.text_for(r, lexicon, 900)
    i.indent_string = r.choice(["  ", "    ", "\t"])
    i.indent_blank_lines = r.random() < .6

    def usable(t):
        if spec:
            try:
                langspec.RefLexer(spec).events(t, ('root', None))
            except langspec.Discard:
                ctx.count("discarded")
                return False
        return True
    if not usable(text):
        return
    d = parce.Document(lexicon, text)
    ctx.note(text=text, indent_string=i.indent_string)
    cur, first, la, lb = rand_range(ctx, d, text)
    if spec and not usable("\n".join(x for x in lines_of(text))):
        return
    op = r.choice(["indent", "indent", "auto", "increase", "decrease", "strip"])
    ctx.note(op=op)
    if spec and op != "indent":
        # whatever the result, the language must be able to handle it
        pass
    before = d.text()
    try_new = None
    if spec:
        # indent a plain copy first, to see whether the text is usable
        p = parce.Document(lexicon, text)
        ind = [lead(x) for x in lines_of(text)]
        for k in range(4):
            t = "\n".join(i.indent_string * (k % 3) + x.lstrip() for x in lines_of(text))
            if not usable(t):
                return
        return_if = False
    if op == "indent":
        i.indent(cur)
        new = d.text()
        check_only_leading(ctx, text, new, first, lb)
        if new != text:
            ctx.distinct(text, ctx.detail["range"], i.indent_string)
        if not spec:
            i.indent(parce.Cursor(d, *same_range(new, la, lb, ctx.detail["range"], first)))
            if parce.root(lexicon, text).lexicon is not None and same_tokens(lexicon, text, new):
                ctx.equal(d.text(), new, "indenting again changes the text")
                ctx.count("stable")
    elif op == "auto":
        i.auto_indent(cur)
        check_only_leading(ctx, text, d.text(), la, la)
        # within the levels of the text above
    elif op == "increase":
        i.increase_indent(cur)
        new = d.text()
        want = [i.indent_string + l if la <= k <= lb else l for k, l in enumerate(lines_of(text))]
        ctx.equal(lines_of(new), want, "increase_indent()")
        i.decrease_indent(parce.Cursor(d, *line_range(new, la, lb)))
        ctx.equal(d.text(), text, "decreasing after increasing does not restore the text")
        ctx.count("increase")
    elif op == "decrease":
        i.decrease_indent(cur)
        check_only_leading(ctx, text, d.text(), la, lb)
        for k, (a, b) in enumerate(zip(lines_of(text), lines_of(d.text()))):
            ctx.check(a.endswith(b) and (a == b) == (not lead(a) or not la <= k <= lb), "decrease_indent()", before=a, after=b)
        ctx.count("decrease")
    else:
        i.strip_trailing_blanks(cur)
        want = [l.rstrip() if la <= k <= lb else l for k, l in enumerate(lines_of(text))]
        ctx.equal(lines_of(d.text()), want, "strip_trailing_blanks()")
        ctx.count("stripped", d.text() != text)
    ctx.sample({"op": op, "text": text[:80]})


def same_tokens(lexicon, a, b):
    f = lambda t: [(x.text.strip(), x.action) for x in parce.root(lexicon, t).tokens() if x.text.strip()]
    return f(a) == f(b)


# ------------------------------------------------------------ mixed languages

class Curly(parce.Language):
    @parce.lexicon
    def root(cls):
        yield "<", A.Delimiter, Round.root
        yield r"[{}()]", A.Bracket
        yield r"[a-z]+", A.Text


class Round(parce.Language):
    @parce.lexicon
    def root(cls):
        yield ">", A.Delimiter, -1
        yield r"[{}()]", A.Bracket
        yield r"[a-z]+", A.Name


class Pair(Indent):
    """Indents on one pair of brackets, remembers what tokens it gets."""
    def __init__(self, language, pair):
        self.language, self.pair, self.seen = language, pair, []

    def events(self, block, tokens, prev_indents):
        for t in tokens:
            self.seen.append((t.pos, t.parent.lexicon.language is self.language))
            if t.text == self.pair[0]:
                yield INDENT
            elif t.text == self.pair[1]:
                yield DEDENT


def case_mixed(ctx):
    """Each language in a text gets its own indent rules."""
    r = ctx.rng
    lines = []
    state = 0
    have = [r.random() < .9, r.random() < .8]
    PAIRS = ["{}", "()"]
    nesting = 0
    for _ in range(r.randrange(2, 12)):
        events, text = "", ""
        for _ in range(r.randrange(1, 8)):
            c = r.choice("{}(){}()<>ab ")
            if c in "<>" and (c == "<") == (state == 0):
                text += c
                state = 1 - state
            elif c not in "<>":
                text += c
                if have[state] and c in PAIRS[state]:
                    events += "{}"[PAIRS[state].index(c)]
                else:
                    events += "a"
        text = text.strip() or "a"
        lines.append((text, events or "a"))
    text = "\n".join(r.choice(["", " ", "    ", "\t"]) + t for t, _ in lines)
    i = Indenter()
    i.indent_string = r.choice(["  ", "    ", "\t"])
    pairs = [Pair(Curly, "{}"), Pair(Round, "()")]
    for l, p, h in zip((Curly, Round), pairs, have):
        if h:
            i.add_indent(l, p)
    d = parce.Document(Curly.root, text)
    ctx.note(text=text)
    lead_ = [lead(x) for x in lines_of(text)]
    want = reference([l + e for l, (t, e) in zip(lead_, lines)], 0, len(lines), i.indent_string, True)
    i.indent(parce.Cursor(d, 0, None))
    got = lines_of(d.text())
    ctx.equal([lead(x) for x in got], [lead(x) for x in want], "indent of a text with two languages", result=d.text())
    check_only_leading(ctx, text, d.text(), 0, len(lines))
    for p, h in zip(pairs, have):
        ctx.check(all(x for _, x in p.seen), "an Indent got tokens of another language")
        ctx.check(h or not p.seen, "unused Indent was called")
    ctx.count("mixed_lines", sum(1 for t, _ in lines if "<" in t or ">" in t))
    ctx.distinct(text, i.indent_string, have)


# ------------------------------------------------------------ brackets

def case_brackets(ctx):
    """CSS and LilyPond: lines with one statement or bracket; the indent is the nesting depth."""
    r = ctx.rng
    css = r.random() < .5
    from parce.lang.css import Css
    from parce.lang.lilypond import LilyPond
    lexicon = Css.root if css else LilyPond.root
    lines = []      # (depth, text)
    depth = 0
    stack = []
    for _ in range(r.randrange(2, 16)):
        c = r.random()
        if css:
            if c < .35 and depth < 5:
                if not stack or stack[-1] == "media":
                    k = r.choice(["rule", "rule", "media"])
                    lines.append((depth, "@media x {" if k == "media" else r.choice(["h1 {", "a, b > c {", ".x[a=b] {"])))
                    stack.append(k)
                    depth += 1
            elif c < .7 and stack and stack[-1] == "rule":
                lines.append((depth, r.choice(["color: red;", "a: b(c, d);", "x: url(y);", "/* } { */", "q: '}{';"])))
            elif c < .9 and stack:
                depth -= 1
                stack.pop()
                lines.append((depth, "}"))
            elif not stack:
                lines.append((depth, "/* c { */"))
        else:
            if c < .35 and depth < 6:
                br = r.choice(["{", "<<"])
                lines.append((depth, r.choice(["", "x = ", "\\new Staff ", "\\relative c' "]) + br))
                stack.append({"{": "}", "<<": ">>"}[br])
                depth += 1
            elif c < .7:
                lines.append((depth, r.choice(["c4 d e f", "% } comment {", "\\clef bass", "<c e g>2 r", "\"} {\"", "{ c d }"]) if stack else "% x {"))
            elif stack:
                depth -= 1
                lines.append((depth, stack.pop()))
    while stack and r.random() < .9:
        depth -= 1
        lines.append((depth, "}" if css else stack[-1]))
        stack.pop()
    if not lines:
        return
    text = "\n".join(r.choice(["", " ", "    ", "\t", "        "]) + t for _, t in lines)
    i = Indenter()
    i.indent_string = r.choice(["  ", "    ", "\t"])
    d = parce.Document(lexicon, text)
    ctx.note(text=text, language=lexicon.language.__name__)
    i.indent(parce.Cursor(d, 0, None))
    ctx.equal(lines_of(d.text()), [i.indent_string * n + t for n, t in lines], "indent follows the nesting")
    check_only_leading(ctx, text, d.text(), 0, len(lines))
    # a range only: from some line on, relative to the unchanged part
    good = d.text()
    k = r.randrange(len(lines))
    mess = [i.indent_string * n + t if j < k else r.choice(["", " ", "\t "]) + t for j, (n, t) in enumerate(lines)]
    d.set_text("\n".join(mess))
    ctx.note(text=d.text())
    pos = sum(len(x) + 1 for x in mess[:k])
    if k == 0 or r.random() < .5:
        i.indent(parce.Cursor(d, pos, None))
        ctx.equal(d.text(), good, "indenting the rest of the text", line=k)
    else:
        # line by line
        for j in range(k, len(lines)):
            b = d.find_block(sum(len(x) + 1 for x in lines_of(d.text())[:j]))
            i.auto_indent(parce.Cursor(d, b.pos, b.pos))
        ctx.equal(d.text(), good, "auto-indenting line by line", line=k)
        ctx.count("auto")
    ctx.distinct(text, i.indent_string)
