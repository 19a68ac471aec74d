"""P25: the bundled languages tell comments, strings, numbers and nesting apart."""
import ast
import glob
import io
import keyword
import random
import re
import sysconfig
import tokenize

import parce
from parce.action import Comment, Data, Escape, Keyword, Literal, Name, Number, String, Whitespace
import common

PROPERTY = "P25"
RULE = ("one kind per language: a writer produces well-formed source of that language, knowing for every piece whether it is a comment, a string, a number or other code, and in which bracket it sits; "
        "std: top-level statements of the Python standard library, shuffled; Python's own tokenize module is the oracle.  "
        "The text is lexed with the root lexicon of the language, in half of the cases after editing steps in a Document.  "
        "Monitored: all text in a comment (string) is covered by tokens with a Comment (String) action, no token crosses its borders, no other code gets such an action, numbers, keywords and identifiers are tokens of their own with such an action, "
        "no Invalid action, and comments have the same context exactly if they are in the same bracket.  Non-trivial: three or more comments or strings; distinct by text.")
KINDS = ("C", "JavaScript", "Css", "Json", "Python", "Bash", "Toml", "Ini", "Scheme", "Xml", "Html", "Dtd", "Latex", "Tcl", "LilyPond", "Texinfo", "Troff", "Csv")
PLAN = {"quick": dict({k: 600 for k in KINDS}, std=800), "thorough": dict({k: 8000 for k in KINDS}, std=6000)}
REQUIRED = dict({"texts_" + k: 500 for k in KINDS}, comments=14000, strings=18000, keywords=10000, elements=8000, identifiers=25000, numbers=3000, brackets_compared=3000, edited=1000, std_tokens=3000)
ASSUMPTIONS = ["well-formed source, with the constructs the language definitions have rules for"]

NOISE = ["a", "b", "word", "foo bar", " ", " ", "  ", "x1", "42", "TODO", "FIXME", "see http://www.example.org/a-b?c=d ", "http://example.org/x", "www.foo.org/-", "me@example.org", "é", "\U0001d11e", "日本",
         '"', "'", "`", "/*", "*/", "//", "#", ";", "%", "{", "}", "(", ")", "[", "]", "<", ">", "<!--", "-->", "--", "-", "*", "/", "!", "#!", "!#", "$", "&", "=", ":", ",", ".", "@", "~", "|", "\\", "+",
         "'''", '"""', "if", "class", "</", "]]>", "?>", "${", "%{", "%}", "@end", "0x1", "\t"]


class W:
    """Writes pieces of text of a certain kind."""
    def __init__(self, rng):
        self.r = rng
        self.pieces = []        # (kind, text, group)
        self.block = [0]
        self.blocks = 0

    def add(self, kind, text, group=None):
        assert kind in NAMES, kind
        if text:
            self.pieces.append((kind, text, group))

    def code(self, text):
        self.add("k", text)

    def comment(self, text, here=True):
        """A comment; if here, it has a token directly in the current bracket."""
        self.add("c", text, self.block[-1] if here else None)

    def string(self, *parts):
        for p in parts:
            self.add("s", p)

    def act(self, action, text):
        """Text that is one token with an action in action."""
        self.add("a", text, action)

    def number(self, text):
        self.add("n", text)

    def enter(self):
        self.blocks += 1
        self.block.append(self.blocks)

    def leave(self):
        self.block.pop()

    def noise(self, avoid="", end="", n=8, newline=False):
        """Noise without any of the avoid characters/strings, in which end does not appear too early."""
        r = self.r
        avoid = [a for a in ([avoid] if isinstance(avoid, str) else avoid) if a]
        while True:
            out = [r.choice(NOISE) for i in range(r.randrange(n + 1))]
            if newline:
                out = [("\n" if r.random() < .15 else o) for o in out]
            text = "".join(o for o in out if not any(a in o for a in avoid))
            if any(a in text for a in avoid):
                continue
            if end and (text + end).find(end) != len(text):
                continue
            return text

    def word(self):
        return self.r.choice(("a", "b", "foo", "bar", "x1", "_y", "Name", "value", "someThing", "CONST"))

    @property
    def text(self):
        return "".join(t for k, t, g in self.pieces)


def is_invalid(action):
    return "Invalid" in repr(action)


def check(ctx, tree, pieces, stringlike=None, kind="", up=0):
    tokens = list(tree.tokens())
    stringlike = stringlike or (lambda a: a in String)
    i = 0
    pos = 0
    groups = {}
    text = "".join(p[1] for p in pieces)
    for k, t, g in pieces:
        end = pos + len(t)
        covered = pos
        first = None
        while i < len(tokens) and tokens[i].pos < end:
            tok = tokens[i]
            if tok.end > end and k != "k":
                ctx.fail("token %r (%s) at %d sticks out of the %s %r" % (tok.text[:80], tok.action, tok.pos, NAMES[k], t[:200]), what="border", kind=kind)
            if k == "c":
                if tok.action not in Comment:
                    ctx.fail("token %r at %d in the comment %r has action %s" % (tok.text[:80], tok.pos, t[:200], tok.action), what="comment", kind=kind)
            elif k == "s":
                if not stringlike(tok.action):
                    ctx.fail("token %r at %d in the string %r has action %s" % (tok.text[:80], tok.pos, t[:200], tok.action), what="string", kind=kind)
            elif k == "n":
                if tok.action not in Number:
                    ctx.fail("token %r at %d in the number %r has action %s" % (tok.text[:80], tok.pos, t, tok.action), what="number", kind=kind)
            elif k == "k":
                if tok.action in Comment or stringlike(tok.action) and tok.action not in Escape:
                    ctx.fail("token %r at %d is in the code %r but has action %s" % (tok.text[:80], tok.pos, t[:100], tok.action), what="code", kind=kind)
                if tok.end > end:
                    ctx.fail("token %r (%s) at %d in the code %r swallows text of the following comment or string" % (tok.text[:80], tok.action, tok.pos, t[-100:]), what="border", kind=kind)
            elif k == "w":
                if tok.action not in Keyword and tok.action not in Name.Constant:
                    ctx.fail("the keyword %r at %d has action %s" % (t, tok.pos, tok.action), what="keyword", kind=kind)
            elif k == "o":
                if len(tok) != len(t):
                    ctx.fail("the operator %r at %d has become %r" % (t, tok.pos, tok.text), what="operator", kind=kind)
                if tok.action in Comment or tok.action in Number or tok.action in Keyword or stringlike(tok.action):
                    ctx.fail("the operator %r at %d has action %s" % (t, tok.pos, tok.action), what="operator", kind=kind)
            elif k == "a":
                if tok.action not in g or len(tok) != len(t):
                    ctx.fail("token %r at %d has action %s, it should be %r with %s" % (tok.text, tok.pos, tok.action, t, g), what="action", kind=kind)
            elif k == "i":
                if tok.action in Keyword or tok.action in Number or tok.action in Comment or stringlike(tok.action) and tok.action not in Escape:
                    ctx.fail("the identifier %r at %d has action %s" % (t, tok.pos, tok.action), what="identifier", kind=kind)
            if k != "?" and is_invalid(tok.action):
                ctx.fail("token %r at %d has action %s in well-formed text" % (tok.text[:80], tok.pos, tok.action), what="invalid", kind=kind)
            if k in "csnwioa":
                if text[covered:tok.pos].strip():
                    ctx.fail("no token for %r in the %s %r" % (text[covered:tok.pos], NAMES[k], t[:200]), what="gap", kind=kind)
                covered = tok.end
            if first is None:
                first = tok
            i += 1
        if k in "csnwioa":
            if text[covered:end].strip():
                ctx.fail("no token for %r at the end of the %s %r" % (text[covered:end], NAMES[k], t[:200]), what="gap", kind=kind)
        if k == "c":
            ctx.count("comments")
            if g is not None:
                groups.setdefault(g, []).append((first, first.parent.parent if up else first.parent))
        elif k == "s":
            ctx.count("strings")
        elif k in "nwioa":
            ctx.count({"n": "numbers", "w": "keywords", "i": "identifiers", "o": "operators", "a": "elements"}[k])
        pos = end
    # all visible text is in a token
    pos = 0
    for tok in tokens + [None]:
        gap = text[pos:tok.pos if tok else len(text)]
        if gap.strip():
            ctx.fail("no token for the text %r at %d" % (gap.strip()[:100], pos), what="gap", kind=kind)
        pos = tok.end if tok else 0
    seen = {}
    for g, toks in groups.items():
        first, c = toks[0]
        for t, parent in toks:
            if parent is not c:
                ctx.fail("the comments at %d and %d are in the same bracket, but in the contexts %r and %r" % (first.pos, t.pos, c, parent), what="context", kind=kind)
            ctx.count("brackets_compared")
        if g == 0 and not c.is_root():
            ctx.fail("the comment at %d is not in a bracket, but in context %r" % (first.pos, c), what="context", kind=kind)
        if id(c) in seen:
            ctx.fail("the comments at %d and %d are in different brackets, but in the same context %r" % (first.pos, seen[id(c)].pos, c), what="context", kind=kind)
        seen[id(c)] = first


NAMES = {"c": "comment", "s": "string", "n": "number", "k": "code", "w": "keyword", "i": "identifier", "o": "operator", "a": "element", "?": "text"}


def merged(pieces):
    out = []
    for p in pieces:
        if out and out[-1][0] == p[0] and p[0] in "k?s":
            out[-1] = (p[0], out[-1][1] + p[1], None)
        else:
            out.append(p)
    return out


def run(ctx, name, lexicon, w, stringlike=None, up=0):
    pieces = merged(w.pieces)
    text = w.text
    r = ctx.rng
    ctx.note(language=name, text=text)
    if r.random() < .5:
        tree = parce.root(lexicon, text)
    else:
        a = r.randrange(len(text) + 1)
        b = r.choice([a, r.randrange(a, len(text) + 1)])
        doc = parce.Document(lexicon, text[:a] + r.choice(["", "x", '"', "/*", "\n", "("]) + text[b:])
        doc.get_root(True)
        n = len(doc.text()) - len(text) + b
        ctx.note(start=doc.text(), replace=[a, n])
        doc[a:n] = text[a:b]
        if doc.text() != text:
            raise RuntimeError("the edit in the workload is wrong")
        tree = doc.get_root(True)
        ctx.count("edited")
    check(ctx, tree, pieces, stringlike, name, up)
    ctx.count("texts_" + name)
    if sum(k in "cs" for k, t, g in pieces) >= 3:
        ctx.distinct(name, text)


def space(w):
    w.code(w.r.choice(["", "", " ", "  ", "\n", "\n  "]))


# ---------------------------------------------------------------- C

def c_comment(w, here=True):
    r = w.r
    if r.random() < .5:
        w.comment("//" + w.noise(("\n",)), here)
        w.code("\n")
    else:
        w.comment("/*" + w.noise("", "*/", newline=True) + "*/", here)


def c_string(w, q='"', esc=('\\"', "\\\\", "\\n", "\\t", "\\u00e9", "\\U0001d11e", "\\?"), avoid=()):
    body = "".join(w.r.choice(esc) if w.r.random() < .2 else w.noise(("\\", q, "\n") + tuple(avoid), n=3) for i in range(w.r.randrange(5)))
    w.string(q + body + q)


def c_number(w):
    w.number(w.r.choice(["0", "1", "42", "123456", "0x1F", "0Xabc", "017", "0b101", "1.5", "0.25", ".5", "1e10", "2.5E-3", "1e+5"]))


def c_item(w, depth):
    r = w.r
    k = r.random()
    if k < .2:
        c_comment(w)
    elif k < .4:
        c_string(w)
    elif k < .55:
        w.code(" ")
        c_number(w)
        w.code(r.choice([" ", ";", ", ", ")"]).replace(")", " "))
    elif k < .8 and depth > 0:
        op, cl = r.choice([("{", "}"), ("(", ")"), (" foo(", ")"), (" bar (", ")"), (" if (", ")"), (" struct x {", "}")])
        w.code(op)
        w.enter()
        for i in range(r.randrange(5)):
            c_item(w, depth - 1)
            space(w)
        w.leave()
        w.code(cl)
    elif k < .83:
        w.act(Name.Type, r.choice(["int", "char", "double", "unsigned"]))
        w.code(r.choice([" ", "\n"]))
        w.act(Name.Variable, w.word())
        w.code(r.choice([";", ", "]))
    elif k < .89:
        w.code(" ")
        w.add(*r.choice([("o", r.choice(["+", "-", "*", "/", "%", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "<<=", ">>=", "=", "?", ":", "!", "~", "^"])),
                         ("w", r.choice(["if", "else", "return", "while", "for", "do", "break", "switch", "case", "continue", "default", "goto", "typedef", "static", "const", "void", "sizeof", "inline", "_Bool", "_Atomic"])),
                         ("i", r.choice(["iff", "returned", "foo", "x1", "_y", "voids", "for_", "Inline"]))]))
        w.code(r.choice([" ", "\n"]))
    else:
        w.code(" " + r.choice(["int " + w.word(), w.word(), w.word() + " = ", "return ", "+", " * ", "a / b", "a->b", "x << 3", "struct " + w.word() + " ", "enum x ", "unsigned long ", "a % b", "!x", "&y", "a ? b : c", "\\u00e9t\\u00e9"]) + r.choice([" ", ";", ", ", "\n"]))
    space(w)


def case_C(ctx):
    w = W(ctx.rng)
    r = w.r
    for i in range(r.randrange(1, 10)):
        if r.random() < .15:
            w.code("\n#")
            if r.random() < .5:
                w.code("include ")
                w.string('"' + w.word() + '.h"')
            else:
                w.code("include ")
                w.string("<" + w.word() + "/x.h>")
            w.code("\n")
        c_item(w, 3)
    w.code("\n")
    c_comment(w)
    run(ctx, "C", lang("C"), w)


def lang(name):
    for q, root in common.languages():
        if root is not None and q.rsplit(".", 1)[0].endswith("." + name):
            return root
    raise LookupError(name)


# ---------------------------------------------------------------- JavaScript

JS_ESC = ("\\'", '\\"', "\\\\", "\\n", "\\0", "\\x41", "\\u00e9", "\\u{1d11e}")


def js_number(w):
    w.number(w.r.choice(["0", "1", "42", "0x1F", "0o17", "0b101", "10n", "1.5", ".5", "5.", "1e10", "2.5e-3", "1E+5", "1_000", "0xff_ff"]))


def js_template(w, depth):
    r = w.r
    w.string("`")
    for i in range(r.randrange(4)):
        if r.random() < .4 and depth > 0:
            w.code("${")
            w.enter()
            for j in range(r.randrange(3)):
                js_item(w, depth - 1)
            w.leave()
            w.code("}")
        else:
            w.string(r.choice(JS_ESC + ("\\`", "\\$")) if r.random() < .2 else w.noise(("\\", "`", "$"), n=4, newline=True))
    w.string("`")


def js_item(w, depth):
    r = w.r
    k = r.random()
    if k < .2:
        c_comment(w)
    elif k < .35:
        c_string(w, r.choice("'\""), JS_ESC)
    elif k < .42:
        js_template(w, depth)
    elif k < .55:
        w.code(" ")
        js_number(w)
        w.code(r.choice([" ", ";", ", ", " "]))
    elif k < .8 and depth > 0:
        op, cl = r.choice([("{", "}"), ("(", ")"), ("[", "]"), (" foo(", ")"), (" bar [", "]"), (" if (", ")"), (".method(", ")"), (" function f (", ")")])
        w.code(op)
        w.enter()
        for i in range(r.randrange(5)):
            js_item(w, depth - 1)
            space(w)
        w.leave()
        w.code(cl)
    elif k < .82:
        w.code(" x = ")
        w.act(Literal.Regexp, r.choice(["/ab'c\\/[/\"]d/g", "/a/", "/[^/]+\\s*/i", "/\\\\/", "/['\"`]/"]))
        w.code(r.choice([";", "\n"]))
    elif k < .88:
        w.code(" ")
        w.add(*r.choice([("o", r.choice(["+", "-", "*", "%", "<<", ">>", ">>>", "<=", ">=", "==", "!=", "===", "!==", "&&", "||", "**", "+=", "-=", "*=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>=", "=", "?", ":", "!", "~", "^"])),
                         ("w", r.choice(["if", "else", "return", "while", "for", "do", "break", "switch", "case", "continue", "default", "typeof", "throw", "try", "catch", "delete", "in", "instanceof", "this", "true", "null"])),
                         ("i", r.choice(["iff", "returned", "foo", "x1", "_y", "$x", "for_", "Inline", "nullable"]))]))
        w.code(r.choice([" ", "\n"]))
    else:
        w.code(" " + r.choice(["let " + w.word(), "var x", w.word(), w.word() + " = ", "return ", "+", " * ", "a.b", "x << 3", "new Foo", "!x", "a => b", "a === b", "true", "a ? b : c", "x = /ab'c\\/[/\"]d/g;", "\\u00e9t"]) + r.choice([" ", ";", ", ", "\n"]))
    space(w)


def case_JavaScript(ctx):
    w = W(ctx.rng)
    for i in range(w.r.randrange(1, 10)):
        js_item(w, 3)
    w.code("\n")
    c_comment(w)
    run(ctx, "JavaScript", lang("JavaScript"), w)


# ---------------------------------------------------------------- Css

def css_comment(w, here=True, avoid=()):
    w.comment("/*" + w.noise(avoid, "*/", newline=True) + "*/", here)


CSS_ESC = ('\\"', "\\'", "\\\\", "\\41 ", "\\00e9", "\\\n")


def css_value(w, depth=1):
    r = w.r
    for i in range(r.randrange(1, 4)):
        k = r.random()
        w.code(" ")
        if k < .25:
            c_string(w, r.choice("'\""), CSS_ESC)
        elif k < .5:
            w.number(r.choice(["0", "1", "1.5", ".5", "-3", "+4", "1e3", "12"]))
            w.code(r.choice(["", "px", "em", "%"]))
        elif k < .6:
            css_comment(w, False)
        elif k < .7 and depth:
            w.code(r.choice(["calc(", "rgb(", "foo(", "url("]))
            if w.pieces[-1][1] == "url(":
                c_string(w, r.choice("'\""), CSS_ESC)
            else:
                css_value(w, depth - 1)
            w.code(")")
        else:
            if r.random() < .5:
                w.act(Literal.Color, r.choice(["red", "#fff", "#a0b1c2", "transparent", "blue"]))
            else:
                w.act(Name.Symbol, r.choice(["solid", "x-y", "Arial", "redder"]))


def css_rule(w):
    r = w.r
    for i in range(r.randrange(1, 4)):
        if i:
            w.code(r.choice([", ", " > ", " + ", " "]))
        pre, sel, act = r.choice([("", "p", Name.Tag), ("", "h1", Name.Tag), (".", "cls", Name.Class), ("#", "id", Name.Identifier), ("a:", "hover", Name.Class.Pseudo), ("li::", "before", Name.Tag.Pseudo),
                                  ("div.", "x-y", Name.Class), ("a:", "not", Name.Class.Pseudo), ("x|", "y", Name.Tag), ("*.", "b", Name.Class)])
        w.code(pre)
        w.act(act, sel)
        if sel == "not":
            w.code("(")
            w.code(".")
            w.act(Name.Class, "b")
            w.code(", ")
            w.act(Name.Tag, "p")
            w.code(")")
        if r.random() < .2:
            w.code("[attr=")
            c_string(w, r.choice("'\""), CSS_ESC)
            w.code("]")
        if r.random() < .1:
            w.code(" ")
            css_comment(w, False)
    w.code(r.choice([" ", ""]) + "{")
    w.enter()
    for i in range(r.randrange(4)):
        space(w)
        if r.random() < .3:
            css_comment(w)
            space(w)
        w.act(Name.Property, r.choice(["color", "font-family", "-x-y", "margin"]))
        w.code(r.choice([":", " : "]))
        css_value(w)
        w.code(r.choice([";", " !important;", ";\n"]))
    space(w)
    if r.random() < .3:
        css_comment(w)
    w.leave()
    w.code("}")


def css_sheet(w, nested=True):
    r = w.r
    for i in range(r.randrange(1, 6)):
        k = r.random()
        if k < .25:
            css_comment(w)
        elif k < .35:
            w.code("@import ")
            c_string(w, r.choice("'\""), CSS_ESC)
            w.code(" screen;")
        elif k < .45:
            w.code("@font-face { x-y:")
            css_value(w, 0)
            w.code(";}")
        elif k < .55 and nested:
            w.code("@media screen {")
            w.enter()
            css_sheet(w, False)
            w.leave()
            w.code("}")
        else:
            css_rule(w)
        space(w)


def case_Css(ctx):
    w = W(ctx.rng)
    css_sheet(w)
    css_comment(w)
    run(ctx, "Css", lang("Css"), w)


# ---------------------------------------------------------------- Json

def json_value(w, depth):
    r = w.r
    k = r.random()
    esc = ('\\"', "\\\\", "\\/", "\\n", "\\u00e9", "\\b")
    if k < .35:
        c_string(w, '"', esc)
    elif k < .55:
        w.number(r.choice(["0", "-1", "42", "1.5", "1e10", "2.5E-3", "-0.5", "1e+5"]))
    elif k < .85 and depth:
        if r.random() < .5:
            w.code("[")
            for i in range(r.randrange(4)):
                if i:
                    w.code(",")
                space(w)
                json_value(w, depth - 1)
                space(w)
            w.code("]")
        else:
            w.code("{")
            for i in range(r.randrange(4)):
                if i:
                    w.code(",")
                space(w)
                c_string(w, '"', esc)
                w.code(":")
                space(w)
                json_value(w, depth - 1)
            w.code("}")
    else:
        w.act(Name.Constant, r.choice(["true", "false", "null"]))


def case_Json(ctx):
    w = W(ctx.rng)
    w.code("[")
    for i in range(w.r.randrange(1, 5)):
        if i:
            w.code(",")
        json_value(w, 4)
    w.code("]")
    run(ctx, "Json", lang("Json"), w)


# ---------------------------------------------------------------- Python

PY_ESC = ("\\'", '\\"', "\\\\", "\\n", "\\x41", "\\101", "\\u00e9", "\\N{BULLET}", "\\U0001d11e", "\\\n", "\\t")


def py_string(w, fstring=True):
    r = w.r
    pre = r.choice(["", "", "", "r", "R", "u", "f", "b", "B", "rb", "bR", "fr", "Rf", "rf"])
    f = "f" in pre.lower()
    b = "b" in pre.lower()
    raw = "r" in pre.lower()
    if f and not fstring:
        pre, f, raw = "", False, False
    q = r.choice(['"', "'", '"""', "'''"])
    avoid = ["\\", q[0]] + (["{", "}"] if f else []) + ([] if len(q) == 3 else ["\n"])
    w.string(pre + q)
    for i in range(r.randrange(4)):
        if f and r.random() < .3:
            w.code("{")
            w.code(w.word() + r.choice(["", "", "!r", ".x", "[0]", "(1)", " != 1", "[1:2]", "="]))
            if r.random() < .4:
                o = "'" if q[0] == '"' else '"'
                w.code(":" + r.choice([">10", "#x", "#06x", "[>5", "(^8", "%Y-%m-%d", o + "^10", ",", "{w}", "{w}.{p}", "*^{n}", "{w[0]}d", "{f(w)}"]))
            w.code("}")
        elif r.random() < .25:
            if raw:
                e = r.choice(["\\\\", "\\n", "\\d", "\\" + q[0]])
            elif b:
                e = r.choice(["\\'", '\\"', "\\\\", "\\n", "\\x41", "\\101", "\\\n"])
            else:
                e = r.choice(PY_ESC[:7] if f else PY_ESC)
            w.string(e)
        else:
            t = w.noise(avoid, n=4, newline=len(q) == 3)
            if b:
                t = t.encode("ascii", "ignore").decode()
            w.string(t)
    w.string(q)


def py_number(w):
    w.number(w.r.choice(["0", "1", "42", "0x1F", "0o17", "0b101", "1.5", ".5", "5.", "1e10", "2.5e-3", "1E+5", "1_000", "0xff_ff", "3j", "1e5j", "1.5J"]))


def py_expr(w, depth, top):
    """An expression; top: not in brackets, so no newlines."""
    r = w.r
    n = r.randrange(1, 4)
    for i in range(n):
        if i:
            w.code(r.choice([" + ", " and ", " * ", " == ", " % ", " if x else "]))
        k = r.random()
        if k < .3:
            py_string(w)
            if r.random() < .15:
                w.code(r.choice([".join(x)", "[1]", ".format(a)", " % a"]))
        elif k < .45:
            py_number(w)
        elif k < .75 and depth:
            op, cl = r.choice([("[", "]"), ("(", ")"), ("{", "}"), ("foo(", ")"), ("bar[", "]"), ("a.b(", ")"), ("Cls (", ")")])
            w.code(op)
            w.enter()
            for j in range(r.randrange(4)):
                if j:
                    w.code(r.choice([",", ", ", " ,"]))
                if r.random() < .3:
                    space(w)
                    w.comment("#" + w.noise("\n"), False)
                    w.code("\n   ")
                py_expr(w, depth - 1, False)
                if r.random() < .2:
                    space(w)
            w.leave()
            w.code(cl)
        else:
            w.code(r.choice(["a", "b.c", "x1", "self.x", "None", "True", "Foo", "not x", "lambda y: y", "..."]))


def case_Python(ctx):
    w = W(ctx.rng)
    r = w.r
    level = 0
    for i in range(r.randrange(1, 8)):
        w.code("    " * level)
        k = r.random()
        end = ""
        if k < .2:
            w.comment("#" + w.noise("\n"))
            w.code("\n")
            continue
        elif k < .4:
            w.code(r.choice(["def foo(a, b=", "class Foo(", "async def x(", "def y(a: int = "]))
            py_expr(w, 1, False)
            w.code(r.choice(["):", ") :"]))
            end = "block"
        elif k < .5:
            w.code("@" + r.choice(["deco", "a.b", "foo("]))
            if w.pieces[-1][1].endswith("("):
                py_expr(w, 1, False)
                w.code(")")
            w.code("\n" + "    " * level + "def f():")
            end = "block"
        elif k < .65:
            w.code(r.choice(["if ", "while ", "with "]))
            py_expr(w, 2, True)
            w.code(":")
            end = "block"
        else:
            w.code(r.choice(["x = ", "return ", "Y = ", "assert ", "a.b = ", "x += ", ""]))
            py_expr(w, 3, True)
        if r.random() < .3:
            w.code("  ")
            w.comment("#" + w.noise("\n"), False)
        w.code("\n")
        if end:
            level += 1
        elif level and r.random() < .4:
            level = r.randrange(level + 1)
    w.code("\n\n")
    w.comment("#" + w.noise("\n"))
    run(ctx, "Python", lang("Python"), w, py_stringlike)


def py_stringlike(a):
    return a in String or a in Data.Bytes or a in Escape


_std = None


def statements():
    """Top-level statements of modules in the standard library."""
    global _std
    if _std is None:
        _std = []
        r = random.Random(1)
        files = sorted(glob.glob(sysconfig.get_path("stdlib") + "/*.py") + glob.glob(sysconfig.get_path("stdlib") + "/*/*.py"))
        files = [f for f in files if "site-packages" not in f and "dist-packages" not in f]
        r.shuffle(files)
        for f in files[:120]:
            try:
                src = open(f, encoding="utf-8").read()
                tree = ast.parse(src)
            except (OSError, ValueError, SyntaxError):
                continue
            lines = src.split("\n")
            last = 0
            for node in tree.body:
                s = "\n".join(lines[last:node.end_lineno]) + "\n"
                last = node.end_lineno
                if 10 < len(s) < 6000 and ";" not in lines[node.end_lineno - 1]:
                    try:
                        ast.parse(s)
                    except SyntaxError:
                        continue
                    _std.append(s)
        r.shuffle(_std)
    return _std


def py_pieces(src):
    lines = [0]
    for line in src.split("\n"):
        lines.append(lines[-1] + len(line) + 1)
    pieces = []
    pos = 0
    depth = 0
    fdepth = 0
    fstart = 0
    names = tokenize.tok_name
    for tok in tokenize.generate_tokens(io.StringIO(src).readline):
        a = lines[tok.start[0] - 1] + tok.start[1]
        b = lines[tok.end[0] - 1] + tok.end[1]
        name = names[tok.type]
        if name in ("FSTRING_START", "TSTRING_START"):
            if not fdepth:
                fstart = a
            fdepth += 1
            continue
        if fdepth:
            if name in ("FSTRING_END", "TSTRING_END"):
                fdepth -= 1
                if not fdepth:
                    pieces.append(("k", src[pos:fstart], None))
                    pieces.append(("?", src[fstart:b], None))
                    pos = b
            continue
        kind = {"STRING": "s", "COMMENT": "c", "NUMBER": "n"}.get(name)
        if name == "NAME":
            kind = "w" if keyword.iskeyword(tok.string) else "i"
            if kind == "w" and re.match(r"\s*=(?!=)", src[b:]):
                kind = None     # a: None = 1
        elif name == "OP" and len(tok.string) > 1:
            kind = "o"
        if kind:
            pieces.append(("k", src[pos:a], None))
            pieces.append((kind, src[a:b], None))
            pos = b
    pieces.append(("k", src[pos:], None))
    return [p for p in pieces if p[1]]


def case_std(ctx):
    r = ctx.rng
    stm = statements()
    src = "".join(r.choice(stm) for i in range(r.randrange(1, 5)))
    w = W(r)
    w.pieces = py_pieces(src)
    ctx.count("std_tokens", len(w.pieces))
    ctx.note(text=src)
    run(ctx, "Python", lang("Python"), w, py_stringlike)


# ---------------------------------------------------------------- Bash

def bash_word(w, depth, bt=True):
    """An argument; bt: backticks may be used."""
    r = w.r
    k = r.random()
    if k < .2:
        c_string(w, "'", ("x",), ("'",)) if r.random() < .5 else w.string("'" + w.noise("'", newline=True) + "'")
    elif k < .45:
        w.string('"')
        for i in range(r.randrange(4)):
            j = r.random()
            if j < .2:
                w.string(r.choice(['\\"', "\\\\", "\\$", "\\`"]))
            elif j < .4:
                w.code(r.choice(["${x}", "${foo}", "$1", "$?", "${a:-b}", "$((1+x))"]))
            elif j < .5 and depth:
                w.code("$(")
                bash_command(w, depth - 1, bt)
                w.code(")")
            else:
                w.string(w.noise(("\\", '"', "$", "`"), newline=True, n=4))
        w.string('"')
    elif k < .55:
        w.string("$'")
        w.string("".join(r.choice(["\\'", "\\n", "\\\\", "\\x41"]) if r.random() < .3 else w.noise(("'", "\\"), n=3) for i in range(r.randrange(4))))
        w.string("'")
    elif k < .65 and depth:
        w.code(r.choice(["$(", "`"]) if bt else "$(")
        q = w.pieces[-1][1]
        bash_command(w, depth - 1, bt and q != "`")
        w.code("`" if q == "`" else ")")
    elif k < .75:
        w.act(*r.choice([(Name.Variable, "$x"), (Name.Variable.Special, "$#"), (Name.Variable.Special, "$?"), (Escape, "\\#"), (Escape, "\\'"), (Escape, '\\"')]))
    else:
        w.code(r.choice(["foo", "-x", "--opt", "*.txt", "a/b", "$x", "${a}", "$#", "a#b", "1", "x=y", "\\#", "\\'", '\\"', ">out", "2>&1", "</dev/null", "{a,b}c", "$((1+2))"]))


def bash_command(w, depth, bt=True):
    r = w.r
    w.code(r.choice(["echo", "ls", "grep", "mycmd", "./run.sh", "foo-bar", "cd", "printf"]))
    for i in range(r.randrange(4)):
        w.code(" ")
        if r.random() < .15:
            w.act(Name.Property, r.choice(["--opt", "-x"]))
        else:
            bash_word(w, depth, bt)


def bash_line(w, depth, block):
    """One line with a newline at the end."""
    r = w.r
    k = r.random()
    if k < .2:
        w.comment("#" + w.noise("\n"), True)
    elif k < .3:
        w.code(r.choice(["x", "FOO", "_a"]) + "=")
        bash_word(w, depth) if r.random() < .5 else w.code("1")
    elif k < .4 and depth:
        w.code("{\n")
        w.enter()
        for i in range(r.randrange(3)):
            bash_line(w, depth - 1, True)
        w.leave()
        w.code("}")
    elif k < .5 and depth:
        w.code("(")
        bash_command(w, depth - 1)
        w.code(")")
    elif k < .6 and not block:
        eof = r.choice(["EOF", "END"])
        form = r.choice(["<<%s", "<<-%s", "<<'%s'", '<<"%s"', "<< %s"])
        w.code("cat ")
        if "'" in form or '"' in form:
            w.add("?", form % eof)
            w.code("\n" + w.noise((eof,), newline=True))
        else:
            w.code(form % eof + "\n")
            w.code(w.noise(("\\", "$", "`", eof), newline=True))
        w.code("\n" + eof)
    else:
        bash_command(w, depth)
        if r.random() < .3:
            w.code(r.choice([" | ", "; ", " && ", " || "]))
            bash_command(w, depth)
        if r.random() < .3:
            w.code(" ")
            w.comment("#" + w.noise("\n"), False)
    w.code("\n")


def case_Bash(ctx):
    w = W(ctx.rng)
    r = w.r
    if r.random() < .2:
        w.comment("#!/bin/bash", False)
        w.code("\n")
    for i in range(r.randrange(1, 9)):
        bash_line(w, 2, False)
    w.comment("#" + w.noise("\n"))
    run(ctx, "Bash", lang("Bash"), w)


# ---------------------------------------------------------------- Toml

TOML_ESC = ('\\"', "\\\\", "\\n", "\\u00e9", "\\t")


def toml_comment(w):
    w.comment("#" + w.noise("\n"), False)


def toml_value(w, depth):
    r = w.r
    k = r.random()
    if k < .2:
        c_string(w, '"', TOML_ESC)
    elif k < .3:
        w.string("'" + w.noise(("'", "\n")) + "'")
    elif k < .37:
        w.string('"""' + "".join(r.choice(TOML_ESC) if r.random() < .2 else w.noise(('"', "\\"), newline=True, n=4) for i in range(3)) + '"""')
    elif k < .45:
        t = w.noise(("'",), newline=True)
        w.string("'''" + t + "'''")
    elif k < .6:
        w.number(r.choice(["0", "42", "-17", "+99", "1_000", "0xDEAD_beef", "0o755", "0b1101", "3.14", "-0.01", "5e+22", "1e6", "-2E-2", "6.626e-34", "inf", "-inf", "nan"]))
    elif k < .75 and depth:
        w.code("[")
        for i in range(r.randrange(4)):
            if i:
                w.code(",")
            space(w)
            if r.random() < .2:
                toml_comment(w)
                w.code("\n")
            toml_value(w, depth - 1)
            space(w)
        w.code("]")
    elif k < .85 and depth:
        w.code("{ ")
        for i in range(r.randrange(3)):
            if i:
                w.code(", ")
            if r.random() < .8:
                w.code(r.choice(["a", "b-c", "x.y"]))
            else:
                w.string("'" + w.noise(("'", "\n")) + "'")
            w.code(" = ")
            toml_value(w, depth - 1)
        w.code(" }")
    else:
        if r.random() < .5:
            w.act(Name.Constant, r.choice(["true", "false"]))
        else:
            w.act(Literal.Timestamp, r.choice(["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27 00:32:00.999-07:00", "1979-05-27t07:32:00", "07:32:00.12"]))


def case_Toml(ctx):
    w = W(ctx.rng)
    r = w.r
    for i in range(r.randrange(1, 8)):
        k = r.random()
        if k < .2:
            w.comment("#" + w.noise("\n"))
        elif k < .4:
            o, c = r.choice([("[", "]"), ("[[", "]]")])
            w.code(o)
            w.act(Name.Namespace, r.choice(["a", "b-c", "x1"]))
            if r.random() < .2:
                w.code(r.choice([".", " . "]))
                c_string(w, '"', TOML_ESC) if r.random() < .5 else w.string("'" + w.noise(("'", "\n")) + "'")
            w.code(c)
            if r.random() < .3:
                w.code(" ")
                w.comment("#" + w.noise("\n"))
        else:
            if r.random() < .15:
                c_string(w, '"', TOML_ESC)
            elif r.random() < .15:
                w.string("'" + w.noise(("'", "\n")) + "'")
            else:
                w.act(Name.Variable, r.choice(["a", "b-c", "xy", "1234"]))
                if r.random() < .2:
                    w.code(".")
                    w.act(Name.Variable, r.choice(["a", "b-c", "xy", "1234"]))
            w.code(r.choice([" = ", "=", "  =  "]))
            toml_value(w, 2)
            if r.random() < .3:
                w.code(" ")
                toml_comment(w)
        w.code("\n")
    w.comment("#" + w.noise("\n"))
    run(ctx, "Toml", lang("Toml"), w, lambda a: a in String or a in Whitespace)


# ---------------------------------------------------------------- Ini

def case_Ini(ctx):
    w = W(ctx.rng)
    r = w.r
    for i in range(r.randrange(1, 9)):
        k = r.random()
        if k < .35:
            w.comment(r.choice("#;") + w.noise("\n"))
        elif k < .5:
            w.code("[")
            w.act(Name.Namespace, "s" + w.noise(("[", "]", "\n", "\\"), n=4))
            w.code("]")
        else:
            w.code(w.word() + r.choice(["=", " = "]) + w.noise(("[", "\\", "\n", ";", "=", "#", ":")) + r.choice(["", "\\\\", "\\;", "\\#"]))
            if r.random() < .3:
                w.code(" ")
                w.comment(r.choice("#;") + w.noise("\n"))
        w.code("\n")
    w.comment("#" + w.noise("\n"))
    run(ctx, "Ini", lang("Ini"), w)


# ---------------------------------------------------------------- Scheme

SCM_ESC = ('\\"', "\\\\", "\\n", "\\t")


def scheme_item(w, depth, lily=False):
    r = w.r
    k = r.random()
    avoid = ("\\",) + (("#}", "#{") if lily else ())
    if k < .2:
        if r.random() < .5:
            w.comment(";" + w.noise("\n"))
            w.code("\n")
        else:
            w.comment("#!" + w.noise("", "!#", newline=True) + "!#")
            w.code(" ")
    elif k < .4:
        w.string('"' + "".join(r.choice(SCM_ESC) if r.random() < .2 else w.noise(('"', "\\"), newline=True, n=3) for i in range(r.randrange(4))) + '"')
        w.code(" ")
    elif k < .5:
        w.number(r.choice(["0", "1", "42", "1.5", ".5"]))
        w.code(r.choice([" ", "\n"]))
    elif k < .8 and depth:
        w.code(r.choice(["(", "'(", "#(", "`(", ",@("]))
        w.enter()
        for i in range(r.randrange(5)):
            scheme_item(w, depth - 1, lily)
        w.leave()
        w.code(")")
        space(w)
    else:
        w.code(r.choice(["define", "lambda", "x", "a->b", "list?", "set!", "#t", "#f", "'sym", "+", "...", "#\\a", "#\\;", '#\\"', "#\\(", "#\\space", "if", "<="]) + r.choice([" ", "\n"]))


def case_Scheme(ctx):
    w = W(ctx.rng)
    for i in range(w.r.randrange(1, 10)):
        scheme_item(w, 4)
    w.code("\n")
    w.comment(";" + w.noise("\n"))
    run(ctx, "Scheme", lang("Scheme"), w, up=1)


# ---------------------------------------------------------------- Xml, Html, Dtd

def xml_comment(w, here=True):
    w.comment("<!--" + w.noise("--", "--", newline=True) + "-->", here)


def xml_attrs(w):
    r = w.r
    for i in range(r.randrange(3)):
        w.code(" ")
        w.act(Name.Attribute, r.choice(["a", "b-c", "x:y", "class"]))
        w.code(r.choice(["=", " = "]))
        q = r.choice("'\"")
        w.string(q + "".join(r.choice(["&amp;", "&#233;", "&quot;"]) if r.random() < .2 else w.noise((q, "<", "&"), newline=True, n=3) for i in range(r.randrange(3))) + q)


def xml_content(w, depth):
    r = w.r
    for i in range(r.randrange(6)):
        k = r.random()
        if k < .25:
            xml_comment(w)
        elif k < .35:
            w.code("<![CDATA[" + w.noise("", "]]>", newline=True) + "]]>")
        elif k < .45:
            w.code("<?" + r.choice(["php", "foo"]) + " " + w.noise(("?", "'", '"', "&", "="), n=4) + "?>")
        elif k < .55:
            w.act(Escape, r.choice(["&amp;", "&lt;", "&#160;", "&x;"]))
        elif k < .8 and depth:
            tag = r.choice(["a", "p", "x:y", "Foo", "b-c"])
            w.code("<")
            w.act(Name.Tag, tag)
            xml_attrs(w)
            j = r.random()
            if j < .3:
                w.code(r.choice(["/>", " />"]))
            else:
                w.code(r.choice([">", " >"]))
                w.enter()
                xml_content(w, depth - 1)
                w.leave()
                w.code("</" + tag + r.choice([">", " >"]))
        else:
            w.code(w.noise(("<", "&"), newline=True))


def dtd_items(w, internal=False):
    r = w.r
    for i in range(r.randrange(5)):
        k = r.random()
        w.code("\n")
        if k < .3:
            xml_comment(w)
        elif k < .5:
            w.code("<!ENTITY " + r.choice(["", "% "]) + "foo ")
            q = r.choice("'\"")
            w.string(q + w.noise((q, "%", "&"), n=4) + q)
            w.code(">")
        elif k < .6:
            w.code("<!ENTITY bar SYSTEM ")
            w.string('"http://example.org/x.dtd"')
            w.code(">")
        elif k < .8:
            w.code("<!ELEMENT foo " + r.choice(["EMPTY", "ANY", "(#PCDATA)", "(a,b?,(c|d)*)", "(#PCDATA|a|b)*"]) + ">")
        elif k < .95:
            w.code("<!ATTLIST foo " + r.choice(["id ID #REQUIRED", "x CDATA #IMPLIED", "y (a|b|c) "]))
            if w.pieces[-1][1].endswith(") "):
                w.string('"a"')
            w.code(">")
        else:
            w.code("<!NOTATION gif PUBLIC ")
            w.string('"gif viewer"')
            w.code(">")


def xml_doc(w):
    r = w.r
    if r.random() < .4:
        w.code("<?xml version=")
        w.string('"1.0"')
        w.code(r.choice(["?>", " ?>\n"]))
    if r.random() < .3:
        w.code("<!DOCTYPE foo ")
        if r.random() < .5:
            w.code("SYSTEM ")
            w.string('"foo.dtd"')
        if r.random() < .6:
            w.code(" [")
            w.enter()
            dtd_items(w)
            w.leave()
            w.code("\n]")
        w.code(">\n")


def case_Xml(ctx):
    w = W(ctx.rng)
    xml_doc(w)
    xml_content(w, 4)
    w.code("\n")
    xml_comment(w)
    run(ctx, "Xml", lang(w.r.choice(["Xml", "Xml", "DocBook", "Xslt"])), w)


def case_Dtd(ctx):
    w = W(ctx.rng)
    dtd_items(w)
    dtd_items(w)
    w.code("\n")
    xml_comment(w)
    run(ctx, "Dtd", lang("Dtd"), w)


def html_content(w, depth):
    r = w.r
    for i in range(r.randrange(1, 5)):
        k = r.random()
        if k < .2:
            xml_comment(w)
        elif k < .3:
            w.code(r.choice(["<br>", "<br/>", "<hr />", "<img src=", "<BR>"]))
            if w.pieces[-1][1].endswith("="):
                w.string('"' + w.noise(('"', "<", "&"), n=3) + '"')
                w.code(r.choice([">", "/>"]))
        elif k < .4:
            w.code(r.choice(["<script>", "<SCRIPT>"]) if r.random() < .6 else "<script type=")
            if w.pieces[-1][1].endswith("="):
                w.string('"text/javascript"')
                w.code(">")
            w.enter()
            n = len(w.pieces)
            for j in range(r.randrange(3)):
                js_item(w, 2)
            if "</" in "".join(p[1] for p in w.pieces[n:]):
                del w.pieces[n:]
            w.leave()
            w.code("</script>")
        elif k < .5:
            w.code("<style>")
            w.enter()
            n = len(w.pieces)
            css_sheet(w, True)
            if "</" in "".join(p[1] for p in w.pieces[n:]):
                del w.pieces[n:]
            w.leave()
            w.code("</style>")
        elif k < .8 and depth:
            tag = r.choice(["p", "div", "b", "UL", "h1"])
            w.code("<")
            w.act(Name.Tag, tag)
            xml_attrs(w)
            w.code(">")
            w.enter()
            html_content(w, depth - 1)
            w.leave()
            w.code("</" + tag + ">")
        else:
            w.code(w.noise(("<", "&"), newline=True))


def case_Html(ctx):
    w = W(ctx.rng)
    if w.r.random() < .4:
        w.code("<!DOCTYPE html>\n")
    html_content(w, 4)
    w.code("\n")
    xml_comment(w)
    run(ctx, "Html", lang("Html"), w)


# ---------------------------------------------------------------- Latex

def latex_comment(w):
    w.comment("%" + w.noise("\n"))
    w.code("\n")


def latex_item(w, depth, math=False):
    r = w.r
    k = r.random()
    if k < .25:
        latex_comment(w)
    elif k < .5 and depth:
        forms = [("{", "}"), ("\\textbf{", "}"), ("$", "$"), ("\\[", "\\]"), ("\\(", "\\)"), ("\\begin{quote}", "\\end{quote}"), ("\\begin{equation}", "\\end{equation}"), ("$$", "$$")]
        op, cl = r.choice(forms[:2] if math else forms)
        w.code(op)
        w.enter()
        m = math or "$" in op or op in ("\\[", "\\(") or "equation" in op
        w.code(" ")
        for i in range(r.randrange(4)):
            latex_item(w, depth - 1, m)
        w.leave()
        w.code(" " + cl)
    elif k < .6 and math:
        w.code(" ")
        w.number(r.choice(["1", "42", "1.5"]))
        w.code(" ")
    elif math:
        w.code(r.choice(["x", "\\alpha ", "a_1", "x^2", " = ", "+", "\\%", "f(x)", "\\{", "\\}"]))
    elif k < .7:
        w.act(Name.Command, r.choice(["\\LaTeX", "\\section", "\\é"]))
        w.code(" ")
    elif k < .8:
        w.act(Escape, r.choice(["\\%", "\\$", "\\{", "\\}", "\\&", "\\#"]))
    else:
        w.code(r.choice(["text ", "\\%", "\\{", "\\}", "\\$", "a ~ b", "\\\\\n", "\\'{e}", "\\item[x] ", "\\section", "--- ", "\\#", "``quoted''", "\\& "]))


def case_Latex(ctx):
    w = W(ctx.rng)
    for i in range(w.r.randrange(1, 10)):
        latex_item(w, 3)
    latex_comment(w)
    run(ctx, "Latex", lang("Latex"), w, up=1)


# ---------------------------------------------------------------- Tcl

def tcl_word(w, depth):
    r = w.r
    k = r.random()
    if k < .3:
        w.string('"')
        for i in range(r.randrange(3)):
            if r.random() < .3 and depth:
                w.code("[")
                tcl_command(w, depth - 1)
                w.code("]")
            else:
                w.string("".join(r.choice(["a", "b", "word", "TODO", "é", "?", "!", "-", "+", "*", "/", "=", ",", ".", "~", "_", "@", "<", ">"]) for i in range(r.randrange(5))))
        w.string('"')
    elif k < .45:
        w.number(r.choice(["0", "1", "42", "0x1F", "1.5", "-3", "1e5"]))
    elif k < .6 and depth:
        w.code("[")
        tcl_command(w, depth - 1)
        w.code("]")
    else:
        w.code(r.choice(["$x", "${a}", "foo", "$a(b)", "-opt", "\\n", "\\[", "a.b", "::ns::x"]))


def tcl_command(w, depth):
    r = w.r
    w.code(r.choice(["set x", "puts", "expr", "foo", "proc a", "if"]))
    for i in range(r.randrange(4)):
        w.code(" ")
        tcl_word(w, depth)


def tcl_line(w, depth):
    r = w.r
    k = r.random()
    if k < .25:
        w.comment("#" + w.noise("\n"))
    elif k < .5 and depth:
        w.code("proc a {} {\n")
        w.enter()
        for i in range(r.randrange(4)):
            tcl_line(w, depth - 1)
        w.leave()
        w.code("}")
    else:
        tcl_command(w, depth)
        if r.random() < .2:
            w.code(" ;")
            w.comment("#" + w.noise("\n"))
    w.code("\n")


def case_Tcl(ctx):
    w = W(ctx.rng)
    for i in range(w.r.randrange(1, 9)):
        tcl_line(w, 3)
    w.comment("#" + w.noise("\n"))
    run(ctx, "Tcl", lang("Tcl"), w)


# ---------------------------------------------------------------- LilyPond

LY_ESC = ('\\"', "\\\\")


def ly_comment(w):
    r = w.r
    if r.random() < .5:
        t = w.noise("\n")
        w.comment("%" + (" " if t.startswith(("{",)) else "") + t, False)
        w.code("\n")
    else:
        w.comment("%{" + w.noise("", "%}", newline=True) + "%}", False)
        w.code(" ")


def ly_string(w):
    w.string('"' + "".join(w.r.choice(LY_ESC) if w.r.random() < .2 else w.noise(('"', "\\"), newline=True, n=3) for i in range(w.r.randrange(4))) + '"')


def ly_item(w, depth):
    r = w.r
    k = r.random()
    if k < .25:
        ly_comment(w)
    elif k < .35:
        w.code(r.choice(["c4^", "\\mark ", "\\tempo ", "d-"]))
        ly_string(w)
        w.code(" ")
    elif k < .65 and depth:
        op, cl = r.choice([("{", "}"), ("<<", ">>"), ("\\relative c' {", "}"), ("\\new Staff {", "}"), ("\\new Staff \\with {", "} {}"), ("\\transpose c d {", "}")])
        w.code(op + " ")
        for i in range(r.randrange(5)):
            ly_item(w, depth - 1)
        w.code(" " + cl + " ")
    elif k < .72:
        w.code("\\override X.y = #")
        w.code("(list ")
        for i in range(r.randrange(3)):
            if r.random() < .5:
                w.string('"' + w.noise(('"', "\\", "#{", "#}"), n=3) + '"')
                w.code(" ")
            else:
                w.comment(";" + w.noise("\n"), False)
                w.code("\n")
        w.code(")\n")
    else:
        w.code(r.choice(["c4 ", "d8 e f ", "<c e g>2 ", "r1 ", "c4( d) ", "\\time 3/4 ", "| ", "~ ", "c16[ d] ", "\\clef treble ", "\\key g \\major ", "c\\p ", "s1*3/4 "]))


def case_LilyPond(ctx):
    w = W(ctx.rng)
    r = w.r
    w.code("\\version ")
    ly_string(w)
    w.code("\n")
    for i in range(r.randrange(1, 8)):
        k = r.random()
        if k < .2:
            w.code("\\header {\n  title = ")
            ly_string(w)
            w.code("\n")
            if r.random() < .5:
                ly_comment(w)
            w.code("}\n")
        elif k < .4:
            w.code(r.choice(["music", "foo"]) + " = {")
            for j in range(r.randrange(4)):
                ly_item(w, 2)
            w.code("}\n")
        elif k < .5:
            w.code("\\score {")
            ly_item(w, 2)
            w.code("}\n")
        else:
            ly_item(w, 3)
    w.code("\n{ } ")
    ly_comment(w)
    run(ctx, "LilyPond", lang("LilyPond"), w)


# ---------------------------------------------------------------- Texinfo

def texi_item(w, depth):
    r = w.r
    k = r.random()
    if k < .25:
        w.comment(r.choice(["@c", "@comment"]) + r.choice(["", " " + w.noise("\n")]))
        w.code("\n")
    elif k < .35:
        w.comment("@ignore\n" + w.noise("@end", newline=True) + "\n@end ignore")
        w.code("\n")
    elif k < .45:
        w.code("@verbatim\n" + w.noise("@end", newline=True) + "\n@end verbatim\n")
    elif k < .7 and depth:
        w.code(r.choice(["@emph{", "@code{", "@file{"]))
        w.enter()
        for i in range(r.randrange(3)):
            texi_item(w, depth - 1)
        w.leave()
        w.code("}")
    else:
        w.code(r.choice(["text ", "@@", "@{", "@}", "@node Top\n", "@copyright{} ", "@'e ", "@chapter Foo\n", "word % # ; ", "@cindex x\n", "@code{x} "]))


def case_Texinfo(ctx):
    w = W(ctx.rng)
    for i in range(w.r.randrange(1, 12)):
        texi_item(w, 3)
    w.code("\n")
    w.comment("@c end")
    run(ctx, "Texinfo", lang("Texinfo"), w)


# ---------------------------------------------------------------- Troff

def case_Troff(ctx):
    w = W(ctx.rng)
    r = w.r
    for i in range(r.randrange(1, 10)):
        k = r.random()
        if k < .3:
            w.code(r.choice([".", "'"]))
            w.comment('\\"' + w.noise("\n"), False)
        elif k < .7:
            w.code("." + r.choice(["TH", "SH", "de x", "ds a"]))
            for j in range(r.randrange(3)):
                if r.random() < .6:
                    w.code(" ")
                    w.string('"' + "".join(r.choice(["\\(bu", "\\fB", "\\-", "\\[em]"]) if r.random() < .2 else w.noise(('"', "\\", "\n"), n=3) for i in range(r.randrange(4))) + '"')
                else:
                    w.code(" " + r.choice(["foo", "1", "3p"]))
            if r.random() < .2:
                w.code(" ")
                w.comment('\\"' + w.noise("\n"), False)
        else:
            w.code("x" + w.noise(("\\", "\n")) + r.choice(["", "\\fBbold\\fR", "\\(bu", "\\-", "\\&"]))
            if r.random() < .2:
                w.comment('\\"' + w.noise("\n"))
        w.code("\n")
    w.code("text ")
    w.comment('\\"' + w.noise("\n"))
    run(ctx, "Troff", lang("Troff"), w)


# ---------------------------------------------------------------- Csv

def case_Csv(ctx):
    w = W(ctx.rng)
    r = w.r
    for i in range(r.randrange(1, 6)):
        for j in range(r.randrange(1, 6)):
            if j:
                w.code(",")
            if r.random() < .5:
                w.string('"')
                for x in range(r.randrange(4)):
                    w.string('""' if r.random() < .2 else w.noise('"', newline=True, n=4))
                w.string('"')
            else:
                w.code(w.noise(('"', ",", "\n"), n=4))
        w.code("\n")
    run(ctx, "Csv", lang("Csv"), w)
