"""P16: HTML output."""
import html.parser
import re

import parce
from parce.formatter import Formatter
from parce.out.html import HtmlFormatter, SimpleHtmlFormatter, attrescape, escape, inline_css
from parce.theme import Theme
import common
import langspec
import themes

PROPERTY = "P16"
RULE = ("html: documents in bundled (also mixed) and generated languages with hostile text (markup, quotes, entities, control and non-BMP characters), random themes with hostile font names; the HTML is read by an independent parser: text, "
        "balance of the tags, the only elements and attributes being those of the formatter, and per position the style or class.  full: the complete page, as a browser reads it (a newline right after <pre> is dropped). "
        "escape: the helper functions.  Non-trivial: text with characters that need escaping inside a formatted token; distinct by (text, range).")
PLAN = {"quick": {"html": 5000, "full": 2500, "escape": 1500}, "thorough": {"html": 90000, "full": 40000, "escape": 20000}}
REQUIRED = {"spans": 20000, "escaped": 5000, "positions": 200000, "leading_newline": 50, "quoted_base": 100, "simple": 500}
ASSUMPTIONS = ["text without carriage returns and null characters (HTML normalizes those)"]

HOSTILE = ["<", ">", "&", '"', "'", "&amp;", "&lt;", "</span>", "</pre>", "<script>alert(1)</script>", "<!--", "-->", "&#60;", "&quot;", "\n", "<b a=\"x\">", "]]>", "&nbsp", "&copy", "\U0001d11e", "é", " ", "\t", "{html}", "%s", "{0}", "{", "}"]


class Parser(html.parser.HTMLParser):
    """Collects (text, attributes) of the pieces; any tag that is not allowed is recorded."""
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = []       # (text, tuple of open tags)
        self.stack = []
        self.bad = []
        self.tags = []

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, dict(attrs)))
        if tag == "meta":
            return
        self.stack.append((tag, dict(attrs)))
        self.out.append((None, list(self.stack)))

    def handle_startendtag(self, tag, attrs):
        self.tags.append((tag, dict(attrs)))

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            self.bad.append("unbalanced " + tag)
        else:
            self.stack.pop()
        self.out.append((None, list(self.stack)))

    def handle_data(self, data):
        self.out.append((data, list(self.stack)))

    def handle_comment(self, data):
        self.bad.append("comment")

    def handle_decl(self, data):
        self.bad.append("decl " + data)

    def handle_pi(self, data):
        self.bad.append("pi")

    def unknown_decl(self, data):
        self.bad.append("unknown decl")


def parse(ctx, s):
    p = Parser()
    p.feed(s)
    p.close()
    ctx.check(not p.stack, "tags not closed", stack=repr(p.stack), html=s)
    return p


def usable(ctx, text):
    """False for a generated language that loops on the text"""
    if 'spec' in ctx.detail:
        try:
            langspec.RefLexer(ctx.detail['spec']).events(text, ('root', None))
        except langspec.Discard:
            ctx.count("discarded")
            return False
    return True


def document(ctx):
    r = ctx.rng
    l = themes.language_and_text(ctx, 700)
    if not l:
        return
    lexicon, text = l
    for _ in range(r.choice([0, 1, 3, 6])):
        i = r.randrange(len(text) + 1)
        text = text[:i] + r.choice(HOSTILE) + text[i:]
    if r.random() < .1:
        text = "\n" * r.choice([1, 2]) + text
    text = text.replace("\r", "").replace("\x00", "")
    ctx.note(text=text)
    if not usable(ctx, text):
        return
    return lexicon, parce.Document(lexicon, text), text


def formatter(ctx, lexicon, d):
    """(html formatter, plain formatter with the same settings, attribute, conversion)"""
    r = ctx.rng
    if r.random() < .25:
        ctx.count("simple")
        from parce.formatter import SimpleFormatter
        return SimpleHtmlFormatter(), SimpleFormatter(), "class", lambda f: f
    th = themes.theme(r)
    f, plain = HtmlFormatter(th), Formatter(th)
    if r.random() < .3:
        f.add_theme(th, add_baseformat=True)
        plain.add_theme(th, add_baseformat=True)
    if r.random() < .4:
        for lang in sorted({t.parent.lexicon.language for t in d.get_root(True).tokens()} if len(d.text()) else (), key=repr):
            if r.random() < .5:
                t = themes.theme(r)
                f.add_theme(t, lang)
                plain.add_theme(t, lang)
    ctx.note(theme=getattr(th, "_css_text", ""))
    return f, plain, "style", lambda t: inline_css(t) or None


def per_position(pieces):
    out = []
    for text, f in pieces:
        out.extend([f] * len(text))
    return out


def check_pieces(ctx, pieces, want_text, want_formats, attr, where):
    """pieces: list of (text, stack of tags)"""
    got_text = ''.join(t for t, s in pieces if t)
    ctx.equal(got_text, want_text, "the text in the HTML is not the text of the document")
    i = 0
    for t, stack in pieces:
        if t is None:
            continue
        ctx.check(len(stack) <= 1, "nested tags", stack=repr(stack))
        got = None
        if stack:
            tag, attrs = stack[0]
            ctx.check(tag == "span" and list(attrs) == [attr], "unexpected element or attribute", stack=repr(stack))
            got = attrs[attr]
        for _ in t:
            if want_formats[i] != got:
                ctx.fail("the format in the HTML is not that of the token", pos=i, got=got, expected=want_formats[i])
            i += 1
        if stack and set(t) & set("<>&"):
            ctx.count("escaped")
    ctx.count("positions", i)


def case_html(ctx):
    r = ctx.rng
    x = document(ctx)
    if not x:
        return
    lexicon, d, text = x
    f, plain, attr, conv = formatter(ctx, lexicon, d)
    n = len(text)
    a, b = r.choice([(0, n), (0, None), tuple(sorted((r.randrange(n + 1), r.randrange(n + 1))))])
    ctx.note(range=(a, b))
    c = parce.Cursor(d, a, b)
    out = f.html(c)
    p = parse(ctx, out)
    ctx.check(not p.bad, "markup that should not be there", bad=p.bad, html=out)
    ctx.check(all(t == "span" for t, at in p.tags), "unexpected element", tags=repr(p.tags)[:300], html=out)
    want = [conv(x) if x is not None else None for x in per_position(plain.format_document(c))]
    sel = text[a:b]
    if c.has_selection():
        check_pieces(ctx, p.out, sel, want, attr, "html")
    else:
        ctx.equal(out, "", "HTML for nothing")
    ctx.count("spans", len(p.tags))
    # as written: nothing but the known escapes
    ctx.check(re.fullmatch(r'(?:[^<>&]|&(?:amp|lt|gt|quot|#x?[0-9a-fA-F]+);|<span (?:style|class)="[^"<>]*">|</span>)*', out), "unescaped characters in the output", html=out)
    if set(sel) & set("<>&"):
        ctx.distinct(text, a, b)
    ctx.check(d.text() == text, "the document changed")
    ctx.sample({"html": out[:200]})


def case_full(ctx):
    r = ctx.rng
    x = document(ctx)
    if not x:
        return
    lexicon, d, text = x
    f, plain, attr, conv = formatter(ctx, lexicon, d)
    if r.random() < .3:
        text = text.lstrip()
        if not usable(ctx, text):
            return
        d.set_text(text)
    n = len(text)
    a, b = r.choice([(0, n), (0, None), tuple(sorted((r.randrange(n + 1), r.randrange(n + 1))))])
    ctx.note(text=text, range=(a, b))
    c = parce.Cursor(d, a, b)
    charset = r.choice([None, "utf-8", "latin1"])
    out = f.full_html(c, charset) if charset else f.full_html(c)
    p = parse(ctx, out)
    ctx.check(p.bad in ([], ["decl DOCTYPE html"]), "markup that should not be there", bad=p.bad, html=out)
    tags = [t for t, at in p.tags if t != "span"]
    ctx.equal(sorted(tags), sorted(["html", "head", "meta", "body", "div", "pre"]), "elements of the page")
    meta = dict(p.tags)["meta"]
    ctx.equal(meta, {"charset": charset or "utf-8"}, "charset")
    attrs = dict(p.tags)
    ctx.check(set(attrs["pre"]) <= {"style", "class"} and set(attrs["div"]) <= {"class", "style"} and attrs["div"].get("class") == "parce", "attributes of the page", tags=repr(p.tags)[:300])
    base = f.baseformat() if attr == "style" else None
    if base:
        ctx.check(base in attrs["pre"].get("style", "") + attrs["div"].get("style", ""), "base format", style=repr(attrs["pre"]), expected=base)
        if '"' in base:
            ctx.count("quoted_base")
    # what a browser shows inside pre
    inner = out[out.index("<pre"):]
    inner = inner[inner.index(">") + 1:inner.rindex("</pre>")]
    pieces = []
    first = True
    depth = None
    for t, stack in p.out:
        names = [s[0] for s in stack]
        if "pre" in names:
            k = names.index("pre")
            if t is not None and first and inner.startswith("\n"):
                ctx.check(t.startswith("\n"), "first newline")
                t = t[1:]
            if t is not None:
                first = False
                pieces.append((t, stack[k + 1:]))
    want = [conv(x) if x is not None else None for x in per_position(plain.format_document(c))]
    sel = text[a:b] if c.has_selection() else ""
    if sel.startswith("\n"):
        ctx.count("leading_newline")
    check_pieces(ctx, pieces, sel, want, attr, "full")
    ctx.count("spans", len(p.tags))
    # outside pre there is only whitespace
    rest = ''.join(t for t, s in p.out if t and "pre" not in [x[0] for x in s])
    ctx.check(not rest.strip(), "text outside the pre element", rest=rest)
    if set(sel) & set("<>&"):
        ctx.distinct("full", text, a, b)
    ctx.sample({"html": out[:300]})


def case_escape(ctx):
    import html as h
    r = ctx.rng
    s = ''.join(r.choice(HOSTILE + ["a", "b", " "]) for _ in range(r.randrange(0, 12)))
    ctx.note(text=s)
    e = escape(s)
    ctx.equal(h.unescape(e), s, "escape() is not reversible", escaped=e)
    ctx.check("<" not in e and ">" not in e, "escape() leaves markup", got=e)
    q = attrescape(s)
    ctx.check('"' not in q and "<" not in q, "attrescape()", got=q)
    p = Parser()
    p.feed('<span title="' + q + '">' + e + '</span>')
    p.close()
    ctx.equal(p.tags, [("span", {"title": s})], "attribute value")
    ctx.equal(''.join(t for t, _ in p.out if t), s, "text content")

    f = Theme(stylesheet=".parce{" + "; ".join(r.sample(themes.DECLS, r.choice([0, 1, 3]))) + "}").baseformat()
    t = inline_css(f)
    g = Theme(stylesheet=".parce{" + t + "}").baseformat()
    ctx.equal(g.css_properties(), f.css_properties(), "inline_css() is read as another format", css=t)
    ctx.distinct(s)
