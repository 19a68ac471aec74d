"""P15: format ranges."""
import parce
from parce.formatter import FormatContext, Formatter, SimpleFormatter
from parce.theme import TextFormat, Theme, css_class
from parce.css import StyleSheet, Style
from parce.standardaction import StandardAction
import common
import themes

PROPERTY = "P15"
RULE = ("ranges: trees of bundled (also mixed) and generated languages, random themes (with and without unparsed and base formats, also per language) and ranges; each position's format against a per-position computation from the tokens and the theme's own "
        "formats.  textformat: random declarations read into a TextFormat, compared with what was written, written out as CSS and read again; + and - .  Non-trivial: at least two different formats in the range; distinct by (theme, text, range).")
PLAN = {"quick": {"ranges": 5000, "bundled": 150, "textformat": 5000}, "thorough": {"ranges": 80000, "bundled": 1500, "textformat": 90000}}
REQUIRED = {"positions": 500000, "clipped": 500, "multi": 500, "switched": 200, "unparsed": 200, "base": 200, "merged": 200, "formats": 2000, "none_formats": 500}
ASSUMPTIONS = ["a formatter has a default theme", "ranges without any token: only claimed that no token format appears", "gaps between tokens with several themes with base formats may have the base format of either theme or none"]


def same(a, b):
    return a is b or a is not None and b is not None and a == b


class FC(FormatContext):
    def __init__(self):
        self.events = []

    def start(self, fc):
        self.events.append(("start", fc.theme))

    def switch(self, fc):
        self.events.append(("switch", fc.theme))

    def done(self):
        self.events.append(("done", None))


def case_ranges(ctx):
    r = ctx.rng
    l = themes.language_and_text(ctx)
    if not l:
        return
    lexicon, text = l
    ctx.note(text=text)
    tree = parce.root(lexicon, text)
    before = common.flat(tree)
    tokens = list(tree.tokens())
    langs = sorted({t.parent.lexicon.language for t in tokens}, key=repr)
    simple = r.random() < .1
    th = {}
    addbase = {}
    drop = r.choice([0, 0, 0, 0, .3])
    dropped = {}

    def factory(f):
        if drop:
            k = repr(f)
            if k not in dropped:
                dropped[k] = r.random() < drop
            if dropped[k]:
                return None
        return f or None
    if simple:
        f = SimpleFormatter()
    else:
        unp = r.random() < .25
        th[None] = themes.theme(r, unp)
        addbase[None] = r.random() < .3
        f = Formatter(th[None], None if not drop else factory)
        if addbase[None] or r.random() < .5:
            f.add_theme(th[None], add_baseformat=addbase[None])
        for lang in langs:
            if r.random() < .5:
                th[lang] = themes.theme(r)
                addbase[lang] = r.random() < .2
                f.add_theme(th[lang], lang, addbase[lang])
        if r.random() < .1 and len(th) > 1:
            lang = r.choice([x for x in th if x])
            f.remove_theme(lang)
            del th[lang], addbase[lang]
        if r.random() < .1 and not drop:
            f2 = Formatter(None, None if not drop else factory)
            f2.copy_themes(f)
            f = f2
        ctx.note(themes={str(k): t._css_text if hasattr(t, "_css_text") else repr(t) for k, t in th.items()}, addbase={str(k): v for k, v in addbase.items()})
        for lang, t in th.items():
            ctx.check(f.get_theme(lang) is t, "get_theme()")
    conv = factory if drop else lambda x: x or None

    def fmt(action, lang):
        if simple:
            return css_class(action)
        if lang not in th:
            lang = None
        x = th[lang].textformat(action)
        if addbase[lang]:
            x = th[lang].baseformat() + x
        return conv(x)

    if not simple:
        for _ in range(3):
            t = r.choice(tokens) if tokens else None
            a = t.action if t else StandardAction("Comment")
            if isinstance(a, StandardAction):
                lang = r.choice(list(th))
                ctx.check(same(f.textformat(a, lang), fmt(a, lang)), "textformat()")
            role, state = r.choice(["window", "selection", "current-line", "myrole"]), r.choice(["default", "focus", "disabled"])
            lang = r.choice(list(th) + [int])
            want = conv(th[lang].baseformat(role, state)) if lang in th else None
            ctx.check(same(f.baseformat(role, state, lang), want), "baseformat()", role=role, state=state)
        unparsed = conv(th[None].textformat(StandardAction("_Unparsed")))
        bases = {k: conv(th[k].baseformat()) for k in th if addbase[k]}
    else:
        unparsed, bases = None, {}

    ctx.check(f.get_theme(int) is None and f.textformat(StandardAction("Comment"), int) is None if not simple else True,
              "format of a language without a theme")
    if r.random() < .1:
        e = Formatter(None)
        ctx.check(list(e.format_ranges(tree)) == [] and e.textformat(StandardAction("Comment")) is None and e.get_theme() is None
                  and e.baseformat() is None, "formatter without a theme")
    ctx.equal([tuple(x) for x in f.format_ranges(tree)], [tuple(x) for x in f.format_ranges(tree, 0, None)], "format_ranges() without a range")

    for _ in range(4):
        n = len(text)
        start = r.choice([0, 0, r.randrange(n + 1)])
        end = r.choice([None, n, r.randrange(n + 1), n + 3])
        if end is not None and end < start:
            start, end = end, start
        ctx.note(start=start, end=end)
        stop = n if end is None else end
        inside = [t for t in tokens if t.end > start and t.pos < stop] if stop > start else []
        fc = FC() if r.random() < .5 else None
        got = list(f.format_ranges(tree, start, end, fc))
        prev = None
        pos = {}
        for g in got:
            ctx.check(g.pos < g.end, "empty or reversed range", range=repr(g))
            ctx.check(g.pos >= start and (end is None or g.end <= end), "range outside the requested one", range=repr(g))
            if prev is not None:
                ctx.check(g.pos >= prev.end, "ranges overlap or out of order", range=repr(g), prev=repr(prev))
                if g.pos == prev.end:
                    ctx.check(g.textformat != prev.textformat, "adjacent ranges with the same format", range=repr(g), prev=repr(prev))
            ctx.check(g.textformat is not None, "range without format", range=repr(g))
            prev = g
            for i in range(g.pos, g.end):
                pos[i] = g.textformat
        if len(got) < len(inside) and got:
            ctx.count("merged")
        allf = set()
        covered = set()
        for t in inside:
            lang = t.parent.lexicon.language
            w = fmt(t.action, lang)
            if w is None and unparsed is not None and not simple:
                w = bases.get(lang if lang in th else None)
            ctx.count("none_formats" if w is None else "formats")
            allf.add(repr(w))
            for i in range(max(start, t.pos), min(t.end, stop)):
                covered.add(i)
                if not same(pos.get(i), w):
                    ctx.fail("format of a position in a token", pos=i, token=repr(t), got=repr(pos.get(i)), expected=repr(w))
            if t.pos < start or t.end > stop:
                ctx.count("clipped")
        ctx.count("positions", len(covered))
        if inside:
            stop2 = stop if end is not None else max(inside[-1].end, start)
            alln = all(fmt(t.action, t.parent.lexicon.language) is not None for t in inside)
            for i in range(start, stop2):
                if i in covered:
                    continue
                g = pos.get(i)
                if unparsed is not None:
                    ctx.count("unparsed")
                    ctx.check(same(g, unparsed), "unparsed text", pos=i, got=repr(g), expected=repr(unparsed))
                elif not bases:
                    ctx.check(g is None, "format for text outside tokens", pos=i, got=repr(g))
                elif len(th) == 1 and alln:
                    ctx.count("base")
                    ctx.check(same(g, bases[None]), "base format outside tokens", pos=i, got=repr(g), expected=repr(bases[None]))
                else:
                    ctx.check(g is None or any(same(g, b) for b in bases.values()), "text outside tokens has some other format", pos=i, got=repr(g))
            extra = [i for i in pos if i >= stop2]
            ctx.check(not extra, "format after the end", extra=extra[:5])
            if fc is not None:
                ctx.check(fc.events and fc.events[0] == ("start", th.get(None)) and fc.events[-1] == ("done", None) and len([e for e in fc.events if e[0] != "switch"]) == 2, "format context events", events=repr(fc.events))
                used = [th.get(t.parent.lexicon.language, th.get(None)) for t in inside]
                sw = [e[1] for e in fc.events if e[0] == "switch"]
                # every theme change between tokens is notified
                it = iter([th.get(None)] + sw)
                cur = next(it)
                for u in used:
                    while cur is not u:
                        cur = next(it, None)
                        if cur is None:
                            ctx.fail("theme switch not notified", events=repr(fc.events))
                    ctx.count("switched", bool(sw))
                ctx.check(all(a is not b for a, b in zip([th.get(None)] + sw, sw)), "switched to the same theme", events=repr(fc.events))
        if len(th) > 1:
            ctx.count("multi")
        # text
        e = min(n, stop)
        if e >= start:
            pieces = list(f.format_text(text, tree, start, min(n, end) if end is not None else None))
            ctx.equal(''.join(p[0] for p in pieces), text[start:e], "format_text() does not give the text")
            i = start
            for t, x in pieces:
                ctx.check(t, "empty piece of text")
                for k in range(len(t)):
                    if not same(pos.get(i), x):
                        ctx.fail("format_text() has another format", pos=i, got=repr(x), expected=repr(pos.get(i)))
                    i += 1
        if len(allf) > 1:
            ctx.distinct(repr(sorted(map(str, th))), ctx.detail.get("themes"), text, start, end)
    d = parce.Document(lexicon, text)
    a, b = sorted((r.randrange(len(text) + 1), r.randrange(len(text) + 1)))
    c = parce.Cursor(d, a, b)
    ctx.equal(''.join(t for t, x in f.format_document(c)), text[a:b], "format_document() does not give the text")
    ctx.check([repr(x) for x in f.format_document(c)] == ([repr(x) for x in f.format_text(text, tree, a, b)] if a < b else []), "format_document() differs from format_text()")
    ctx.check(common.flat(tree) == before, "formatting changed the tree")
    ctx.sample({"text": text[:100], "themes": len(th)})


# what a declaration should set
PROPS = {
    "color": [("red", {"color": (255, 0, 0, 1.0)}), ("#12345680", {"color": (18, 52, 86, 128 / 255)}), ("x", {}), ("transparent", {"color": (0, 0, 0, 0)})],
    "background-color": [("#fff", {"background_color": (255, 255, 255, 1.0)}), ("", {}), ("none", {})],
    "background": [("url(x) , #000 no-repeat", {"background_color": (0, 0, 0, 1.0)}), ("left / cover blue", {"background_color": (0, 0, 255, 1.0)})],
    "caret-color": [("lime", {"caret_color": (0, 255, 0, 1.0)}), ("auto", {})],
    "text-decoration-color": [("navy", {"text_decoration_color": (0, 0, 128, 1.0)})],
    "text-decoration-line": [("underline", {"text_decoration_line": ["underline"]}), ("overline line-through", {"text_decoration_line": ["overline", "line-through"]}), ("none", {"text_decoration_line": []})],
    "text-decoration-style": [("wavy", {"text_decoration_style": "wavy"}), ("weird", {})],
    "font-family": [("serif", {"font_family": ["serif"]}), ("'A, b', \"C d\", monospace", {"font_family": ["A, b", "C d", "monospace"]}), ("'12px' , emoji", {"font_family": ["12px", "emoji"]}), ("'x\\\"\\\\y;<&>'", {"font_family": ["x\"\\y;<&>"]})],
    "font-kerning": [("auto", {"font_kerning": "auto"}), ("foo", {})],
    "font-size": [("12pt", {"font_size": 12, "font_size_unit": "pt"}), ("1.5", {"font_size": 1.5, "font_size_unit": None}), ("large", {"font_size": "large", "font_size_unit": None}), ("80%", {"font_size": 80, "font_size_unit": "%"})],
    "font-stretch": [("condensed", {"font_stretch": "condensed"}), ("75%", {"font_stretch": 75}), ("huge", {})],
    "font-style": [("italic", {"font_style": "italic"}), ("oblique", {"font_style": "oblique", "font_style_angle": None, "font_style_angle_unit": None}), ("oblique 12deg", {"font_style": "oblique", "font_style_angle": 12, "font_style_angle_unit": "deg"}), ("normal", {"font_style": "normal"})],
    "font-variant-caps": [("small-caps", {"font_variant_caps": "small-caps"})],
    "font-variant-position": [("super", {"font_variant_position": "super"})],
    "font-weight": [("bold", {"font_weight": "bold"}), ("300", {"font_weight": 300}), ("x", {})],
    "nonsense": [("1", {}), ("", {})],
}
FONT = [("font", "italic bold 12px/2em serif", {"font_style": "italic", "font_weight": "bold", "font_size": 12, "font_size_unit": "px", "font_family": ["serif"]}),
        ("font", "700 1.5em 'My Font', monospace", {"font_weight": 700, "font_size": 1.5, "font_size_unit": "em", "font_family": ["My Font", "monospace"]}),
        ("font", "small-caps condensed 10pt 'X Y'", {"font_variant_caps": "small-caps", "font_stretch": "condensed", "font_size": 10, "font_size_unit": "pt", "font_family": ["X Y"]}),
        ("font", "menu", {"font_family": ["menu"]}),
        ("text-decoration", "underline dotted red", {"text_decoration_line": ["underline"], "text_decoration_style": "dotted", "text_decoration_color": (255, 0, 0, 1.0)})]
ATTRS = ["color", "background_color", "caret_color", "text_decoration_color", "text_decoration_line", "text_decoration_style", "font_family", "font_kerning", "font_size", "font_size_unit", "font_stretch",
         "font_style", "font_style_angle", "font_style_angle_unit", "font_variant_caps", "font_variant_position", "font_weight"]


def rand_format(r):
    """(css text, expected attributes)"""
    want = {}
    out = []
    props = r.sample(sorted(PROPS), r.choice([0, 1, 2, 4, 8]))
    if r.random() < .2:
        p, v, w = r.choice(FONT)
        head = p.split("-")[0]
        props = [x for x in props if not x.startswith(head)]
        out.append((p, v))
        want.update(w)
    if "background" in props and "background-color" in props:
        props.remove("background")
    for p in props:
        v, w = r.choice(PROPS[p])
        out.append((p, v))
        want.update(w)
    r.shuffle(out)
    return ";".join("{}: {}{}".format(p, v, r.choice(["", " !important"]) if v else "") for p, v in out), want


def read(text):
    return TextFormat(StyleSheet.from_text("a{" + text + "}").style.properties())


def case_textformat(ctx):
    r = ctx.rng
    text, want = rand_format(r)
    ctx.note(css=text)
    f = read(text)
    default = TextFormat({})
    for a in ATTRS:
        g, w = getattr(f, a), want.get(a, getattr(default, a))
        if isinstance(g, (list, tuple)):
            g, w = tuple(g), tuple(w)
        ctx.equal(g, w, "attribute of TextFormat", attribute=a)
    ctx.equal(bool(f), bool(want), "truth value")
    if "menu" in text:
        return  # a system font is not a family that can be read again
    # write and read again
    p = f.css_properties()
    ctx.check(all(k and str(v).strip() for k, v in p.items()), "property written without a value", properties=repr(p))
    g = read(";".join("{}:{}".format(*x) for x in p.items()))
    ctx.equal(g.css_properties(), p, "written properties are read differently")
    for a in ATTRS:
        x, y = getattr(f, a), getattr(g, a)
        if a.endswith("_color") or a == "color":
            ctx.check((x is None) == (y is None) and (x is None or tuple(x[:3]) == tuple(y[:3]) and abs(x[3] - y[3]) < 1 / 255), "colour written and read again", attribute=a, got=repr(y), expected=repr(x))
        else:
            ctx.equal(list(y) if isinstance(y, (list, tuple)) else y, list(x) if isinstance(x, (list, tuple)) else x, "attribute written and read again", attribute=a)
    text2, want2 = rand_format(r)
    f2 = read(text2)
    ctx.note(css2=text2)
    s = f + f2
    for a in ATTRS:
        w = want2.get(a, want.get(a, getattr(default, a)))
        g = getattr(s, a)
        if isinstance(g, (list, tuple)):
            g, w = tuple(g), tuple(w)
        ctx.equal(g, w, "sum of TextFormats", attribute=a)
    d = f - f2
    u = f2 + d
    # overlaying the difference on f2 gives everything of f again
    ctx.check(not f or all(getattr(u, a) == getattr(f, a) for a in ATTRS if a in want and a not in ("font_size_unit", "font_style_angle", "font_style_angle_unit")), "difference of TextFormats", got=repr(u), f=repr(f))
    ctx.check((f == f2) == (want == want2) and (f != f2) == (want != want2), "equality of TextFormats")
    ctx.check(not (f - f), "difference with itself", got=repr(f - f))
    ctx.check(f + TextFormat({}) == f and TextFormat({}) + f == f and f - TextFormat({}) == f or any(not w for w in want.values()), "nothing added or subtracted")
    # a theme with this
    th = Theme(stylesheet=".parce .comment {" + text + "} .parce {" + text2 + "} .parce:focus { color: #010203; caret-color: #010203 }")
    if text:
        ctx.check(th.textformat(StandardAction("Comment")) == f and th.textformat(StandardAction("Comment").Special) == f and not th.textformat(StandardAction("Literal")), "text format of a theme")
    ctx.check(th.baseformat() == f2 and th.baseformat("window", "disabled") == f2, "base format of a theme")
    ctx.equal(tuple(th.baseformat("window", "focus").caret_color)[:3] if "caret-color" not in text2 else None, (1, 2, 3) if "caret-color" not in text2 else None, "base format with a state")
    ctx.distinct(text, text2)
    ctx.sample({"css": text, "format": repr(f)[:200]})


def case_bundled(ctx):
    """The bundled themes: found by name, every action and role has a format that can be written; the theme is the CSS file."""
    import os
    import parce.themes
    r = ctx.rng
    names = parce.themes.get_all_themes()
    files = os.listdir(os.path.dirname(parce.themes.__file__))
    ctx.equal(names, sorted(f[:-4] for f in files if f.endswith(".css") and not f.startswith("_")), "names of the bundled themes")
    name = r.choice(names)
    ctx.note(theme=name)
    fn = parce.themes.filename(name)
    ctx.check(os.path.isfile(fn) and os.path.basename(fn) == name + ".css", "file of a bundled theme")
    with open(fn, encoding="utf-8") as f:
        text = f.read()
    a = parce.theme_by_name(name)
    b = parce.theme_from_file(fn)
    c = Theme(stylesheet=text) if "@import" not in text else b
    import parce.action
    acts = [x for x in vars(parce.action).values() if isinstance(x, StandardAction)]
    seen = 0
    for act in r.sample(acts, min(25, len(acts))):
        act = r.choice([act, act.Definition, act.Foo])
        fa, fb, fc = a.textformat(act), b.textformat(act), c.textformat(act)
        ctx.check(same(fa, fb) and same(fa, fc), "the theme by name differs from the theme of its file", action=repr(act))
        g = read(";".join("{}:{}".format(*x) for x in fa.css_properties().items()))
        ctx.equal(g.css_properties(), fa.css_properties(), "format of a bundled theme written and read", action=repr(act))
        seen += bool(fa)
    for role, state in (("window", "default"), ("selection", "focus"), ("current-line", "default"), ("window", "disabled"), ("eol-marker", "default")):
        ctx.check(same(a.baseformat(role, state), b.baseformat(role, state)), "base format by name and file", role=role, state=state)
    if name == "default":
        ctx.check(same(parce.theme_by_name().textformat(acts[0]), a.textformat(acts[0])), "default theme")
    ctx.count("bundled_formats", seen)
    ctx.distinct("bundled", ctx.index)
