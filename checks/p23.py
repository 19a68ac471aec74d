"""P23: very deep and very long input."""
import gc
import io
import sys

import parce
from parce import util
from parce.lang.json import Json
from parce.lang.scheme import Scheme
from parce.out.html import HtmlFormatter, SimpleHtmlFormatter
from parce.transform import Transformer, transform_text, transform_tree
import common

PROPERTY = "P23"
RULE = ("deep: text nested 1 to 3,500 (thorough 12,000) levels deep in JSON, XML, HTML, Scheme, CSS, C-like and LilyPond, finished or not, with siblings on random levels; every tree operation is run on it and compared "
        "with an iterative scan of the token list; docs: the same as document with edits at random places compared with a fresh parse, undo, transform and HTML output; long: flat texts of up to a million characters; "
        "data: JSON values of that depth transformed and compared level by level.  Non-trivial: more than 1000 levels (beyond the interpreter's recursion limit) or 20,000 tokens; distinct by text.")
PLAN = {"quick": {"deep": 90, "docs": 70, "data": 100, "long": 60}, "thorough": {"deep": 600, "docs": 500, "data": 1000, "long": 300}}
REQUIRED = {"deep_trees": 60, "edits": 80, "deep_values": 60, "long_texts": 20, "operations": 2000}
ASSUMPTIONS = ["results of a transform are compared iteratively, as Python's own comparison of nested lists recurses"]
CPU_LIMIT = 400
WALL_LIMIT = 700

KINDS = {
    "json": ("json", "[", "]", "1", ',"a"'),
    "jsonobj": ("json", '{"k":', "}", "null", ', "x": 2'),
    "xml": ("xml", "<a>", "</a>", "text", "<b/>"),
    "html": ("html", "<div>", "</div>", "text", "<p>hi</p>"),
    "scheme": ("scheme", "(", ")", "42", " x"),
    "vector": ("scheme", "#(", ")", "42", " \"s\""),
    "css": ("css", "@media x {", "}", "p { a: b }", " q { color: red; }"),
    "lily": ("lilypond", "{ ", "} ", "c4 ", "d8 "),
    "python": ("python", "(", ")", "1", ", 'x'"),
}


def deep_text(r, maxdepth):
    kind = r.choice(sorted(KINDS))
    lang, o, c, leaf, sib = KINDS[kind]
    depth = r.choice([r.randint(1, 50), r.randint(1050, 1500), r.randint(1050, 1500), r.randint(1500, maxdepth)])
    if kind == "css":
        depth = min(depth, 1200)
    levels = set(r.randrange(depth) for _ in range(r.randrange(6)))
    closed = r.choice([depth, depth, 0, depth // 2])
    parts = [o] * depth + [leaf]
    for i in range(closed):
        if i in levels:
            parts.append(sib)
        parts.append(c)
    return kind, parce.find(lang), "".join(parts), depth


def case_deep(ctx):
    r = ctx.rng
    kind, lexicon, text, depth = deep_text(r, 3500 if ctx.tier == "quick" else 12000)
    ctx.note(kind=kind, depth=depth, length=len(text))
    tree = parce.root(lexicon, text)
    common.check_tokens(ctx, tree, text)
    toks = list(tree.tokens())
    ctx.check([id(t) for t in tree.tokens(True)] == [id(t) for t in reversed(toks)], "reversed tokens differ")
    flat = common.flat(tree)
    height = max(f[0] for f in flat)
    ctx.equal(tree.height(), height, "height() wrong")
    ctx.equal(tree.query.all.count(), len(flat), "query.all does not find every node")
    ctx.equal(tree.query.all.tokens.count(), len(toks), "query.all.tokens does not find every token")
    ctx.equal(flat == common.flat(tree.copy()), True, "copy() differs")
    ctx.check(tree.first_token() is toks[0] and tree.last_token() is toks[-1], "first or last token wrong")
    ctx.equal((tree.pos, tree.end), (toks[0].pos, toks[-1].end), "pos or end wrong")
    depths = []
    for f in flat:
        if f[1] == "T":
            depths.append(f[0])
    for step in range(8 if depth < 100 else 4):
        i = r.choice([r.randrange(len(toks)), len(toks) // 2, len(toks) - 1])
        t = toks[i]
        ctx.equal(t.depth(), depths[i], "depth() wrong")
        ctx.equal(sum(1 for _ in t.ancestors()), depths[i], "ancestors() wrong")
        ctx.equal(sum(1 for _ in t.ancestors_with_index()), depths[i], "ancestors_with_index() wrong")
        ctx.check(t.root() is tree, "root() wrong")
        ctx.check(tree.is_ancestor_of(t), "is_ancestor_of() wrong")
        ctx.check(t.next_token() is (toks[i + 1] if i + 1 < len(toks) else None), "next_token() wrong")
        ctx.check(t.previous_token() is (toks[i - 1] if i else None), "previous_token() wrong")
        p = t.pos
        ctx.check(tree.find_token(p) is t, "find_token() wrong")
        ctx.check(tree.find_token_with_trail(p)[0] is t if isinstance(tree.find_token_with_trail(p)[0], type(t)) else True, "find_token_with_trail() wrong")
        ctx.check(tree.find_token_after(p) is t, "find_token_after() wrong")
        ctx.check(tree.find_token_before(t.end) is t, "find_token_before() wrong")
        ctx.check(tree.find_token_left(t.end) is t, "find_token_left() wrong")
        ctx.check(tree.find_context(p) is t.parent, "find_context() wrong")
        # finding a common ancestor far above takes time quadratic in the depth
        if step < 1 and depth < 2500 or depth < 100:
            j = r.randrange(len(toks))
            u = toks[j]
            a, b = sorted((i, j))
            anc = t.common_ancestor(u)
            if t is not u:
                ctx.check(anc is not None and anc.is_ancestor_of(t) and anc.is_ancestor_of(u), "common_ancestor() wrong")
            ctx.check(t.state_matches(t), "state_matches() wrong")
            rng = tree.range(toks[a].pos, toks[b].end)
            if rng is not None:
                got = list(rng.tokens())
                ctx.check(len(got) == b - a + 1 and all(x is y for x, y in zip(got, toks[a:b + 1])), "range tokens wrong", start=toks[a].pos, end=toks[b].end)
            got = list(toks[a].forward_until_including(toks[b]))
            ctx.check(len(got) == b - a + 1 and got[-1] is toks[b], "forward_until_including() wrong")
            ctx.count("far_pairs")
        n = r.randrange(1, 200)
        it = toks[i].forward()
        for k in range(i + 1, min(len(toks), i + n)):
            if next(it) is not toks[k]:
                ctx.fail("forward() wrong")
        it = toks[i].backward()
        for k in range(i - 1, max(-1, i - n), -1):
            if next(it) is not toks[k]:
                ctx.fail("backward() wrong")
        ctx.count("operations", 18)
    if depth < 1200:
        out = io.StringIO()
        tree.dump(out)
        ctx.equal(out.getvalue().count("\n"), len(flat), "dump() does not show every node")
    out = None
    x = []
    for _ in range(depth):
        x = [x, 1]
    ctx.equal(sum(1 for _ in util.unroll(x)), depth, "unroll() of a deep list")
    # removing a deep part
    node = tree[len(tree) - 1]
    node.delete()
    ctx.check(node.parent is None or node not in [n for n in tree], "delete() of a deep node")
    ctx.count("deep_trees")
    if depth > 1000:
        ctx.distinct(kind, depth, len(text))
    del tree, toks, flat, node, x
    gc.collect()


def case_docs(ctx):
    r = ctx.rng
    kind, lexicon, text, depth = deep_text(r, 2500 if ctx.tier == "quick" else 5000)
    ctx.note(kind=kind, depth=depth, length=len(text))
    doc = parce.Document(lexicon, text, transformer=Transformer() if kind in ("json", "jsonobj") else None)
    hist = []
    for _ in range(r.randint(1, 4)):
        s = doc.text()
        p = r.choice([0, len(s), len(s) // 2, r.randrange(len(s) + 1)])
        e = min(len(s), p + r.choice([0, 1, 3, 10, 1000]))
        new = r.choice(["", " ", KINDS[kind][1], KINDS[kind][2], KINDS[kind][3], KINDS[kind][4], KINDS[kind][1] * 2000, '"', "x"])
        hist.append((p, e, new[:20], len(new)))
        doc[p:e] = new
        ctx.equal(doc.text(), s[:p] + new + s[e:], "text after an edit", history=hist)
        tree = doc.get_root(True)
        want = common.flat(parce.root(lexicon, doc.text()))
        if common.flat(tree) != want:
            ctx.fail("tree after an edit differs from a fresh parse", history=hist, diff=repr(common.first_diff(common.flat(tree), want)))
        ctx.count("edits")
    if kind in ("json", "jsonobj"):
        same_value(ctx, doc.get_transform(True), transform_text(lexicon, doc.text()))
    n = 0
    while doc.can_undo() if hasattr(doc, "can_undo") else n < len(hist):
        doc.undo()
        n += 1
    ctx.equal(doc.text(), text, "text after undoing all", history=hist)
    cur = parce.Cursor(doc)
    cur.select_all()
    html = SimpleHtmlFormatter().html(cur) if r.random() < .5 else HtmlFormatter(parce.theme_by_name()).html(cur)
    import re
    import html as h
    plain = h.unescape(re.sub("<[^>]*>", "", html))
    ctx.equal(plain.replace("\n", "").replace(" ", ""), text.replace("\n", "").replace(" ", ""), "HTML output lost text")
    if depth > 1000:
        ctx.distinct(kind, depth, hist)


def same_value(ctx, a, b):
    """compare nested data without recursion"""
    stack = [(a, b)]
    n = 0
    while stack:
        x, y = stack.pop()
        n += 1
        if type(x) is not type(y):
            ctx.fail("nested values differ in type", at=n)
        if isinstance(x, list):
            if len(x) != len(y):
                ctx.fail("nested lists differ in length", at=n)
            stack.extend(zip(x, y))
        elif isinstance(x, dict):
            if list(x) != list(y):
                ctx.fail("nested dicts differ in keys", at=n)
            stack.extend((x[k], y[k]) for k in x)
        elif x != y:
            ctx.fail("nested values differ", at=n, left=repr(x), right=repr(y))
    return n


def case_data(ctx):
    r = ctx.rng
    depth = r.choice([r.randint(1, 50), r.randint(1000, 5000), r.randint(5000, 20000 if ctx.tier == "quick" else 100000)])
    v, t = 7, "7"
    pre, post = [], []
    levels = [r.randrange(4) for _ in range(depth)]
    for k in levels:
        if k == 0:
            v = [v]
            pre.append("[")
            post.append("]")
        elif k == 1:
            v = {"a": v}
            pre.append('{"a": ')
            post.append("}")
        elif k == 2:
            v = [1, v, "x"]
            pre.append("[1, ")
            post.append(', "x"]')
        else:
            v = {"a": None, "b": v, "c": []}
            pre.append('{"a":null,"b":')
            post.append(',"c":[]}')
    text = "".join(reversed(pre)) + t + "".join(post)
    ctx.note(depth=depth)
    if r.random() < .5:
        got = transform_text(Json.root, text)
    else:
        got = transform_tree(parce.root(Json.root, text))
    same_value(ctx, got, v)
    ctx.count("deep_values")
    if depth > 1000:
        ctx.distinct(depth, levels[:40])


def case_long(ctx):
    r = ctx.rng
    unit, lang = r.choice([('{"a": [1, 2.5, "x\\n"], "b": null},\n', "json"), ("<p class=\"x\">hello &amp; w</p>\n", "html"), ("a { color: #fff; margin: 0 1px } /* c */\n", "css"),
                           ("def f(x):\n    return x + 'str' # c\n", "python"), ("(define x '(1 2 \"s\")) ; c\n", "scheme"), ("key = value ; c\n", "ini"), ("a,b,\"c\"\n", "csv"), ("xyz ", None), ("\n", "python"), ("\"", "json"), ("/* ", "css")])
    n = r.choice([1, 10, 1000, 5000]) if ctx.tier == "quick" else r.choice([1000, 5000, 20000])
    lexicon = parce.find(lang) if lang else None
    text = unit * n
    ctx.note(unit=unit, n=n)
    if lexicon is None:
        doc = parce.Document(None, text)
        ctx.equal(len(doc), len(text), "length of a long document")
        doc[len(text):] = "end"
        ctx.equal(doc.text(), text + "end", "text of a long document")
        return
    # the tokens of the repeated text: repeated, when a unit is lexed independently
    tree = parce.root(lexicon, text)
    common.check_tokens(ctx, tree, text)
    doc = parce.Document(lexicon, text)
    p = r.choice([0, len(text) // 2, len(text)])
    doc[p:p] = r.choice([unit, "x", '"', "\n"])
    want = common.flat(parce.root(lexicon, doc.text()))
    if common.flat(doc.get_root(True)) != want:
        ctx.fail("tree after an edit differs from a fresh parse", pos=p)
    ctx.count("edits")
    b = doc.find_block(len(doc) - 1)
    ctx.equal(sum(1 for _ in doc.blocks()), doc.text().count("\n") + 1, "number of lines")
    ctx.check(b is not None and b.end >= len(doc) - 1, "find_block() at the end")
    ctx.count("long_texts")
    if n >= 1000:
        ctx.distinct(unit, n, p)
