"""P12: incremental transform == transform from scratch == transform_text == oracle."""
import parce
from parce.transform import Item, ItemList, Transformer, transform_text, transform_tree
from parce.treebuilder import TreeBuilder
from parce.work import Worker
import common
import edits
import langspec
import tf
from checks import p06

PROPERTY = "P12"
RULE = ("transforms with methods for a random part of the lexicons (some asking for untransformed contexts, some languages without transform) whose results show all "
        "the input they got; scratch: transform of tree and text against an independent walk over the tree; history: after each edit the incrementally updated result (and intermediate "
        "results) against the result for a fresh tree; items: helper methods against plain lists.  Non-trivial: nested contexts transformed; distinct by (language, decisions, text).")
PLAN = {"quick": {"scratch": 5000, "history": 4500, "items": 3000}, "thorough": {"scratch": 70000, "history": 60000, "items": 40000}}
REQUIRED = {"results": 1000, "updates": 1000, "cached_reused": 200, "untransformed": 100, "intermediate": 500, "nested": 500, "disconnected": 200}
ASSUMPTIONS = p06.ASSUMPTIONS + ["transform methods do not use token positions (cached results of moved contexts keep the old ones)"]


def language(ctx, unique=False):
    """(lexicon, text, add, ok) or None."""
    r = ctx.rng
    if r.random() < .5:
        g = langspec.Gen(r, unique_actions=True, nested_groups=False)
        spec = g.spec()
        lang = langspec.build_language(spec)
        ctx.note(spec=spec)

        def ok(t):
            try:
                ref = langspec.RefLexer(spec)
                ref.events(t, ('root', None))
                return not ref.stats['leadskip']
            except langspec.Discard:
                return False
        text = g.text(r.choice([5, 20, 60, 120]))
        if not ok(text):
            ctx.count("discarded")
            return
        return lang.root, text, lambda t: lambda: g.text(r.choice([1, 1, 2, 3, 6, 12])), ok
    q, lexicon = r.choice(common.languages())
    ctx.note(language=q)
    return lexicon, common.text_for(r, lexicon, 900), lambda t: edits.lang_insert(r, t), lambda t: True


def decide(r):
    return tf.Decide(r, r.choice([0, 0, .1, .3, .6]), r.choice([0, 0, .2]))


def show(res):
    return "" if res is None else repr(res)


def compare(ctx, got, want, msg, **kw):
    ctx.count("results")
    if got != want:
        a, b = show(got), show(want)
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        ctx.fail(msg, got=a[max(0, i - 100):i + 200], expected=b[max(0, i - 100):i + 200], **kw)


def case_scratch(ctx):
    r = ctx.rng
    l = language(ctx)
    if not l:
        return
    lexicon, text = l[:2]
    if r.random() < .1:
        lexicon = lexicon(r.choice(["x", 3]))
    ctx.note(text=text)
    d = decide(r)
    tree = parce.root(lexicon, text)
    before = common.flat(tree)
    want = tf.oracle(d, tree)
    t = tf.GenericTransformer(d)
    s = show(want)
    if "<untransformed>" in s:
        ctx.count("untransformed")
    if s.count("(None") + s.count(", None, ") > 1:
        ctx.count("nested")
    compare(ctx, t.transform_tree(tree), want, "transform_tree")
    compare(ctx, t.transform_text(lexicon, text), want, "transform_text")
    compare(ctx, t.transform_text(lexicon, text), want, "transform_text again")
    if r.random() < .3 and text and 'spec' not in ctx.detail:
        p = r.randrange(len(text))
        # from a position: as the lexer would do it
        from parce.lexer import Lexer
        toks = [(x[1], x[2]) for e in Lexer([lexicon]).events(text, p) for x in e.lexemes]
        got = t.transform_text(lexicon, text, p)
        if got is not None and d.nomethod == 0 and d.notransform == 0:
            compare(ctx, leaves(got), toks, "transform_text from a position", pos=p)
    events = []
    t.connect("started", lambda x: events.append(("started", x is tree)))
    t.connect("updated", lambda x, res: events.append(("updated", x is tree, res)))
    t.connect("finished", lambda x: events.append(("finished", x is tree)))
    t.build(tree)
    compare(ctx, t.result(tree), want, "result after build")
    ctx.check(events[0] == ("started", True) and events[-1] == ("finished", True) and len(events) == 3 and events[1][2] == want, "events of a transform")
    ctx.check(common.flat(tree) == before, "transforming changed the tree")
    # the convenience functions, for the main language
    if r.random() < .5:
        g = tf.Generic(d, lexicon.language)
        d2 = Only(d, lexicon.language)
        compare(ctx, tf_convenience(lexicon.language, g, lambda: transform_tree(tree, g)), tf.oracle(d2, tree), "convenience function transform_tree") \
            if d2.usable(tree) else None
        compare(ctx, tf_convenience(lexicon.language, g, lambda: transform_text(lexicon, text, g)), tf.oracle(d2, tree), "convenience function transform_text") \
            if d2.usable(tree) else None
    ctx.distinct(repr(lexicon), d.seed, text)
    ctx.sample({"text": text[:80], "result": s[:200]})


def leaves(res):
    """all (text, action) leaves"""
    out = []
    stack = [iter(res[2])]
    while stack:
        for x in stack[-1]:
            if isinstance(x[1], tuple) and len(x[1]) == 3 and isinstance(x[1][2], tuple):
                stack.append(iter(x[1][2]))
                break
            out.append(x)
        else:
            stack.pop()
    return out


class Only:
    """Decisions for one language only; other languages must have no transform of themselves."""
    def __init__(self, d, lang):
        self.d, self.lang = d, lang

    def __call__(self, language, name):
        return self.d(language, name)

    def has_transform(self, language):
        return language is self.lang

    def usable(self, tree):
        t = Transformer()
        langs = {n.lexicon.language for n in common.Model(tree).nodes if n.is_context}
        return all(l is self.lang or t.get_transform(l) is None for l in langs)


def tf_convenience(lang, g, func):
    return func()


def case_history(ctx):
    r = ctx.rng
    l = language(ctx)
    if not l:
        return
    lexicon, text, make_add, ok = l
    d = decide(r)
    calls = [0]

    def hook(name):
        calls[0] += 1
    t = tf.GenericTransformer(d, hook)
    how = r.choice(["connect", "worker", "worker", "document"])
    b = TreeBuilder(lexicon)
    worker = doc = None
    if how == "connect":
        t.connect_treebuilder(b)
        update = b.rebuild
    else:
        worker = Worker(b, t)
        update = worker.update
        if how == "document":
            doc = parce.Document(lexicon, text, worker=worker, transformer=t)
    if doc is None:
        update(text)
    hist = []
    decs = d
    for k in range(r.randrange(2, 9)):
        if k:
            op = r.random()
            if op < .07:
                # everything new
                new = make_add(text)() * 3
                if not ok(new):
                    continue
                if doc is not None:
                    doc.set_text(new)
                else:
                    update(new, False, 0, len(text))
                text = new
                hist.append("all")
            elif op < .12 and how != "connect":
                # other transformer
                decs = decide(r)
                t = tf.GenericTransformer(decs, hook, k)
                decs.tag = k
                worker.set_transformer(t)
                hist.append("transformer")
            else:
                if doc is not None and r.random() < .3:
                    # an edit with two changes
                    n = len(text)
                    x = sorted(r.randrange(n + 1) for _ in range(4))
                    if x[1] == x[2] or x[0] == x[2]:
                        continue
                    s1, s2 = make_add(text)(), make_add(text)()
                    new = text[:x[0]] + s1 + text[x[1]:x[2]] + s2 + text[x[3]:]
                    if not ok(new) or p06.beyond_lookback(lexicon, text, new, x[0]):
                        continue
                    with doc:
                        doc[x[2]:x[3]] = s2
                        doc[x[0]:x[1]] = s1
                    hist.append((x, s1, s2))
                else:
                    e = edits.rand_edit(r, text, make_add(text))
                    new = edits.apply(text, e)
                    if not ok(new) or p06.beyond_lookback(lexicon, text, new, e[0]):
                        continue
                    if doc is not None:
                        doc[e[0]:e[0] + e[1]] = e[2]
                    else:
                        update(new, False, e[0], e[1], len(e[2]))
                    hist.append(e)
                text = new
        ctx.note(text=text, history=hist, how=how)
        if doc is not None and not text and not doc.revision():
            continue    # a document without text has not been transformed yet
        ctx.count("updates")
        fresh = parce.root(lexicon, text)
        total = [0]
        tag = getattr(decs, "tag", None)
        want = tf.oracle(decs, fresh, tag)
        got = doc.get_transform(True) if doc is not None else worker.get_transform(True) if worker else t.result(b.root)
        compare(ctx, got, want, "incrementally updated result differs from the result for a fresh tree")
        # intermediate results
        n = 0
        stack = [b.root]
        while stack:
            node = stack.pop()
            n += 1
            if node is not b.root:
                ctx.count("intermediate")
                compare(ctx, t.result(node), tf.oracle(decs, node, tag), "intermediate result", node=repr(node))
            for c in node:
                if c.is_context and decs.has_transform(c.lexicon.language) and decs(c.lexicon.language, c.lexicon.name) is not None \
                        and decs.has_transform(node.lexicon.language) and decs(node.lexicon.language, node.lexicon.name) is not None:
                    stack.append(c)
        if k and calls[0] < n:
            ctx.count("cached_reused")
        if n > 2:
            ctx.count("nested")
        calls[0] = 0
    if how == "connect":
        # no longer connected: not called for further updates
        t.disconnect_treebuilder(b)
        calls[0] = 0
        b.rebuild(text + " ", False, len(text), 0, 1) if ok(text + " ") else None
        b.rebuild("") if ok("") else None
        ctx.equal(calls[0], 0, "transformer is called after disconnecting")
        ctx.count("disconnected")
    if len(hist) > 1:
        ctx.distinct(repr(lexicon), d.seed, hist, text)
    ctx.sample({"how": how, "history": repr(hist)[:200]})


# ---------------------------------------------------------------- helpers

class Tok:
    is_token = True

    def __init__(self, action):
        self.action = action

    def __repr__(self):
        return "Tok(%s)" % self.action


def case_items(ctx):
    """ItemList methods."""
    r = ctx.rng
    names = ["key", "value", "other", "x"]
    arg = r.choice([None, "arg", 3])
    l = ItemList(arg)
    ctx.equal(l.arg, arg, "arg")
    n = 0
    for _ in range(r.randrange(0, 14)):
        if r.random() < .4:
            l.append(Tok(r.choice("AB")))
        else:
            n += 1
            l.append(Item(r.choice(names), n))
    ctx.note(items=repr(l))
    plain = list(l)
    ctx.check([x for x in plain if x.is_token] == list(l.tokens()), "tokens()")
    ctx.check([x for x in plain if not x.is_token] == list(l.items()), "items()")
    for _ in range(4):
        g = r.sample(names, r.randrange(1, 4))
        out, cur, last = [], None, len(g)
        for x in plain:
            if not x.is_token and x.name in g:
                i = g.index(x.name)
                if cur is None or i <= last:
                    cur = [None] * len(g)
                    out.append(cur)
                cur[i] = x.obj
                last = i
        got = [list(x) for x in l.grouped_objects(*g)]
        ctx.equal(got, out, "grouped_objects", names=g)
    keys = [x.action if x.is_token else x.name for x in plain]
    for _ in range(8):
        i = r.randrange(-len(plain) - 2, len(plain) + 2)
        k = r.randrange(1, 4)
        j = i + len(plain) if i < 0 else i
        vals = tuple(keys[j:j + k]) if r.random() < .7 and 0 <= j else tuple(r.choice(keys or ["A"]) for _ in range(k))
        want = j >= 0 and len(vals) > 0 and tuple(keys[j:j + len(vals)]) == vals if vals else None
        if want is not None:
            ctx.equal(bool(l.peek(i, *vals)), want, "peek", index=i, values=vals)
    ctx.distinct(keys)
    ctx.sample({"items": repr(l)[:150]})
