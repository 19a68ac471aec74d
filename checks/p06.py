"""P06: updating a tree after an edit gives the tree that parsing the new text from scratch gives."""
import parce
from parce.treebuilder import TreeBuilder
import common
import edits
import langspec

PROPERTY = "P06"
RULE = ("histories of random edits (typing, deleting, replacing, pasting; at start, middle, end) on bundled-language documents and "
        "on generated languages; after every edit a monitor compares the updated tree, the open lexicons and the reported updated range with a "
        "tree built from scratch and with a snapshot of the old tree.  Non-trivial: 2+ edits of which one reused old tokens.")
PLAN = {"quick": {"generated": 4000, "bundled": 2500, "direct": 1200, "relex": 1500}, "thorough": {"generated": 50000, "bundled": 40000, "direct": 12000, "relex": 15000}}
REQUIRED = {"edits": 1000, "partial_rebuilds": 300, "tail_reused": 200, "relexed": 500, "edits_no_lexicon": 200}
ASSUMPTIONS = ["rule patterns look back and ahead over a bounded number of tokens (documented heuristic of the builder)",
               "the added/removed values given describe the edit"]


def same_lexicons(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check_built(ctx, b, lexicon, text, root):
    fresh = TreeBuilder(lexicon)
    fresh.rebuild(text)
    got, want = common.flat(b.root), common.flat(fresh.root)
    ctx.check(got == want, "updated tree differs from a fresh one", diff=common.first_diff(got, want) if got != want else '')
    for (x, y) in zip(got, want):
        if x[1] == 'C' and x[2] is not y[2]:
            ctx.fail("context has another (derived) lexicon", got=repr(x[2]), expected=repr(y[2]))
    ctx.check(same_lexicons(b.lexicons, fresh.lexicons), "open lexicons differ", got=repr(b.lexicons), expected=repr(fresh.lexicons))
    ctx.check(b.root is root, "the root context was replaced")
    ctx.check(not b.busy, "builder is still busy")


def beyond_lookback(lexicon, old, new, start):
    """True if the edit changes tokens further back than the builder (by documented heuristic) looks.

    Decided from two trees built from scratch, so it does not excuse anything
    an update gets wrong.
    """
    a = edits.states(parce.root(lexicon, old))
    b = edits.states(parce.root(lexicon, new))
    k = 0
    while k < len(a) and k < len(b) and a[k] == b[k]:
        k += 1
    m = sum(1 for t in a if t[0] + len(t[1]) <= start)
    return m - k >= 9


def check_range(ctx, old, new, start, end, offset, textlen):
    """Nothing changed outside the reported range."""
    ctx.check(0 <= start <= end, "updated range is not a range", start=start, end=end)
    a = [t for t in old if t[0] + len(t[1]) <= start]
    b = [t for t in new if t[0] + len(t[1]) <= start]
    ctx.check(a == b, "tokens before the reported range changed", start=start, end=end, diff=common.first_diff(a, b) if a != b else '')
    b = [t for t in new if t[0] >= end]
    a = [(t[0] + offset,) + t[1:] for t in old if t[0] + offset >= end]
    ctx.check(a == b, "tokens after the reported range changed", start=start, end=end, offset=offset, diff=common.first_diff(a, b) if a != b else '')


def history(ctx, lexicon, text, make_add, ok, n):
    r = ctx.rng
    b = TreeBuilder(lexicon)
    root = b.root
    events = []
    b.connect("started", lambda: events.append("started"))
    b.connect("replace", lambda: events.append("replace"))
    b.connect("finished", lambda: events.append("finished"))
    b.connect("updated", lambda s, e: events.append(("updated", s, e)))
    b.rebuild(text)
    check_built(ctx, b, lexicon, text, root)
    hist = []
    reused = 0
    for _ in range(n):
        e = edits.rand_edit(r, text, make_add(text))
        new = edits.apply(text, e)
        if not ok(new):
            ctx.count("discarded")
            continue
        if beyond_lookback(lexicon, text, new, e[0]):
            ctx.count("beyond_lookback")
            continue
        hist.append(e)
        ctx.note(text=text, edit=e, history=hist)
        old = edits.states(b.root)
        ids = {id(t) for t in b.root.tokens()}
        keep = list(b.root.tokens())
        del events[:]
        b.rebuild(new, False, e[0], e[1], len(e[2]))
        text = new
        check_built(ctx, b, lexicon, text, root)
        check_range(ctx, old, edits.states(b.root), b.start, b.end, len(e[2]) - e[1], len(text))
        ctx.check(b.start <= e[0] and e[0] + len(e[2]) <= b.end <= len(text), "the reported range does not cover the edit", start=b.start, end=b.end)
        ctx.check(events[0] == "started" and events[-1] == "finished" and events.count("finished") == 1 and events.count("started") == 1
                  and events.count(("updated", b.start, b.end)) == 1 and "replace" in events, "builder events", events=events)
        ctx.count("edits")
        now = list(b.root.tokens())
        if now and id(now[0]) in ids and any(id(t) not in ids for t in now):
            reused += 1
            ctx.count("partial_rebuilds")
        if now and id(now[-1]) in ids and e[0] + len(e[2]) < len(text):
            reused += 1
            ctx.count("tail_reused")
        del keep
    if len(hist) > 1 and reused:
        ctx.distinct(repr(lexicon), hist, text)
    ctx.sample({"lexicon": repr(lexicon), "edits": hist[:3]})


def case_generated(ctx):
    r = ctx.rng
    g = langspec.Gen(r, unique_actions=True, nested_groups=False)
    spec = g.spec()
    lang = langspec.build_language(spec)
    ctx.note(spec=spec)

    def ok(t):
        try:
            ref = langspec.RefLexer(spec)
            ref.events(t, ('root', None))
            # a match that starts with skipped text can't be recognized in the tree
            return not ref.stats['leadskip']
        except langspec.Discard:
            return False
    text = g.text(r.choice([5, 20, 60, 120, 250]))
    if not ok(text):
        ctx.count("discarded")
        return
    history(ctx, lang.root, text, lambda t: lambda: g.text(r.choice([1, 1, 2, 3, 6, 12])), ok, r.randrange(2, 9))


def case_bundled(ctx):
    r = ctx.rng
    q, lexicon = r.choice(common.languages())
    text = common.text_for(r, lexicon)
    ctx.note(language=q)
    history(ctx, lexicon, text, lambda t: edits.lang_insert(r, t), lambda t: True, r.randrange(2, 7))


def case_direct(ctx):
    """Whole-tree operations: other root lexicon, no lexicon, everything replaced, default arguments."""
    r = ctx.rng
    langs = [l for q, l in common.languages()]
    lexicon = r.choice(langs)
    b = TreeBuilder(r.choice([None, lexicon]))
    root = b.root
    lexicon = b.root.lexicon
    text = common.text_for(r, langs[0], 300)
    b.rebuild(text)
    hist = []
    for _ in range(r.randrange(1, 8)):
        op = r.choice(["lexicon", "none", "text", "derived", "append", "edit", "tree"])
        if op == "lexicon":
            lexicon = r.choice(langs)
            b.rebuild(text, lexicon)
        elif op == "none":
            lexicon = None
            b.rebuild(text, None)
        elif op == "derived":
            lexicon = r.choice(langs)(r.choice(["x", "y"]))
            b.rebuild(text, lexicon)
        elif op == "text":
            old = len(text)
            text = common.text_for(r, r.choice(langs), 300)
            b.rebuild(text, False, 0, old)
        elif op == "tree":
            text = common.text_for(r, r.choice(langs), 300)
            ctx.check(b.tree(text) is root, "tree() does not return the root")
        elif op == "append":
            old = len(text)
            text += r.choice(common.SNIPPETS)
            b.rebuild(text, False, old, 0)
        else:
            e = edits.rand_edit(r, text, edits.lang_insert(r, text))
            new = edits.apply(text, e)
            if beyond_lookback(lexicon, text, new, e[0]):
                continue
            text = new
            b.rebuild(text, False, e[0], e[1], len(e[2]))
        hist.append((op, repr(lexicon)))
        ctx.note(history=hist, text=text)
        ctx.check(b.root.lexicon is lexicon, "root lexicon is not the requested one", got=repr(b.root.lexicon))
        check_built(ctx, b, lexicon, text, root)
        ctx.count("direct_ops")
    ctx.distinct(hist, text)


def case_relex(ctx):
    """other root lexicons, and none at all, between the edits"""
    r = ctx.rng
    pool = [None] + [r.choice(common.languages())[1] for _ in range(3)]
    lexicon = r.choice(pool)
    text = common.text_for(r, next(l for l in pool if l), 800)
    b = TreeBuilder(lexicon)
    root = b.root
    updated = []
    b.connect("updated", lambda s, e: updated.append((s, e)))
    b.rebuild(text)
    check_built(ctx, b, lexicon, text, root)
    hist = []
    for _ in range(r.randrange(2, 8)):
        del updated[:]
        if r.random() < .4:
            lexicon = r.choice(pool)
            if r.random() < .3:
                text = common.mutate(r, text)
            hist.append((repr(lexicon),))
            ctx.note(history=hist, text=text)
            b.rebuild(text, lexicon)
            ctx.equal((b.start, b.end), (0, len(text)), "reported range after setting a root lexicon")
            ctx.check(b.root.lexicon is lexicon, "root lexicon was not set")
            ctx.count("relexed")
        else:
            e = edits.rand_edit(r, text, lambda: r.choice(common.SNIPPETS))
            new = edits.apply(text, e)
            if lexicon and beyond_lookback(lexicon, text, new, e[0]):
                continue
            hist.append(e)
            ctx.note(history=hist, text=text)
            text = new
            b.rebuild(text, False, e[0], e[1], len(e[2]))
            ctx.check(b.start <= e[0] and e[0] + len(e[2]) <= b.end <= len(text), "the reported range does not cover the edit", start=b.start, end=b.end)
            ctx.count("edits_no_lexicon", lexicon is None)
        ctx.equal(updated, [(b.start, b.end)], "updated event")
        check_built(ctx, b, lexicon, text, root)
    if len(hist) > 1:
        ctx.distinct(hist, text)
