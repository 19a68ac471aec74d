"""P07: changes that arrive while the tree is being built are never lost."""
import sys
import threading

import parce
from parce.treebuilder import TreeBuilder
import common
import edits
import langspec
from checks import p06

PROPERTY = "P07"
RULE = ("while the builder works on an edit, another thread asks for further edits or another root lexicon: at the n-th function call "
        "inside parce (profiler hook: anywhere in lexing, merging and tree replacement), in a 'started'/'replace'/'peek'/'invalidate' handler, or between "
        "the stages of the build generator.  When all is quiet the tree, open lexicons and the reported range are compared with a fresh build.  "
        "Non-trivial: a change really arrived during the build; distinct by (history, injection points).")
PLAN = {"quick": {"generated": 4500, "bundled": 1500, "stages": 2500, "changes": 4000}, "thorough": {"generated": 60000, "bundled": 20000, "stages": 30000, "changes": 60000}}
REQUIRED = {"arrived_during_build": 300, "arrived_at_stage": 100, "root_changes": 50, "merged": 5000}
ASSUMPTIONS = p06.ASSUMPTIONS


class Injector:
    """Calls functions (in another thread) at the n-th Python function call in parce code."""

    def __init__(self, builder, points):
        self.builder = builder
        self.points = sorted(points, key=lambda p: p[0])
        self.n = 0
        self.threads = []
        self.where = []

    def __enter__(self):
        def hook(frame, event, arg):
            if event != 'call' or '/parce/' not in frame.f_code.co_filename or not self.builder.busy:
                return
            self.n += 1
            while self.points and self.points[0][0] <= self.n:
                func = self.points.pop(0)[1]
                self.where.append(frame.f_code.co_name)
                sys.setprofile(None)
                t = threading.Thread(target=func, daemon=True)
                self.threads.append(t)
                t.start()
                t.join(.02)     # can be waiting for a lock held by the builder
                sys.setprofile(hook)
        sys.setprofile(hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        for t in self.threads:
            t.join(20)


def plan_edits(ctx, text, lexicon, make_add, ok, n, lexicons):
    """A chain of further changes: list of (text, root_lexicon or False, start, removed, added)."""
    r = ctx.rng
    out = []
    for _ in range(n):
        if lexicons and r.random() < .15:
            lex = r.choice(lexicons)
            if lex is not None and not ok(text, lex):
                continue
            lexicon = lex
            out.append((text, lex, 0, 0, None))
            continue
        if out and r.random() < .25:
            # close to the previous change
            s = max(0, min(len(text), out[-1][2] + r.choice([-1, 0, 1])))
            e = s, min(r.choice([0, 1, 2]), len(text) - s), make_add(text)()
        else:
            e = edits.rand_edit(r, text, make_add(text))
        new = edits.apply(text, e)
        if lexicon is not None and (not ok(new, lexicon) or p06.beyond_lookback(lexicon, text, new, e[0])):
            continue
        text = new
        out.append((text, False, e[0], e[1], len(e[2])))
    return out


def check_final(ctx, b, lexicon, text, root):
    p06.check_built(ctx, b, lexicon, text, root)
    ctx.check(b.root.lexicon is lexicon, "root lexicon is not the last requested one", got=repr(b.root.lexicon), expected=repr(lexicon))


def scenario(ctx, lexicon, text, make_add, ok, lexicons, stages=False):
    r = ctx.rng
    b = TreeBuilder(lexicon)
    root = b.root
    if r.random() < .3:
        b.peek_threshold = r.choice([1, 5, 30])
    b.rebuild(text)
    hist = []
    arrived = 0
    for _ in range(r.randrange(1, 5)):
        old_lex, old_text = lexicon, text
        chain = plan_edits(ctx, text, lexicon, make_add, ok, r.choice([2, 2, 3, 4, 6]), lexicons)
        if len(chain) < 2:
            continue
        cum = text
        if lexicon is not None and all(c[1] is False for c in chain):
            lo = min(c[2] for c in chain)
            if p06.beyond_lookback(lexicon, text, chain[-1][0], lo) or any(
                    p06.beyond_lookback(lexicon, text, c[0], min(d[2] for d in chain[:k + 1])) for k, c in enumerate(chain)):
                continue
        for c in chain:
            text = c[0]
            if c[1] is not False:
                lexicon = c[1]
                ctx.count("root_changes")
        ctx.note(start_text=old_text, chain=[(c[0] if c[1] is not False else '', repr(c[1])) + c[2:] for c in chain], texts=[c[0] for c in chain], peek=b.peek_threshold)
        old = edits.states(b.root)
        updated = []
        cb = lambda s, e: updated.append((s, e))
        b.connect("updated", cb)
        if stages:
            where = []
            todo = chain[1:]
            b.add_changes(*chain[0])
            b.busy = True
            for stage in b.process():
                while todo and r.random() < .5:
                    where.append(stage)
                    if stage != "done":
                        ctx.count("arrived_at_stage")
                        arrived += 1
                    b.rebuild(*todo.pop(0))
            for c in todo:
                b.rebuild(*c)
        elif r.random() < .25:
            # from inside an event handler
            where = [r.choice(["started", "replace", "invalidate", "peek"])]
            todo = chain[1:]

            def handler(*a):
                nonlocal arrived
                if todo:
                    ctx.count("arrived_during_build")
                    ctx.count("from handler " + where[0])
                    arrived += 1
                    b.rebuild(*todo.pop(0))
            b.connect(where[0], handler)
            b.rebuild(*chain[0])
            b.disconnect(where[0], handler)
            for c in todo:
                b.rebuild(*c)
        else:
            top = r.choice([5, 20, 60, 200, 800])
            at = sorted(r.randrange(1, top) for _ in chain[1:])
            if r.random() < .3:
                at = [at[0]] * len(at)
            todo = chain[1:]
            lock = threading.Lock()

            def inject():
                with lock:
                    b.rebuild(*todo.pop(0))
            with Injector(b, [(n, inject) for n in at]) as inj:
                b.rebuild(*chain[0])
            where = inj.where
            ctx.check(not any(t.is_alive() for t in inj.threads), "a thread asking for a change is stuck", where=where)
            ctx.count("arrived_during_build", len(where))
            for w in where:
                ctx.count("at " + w)
            arrived += len(where)
            for c in todo:
                b.rebuild(*c)
        b.disconnect("updated", cb)
        ctx.note(where=where)
        check_final(ctx, b, lexicon, text, root)
        if len(updated) == 1 and all(c[1] is False for c in chain) and lexicon is not None:
            ctx.count("ranges_checked")
            p06.check_range(ctx, old, edits.states(b.root), updated[0][0], updated[0][1], len(text) - len(old_text), len(text))
        hist.append((chain, where))
    if arrived:
        ctx.distinct(repr(hist))
        ctx.sample({"lexicon": repr(lexicon), "where": hist[-1][1] if hist else None, "changes": len(hist)})


def generated(ctx, stages):
    r = ctx.rng
    g = langspec.Gen(r, unique_actions=True, nested_groups=False)
    spec = g.spec()
    lang = langspec.build_language(spec)
    ctx.note(spec=spec)
    other = [l['name'] for l in spec['lexicons']]

    def ok(t, lex):
        try:
            ref = langspec.RefLexer(spec)
            ref.events(t, (lex.name, None))
            return not ref.stats['leadskip']
        except langspec.Discard:
            return False
    text = g.text(r.choice([5, 20, 60, 120]))
    if not ok(text, lang.root):
        ctx.count("discarded")
        return
    scenario(ctx, lang.root, text, lambda t: lambda: g.text(r.choice([1, 1, 2, 3, 6, 12])), ok,
             [getattr(lang, n) for n in other] + [None], stages)


def case_generated(ctx):
    generated(ctx, False)


def case_stages(ctx):
    generated(ctx, True)


def case_bundled(ctx):
    r = ctx.rng
    langs = [l for q, l in common.languages()]
    lexicon = r.choice(langs)
    text = common.text_for(r, lexicon, 600)
    ctx.note(language=repr(lexicon), text=text)
    scenario(ctx, lexicon, text, lambda t: edits.lang_insert(r, t), lambda t, l: True, langs + [None], r.random() < .3)


def case_changes(ctx):
    """The Changes object: whatever is merged, it describes the difference between the first and the last text."""
    from parce.treebuilderutil import Changes
    r = ctx.rng
    # every character is unique, so that it is known what comes from where
    serial = [0]

    def fresh(n):
        serial[0] += n
        return "".join(chr(0x4e00 + serial[0] - k) for k in range(n))
    first = text = fresh(r.randrange(0, 25))
    c = Changes()
    ctx.check(not c.has_changes(), "changes without any")
    hist = []
    lexicon = False
    for _ in range(r.randrange(1, 7)):
        s = r.randrange(len(text) + 1)
        e = min(len(text), s + r.choice([0, 0, 1, 2, 3, 10]))
        ins = fresh(r.choice([0, 1, 2, 5]))
        if r.random() < .15 and hist:
            # all text after start
            text = text[:s] + ins
            lex = r.choice([False, None, "x"])
            c.add(text, lex, s)
            hist.append((s, None, len(ins)))
        else:
            text = text[:s] + ins + text[e:]
            lex = r.choice([False, False, None, "x"])
            c.add(text, lex, s, e - s, len(ins))
            hist.append((s, e - s, len(ins)))
        lexicon = lex if lex is not False else lexicon
        ctx.note(history=hist, changes=(c.start, c.removed, c.added), length=len(first))
        ctx.check(c.has_changes() and c.root_lexicon is lexicon and c.text == text, "text or root lexicon of the changes")
        ctx.check(0 <= c.start and c.start + c.removed <= len(first) and c.start + c.added <= len(text) and min(c.removed, c.added) >= 0,
                  "merged changes outside the text")
        ctx.check(first[:c.start] + text[c.start:c.start + c.added] + first[c.start + c.removed:] == text,
                  "merged changes do not lead to the new text")
        ctx.count("merged")
        for p, ch in enumerate(first):
            if not hasattr(c, "new_position"):
                break
            q = c.new_position(p)
            if p < c.start or p >= c.start + c.removed:
                ctx.equal(text[q], ch, "new_position() of a kept character", pos=p)
            else:
                ctx.equal(q, c.start + c.added, "new_position() of a removed character", pos=p)
    ctx.distinct(hist)
