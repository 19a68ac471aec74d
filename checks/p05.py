"""P05: queries agree with evaluating them step by step on plain lists."""
import io
import re

import parce
from parce.query import Query
from parce.standardaction import StandardAction
import common

PROPERTY = "P05"
RULE = ("random query chains of 1..6 steps (all navigators and selectors, inverted too) on trees of bundled and generated languages; "
        "each chain is evaluated by the library and by a list-based interpreter and the resulting node sequences must be identical "
        "(objects and order); end points and deletion are checked as well.  Non-trivial: 2+ steps and a nonempty result.")
PLAN = {"quick": {"chain": 8000, "delete": 2500}, "thorough": {"chain": 120000, "delete": 30000}}
REQUIRED = {"chains": 500, "nonempty": 200, "deleted": 100, "inverted": 100}
ASSUMPTIONS = ["sibling steps are not applied to the root (documented to fail)", "in_action is used with standard actions"]


def words(r, m):
    out = []
    for _ in range(r.randrange(1, 4)):
        t = r.choice(m.tokens).text if m.tokens else "x"
        out.append(t)
    return out


def lexs(r, m):
    c = [n for n in m.nodes if n.is_context]
    return [r.choice(c).lexicon for _ in range(r.randrange(1, 3))]


def up(m, n):
    return m.up[id(n)]


def make_step(r, m, have_root):
    """Return (name, real function, reference function)."""
    T = m.tokens
    order = m.order
    tree = m.tree

    def desc(n):
        return [n] + m.descendants(n)

    def sibs(n):
        return list(up(m, n)[0])

    nav = {
        "children": lambda l: [c for n in l if n.is_context for c in n],
        "all": lambda l: [d for n in l for d in desc(n)],
        "alltokens": lambda l: [d for n in l for d in desc(n) if d.is_token],
        "allcontexts": lambda l: [d for n in l for d in desc(n) if d.is_context],
        "parent": lambda l: [up(m, n)[0] for n in l if up(m, n)],
        "ancestors": lambda l: [a for n in l for a in up(m, n)],
        "first": lambda l: [list(n)[0] for n in l if n.is_context and len(n)],
        "last": lambda l: [list(n)[-1] for n in l if n.is_context and len(n)],
        "next": lambda l: [x for n in l for x in fw(n)[:1]],
        "previous": lambda l: [x for n in l for x in bw(n)[:1]],
        "forward": lambda l: [x for n in l for x in fw(n)],
        "backward": lambda l: [x for n in l for x in bw(n)],
        "right": lambda l: [x for n in l for x in sibs(n)[m.index[id(n)]+1:][:1]],
        "left": lambda l: [x for n in l for x in sibs(n)[:m.index[id(n)]][::-1][:1]],
        "right_siblings": lambda l: [x for n in l for x in sibs(n)[m.index[id(n)]+1:]],
        "left_siblings": lambda l: [x for n in l for x in sibs(n)[:m.index[id(n)]][::-1]],
        "tokens": lambda l: [n for n in l if n.is_token],
        "contexts": lambda l: [n for n in l if n.is_context],
        "uniq": lambda l: uniq(l),
        "remove_descendants": lambda l: [n for n in l if not any(a is x for a in up(m, n) for x in l)],
        "remove_ancestors": lambda l: [n for n in l if not any(a is n for x in l for a in up(m, x))],
    }

    def fw(n):
        u = m.under(n)
        return T[order[id(u[-1])] + 1:] if u else []

    def bw(n):
        u = m.under(n)
        return T[:order[id(u[0])]][::-1] if u else []

    def uniq(l):
        seen, out = set(), []
        for n in l:
            if id(n) not in seen:
                seen.add(id(n))
                out.append(n)
        return out

    kind = r.random()
    if kind < .5:
        names = [n for n in nav if not (have_root and n in ("right", "left", "right_siblings", "left_siblings"))]
        name = r.choice(names)
        return name, (lambda q: getattr(q, name)), nav[name]
    if kind < .62:
        if r.random() < .5:
            k = r.choice([0, 1, 2, -1, -2, 5, -7])

            def item(l):
                return [list(n)[k] for n in l if n.is_context and -len(n) <= k < len(n)]
            return "[%d]" % k, (lambda q: q[k]), item
        s = slice(r.choice([None, 0, 1, -2]), r.choice([None, 2, -1, 5]), r.choice([None, None, 2, -1]))
        return repr(s), (lambda q: q[s]), (lambda l: [x for n in l if n.is_context for x in list(n)[s]])
    if kind < .67:
        a = r.choice([(1,), (3,), (0, None), (1, 4), (0, None, 2)])
        return "slice%r" % (a,), (lambda q: q.slice(*a)), (lambda l: list(l[slice(*a)]))
    if kind < .72:
        if r.random() < .5:
            return "filter", (lambda q: q.filter(lambda n: n.pos % 2)), (lambda l: [n for n in l if n.pos % 2])
        return "map", (lambda q: q.map(lambda n: [n, n])), (lambda l: [n for n in l for _ in (0, 1)])
    inv = r.random() < .35
    sel = r.choice(["call", "call", "len1", "len2", "range", "starting", "ending", "containing", "matching", "action", "in_action"])
    w = words(r, m)
    if sel == "call":
        what = w + (lexs(r, m) if r.random() < .6 else [])

        def hit(n):
            return any(n.text == x for x in what if isinstance(x, str)) if n.is_token else any(n.lexicon == x for x in what if not isinstance(x, str))
        real = lambda q: q(*what)
        dom = lambda n: True
    elif sel in ("len1", "len2"):
        a = r.randrange(0, 4)
        b = None if sel == "len1" else a + r.randrange(0, 4)
        hit = (lambda n: len(list(n)) == a) if b is None else (lambda n: a <= len(list(n)) <= b)
        real = (lambda q: q.len(a)) if b is None else (lambda q: q.len(a, b))
        dom = lambda n: n.is_context
    elif sel == "range":
        hi = (T[-1].end if T else 0) + 2
        a = r.randrange(hi)
        b = r.choice([None, a + r.randrange(hi)])
        real = lambda q: q.in_range(a, b)

        def ext(n):
            u = m.under(n)
            return (u[0].pos, u[-1].end) if u else (0, 0)
        big = 1 << 60
        B = big if b is None else b
        if inv:
            ref = lambda l: [n for n in l if ext(n)[1] <= a or ext(n)[0] >= B]
        else:
            ref = lambda l: [n for n in l if ext(n)[0] >= a and ext(n)[1] <= B]
        return ("is_not." if inv else "") + "in_range(%r,%r)" % (a, b), (lambda q: real(q.is_not if inv else q)), ref
    else:
        t = w[0]
        dom = lambda n: n.is_token
        part = t[:r.randrange(1, 3)] if sel == "starting" else t[-r.randrange(1, 3):] if sel == "ending" else t[r.randrange(len(t)):][:2]
        if sel == "starting":
            hit, real = (lambda n: n.text[:len(part)] == part), (lambda q: q.startingwith(part))
        elif sel == "ending":
            hit, real = (lambda n: n.text[-len(part):] == part), (lambda q: q.endingwith(part))
        elif sel == "containing":
            hit, real = (lambda n: n.text.find(part) != -1), (lambda q: q.containing(part))
        elif sel == "matching":
            pat, fl = r.choice([(r"\d", 0), (r"^[a-z]+$", 0), (r"^[a-z]", re.I), (r"\s", 0), (r".\B.", 0)])
            hit, real = (lambda n: re.search(pat, n.text, fl) is not None), (lambda q: q.matching(pat, fl))
        else:
            acts = [r.choice(T).action for _ in range(r.randrange(1, 3))] if T else [parce.action.Name]
            acts = [a for a in acts if isinstance(a, StandardAction)] or [parce.action.Name]
            if sel == "action":
                hit, real = (lambda n: any(n.action is a for a in acts)), (lambda q: q.action(*acts))
            else:
                acts = [r.choice(list(a)) for a in acts]
                if not all(isinstance(t.action, StandardAction) for t in T):
                    hit, real = (lambda n: any(n.action is a for a in acts)), (lambda q: q.action(*acts))
                else:
                    hit = lambda n: any(p is a for a in acts for p in n.action)
                    real = lambda q: q.in_action(*acts)
    ref = lambda l: [n for n in l if dom(n) and bool(hit(n)) != inv]
    name = ("is_not." if inv else "") + sel
    if inv and r.random() < .2:
        # inverting twice is not inverting
        ref2 = lambda l: [n for n in l if dom(n) and hit(n)]
        return "is_not." + name, (lambda q: real(q.is_not.is_not)), ref2
    return name, (lambda q: real(q.is_not if inv else q)), ref


def case_chain(ctx):
    p = common.parsed(ctx, maxlen=250)
    if p is None:
        return
    lexicon, text, tree = p
    m = common.Model(tree)
    r = ctx.rng
    for _ in range(6):
        if r.random() < .5:
            start = [tree]
            q = tree.query
        else:
            start = [r.choice(m.nodes) for _ in range(r.randrange(0, 5))]
            q = Query.from_nodes(start)
            if len(start) == 1:
                q = start[0].query
        expect = list(start)
        chain = []
        for _ in range(r.randrange(1, 7)):
            name, real, ref = make_step(r, m, any(n is tree for n in expect))
            nxt = ref(expect)
            if len(nxt) > 3000:
                break
            chain.append(name)
            q = real(q)
            expect = nxt
            ctx.count("steps")
            if "is_not" in name:
                ctx.count("inverted")
        ctx.note(chain=chain)
        ctx.count("chains")
        for k in (0, 1):        # a query can be evaluated repeatedly
            got = list(q)
            ctx.check(common.same(got, expect), "query result", chain=chain, got=repr(got)[:800], expected=repr(expect)[:800])
        ctx.check(q.count() == len(expect), "count", chain=chain)
        ctx.check(bool(q) == bool(expect), "bool", chain=chain)
        mark = object()
        ctx.check(q.pick(mark) is (expect[0] if expect else mark), "pick", chain=chain)
        ctx.check(q.pick_last(mark) is (expect[-1] if expect else mark), "pick_last", chain=chain)
        rg = (min(n.pos for n in expect), max(n.end for n in expect)) if expect else (-1, -1)
        ctx.equal(q.range(), rg, "range", chain=chain)
        if 0 < len(expect) < 20:
            out, want = io.StringIO(), io.StringIO()
            q.dump(out)
            for n in expect:
                n.dump(want)
            ctx.equal(out.getvalue(), want.getvalue(), "dump", chain=chain)
        if expect:
            ctx.count("nonempty")
            if len(chain) > 1:
                ctx.distinct(text, chain)
        ctx.sample({"chain": chain, "results": len(expect)})


def case_delete(ctx):
    p = common.parsed(ctx, maxlen=250)
    if p is None:
        return
    lexicon, text, tree = p
    r = ctx.rng
    for _ in range(r.randrange(1, 4)):
        m = common.Model(tree)
        if len(m.nodes) < 2:
            break
        pool = m.nodes if r.random() < .05 else m.nodes[1:]
        sel = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 10, 20]))]
        if r.random() < .3:
            sel += list(r.choice([n for n in m.nodes if n.is_context]))
            r.shuffle(sel)
        gone = set()
        for n in sel:
            gone.update(id(t) for t in m.under(n))
        rest = [t for t in m.tokens if id(t) not in gone]
        keep = [n for n in m.nodes if n is tree or not {id(t) for t in m.under(n)} <= gone]
        dead = {id(n) for n in m.nodes} - {id(n) for n in keep}
        top = [n for n in m.nodes if id(n) in dead and id(m.up[id(n)][0]) not in dead]
        ctx.note(selection=[repr(n) for n in sel])
        count = Query.from_nodes(sel).delete()
        m2 = common.Model(tree)
        ctx.check(common.same(m2.tokens, rest), "tokens left after delete", got=repr(m2.tokens)[:600], expected=repr(rest)[:600])
        ctx.check(common.same(m2.nodes, keep), "nodes left after delete")
        ctx.equal(count, len(top), "number of deleted nodes")
        common.flat(tree)
        ctx.count("deleted", len(top))
        ctx.distinct(text, "delete", ctx.detail["selection"])
