"""P04: navigating and searching a tree agrees with a plain look at all of its nodes."""
import contextlib
import io
import itertools

import parce
from parce.tree import DUMP_STYLES, Range
import common

PROPERTY = "P04"
RULE = ("trees of bundled and generated languages; a monitor wraps every navigation and position search call (parents, siblings, "
        "forward/backward, find*, ranges, groups, copies, deletion) and compares the answer with a linear scan over a flat list of all "
        "nodes.  Non-trivial: tree of 3+ tokens; distinct by (language, text).")
PLAN = {"quick": {"navigate": 2000, "find": 4000, "ranges": 3000, "copy": 1200, "delete": 1200},
        "thorough": {"navigate": 30000, "find": 60000, "ranges": 40000, "copy": 15000, "delete": 15000}}
REQUIRED = {"nodes_visited": 1000, "positions": 1000, "range_pairs": 1000, "groups": 50, "deleted": 100, "dumps": 200, "comparisons": 1000}
ASSUMPTIONS = ["sibling methods are not called on the root (documented to fail)", "'upto' is an ancestor, as documented"]


def make(ctx, **kw):
    p = common.parsed(ctx, **kw)
    if p is None:
        return None
    lexicon, text, tree = p
    m = common.Model(tree)
    if len(m.tokens) >= 3:
        ctx.distinct(repr(lexicon), text, ctx.kind)
    ctx.sample({"text": text[:120], "nodes": len(m.nodes)})
    return text, tree, m


def pick(r, l, n):
    return l if len(l) <= n else r.sample(l, n)


def case_navigate(ctx):
    p = make(ctx)
    if not p:
        return
    text, tree, m = p
    r = ctx.rng
    same = common.same
    if len(m.nodes) < 300:
        out = io.StringIO()
        style = r.choice([None] + sorted(DUMP_STYLES))
        tree.dump(out, style)
        d = DUMP_STYLES[style or "round"]
        want = []
        todo = [(tree, "", "")]
        while todo:
            n, own, below = todo.pop()
            want.append(own + repr(n))
            if n.is_context:
                kids = list(n)
                todo.extend((k, below + d[2], below + d[0]) if k is not kids[-1] else (k, below + d[3], below + d[1]) for k in reversed(kids))
        ctx.equal(out.getvalue().rstrip("\n"), "\n".join(want), "dump()", style=style)
        ctx.count("dumps")
    for n in pick(r, m.nodes, 40):
        ctx.count("nodes_visited")
        up = m.up[id(n)]
        D = dict(node=repr(n))
        ctx.check(same(n.ancestors(), up), "ancestors", **D)
        ctx.check(n.depth() == len(up), "depth", **D)
        ctx.check(n.root() is tree, "root", **D)
        ctx.check(n.parent is (up[0] if up else None), "parent", **D)
        if n.is_token:
            ctx.check(n.end == n.pos + len(n.text) and len(n) == len(n.text) and n == n.text and not n != n.text
                      and "{}".format(n) == n.text and not n == n.text + "x", "token as string", **D)
        else:
            u = m.under(n)
            ctx.check(same(n.tokens(), u), "tokens", **D)
            ctx.check(same(n.tokens(True), u[::-1]), "tokens reversed", **D)
            ctx.check(n.first_token() is (u[0] if u else None), "first_token", **D)
            ctx.check(n.last_token() is (u[-1] if u else None), "last_token", **D)
            ctx.check(n.pos == (u[0].pos if u else 0), "pos", **D)
            ctx.check(n.end == (u[-1].end if u else 0), "end", **D)
            ctx.check(n.is_root() == (n is tree), "is_root", **D)
            ctx.check(n.height() == max([len(m.up[id(t)]) - len(up) for t in u], default=0), "height", **D)
        if up:
            sibs = list(up[0])
            i = m.index[id(n)]
            ctx.check(n.parent_index() == i, "parent_index", got=n.parent_index(), expected=i, **D)
            ctx.check(n.is_first() == (i == 0) and n.is_last() == (i == len(sibs) - 1), "is_first/is_last", **D)
            ctx.check(n.left_sibling() is (sibs[i-1] if i else None), "left_sibling", **D)
            ctx.check(n.right_sibling() is (sibs[i+1] if i + 1 < len(sibs) else None), "right_sibling", **D)
            ctx.check(same(n.left_siblings(), sibs[:i][::-1]), "left_siblings", **D)
            ctx.check(same(n.right_siblings(), sibs[i+1:]), "right_siblings", **D)
        ctx.check(same([a for a, i in n.ancestors_with_index()], up)
                  and [i for a, i in n.ancestors_with_index()] == [m.index[id(x)] for x in ([n] + up)[:-1]], "ancestors_with_index", **D)
        ul = m.under(n)
        if ul:
            first, last = m.order[id(ul[0])], m.order[id(ul[-1])]
            after, before = m.tokens[last+1:], m.tokens[:first][::-1]
            ctx.check(n.next_token() is (after[0] if after else None), "next_token", **D)
            ctx.check(n.previous_token() is (before[0] if before else None), "previous_token", **D)
            ctx.check(same(n.forward(), after), "forward", **D)
            ctx.check(same(n.backward(), before), "backward", **D)
            if n.is_token:
                ctx.check(same(n.forward_including(), [n] + after), "forward_including", **D)
                ctx.check(same(n.backward_including(), [n] + before), "backward_including", **D)
            if up:
                k = r.randrange(len(up))
                a = up[k]
                inside = m.under(a)
                lo, hi = m.order[id(inside[0])], m.order[id(inside[-1])]
                ctx.check(same(n.ancestors(a), up[:k+1]), "ancestors(upto)", **D)
                ctx.check(same(n.forward(a), m.tokens[last+1:hi+1]), "forward(upto)", **D)
                ctx.check(same(n.backward(a), m.tokens[lo:first][::-1]), "backward(upto)", **D)
        o = r.choice(m.nodes)
        ups = [o] + m.up[id(o)]
        ctx.check(n.is_ancestor_of(o) == any(x is n for x in m.up[id(o)]), "is_ancestor_of", other=repr(o), **D)
        mine = ([n] if n.is_context else []) + up
        theirs = ([o] if o.is_context else []) + m.up[id(o)]
        common_anc = next((x for x in mine if any(x is y for y in theirs)), None)
        ctx.check(n.common_ancestor(o) is common_anc, "common_ancestor", other=repr(o), **D)
    # groups
    for t in pick(r, [t for t in m.tokens if t.group is not None], 30):
        ctx.count("groups")
        sibs = list(t.parent)
        i = m.index[id(t)]
        while sibs[i].group != 0:
            i -= 1
        j = i + 1
        while sibs[j].group > 0:
            j += 1
        g = sibs[i:j+1]
        ctx.check([x.group for x in g] == list(range(j - i)) + [i - j], "group numbers", groups=[x.group for x in g])
        ctx.check(same(t.get_group(), g), "get_group", token=repr(t), got=repr(t.get_group()), expected=repr(g))
        ctx.check(t.get_group_start() is g[0] and t.get_group_end() is g[-1], "get_group_start/end", token=repr(t))


def case_find(ctx):
    p = make(ctx)
    if not p:
        return
    text, tree, m = p
    r = ctx.rng
    contexts = [n for n in m.nodes if n.is_context]
    edges = sorted({x for t in m.tokens for x in (t.pos, t.end)} | {0, len(text)})
    for c in [tree] + pick(r, contexts, 3):
        toks = m.under(c)
        pos_list = [-1, 0, len(text), len(text) + 3] + [r.choice(edges) + r.choice([-1, 0, 0, 1]) for _ in range(12)] + \
            [r.randrange(len(text) + 2) for _ in range(5)]
        for pos in pos_list:
            ctx.count("positions")
            D = dict(context=repr(c), pos=pos)
            at = [t for t in toks if t.end > pos]
            left = [t for t in toks if t.pos < pos]
            ctx.equal(c.find(pos), next((i for i, n in enumerate(c) if n.end > pos), -1), "find", **D)
            ctx.equal(c.find_left(pos), next((i for i in range(len(c) - 1, -1, -1) if c[i].pos < pos), -1), "find_left", **D)
            t = at[0] if at else None
            ctx.check(c.find_token(pos) is t, "find_token", got=repr(c.find_token(pos)), expected=repr(t), **D)
            tok, trail = c.find_token_with_trail(pos)
            ctx.check(tok is t and (trail is None) == (t is None), "find_token_with_trail", **D)
            n = c
            for i in trail or ():
                n = n[i]
            ctx.check(t is None or n is t, "trail does not lead to the token", trail=trail, **D)
            t = left[-1] if left else None
            ctx.check(c.find_token_left(pos) is t, "find_token_left", got=repr(c.find_token_left(pos)), expected=repr(t), **D)
            tok, trail = c.find_token_left_with_trail(pos)
            ctx.check(tok is t and (trail is None) == (t is None), "find_token_left_with_trail", **D)
            n = c
            for i in trail or ():
                n = n[i]
            ctx.check(t is None or n is t, "left trail does not lead to the token", trail=trail, **D)
            t = next((t for t in toks if t.pos >= pos), None)
            ctx.check(c.find_token_after(pos) is t, "find_token_after", got=repr(c.find_token_after(pos)), expected=repr(t), **D)
            t = next((t for t in reversed(toks) if t.end <= pos), None)
            ctx.check(c.find_token_before(pos) is t, "find_token_before", got=repr(c.find_token_before(pos)), expected=repr(t), **D)
            # youngest context that covers pos
            cand = [x for x in contexts if (x is c or any(y is c for y in m.up[id(x)])) and len(x) and x.pos <= pos < x.end]
            e = max(cand, key=lambda x: len(m.up[id(x)])) if cand else c
            ctx.check(c.find_context(pos) is e, "find_context", got=repr(c.find_context(pos)), expected=repr(e), **D)


def case_ranges(ctx):
    p = make(ctx)
    if not p:
        return
    text, tree, m = p
    r = ctx.rng
    same = common.same
    contexts = [n for n in m.nodes if n.is_context]
    edges = sorted({x for t in m.tokens for x in (t.pos, t.end)} | {0, len(text)})
    c = r.choice(contexts)
    ctx.check(same(Range(c).tokens(), m.under(c)), "range of a whole context")
    n = r.choice(m.nodes)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        n.pwd
    want = [repr(x) for x in reversed([n] + m.up[id(n)])]
    got = out.getvalue().splitlines()
    ctx.check(len(got) == len(want) and all(w in g for g, w in zip(got, want)), "pwd does not show the ancestry", got_text=out.getvalue())
    for _ in range(25):
        c = tree if r.random() < .6 else r.choice(contexts)
        toks = m.under(c)
        start = max(0, r.choice([0, r.choice(edges) + r.choice([-1, 0, 1]), r.randrange(len(text) + 2)]))
        end = r.choice([None, r.choice(edges) + r.choice([-1, 0, 1]), r.randrange(len(text) + 2), start + r.randrange(4)])
        D = dict(context=repr(c), start=start, end=end)
        rng = c.range(start, end)
        ctx.count("range_pairs")
        if not toks:
            ctx.check(rng is None, "range of an empty tree", **D)
            continue
        if end is not None and end <= start:
            # empty range: no token may start after end or stop before start
            got = list(rng.tokens()) if rng else []
            continue
        expect = [t for t in toks if t.end > start and (end is None or t.pos < end)]
        got = list(rng.tokens()) if rng else []
        ctx.check(same(got, expect), "tokens of range", got=repr(got), expected=repr(expect), **D)
        if rng:
            ctx.check(rng.pos == expect[0].pos and rng.end == expect[-1].end, "pos/end of range", **D)
            viaslices = []
            for n, s in rng.slices():
                for x in n[s]:
                    viaslices.extend(m.under(x))
            ctx.check(same(viaslices, expect), "slices of range", **D)
            # the ancestor really is an ancestor of every token
            ctx.check(all(any(x is rng.ancestor for x in m.up[id(t)]) for t in expect), "range ancestor", **D)
            ctx.count("ranges")
    for _ in range(25):
        if not m.tokens:
            return
        i, j = sorted((r.randrange(len(m.tokens)), r.randrange(len(m.tokens))))
        a, b = m.tokens[i], m.tokens[j]
        D = dict(a=repr(a), b=repr(b))
        ctx.check(same(a.forward_until_including(b), m.tokens[i:j+1]), "forward_until_including", **D)
        anc, ta, tb = a.common_ancestor_with_trail(b)
        ctx.check(anc is a.common_ancestor(b), "common_ancestor_with_trail ancestor", **D)
        for t, trail in ((a, ta), (b, tb)):
            n = anc
            for k in trail:
                n = n[k]
            ctx.check(n is t, "common_ancestor_with_trail trail", trail=trail, **D)
        rng = a.range(b)
        ctx.check(same(rng.tokens(), m.tokens[i:j+1]), "Token.range", **D)
        ctx.check(rng.pos == a.pos and rng.end == b.end, "Token.range pos/end", **D)
        la = [x.lexicon for x in m.up[id(a)]]
        lb = [x.lexicon for x in m.up[id(b)]]
        st = len(la) == len(lb) and all(x is y for x, y in zip(la, lb))
        ctx.check(bool(a.state_matches(b)) == st, "state_matches", **D)
        ctx.check(bool(b.state_matches(a)) == st, "state_matches", **D)
        ctx.check(bool(a.equals(b)) == (st and a.text == b.text and a.action == b.action), "equals", **D)


def case_copy(ctx):
    p = make(ctx)
    if not p:
        return
    text, tree, m = p
    r = ctx.rng
    before = common.flat(tree)
    c = tree.copy()
    ctx.check(common.flat(c) == before, "copy differs", diff=common.first_diff(common.flat(c), before) if common.flat(c) != before else "")
    m2 = common.Model(c)
    ctx.check(not {id(n) for n in m.nodes} & {id(n) for n in m2.nodes}, "copy shares nodes with the original")
    for n, n2 in zip(m.nodes, m2.nodes):
        ctx.check(type(n) is type(n2), "copy has other node types")
        if n.is_token:
            ctx.check(n2.equals(n) and n.equals(n2) and n2.state_matches(n), "copied token not equal", token=repr(n))
    if len(m.nodes) > 1:
        n = r.choice(m.nodes[1:])
        cc = n.copy(tree)
        ctx.check(cc.parent is tree, "parent of copy")
        k = common.Model(cc)
        d = [n] + m.descendants(n)
        ctx.check([(x.is_token, x.text if x.is_token else x.lexicon) for x in d] ==
                  [(x.is_token, x.text if x.is_token else x.lexicon) for x in k.nodes], "copy of node differs", node=repr(n))
        # comparing with strings, lexicons and each other
        words = [x.text for x in m.nodes if x.is_token]
        lexs = [x.lexicon for x in m.nodes if x.is_context] + [c.lexicon.language.root for c in m.nodes[:1] if c.lexicon]
        for x in r.sample(m.nodes, min(len(m.nodes), 6)):
            y = r.choice(m.nodes)
            ctx.check((x == y) is (x is y) and (x != y) is (x is not y), "comparison of nodes", node=repr(x), other=repr(y))
            ctx.check(hash(x) == hash(x) and {x: 1}.get(y) == (1 if x is y else None), "hash of nodes")
            w = r.choice(words + ["zz", ""])
            l = r.choice(lexs)
            if x.is_token:
                ctx.check((x == w) is (x.text == w) and (x != w) is (x.text != w) and (w == x) is (x.text == w), "comparison of a token and a string")
                ctx.check(len(x) == len(x.text) and x.end - x.pos == len(x) and "<{}>".format(x) == "<" + x.text + ">", "length and format of a token")
            elif l is not None and x.lexicon is not None:
                ctx.check((x == l) is (x.lexicon == l) and (x != l) is (x.lexicon != l), "comparison of a context and a lexicon")
                ctx.check((w in x) is any(z.is_token and z.text == w for z in x), "string in context", word=w, node=repr(x))
                ctx.check((l in x) is any(z.is_context and z.lexicon == l for z in x), "lexicon in context", lexicon=repr(l), node=repr(x))
            ctx.count("comparisons")
        # changing the copy leaves the original alone
        r.choice(m2.nodes[1:]).delete()
        ctx.check(common.flat(tree) == before, "deleting from the copy changed the original")
    ctx.count("copies")


def case_delete(ctx):
    p = make(ctx)
    if not p:
        return
    text, tree, m = p
    r = ctx.rng
    for _ in range(r.randrange(1, 12)):
        if len(m.nodes) < 2:
            break
        n = r.choice(m.nodes[1:])
        gone = {id(t) for t in m.under(n)}
        for a in m.up[id(n)]:
            if a is tree or set(map(id, m.under(a))) != gone:
                break
        rest = [t for t in m.tokens if id(t) not in gone]
        keep = [x for x in m.nodes if x is tree or not set(map(id, m.under(x))) <= gone]
        res = n.delete()
        m = common.Model(tree)
        ctx.count("deleted")
        ctx.check(common.same(m.tokens, rest), "tokens left after delete", node=repr(n))
        ctx.check(common.same(m.nodes, keep), "nodes left after delete", node=repr(n))
        if rest:
            ctx.check(res is a, "delete does not return the first non-empty ancestor", node=repr(n), got=repr(res))
        common.flat(tree)
    # the tree stays navigable
    for t in pick(r, m.tokens, 5):
        i = m.order[id(t)]
        ctx.check(common.same(t.forward(), m.tokens[i+1:]), "forward after delete")
        ctx.check(tree.find_token(t.pos) is t, "find_token after delete")
