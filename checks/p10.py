"""P10: cursors keep their place, blocks are the lines of the text."""
import gc

import parce
from parce.document import AbstractDocument, Block, Cursor, Document

import common
from checks import p08

PROPERTY = "P10"
RULE = ("cursors: up to 12 cursors (also with open end, collapsed, touching change boundaries) live through histories of edits and blocks with several changes, undo and "
        "redo; each must be where applying removal and insertion of every change to its two positions puts it.  blocks: all ways to get blocks are compared with splitting the text at the "
        "separator.  moves: cursor movement, selection and stripping against plain string operations.  Non-trivial: 2+ changes or 3+ lines.")
PLAN = {"quick": {"cursors": 20000, "blocks": 12000, "moves": 12000, "tokens": 1500},
        "thorough": {"cursors": 500000, "blocks": 200000, "moves": 200000, "tokens": 40000}}
REQUIRED = {"cursor_updates": 5000, "multi_changes": 1000, "block_answers": 5000, "moves": 2000, "comparisons": 5000, "token_answers": 5000}
ASSUMPTIONS = ["where a cursor end collapses exactly between two adjacent changes of one block, either order of applying them is accepted"]


def move(p, changes, is_end, order):
    """Where position p goes: for each change first the removal, then the insertion."""
    if p is None:
        return None
    offset = 0
    for s, e, t in (changes if order else reversed(changes)):
        if order:
            s += offset
            e += offset
            offset += len(t) - (e - s)
        if p > e:
            p -= e - s
        elif p > s:
            p = s
        elif p < s:
            continue
        if p > s or is_end:
            p += len(t)
    return p


def case_cursors(ctx):
    r = ctx.rng
    text = p08.rtext(r, r.randrange(0, 30))
    d = p08.make(r, text, True)
    n = len(text)
    cursors = []

    def new_cursor(n):
        a, b = sorted((r.randrange(n + 1), r.randrange(n + 1)))
        k = r.random()
        if k < .2:
            c = Cursor(d, a)
            ctx.check((c.pos, c.end) == (a, a), "cursor default end")
        elif k < .35:
            c = Cursor(d, a, None)
        elif k < .5:
            c = Cursor(d, a, a)
        else:
            c = Cursor(d, a, b)
        return c
    cursors = [new_cursor(n) for _ in range(r.randrange(1, 12))]
    script = [text, [(c.pos, c.end) for c in cursors]]
    ctx.note(script=script)
    multi = 0
    undo = []
    for _ in range(r.randrange(1, 8)):
        n = len(text)
        op = r.random()
        if undo and op < .15:
            text, changes = undo.pop()
            d.undo()
            script.append("undo")
        else:
            points = sorted(r.choice([r.randrange(n + 1)] + [p for c in cursors for p in (c.pos, c.end) if p is not None and p <= n])
                            for _ in range(2 * r.choice([1, 1, 2, 3, 4])))
            changes = []
            for s, e in zip(points[::2], points[1::2]):
                if r.random() < .3:
                    e = s
                if changes and changes[-1][0] == s:
                    continue
                t = p08.rtext(r)
                if text[s:e] != t:
                    changes.append((s, e, t))
            order = list(changes)
            r.shuffle(order)
            if len(order) == 1 and r.random() < .5:
                s, e, t = order[0]
                d[s:e] = t
            else:
                with d:
                    for s, e, t in order:
                        d[s:e] = t
            script.append(changes)
            old, off, rev = text, 0, []
            for s, e, t in changes:
                rev.append((s + off, s + off + len(t), old[s:e]))
                off += len(t) - (e - s)
            for s, e, t in reversed(changes):
                text = text[:s] + t + text[e:]
            if changes and isinstance(d, Document):
                # undo: adjacent reversed changes at one position are one change
                m = []
                for s, e, t in rev:
                    if m and m[-1][0] == s:
                        m[-1] = (s, max(e, m[-1][1]), m[-1][2] + t)
                    else:
                        m.append((s, e, t))
                undo.append((old, m))
        ctx.equal(d.text(), text, "text")
        if len(changes) > 1:
            multi += 1
            ctx.count("multi_changes")
        exp = []
        for i, c in enumerate(cursors):
            was = script[1][i]
            e1 = move(was[0], changes, False, True), move(was[1], changes, True, True)
            e2 = move(was[0], changes, False, False), move(was[1], changes, True, False)
            got = c.pos, c.end
            ctx.count("cursor_updates")
            ctx.check(got[0] in (e1[0], e2[0]) and got[1] in (e1[1], e2[1]), "cursor is at the wrong place",
                      was=was, got=got, expected=e1, changes=changes, text=text)
            # must be inside the text
            ctx.check(0 <= c.pos <= len(text) and (c.end is None or c.pos <= c.end <= len(text)), "cursor outside of the text", got=got)
            ctx.equal(c.text(), text[c.pos:c.end], "text of cursor")
        # sometimes drop or add some
        if r.random() < .2 and len(cursors) > 1:
            del cursors[r.randrange(len(cursors))]
        if r.random() < .2:
            cursors.append(new_cursor(len(text)))
        script[1] = [(c.pos, c.end) for c in cursors]
    if multi:
        ctx.distinct(script)
    ctx.sample({"script": repr(script)[:300]})


def lines(text, sep):
    out = []
    pos = 0
    for l in text.split(sep):
        out.append((pos, pos + len(l)))
        pos += len(l) + len(sep)
    return out


def case_blocks(ctx):
    r = ctx.rng
    sep = r.choice(["\n", "\n", "\n", "\n", "\u2029", "\r\n"])
    text = ''.join(r.choice([sep, sep, "a", "bc", " ", "\r", "é\U0001d11e"]) for _ in range(r.randrange(0, 25)))
    d = p08.make(r, text, True)
    d.block_separator = sep
    ls = lines(text, sep)
    ctx.note(text=text, sep=sep)
    n = len(text)
    N = len(ls)

    def same(block, i, msg, **kw):
        ctx.count("block_answers")
        if i is None:
            ctx.check(block is None, msg + ": should be None", got=repr(block), **kw)
            return
        ctx.check(block is not None and (block.pos, block.end) == ls[i], msg, got=repr(block), expected=ls[i], **kw)
        ctx.check(block.text() == text[ls[i][0]:ls[i][1]] and len(block) == ls[i][1] - ls[i][0] and block.document() is d
                  and bool(block), msg + ": block contents", **kw)
        ctx.check(block.is_first() == (i == 0) and block.is_last() == (i == N - 1), msg + ": is_first/is_last", **kw)
        if r.random() < .5:
            ctx.equal(block.block_number, i, msg + ": block_number", **kw)

    def at(pos):
        """index of line that has pos"""
        for i, (s, e) in enumerate(ls):
            if s <= pos < e + len(sep):
                return i
        return N - 1

    ctx.equal(d.block_count(), N, "block_count")
    for pos in list(range(n + 1)) + [n + 1, n + 10]:
        i = at(pos)
        same(d.find_block(pos), i, "find_block", pos=pos)
        if pos <= n:
            ctx.equal(d.find_start_of_block(pos), ls[i][0], "find_start_of_block", pos=pos)
            if pos <= ls[i][1]:
                ctx.equal(d.find_end_of_block(pos), ls[i][1], "find_end_of_block", pos=pos)
            same(Cursor(d, pos).block(), i, "Cursor.block", pos=pos)
    for k in range(-N - 3, N + 3):
        same(d.find_block_by_number(k), (k if k >= 0 else N + k) if -N <= k < N else None, "find_block_by_number", number=k)
    # iteration
    bl = list(d.blocks())
    ctx.equal(len(bl), N, "number of blocks iterated")
    for i, b in enumerate(bl):
        same(b, i, "blocks()")
    for _ in range(8):
        a, b = r.randrange(n + 1), r.choice([None, r.randrange(n + 1), n + 3])
        if b is not None and b < a:
            a, b = b, a
        i = at(a)
        exp = [k for k in range(i, N) if k == i or b is None or ls[k][0] < b]
        got = list(d.blocks(a, b))
        ctx.equal([(x.pos, x.end) for x in got], [ls[k] for k in exp], "blocks(start, end)", start=a, end=b)
        for x, k in zip(got, exp):
            same(x, k, "blocks(start, end)")
        got = list(Cursor(d, a, b).blocks())
        ctx.equal([(x.pos, x.end) for x in got], [ls[k] for k in exp], "Cursor.blocks", start=a, end=b)
    # walking from one block, from different origins
    for _ in range(4):
        i = r.randrange(N)
        b = r.choice([lambda: d.find_block(ls[i][0]), lambda: d.find_block_by_number(i), lambda: d.find_block_by_number(i - N)])()
        if r.random() < .5:
            ctx.equal(b.block_number, i, "block_number")
        for _ in range(r.randrange(1, 10)):
            if r.random() < .5:
                b2, k = b.next_block(), i + 1
            else:
                b2, k = b.previous_block(), i - 1
            same(b2, k if 0 <= k < N else None, "walking", from_=i)
            if b2 is None:
                break
            ctx.check(b2 != b and not b2 == b and (b2 > b) == (k > i) and (b2 < b) == (k < i) and (b2 >= b) == (k > i)
                      and (b2 <= b) == (k < i), "comparison of blocks")
            b, i = b2, k
            ctx.check(b == d.find_block(ls[i][0]), "equal blocks do not compare equal")
    if N > 2:
        ctx.distinct(text, sep)
    ctx.sample({"text": text[:60], "blocks": N})


def compare(ctx, d):
    """Comparing cursors and blocks: by position; equal only for the same kind, document and range."""
    r = ctx.rng
    n = len(d.text())
    other = Document(d.text())
    class Sub(Cursor):
        pass
    things = []
    for _ in range(6):
        a, b = sorted((r.randrange(n + 1), r.randrange(n + 1)))
        doc = r.choice([d, d, d, other])
        things.append(r.choice([lambda: Cursor(doc, a, b), lambda: Cursor(doc, a, a), lambda: Cursor(doc, a, None), lambda: Sub(doc, a, b),
                                lambda: doc.find_block(a)])())
    for x in things:
        for y in things:
            same = type(x) is type(y) and x.document() is y.document() and (x.pos, x.end) == (y.pos, y.end)
            got = [x == y, x != y, x < y, x <= y, x > y, x >= y]
            ctx.count("comparisons")
            ctx.equal(got, [same, not same, x.pos < y.pos, x.pos <= y.pos, x.pos > y.pos, x.pos >= y.pos], "comparison", x=repr(x), y=repr(y))
        for y in (None, x.pos, x.text(), (x.pos, x.end)):
            ctx.check(not x == y and x != y, "text range equals something else", x=repr(x), y=repr(y))
            ctx.raises(TypeError, lambda: x < y)
            ctx.raises(TypeError, lambda: x > y)
            ctx.raises(TypeError, lambda: x <= y)
            ctx.raises(TypeError, lambda: x >= y)
    s = sorted(things)
    ctx.equal([id(x) for x in s], [id(x) for x in sorted(things, key=lambda x: x.pos)], "sorting")


def case_tokens(ctx):
    """The tokens of cursors and blocks, in a document that is edited."""
    r = ctx.rng
    q, lexicon = r.choice(common.languages())
    text = common.text_for(r, lexicon, 500)
    d = parce.Document(lexicon, text)
    ctx.note(language=q, text=text)
    compare(ctx, d)
    for step in range(3):
        if step:
            a = r.randrange(len(text) + 1)
            b = min(len(text), a + r.randrange(0, 12))
            t = common.text_for(r, lexicon, 20)
            d[a:b] = t
            text = text[:a] + t + text[b:]
            ctx.note(text=text)
        tokens = list(d.get_root(True).tokens())
        n = len(text)
        for s, e in [(r.randrange(n + 1), r.choice([None, n, r.randrange(n + 1)])) for _ in range(5)]:
            if e is not None and e < s:
                s, e = e, s
            stop = n if e is None else e
            if stop == s:
                continue
            got = list(Cursor(d, s, e).tokens())
            ctx.count("token_answers")
            ctx.equal([id(t) for t in got], [id(t) for t in tokens if t.end > s and t.pos < stop], "tokens of a cursor", start=s, end=e)
        for b in d.blocks():
            if b.pos == b.end:
                continue
            got = b.tokens()
            ctx.count("token_answers")
            ctx.check(type(got) is tuple and [id(t) for t in got] == [id(t) for t in tokens if t.end > b.pos and t.pos < b.end],
                      "tokens of a block", pos=b.pos, end=b.end, found=got)
        for pos in [r.randrange(n + 1) for _ in range(5)]:
            got = Cursor(d, pos).token()
            ctx.count("token_answers")
            inside = [t for t in tokens if t.pos <= pos < t.end]
            touch = [t for t in tokens if t.end == pos]
            if inside:
                ctx.check(got is inside[0], "token at a position in a token", pos=pos, found=repr(got))
            elif touch:
                ctx.check(got is touch[0], "token at its end", pos=pos, found=repr(got))
            elif got is not None:
                ctx.check("\n" not in text[min(pos, got.end):max(pos, got.pos)], "token in another block", pos=pos, found=repr(got))
            ctx.check(got is d.token(pos), "Document.token()", pos=pos)
    ctx.distinct(text)


def case_moves(ctx):
    r = ctx.rng
    text = p08.rtext(r, r.randrange(0, 30))
    d = p08.make(r, text, True)
    n = len(text)
    ls = lines(text, "\n")
    ctx.note(text=text)

    def line(p):
        for s, e in ls:
            if s <= p <= e:
                return s, e
    c = Cursor(d)
    ctx.check((c.pos, c.end) == (0, 0), "initial cursor")
    if r.random() < .2:
        compare(ctx, d)
    script = []
    for _ in range(r.randrange(2, 20)):
        a, b = sorted((r.randrange(n + 1), r.randrange(n + 1)))
        op = r.choice(["select", "select1", "selectopen", "all", "none", "startofblock", "endofblock", "movestart", "moveend", "lstrip", "rstrip", "strip"])
        pos, end = c.pos, c.end
        e = n if end is None else end
        script.append((op, pos, end))
        ctx.note(script=script)
        ctx.count("moves")
        chars = r.choice([None, None, "ab", " ", "\n"])
        if op == "select":
            res, exp = c.select(a, b), (a, b)
        elif op == "select1":
            res, exp = c.select(a), (a, a)
        elif op == "selectopen":
            res, exp = c.select(a, None), (a, None)
        elif op == "all":
            res, exp = c.select_all(), (0, None)
        elif op == "none":
            res, exp = c.select_none(), (pos, pos)
        elif op == "startofblock":
            res, exp = c.select_start_of_block(), (line(pos)[0], end)
        elif op == "endofblock":
            res, exp = c.select_end_of_block(), (pos, None if end is None else line(end)[1])
        elif op == "movestart":
            res, exp = c.move_start_of_block(), (line(pos)[0],) * 2
        elif op == "moveend":
            res, exp = c.move_end_of_block(), (line(pos)[1],) * 2
        else:
            s = text[pos:e]
            np, ne = pos, e
            res = getattr(c, op)(chars)
            if op != "lstrip":
                ne -= len(s) - len(s.rstrip(chars))
            if op == "lstrip" or (op == "strip" and s.strip(chars)):
                np += len(s) - len(s.lstrip(chars))
            if op == "strip" and not s.strip(chars):
                # nothing left: collapsed somewhere inside
                ctx.check(c.pos == (n if c.end is None else c.end) and pos <= c.pos <= e, "strip of whitespace only")
                np, ne = c.pos, c.end
            exp = np, (None if end is None and ne == n else ne)
        ctx.check(res is c, "move method does not return the cursor")
        ctx.equal((c.pos, c.end), exp, "cursor after " + op, was=(pos, end), chars=chars)
        e = n if c.end is None else c.end
        ctx.equal(c.selection(), (c.pos, e), "selection")
        ctx.equal(c.has_selection(), c.pos < e, "has_selection")
        ctx.equal(c.text(), text[c.pos:e], "text")
        ctx.check(d.text() == text, "moving a cursor changed the text")
        # an end beyond the text is the end of the text
        far = Cursor(d, a, n + r.randrange(1, 9))
        ctx.equal(far.text(), text[a:], "text of a cursor that ends beyond the text")
        op = r.choice(["lstrip", "rstrip", "strip"])
        getattr(far, op)(chars)
        ctx.equal(far.text(), getattr(text[a:], op)(chars), "text after " + op + " of a cursor that ends beyond the text", chars=chars)
    if n > 2:
        ctx.distinct(text, script)
    ctx.sample({"text": text[:60], "script": repr(script)[:200]})
