"""P08: a document's text is what applying the same edits to a plain string gives."""
import re
import string

import parce
from parce.document import AbstractDocument, Block, Cursor, Document
from parce.mutablestring import AbstractMutableString, MutableString

PROPERTY = "P08"
RULE = ("random histories of edits and edit blocks (nested; with exceptions; overlapping) on Document, MutableString, a tokenizing "
        "parce.Document and minimal user subclasses that store the text elsewhere; a plain-string model runs in lock step and a monitor compares "
        "text, length, reads, revision and the change notifications after every operation.  Non-trivial: 3+ operations that changed the text.")
PLAN = {"quick": {"history": 40000, "substitute": 30000}, "thorough": {"history": 1000000, "substitute": 700000}}
REQUIRED = {"blocks": 500, "overlap_refused": 50, "cancelled": 50, "notifications": 1000, "substitutions": 500, "merged": 50}
ASSUMPTIONS = ["replace() gets a nonempty search text; region start is a nonnegative position", "a block has at most one removal starting at the same position"]

ALPHA = "aabbc \t\n\néß\U0001d11ex.A_1"


class ListString(AbstractMutableString):
    """Only implements what the documentation asks for; stores the text in a list."""
    def __init__(self, text=""):
        super().__init__()
        self.chars = list(text)
        self.log = []

    def text(self):
        return ''.join(self.chars)

    def _update_text(self, changes):
        changes = list(changes)
        for (s1, e1, _), (s2, e2, _) in zip(changes, changes[1:]):
            assert e1 <= s2, "changes overlap or are not sorted"
        for s, e, t in reversed(changes):
            self.chars[s:e] = t

    def text_changed(self, position, removed, added):
        self.log.append((position, removed, added))


class ListDocument(AbstractDocument):
    def __init__(self, text=""):
        super().__init__()
        self.chars = list(text)
        self.log = []

    def text(self):
        return ''.join(self.chars)

    def _update_text(self, changes):
        changes = list(changes)
        super()._update_text(changes)
        for s, e, t in reversed(changes):
            self.chars[s:e] = t

    def text_changed(self, position, removed, added):
        self.log.append((position, removed, added))


class LogString(MutableString):
    def __init__(self, text=""):
        super().__init__(text)
        self.log = []

    def text_changed(self, position, removed, added):
        self.log.append((position, removed, added))


def make(r, text, docs_only=False):
    kind = r.choice([0, 0, 1, 4] if docs_only else [0, 0, 1, 2, 3, 4])
    if kind == 0 or kind == 4:
        d = Document(text) if kind == 0 else parce.Document(None, text)
        d.log = []
        d.seq = []
        d.connect("text_change", lambda *args: (d.log.append(args), d.seq.append(1)))
        d.connect("text_changed", lambda: d.seq.append(2))
        return d
    return [ListDocument, LogString, ListString][kind - 1](text)


def rtext(r, n=None):
    return ''.join(r.choice(ALPHA) for _ in range(r.choice([0, 1, 1, 2, 3, 8]) if n is None else n))


def rkey(r, d, n):
    """A key as used for item access; returns (key, start, end)."""
    k = r.random()
    a, b = r.randrange(n + 1), r.randrange(n + 1)
    if k < .15 and n:
        i = r.randrange(-n, n)
        return i, i % n, i % n + 1
    if k < .5:
        a, b = min(a, b), max(a, b)
        return slice(a, b), a, b
    if k < .6 and isinstance(d, AbstractDocument):
        a, b = min(a, b), max(a, b)
        if r.random() < .2:
            return Cursor(d, a, None), a, n
        if r.random() < .3:
            bl = d.find_block(a)
            return bl, bl.pos, bl.end
        return Cursor(d, a, b), a, b
    if k < .75:
        return slice(a, a), a, a
    x, y = r.choice([None, r.randrange(-n - 3, n + 4)]), r.choice([None, r.randrange(-n - 3, n + 4)])
    s, e, _ = slice(x, y).indices(n)
    return slice(x, y), s, max(s, e)


def one_edit(r, d, text):
    """Return (description, func, start, end, newtext) of a single elementary edit."""
    n = len(text)
    op = r.choice(["set", "set", "set", "del", "insert", "append", "iadd", "same"])
    if op in ("set", "del", "same"):
        key, s, e = rkey(r, d, n)
        t = "" if op == "del" else text[s:e] if op == "same" else rtext(r)
        if op == "del":
            return (op, repr(key)), lambda: d.__delitem__(key), s, e, ""
        return (op, repr(key), t), lambda: d.__setitem__(key, t), s, e, t
    t = rtext(r)
    if op == "insert":
        p = r.randrange(-n - 2, n + 3)
        s = slice(p, p).indices(n)[0]
        return (op, p, t), lambda: d.insert(p, t), s, s, t
    if op == "append":
        return (op, t), lambda: d.append(t), n, n, t

    def iadd():
        x = d
        x += t
        assert x is d
    return (op, t), iadd, n, n, t


def expect_change(ctx, d, old, new, rev, must=None, most=1):
    """Compare all that is observable with the model."""
    ctx.equal(d.text(), new, "text differs from the model")
    ctx.check(len(d) == len(new) and str(d) == new, "length or str() differs")
    if rev is not None:
        got = d.revision() - rev
        if must is not None:
            ctx.equal(got, must, "revision number change")
        ctx.check(0 <= got <= most and (got or old == new), "revision number not in step with the text", got=got)
        ctx.equal(len(d.log), got, "number of notifications not in step with revision")
    if old != new:
        ctx.equal(len(d.log), 1, "number of change notifications")
    if must == 0:
        ctx.check(not d.log, "notification without change", log=d.log)
    for pos, removed, added in d.log:
        ctx.count("notifications")
        ctx.check(0 <= pos and removed >= 0 and added >= 0 and pos + removed <= len(old) and pos + added <= len(new)
                  and len(new) - len(old) == added - removed and old[:pos] == new[:pos]
                  and old[pos + removed:] == new[pos + added:], "change notification does not describe the change",
                  log=(pos, removed, added), old=old, new=new)
    if hasattr(d, "seq"):
        ctx.check(d.seq == [1, 2] * len(d.log), "text_change and text_changed are not emitted in pairs", seq=d.seq)
        d.seq.clear()
    d.log.clear()


def reads(ctx, r, d, text):
    n = len(text)
    for _ in range(2):
        key, s, e = rkey(r, d, n)
        ctx.equal(d[key], text[s:e], "reading an item or slice", key=repr(key))
        if isinstance(key, (Cursor, Block)):
            ctx.equal(key.text(), text[s:e], "text of range")
    if not n:
        ctx.equal(d[:], "", "empty text")
    for bad in (n, n + 2, -n - 1):
        ctx.raises(IndexError, lambda: d[bad])
    ctx.equal(d + "x", text + "x", "+")
    ctx.equal("x" + d, "x" + text, "radd")


class Oops(Exception):
    pass


def case_history(ctx):
    r = ctx.rng
    text = rtext(r, r.randrange(0, 25))
    d = make(r, text)
    ctx.equal(d.text(), text, "initial text")
    script = [type(d).__name__, text]
    ctx.note(script=script)
    changed = 0
    for _ in range(r.randrange(1, 14)):
        rev = d.revision() if isinstance(d, AbstractDocument) else None
        old = text
        op = r.random()
        if op < .4:
            desc, func, s, e, t = one_edit(r, d, text)
            script.append(desc)
            func()
            text = old[:s] + t + old[e:]
            expect_change(ctx, d, old, text, rev, int(old != text))
        elif op < .5:
            text = rtext(r, r.randrange(0, 20)) if r.random() < .8 else text
            script.append(("set_text", text))
            d.set_text(text)
            expect_change(ctx, d, old, text, rev, int(old != text))
        elif op < .55:
            script.append("badindex")
            n = len(old)
            for bad in (n, n + 2, -n - 1):
                ctx.raises(IndexError, d.__setitem__, bad, "y")
                ctx.raises(IndexError, d.__delitem__, bad)
            expect_change(ctx, d, old, text, rev, 0)
        else:
            ctx.count("blocks")
            edits = []
            starts = set()
            for _ in range(r.randrange(0, 6)):
                x = one_edit(r, d, old)
                if x[2] != x[3]:
                    if x[2] in starts:
                        continue
                    starts.add(x[2])
                edits.append(x)
            real = [(s, e, t) for _, _, s, e, t in edits if old[s:e] != t]
            removals = sorted((s, e) for s, e, t in real if e > s)
            overlap = any(e1 > s2 for (s1, e1), (s2, e2) in zip(removals, removals[1:])) \
                or any(s < p < e for s, e in removals for p, q, t in real)
            fault = r.choice([None, None, None, "end", "mid", "setattempt", "badindex"])
            depth = r.choice([0, 0, 1, 2])
            script.append(("block", [x[0] for x in edits], fault, depth))
            ctx.note(overlap=overlap, script=script)

            def run():
                for i, x in enumerate(edits):
                    if fault == "mid" and i == len(edits) // 2:
                        raise Oops
                    if depth and r.random() < .6:
                        with d as dd:
                            ctx.check(dd is d, "context manager value")
                            if depth == 2:
                                with d:
                                    x[1]()
                            else:
                                x[1]()
                    else:
                        x[1]()
                    ctx.check(d.text() == old and not d.log, "text changed before the end of the block", text=d.text())
                if fault == "setattempt":
                    ctx.raises(RuntimeError, d.set_text, "q")
                elif fault == "badindex":
                    d[len(old)] = "x"
                elif fault in ("end", "mid"):
                    raise Oops

            if fault in ("end", "mid", "badindex"):
                exc = IndexError if fault == "badindex" else Oops
            elif overlap:
                exc = RuntimeError
                ctx.count("overlap_refused")
            else:
                exc = None
            try:
                with d:
                    run()
            except (Oops, IndexError, RuntimeError) as e:
                ctx.check(exc is not None and isinstance(e, exc), "edit block raised", error=repr(e), expected=repr(exc))
                if exc is not RuntimeError:
                    ctx.count("cancelled")
            else:
                ctx.check(exc is None, "edit block did not raise", expected=repr(exc))
            if exc:
                expect_change(ctx, d, old, text, rev, 0)
            else:
                # all insertions/replacements at the same position, in order of request
                at = {}
                for s, e, t in real:
                    l = at.setdefault(s, [s, ""])
                    l[0] = max(l[0], e)
                    l[1] += t
                if len(at) > 1:
                    ctx.count("merged")
                for s in sorted(at, reverse=True):
                    e, t = at[s]
                    text = text[:s] + t + text[e:]
                expect_change(ctx, d, old, text, rev, 0 if not real else None)
        if old != text:
            changed += 1
        reads(ctx, r, d, text)
    if changed >= 3:
        ctx.distinct(script)
    ctx.sample({"script": [repr(x)[:100] for x in script[:8]], "final": text})


# ---------------------------------------------------------- substitutions

PATTERNS = ["a", "b+", "x*", "[ab]", "(a)(b)?", r"\s+", r"(?m)^", r"(?m)$", r"\b", r"\w+", "(?i)A", "a|ab", "(?<=a)b", r"^a", r"b$", "."]
REPLS = ["", "Z", r"<\g<0>>", "\\n", "aa", "b"]


def model_replace(text, old, new, count):
    return text.replace(old, new, count if count > 0 else -1)


def model_translate(text, mapping, whole, count):
    keys = sorted(mapping, key=len, reverse=True)
    out, i, n = [], 0, 0

    def wordchar(c):
        return c.isalnum() or c == "_"

    def boundary(p):
        return (p > 0 and wordchar(text[p - 1])) != (p < len(text) and wordchar(text[p]))
    while i < len(text):
        if not (count > 0 and n >= count):
            for k in keys:
                if text.startswith(k, i) and (not whole or boundary(i) and boundary(i + len(k))):
                    out.append(mapping[k])
                    i += len(k)
                    n += 1
                    break
            else:
                out.append(text[i])
                i += 1
        else:
            out.append(text[i])
            i += 1
    return ''.join(out)


def case_substitute(ctx):
    r = ctx.rng
    text = rtext(r, r.randrange(0, 40))
    d = make(r, text, True)
    script = [type(d).__name__, text]
    ctx.note(script=script)
    changed = 0
    for _ in range(r.randrange(1, 8)):
        old = text
        n = len(old)
        rev = d.revision()
        start, end = 0, None
        kw = {}
        if r.random() < .5:
            start = r.randrange(n + 1)
            end = r.choice([None, r.randrange(start, n + 1), n, n + 5])
            if end is None:
                kw = {"start": start}
            else:
                kw = {"start": start, "end": end}
        region = old[start:end]
        tail = "" if end is None else old[end:]
        count = r.choice([0, 0, 0, 1, 2, 3])
        if count or r.random() < .3:
            kw["count"] = count
        op = r.choice(["replace", "re_sub", "re_sub", "re_func", "trim", "translate", "translate"])
        ctx.count("substitutions")
        if op == "replace":
            a = region[:0]
            while not a:
                a = r.choice([rtext(r, 1), rtext(r, 2), "aa", "a", "\n"])
            b = r.choice(["", "Z", a + a, a, "aa", rtext(r)])
            script.append((op, a, b, kw))
            d.replace(a, b, **kw)
            new = model_replace(region, a, b, count)
        elif op in ("re_sub", "re_func"):
            p = r.choice(PATTERNS)
            flags = 0
            pat = p
            if r.random() < .3:
                pat = re.compile(p)
            elif r.random() < .4:
                flags = r.choice([re.I, re.M, re.S, re.I | re.M])
                kw["re_flags"] = flags
            if op == "re_func":
                repl = r.choice([lambda m: m.group().upper(), lambda m: "", lambda m: m.group() * 2, lambda m: "%d" % m.start(), lambda m: m.group()])
            else:
                repl = r.choice(REPLS + [r"\1-", r"\2\1"] if "(a)(b)" in p else REPLS)
            script.append((op, p, repl if isinstance(repl, str) else "func", kw))
            ctx.note(script=script)
            d.re_sub(pat, repl, **kw)
            new = re.compile(p, flags).sub(repl, region, count)
        elif op == "trim":
            kw.pop("count", None)
            script.append((op, kw))
            d.trim(**kw)
            new = "\n".join(l.rstrip(" \t") for l in region.split("\n"))
        else:
            mapping = {}
            for _ in range(r.randrange(1, 5)):
                k = r.choice([rtext(r, 1), rtext(r, 2), rtext(r, 3), "a", "ab", "b.", "x"])
                mapping[k] = r.choice(["", "Q", "ab", k, "<%s>" % k])
            whole = r.random() < .4
            if whole:
                kw["whole_words"] = True
            script.append((op, mapping, kw))
            ctx.note(script=script)
            d.translate(mapping, **kw)
            new = model_translate(region, mapping, whole, count)
        ctx.note(script=script)
        text = old[:start] + new + tail
        expect_change(ctx, d, old, text, rev, 1 if old != text else None)
        if old != text:
            changed += 1
    if changed >= 2:
        ctx.distinct(script)
    ctx.sample({"script": [repr(x)[:100] for x in script[:6]], "final": text})
