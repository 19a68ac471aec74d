"""P24: lexing and guessing finish, whatever the text."""
import re
import string
import time
import warnings
try:
    from re import _parser as sre
    from re import _constants as sc
except ImportError:         # older Pythons
    import sre_parse as sre
    import sre_constants as sc

import parce
from parce import introspect
from parce.registry import registry
import common

PROPERTY = "P24"
RULE = ("pump: the regular expressions the bundled languages really compile are recorded with a hook on re.compile; a text is made by walking one of them with one or more of its repetitions pumped to 20-1500 times, "
        "cut off or followed by text that does not match, and lexed with that lexicon as root and with the root lexicon of the language; "
        "snip: repeated snippets of all languages with another prefix and suffix in every language; guess: the same texts given to registry.suggest() and parce.find(); edit: pumped text arrives by typing in a document. "
        "A CPU-time monitor watches every call.  Non-trivial: the text has 200 characters or more; distinct by text.")
PLAN = {"quick": {"pump": 6000, "snip": 2500, "guess": 500, "edit": 300}, "thorough": {"pump": 150000, "snip": 60000, "guess": 8000, "edit": 6000}}
REQUIRED = {"lexed": 9000, "pumped_patterns": 2500, "pumped_Python": 50, "pumped_LilyPond": 50, "pumped_Html": 20, "guesses": 300, "edits": 300}
ASSUMPTIONS = ["texts of up to 2500 characters; a call has to finish within 10 seconds of CPU time (it normally takes milliseconds), guessing within 20"]
LIMIT = 10
CPU_LIMIT = 30
MAXLEN = 2500


_patterns = None


def patterns():
    """List of (language qualname, lexicon, [compiled pattern strings])."""
    global _patterns
    if _patterns is None:
        _patterns = []
        real = re.compile
        for q, root in common.languages():
            if root is None:
                continue
            todo = sorted(introspect.lexicons(root.language), key=lambda l: l.name)
            for lex in todo:
                seen = []

                def spy(p, flags=0, seen=seen):
                    rx = real(p, flags)
                    if isinstance(p, str):
                        seen.append((p, rx.flags, spy.lexicon))
                    return rx
                re.compile = spy
                try:
                    for arg in (None, "EOF"):
                        lx = lex if arg is None else lex(arg)
                        spy.lexicon = lx
                        try:
                            parce.root(lx, "a")
                        except Exception:       # a lexicon may need an argument
                            pass
                finally:
                    re.compile = real
                if seen:
                    _patterns.append((q, root, lex, seen))
    return _patterns


class Sampler:
    def __init__(self, rng, pump, flags):
        self.rng = rng
        self.pump = pump        # chance a repetition is pumped
        self.flags = flags
        self.groups = {}
        self.pumped = 0
        self.depth = 0

    def klass(self, items):
        r = self.rng
        neg = items and items[0][0] is sc.NEGATE
        if neg:
            bad = set()
            cats = []
            for op, av in items[1:]:
                if op is sc.LITERAL:
                    bad.add(chr(av))
                elif op is sc.RANGE:
                    bad.update(chr(c) for c in range(av[0], min(av[1], av[0] + 200) + 1))
                elif op is sc.CATEGORY:
                    cats.append(str(av))
            pool = [c for c in "a1 _-.x(\\\"'{<\n#" if c not in bad]
            if any(c.endswith("_SPACE") and "NOT" not in c for c in cats):
                pool = [c for c in pool if not c.isspace()]
            return r.choice(pool or ["\u00e9"])
        op, av = r.choice(items)
        if op is sc.LITERAL:
            return chr(av)
        if op is sc.RANGE:
            return chr(r.randint(av[0], min(av[1], av[0] + 60)))
        return self.category(av)

    def category(self, av):
        s = str(av)
        neg = "NOT" in s
        if "DIGIT" in s:
            return self.rng.choice("ab .") if neg else self.rng.choice("01789")
        if "SPACE" in s:
            return self.rng.choice("a1-") if neg else self.rng.choice(" \n\t")
        return self.rng.choice(" -(") if neg else self.rng.choice("aZ_1")

    def seq(self, items):
        r = self.rng
        out = []
        for op, av in items:
            if op is sc.LITERAL:
                out.append(chr(av))
            elif op is sc.NOT_LITERAL:
                out.append(r.choice([c for c in "a1 (\\" if ord(c) != av]))
            elif op is sc.ANY:
                out.append(r.choice("a 1."))
            elif op is sc.IN:
                out.append(self.klass(av))
            elif op is sc.CATEGORY:
                out.append(self.category(av))
            elif op is sc.BRANCH:
                out.append(self.seq(r.choice(av[1])))
            elif op is sc.SUBPATTERN:
                s = self.seq(av[3])
                self.groups[av[0]] = s
                out.append(s)
            elif op is sc.GROUPREF:
                out.append(self.groups.get(av, ""))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
                lo, hi, sub = av
                hi = min(int(hi), 1500)
                if hi > 3 and self.depth < 3 and r.random() < self.pump:
                    n = min(hi, max(lo, r.choice([20, 30, 60, 200, 1500]) if not self.pumped else r.choice([2, 5, 20, 40])))
                    self.pumped += 1
                    if r.random() < .7:
                        self.depth += 1
                        unit = "".join(self.seq(sub) for _ in range(r.choice([1, 1, 2])))
                        self.depth -= 1
                        s = unit * min(n, MAXLEN // (len(unit) or 1) + 1)
                    else:
                        self.depth += 1
                        s = "".join(self.seq(sub) for _ in range(min(n, 60)))
                        self.depth -= 1
                else:
                    n = r.randint(lo, max(lo, min(hi, lo + 2)))
                    self.depth += 1
                    s = "".join(self.seq(sub) for _ in range(n))
                    self.depth -= 1
                out.append(s[:MAXLEN])
            elif str(op) == "ATOMIC_GROUP":
                out.append(self.seq(av))
            elif op is sc.ASSERT:
                if av[0] > 0 and r.random() < .5:
                    out.append(self.seq(av[1]))
            # AT and ASSERT_NOT: nothing
        return "".join(out)


_parsed = {}


def parse(p, flags):
    if (p, flags) not in _parsed:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _parsed[(p, flags)] = sre.parse(p, flags & ~re.UNICODE & ~re.DEBUG | (flags & re.UNICODE))
    return _parsed[(p, flags)]


def timed(ctx, what, limit, f, *args):
    t = time.process_time()
    ctx.note(call=what)
    res = f(*args)
    t = time.process_time() - t
    if t > limit:
        ctx.fail("a call took very much time", call=what, seconds=round(t, 1))
    if t > 1:
        ctx.count("slower_than_1s")
    return res


SUFFIX = ["", "", "\x00", "!", "\n", " ", "\u00e9", "\\", "\"", "'", ")", "}", ">", "@", "=", "x", "\n\n", "-", "."]


def pumped_text(ctx):
    r = ctx.rng
    for _ in range(5):      # prefer patterns that can be pumped
        q, root, lex, pats = r.choice(patterns())
        p, flags, lex = r.choice(pats)
        items = list(parse(p, flags))
        n = -1
        if len(items) == 1 and items[0][0] is sc.BRANCH and r.random() < .9:
            n = r.randrange(len(items[0][1][1]))
            items = items[0][1][1][n]
        s = Sampler(r, r.choice([.2, .5, .9, 1]), flags)
        unit = s.seq(items)
        if s.pumped:
            break
    mode = r.random()
    text = unit
    if mode < .3 and unit:          # the whole match, repeated
        text = unit[:60] * r.choice([10, 30, 200])
    if r.random() < .4 and text:    # broken off at the end
        text = text[:MAXLEN]
        text = text[:len(text) - r.choice([0, 1, 1, 2, 3])]
    text = r.choice(["", "", "", "\n", " ", "x", "(", "{", "\""]) + text[:MAXLEN] + r.choice(SUFFIX)
    if s.pumped:
        ctx.count("pumped_patterns")
        ctx.count("pumped_" + q.rsplit(".", 2)[-2])
    return q, root, lex, text


def lex_all(ctx, lexicon, text, what):
    tree = timed(ctx, what, LIMIT, parce.root, lexicon, text)
    ctx.count("lexed")
    return tree


def case_pump(ctx):
    q, root, lex, text = pumped_text(ctx)
    ctx.note(language=q, lexicon=lex.name, text=text)
    for l in (lex, root):
        lex_all(ctx, l, text, "lexing with " + repr(l))
    if len(text) >= 200:
        ctx.distinct(text)


def snip_text(r):
    unit = "".join(r.choice(common.SNIPPETS + list(string.printable[:95])) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])))
    n = r.choice([10, 40, 200, 800])
    pre = r.choice(["", "", r.choice(common.SNIPPETS), r.choice(common.SNIPPETS) + r.choice(common.SNIPPETS)])
    if r.random() < .2:
        pre = r.choice(common.corpus())[1][:r.randrange(600)]
    return pre + (unit * n)[:MAXLEN] + r.choice(SUFFIX)


def case_snip(ctx):
    r = ctx.rng
    text = snip_text(r)
    ctx.note(text=text)
    for _ in range(3):
        q, lexicon = r.choice(common.languages())
        if lexicon is None:
            continue
        ctx.note(language=q)
        lex_all(ctx, lexicon, text, "lexing with " + q)
    if len(text) >= 200:
        ctx.distinct(text)


def case_guess(ctx):
    r = ctx.rng
    text = snip_text(r) if r.random() < .6 else pumped_text(ctx)[3]
    if r.random() < .3:
        text = text[:200] + "\n" + text[200:]
    name = r.choice([None, "", "a.txt", text[:300].replace("\0", ""), "x" * 500, "a" * 200 + ".py", "." * 300, "a.b" * 100])
    mime = r.choice([None, "text/plain", "a/" * 200, text[:100]])
    ctx.note(text=text, filename=name, mimetype=mime)
    timed(ctx, "registry.suggest()", 2 * LIMIT, lambda: list(registry.suggest(name, mime, text)))
    timed(ctx, "parce.find()", 2 * LIMIT, lambda: parce.find(filename=name, mimetype=mime, contents=text))
    ctx.count("guesses")
    if len(text) >= 200:
        ctx.distinct(text, name, mime)


def case_edit(ctx):
    r = ctx.rng
    if r.random() < .5:
        q, root, lex, text = pumped_text(ctx)
    else:
        q, root = r.choice(common.languages())
        text = snip_text(r)
    if root is None:
        return
    base = common.text_for(r, root, 600) if r.random() < .5 else ""
    ctx.note(language=q, text=text, base=base)
    doc = parce.Document(root, base)
    chunks = r.choice([1, 2, 5, 20])
    size = len(text) // chunks + 1
    p = r.choice([0, len(base), r.randrange(len(base) + 1)])

    def go():
        pos = p
        for i in range(0, len(text), size):
            doc[pos:pos] = text[i:i + size]
            doc.get_root(True)
            pos += len(text[i:i + size])
            ctx.count("edits")
    timed(ctx, "editing", 2 * LIMIT, go)
    if len(text) >= 200:
        ctx.distinct(q, text, base, p)
