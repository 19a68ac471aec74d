"""P03: lexicons and standard actions are singletons; derivation and inheritance."""
import copy
import sys
import threading

import parce
from parce import Language, lexicon
from parce.standardaction import StandardAction
import parce.action

PROPERTY = "P03"
RULE = ("threads: 2..8 threads, released by a barrier at a tiny switch interval, ask for the same lexicons, derived lexicons "
        "(random args), rules and standard actions of a fresh language; all must get the same objects and equal parse results.  model: random sequences of "
        "derive/compare/inherit operations against a model.  Non-trivial: 2+ threads or 3+ operations; distinct by script.")
PLAN = {"quick": {"threads": 1200, "model": 3000, "actions": 3000}, "thorough": {"threads": 20000, "model": 60000, "actions": 40000}}
REQUIRED = {"thread_requests": 100, "derive": 100}
WALL_LIMIT = 120

ARGS = ["a", "b", "EOF", "(", "", 0, 1, 2, 17, -1, ("x", 1), frozenset([1]), parce.action.Name, parce.action.Text]
_n = [0]




import parce.rule


class _Lang(Language):
    pass


def fresh():
    class F(Language):
        @lexicon
        def root(cls):
            yield parce.rule.words(["aa", "b", "c"]), parce.action.Name, cls.sub
            yield r"\(", parce.action.Delimiter, parce.rule.derive(cls.sub, parce.rule.TEXT)
            yield r"\d+", parce.action.Number, parce.rule.derive(cls.sub, parce.rule.TEXT)

        @lexicon(consume=True)
        def sub(cls):
            yield parce.rule.arg(), parce.action.String, -1
            yield r"\)", parce.action.Delimiter, -1
            yield r"x", parce.action.Keyword, cls.root
            yield parce.default_target, -1
    _n[0] += 1
    F.__name__ = "F%d" % _n[0]
    return F


def dump(tree):
    return [(t.pos, t.text, t.action, t.group, t.parent.lexicon) for t in tree.tokens()]


def case_threads(ctx):
    r = ctx.rng
    lang = fresh()
    n = r.randrange(2, 9)
    args = r.sample(ARGS, r.randrange(1, 5))
    names = ["T%d_%d" % (ctx.index, i) for i in range(3)]
    text = ''.join(r.choice(["aa", "b", "(", ")", "12", "x", " "]) for _ in range(20))
    ctx.note(threads=n, args=args, text=text)
    barrier = threading.Barrier(n)
    results = [None] * n
    errors = []
    order = [r.sample(range(6), 6) for _ in range(n)]

    def work(i):
        try:
            res = {}
            barrier.wait()
            for step in order[i]:
                if step == 0:
                    res["root"] = lang.root
                elif step == 1:
                    res["derived"] = [lang.sub(a) for a in args]
                elif step == 2:
                    res["actions"] = [getattr(parce.action.Name, x) for x in names] + [getattr(StandardAction(names[0]), x) for x in names]
                elif step == 3:
                    res["again"] = [lang.sub(args[0])(a) for a in args]
                elif step == 4:
                    res["rules"] = lang.sub(args[-1]).rules
                else:
                    res["parse"] = dump(parce.root(lang.root, text))
            results[i] = res
        except BaseException as e:
            errors.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                ctx.fail("deadlock: a thread does not finish")
    finally:
        sys.setswitchinterval(old)
    ctx.check(not errors, "exception in thread", errors=errors)
    a = results[0]
    for b in results[1:]:
        for key in ("derived", "again", "actions"):
            for x, y in zip(a[key], b[key]):
                ctx.check(x is y, "two threads got different objects", what=key, x=repr(x), y=repr(y))
        ctx.check(a["root"] is b["root"], "two threads got different lexicons")
        ctx.check(a["rules"] is b["rules"] or a["rules"] == b["rules"], "two threads got different rules")
        pa, pb = a["parse"], b["parse"]
        ctx.check(len(pa) == len(pb) and all(x[:4] == y[:4] and x[4] is y[4] for x, y in zip(pa, pb)),
                  "two threads got different parse results")
    for x, y in zip(a["derived"], a["again"]):
        ctx.check(x is y, "deriving a derived lexicon gives another object")
    ctx.count("thread_requests", n * 6)
    ctx.distinct("t", n, args, text, order)
    ctx.sample({"threads": n, "args": repr(args), "text": text})


def case_model(ctx):
    r = ctx.rng
    base = fresh()
    langs = [base]
    known = {}
    script = []
    for _ in range(r.randrange(3, 25)):
        op = r.choice(["derive", "derive", "derive2", "none", "subclass", "override", "compare"])
        lang = r.choice(langs)
        name = r.choice(["root", "sub"])
        arg = r.choice(ARGS)
        script.append((op, langs.index(lang), name, repr(arg)))
        ctx.note(script=script)
        lex = getattr(lang, name)
        ctx.check(lex is getattr(lang, name), "lexicon access gives different objects")
        ctx.check(lex.language is lang, "lexicon has the wrong language", lex=repr(lex))
        if op in ("derive", "derive2"):
            ctx.count("derive")
            d = lex(arg)
            if op == "derive2":
                d = lex(r.choice([a for a in ARGS if a is not arg]))(arg)
            ctx.check(d.arg == arg and type(d.arg) is type(arg), "derived lexicon has the wrong argument", arg=repr(d.arg))
            ctx.check(d == lex and not d != lex, "derived lexicon is not equal to the lexicon it derives from")
            ctx.check(d is not lex, "derived lexicon is the vanilla lexicon")
            ctx.check(d.name == name and d.language is lang and d.consume == lex.consume, "derived lexicon attributes")
            key = lang, name, arg, type(arg)
            ctx.check(known.setdefault(key, d) is d, "same argument gives another derived lexicon")
            for (l2, n2, a2, t2), d2 in known.items():
                if (l2, n2, a2, t2) != key:
                    ctx.check(d2 is not d, "different arguments give the same derived lexicon", a=repr(key), b=repr((l2, n2, a2)))
        elif op == "none":
            ctx.check(lex(None) is lex and lex() is lex, "calling with None should return the lexicon itself")
            d = lex(arg)
            ctx.check(d(None) is d, "calling a derived lexicon with None")
        elif op == "subclass":
            new = type("S%d" % len(langs), (lang,), {"__module__": __name__})
            langs.append(new)
            ctx.check(new.root is not lang.root and new.root != lang.root, "inherited lexicon is the one of the base class")
            ctx.check(new.root.language is new, "inherited lexicon has the wrong language")
        elif op == "override":
            @lexicon
            def sub(cls):
                yield "zz", parce.action.Comment, -1
            new = type("O%d" % len(langs), (lang,), {"__module__": __name__, "sub": sub})
            langs.append(new)
            # the inherited root lexicon now targets the new sub
            tree = parce.root(new.root, "aazz")
            toks = list(tree.tokens())
            ctx.check([t.text for t in toks] == ["aa", "zz"] and toks[1].action is parce.action.Comment
                      and toks[1].parent.lexicon is new.sub, "inherited lexicon does not use the overriding lexicon", toks=repr(toks))
        else:
            for l2 in langs:
                for n2 in ("root", "sub"):
                    other = getattr(l2, n2)
                    ctx.check((other == lex) == (other is lex), "lexicons of different name or language compare equal")
    ctx.distinct(script)
    ctx.sample({"script": script})


def case_actions(ctx):
    """Standard actions against a model: tuples of names."""
    r = ctx.rng
    uid = "M%d" % r.randrange(3)
    names = ["A", "B", "C", "D"]
    acts = {}
    for _ in range(r.randrange(3, 30)):
        path = (uid,) + tuple(r.choice(names) for _ in range(r.randrange(0, 4)))
        a = StandardAction(uid)
        for p in path[1:]:
            a = getattr(a, p)
        acts[path] = a
    items = list(acts.items())
    for path, a in items:
        b = StandardAction(uid)
        for p in path[1:]:
            b = StandardAction(p, b)
        ctx.check(a is b, "same path gives different actions", path=path)
        ctx.equal(repr(a), ".".join(path), "repr of action")
        l = list(a)
        ctx.check(l[0] is a and len(l) == len(path), "iteration of action")
        ctx.check(copy.copy(a) is a and copy.deepcopy([a])[0] is a, "copy of action")
        for n in names + [uid]:
            ctx.check((n in a) == (n in path), "name in action", path=path, name=n)
        for path2, a2 in items:
            ctx.check((a is a2) == (path == path2), "identity of actions", a=path, b=path2)
            ctx.check((a in a2) == (path[:len(path2)] == path2), "membership of actions", a=path, b=path2)
            common = 0
            while common < min(len(path), len(path2)) and path[common] == path2[common]:
                common += 1
            ctx.equal(repr(a & a2), ".".join(path[:common]), "common ancestor of actions", a=path, b=path2)
    ctx.check((StandardAction("Xq1") & StandardAction("Xq2")) is None, "no common ancestor")
    ctx.count("actions", len(items))
    ctx.distinct(sorted(acts))
    ctx.sample({"actions": [".".join(p) for p, a in items[:6]]})
