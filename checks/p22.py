"""P22: the language validator and the introspection functions."""
import contextlib
import io
import re
import sys
import types

import parce
from parce import Language, lexicon, default_action, default_target, skip
from parce import introspect, validate
from parce.action import Comment, Keyword, Name, Number, Operator, String, Text
from parce.rule import arg, TEXT, MATCH, ARG, bygroup, dselect, gselect, ifeq, ifgroup, ifmember, select, words, chars, call, target, derive
from parce.transform import Transform
import common

PROPERTY = "P22"
RULE = ("rules: random language definitions without mistakes must be accepted silently; with planted mistakes (bad regular expression, short rule, invalid target, also inside dynamic items, conflicting defaults, "
        "never matching or empty matching patterns) each lexicon must report exactly its mistakes; defaults: random default targets, judged by a simulation, and accepted ones are lexed under the hang monitor; "
        "transforms: transform classes missing methods; introspect: listed lexicons, actions and languages against what was generated.  Non-trivial: at least one mistake or default target; distinct by definition.")
PLAN = {"quick": {"rules": 6000, "flags": 1500, "defaults": 6000, "transforms": 1500, "introspect": 2000, "bundled": 60}, "thorough": {"rules": 150000, "flags": 20000, "defaults": 150000, "transforms": 30000, "introspect": 40000, "bundled": 60}}
REQUIRED = {"sound": 1500, "mistakes": 3000, "default_ok": 800, "default_handled": 200, "default_error": 400, "lexed": 800, "missing_methods": 300, "bundled": 10}
ASSUMPTIONS = ["rules are tuples or lists"]

ACTIONS = [Comment, Keyword, Name, Number, Operator, String, Text, Name.Tag, String.Escape]
PATTERNS = ["a", "b+", "[cd]", r"\d+", r"\s+", "(x)(y)?", "foo|bar", "z{2}", r"\w", "=", "(?=q)q", "é"]
EMPTY = ["a*", "", "b?", "(?=q)?", "()", "x|", r"$", "(?:)"]
BAD = ["k%d(", "[%d", "*%d", "(?P<n>%d", "%d)", "a%d**", "%d\\"]

_serial = [0]


def make(lexdefs, base=Language, name="VpLang"):
    """lexdefs: {name: function(cls) -> list of rules}"""
    _serial[0] += 1
    modname = "verif_p22_generated"
    mod = sys.modules.setdefault(modname, types.ModuleType(modname))
    ns = {"__module__": modname}
    for n, f in lexdefs.items():
        def rules(cls, f=f):
            yield from f(cls)
        rules.__name__ = n
        ns[n] = lexicon(rules)
    cls = type(Language)(name, (base,), ns)
    setattr(mod, name, cls)
    return cls


def silent(func, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = func(*args)
    return r, out.getvalue()


def good_targets(r, names, i):
    """targets as functions of cls"""
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        k = r.randrange(6)
        n, m = r.choice(names), r.choice(names)
        if k == 0:
            out.append(lambda c: r_neg)
        elif k == 1:
            out.append(lambda c, n=n: getattr(c, n))
        elif k == 2:
            out.append(lambda c, n=n: getattr(c, n)("arg"))
        elif k == 3:
            out.append(lambda c, n=n, m=m: ifmember(TEXT, ("a", "xy"), getattr(c, n), getattr(c, m)))
        elif k == 4:
            out.append(lambda c, n=n: ifeq(TEXT, "a", (getattr(c, n), -1), 1))
        else:
            out.append(lambda c, n=n: target(call(len, TEXT), getattr(c, n)))
    return out


r_neg = -1


def action_item(r):
    k = r.randrange(5)
    a, b = r.choice(ACTIONS), r.choice(ACTIONS)
    if k < 2:
        return lambda c: a
    if k == 2:
        return lambda c: ifmember(TEXT, ("a", "b"), a, b)
    if k == 3:
        return lambda c: skip
    return lambda c: dselect(TEXT, {"a": a}, b)


def gen(r, mistakes):
    """Return (lexdefs, errors per lexicon, warnings per lexicon, description)"""
    names = ["root"] + ["l%d" % i for i in range(r.randint(0, 4))]
    defs, errors, warnings, desc = {}, {}, {}, []
    bad = {n: [] for n in names}
    for _ in range(mistakes):
        bad[r.choice(names)].append(r.choice(["regex", "short", "target", "dyntarget", "none", "repeat", "empty", "two_actions", "both", "two_targets", "emptyrule", "typepattern",
                                          "aftertarget", "nested"]))
    for i, n in enumerate(names):
        pats = r.sample(PATTERNS, r.randint(1, 5))
        rules = []
        for p in pats:
            rules.append((p, [action_item(r)] + good_targets(r, names, i)))
        err = warn = 0
        default = r.random() < .2
        tail = []
        for k in bad[n]:
            if k == "regex":
                rules.append((r.choice(BAD) % (100 + len(rules)), [lambda c: Text]))
                err += 1
            elif k == "short":
                rules.append((r.choice(["k", "w+"]) + str(len(rules)), []))
                err += 1
            elif k == "emptyrule":
                rules.append(None)
                err += 1
            elif k == "typepattern":
                rules.append((1000 + len(rules), [lambda c: Text]))
                err += 1
            elif k == "target":
                t = r.choice(["foo", None, 1.5, Name.Tag])
                rules.append(("t" + str(len(rules)), [lambda c: Text, lambda c, t=t: t]))
                err += 1
            elif k == "dyntarget":
                t = r.choice(["foo", 2.5])
                rules.append(("u" + str(len(rules)), [lambda c: Text, lambda c, t=t: ifgroup(1, t, -1)]))
                err += 1
            elif k == "aftertarget":
                # a mistake behind dynamic items
                t = r.choice(["foo", None, 1.5])
                rules.append(("v" + str(len(rules)), [lambda c: dselect(TEXT, {"a": Text, "b": Name}, Comment)]
                              + [lambda c: ifgroup(1, 1, -1)] * r.randrange(2) + [lambda c, t=t: t]))
                err += 1
            elif k == "nested":
                t = r.choice(["foo", 2.5])
                rules.append(("w" + str(len(rules)), [lambda c, t=t: ifeq(TEXT, "x", Text, ifgroup(1, (Name, -1), ifmember(TEXT, ("a",), (Comment, 1), (Text, t))))]))
                err += 1
            elif k == "two_targets" and not tail:
                tail = [(default_target, [lambda c: -1]), (default_target, [lambda c: -1])]
                err += 1
            elif k == "none":
                rules.append((None, [lambda c: Text]))
                warn += 1
            elif k == "repeat":
                rules.append((pats[0], [lambda c: Comment]))
                warn += 1
            elif k == "empty":
                left = [e for e in EMPTY if e not in [x and x[0] for x in rules]]
                if not left:
                    continue
                rules.append((r.choice(left), [lambda c: Text]))
                warn += 1
            elif k == "two_actions" and not tail:
                tail = [(default_action, [lambda c: Text]), (default_action, [lambda c: Name])]
                err += 1
            elif k == "both" and not tail:
                tail = [(default_action, [lambda c: Text]), (default_target, [lambda c: -1])]
                err += 1
        if default and not tail:
            tail = [(default_action, [action_item(r)])]
        # mistakes at random places, but a repeated pattern after the first
        head, rest = rules[:len(pats)], rules[len(pats):]
        for x in rest:
            lo = 1 if x is not None and x[0] == pats[0] else 0
            if lo:
                lo = [k for k, y in enumerate(head) if y is not None and y[0] == pats[0]][0] + 1
            head.insert(r.randint(lo, len(head)), x)
        rules = head
        for t in tail:
            rules.insert(r.randint(0, len(rules)), t)
        def f(c, rules=rules):
            return [() if x is None else (x[0],) + tuple(y(c) for y in x[1]) for x in rules]
        defs[n] = f
        errors[n], warnings[n] = err, warn
        desc.append((n, [() if x is None else (repr(x[0]), len(x[1])) for x in rules], bad[n]))
    return defs, errors, warnings, desc


def case_rules(ctx):
    r = ctx.rng
    n = r.choice([0, 0, 1, 1, 2, 3])
    defs, errors, warnings, desc = gen(r, n)
    L = make(defs)
    for name in defs:
        v = validate.LexiconValidator(getattr(L, name))
        ok = v.validate()
        ctx.equal(bool(ok), errors[name] == 0, "validate() verdict wrong", definition=repr(desc), lexicon=name, errors=sorted(v.errors))
        ctx.equal(len(v.errors), errors[name], "wrong number of errors reported", definition=repr(desc), lexicon=name, errors=sorted(v.errors))
        ctx.equal(len(v.warnings), warnings[name], "wrong number of warnings reported", definition=repr(desc), lexicon=name, warnings=sorted(v.warnings))
        for m in v.errors | v.warnings:
            ctx.check(m.startswith("VpLang." + name), "message does not name the lexicon", message=m, lexicon=name)
    ok, out = silent(validate.validate_language, L)
    te, tw = sum(errors.values()), sum(warnings.values())
    ctx.equal(bool(ok), te == 0, "validate_language() verdict wrong", definition=repr(desc), output=out)
    if te + tw == 0:
        ctx.equal(out, "", "messages for a sound language", definition=repr(desc))
        ctx.count("sound")
        # a sound definition can be used
        tree = parce.root(L.root, "aabb cd12 xy foo z")
        common.check_tokens(ctx, tree, "aabb cd12 xy foo z")
    else:
        for name in defs:
            if errors[name] + warnings[name]:
                ctx.check("VpLang." + name in out, "nothing printed about a lexicon with mistakes", definition=repr(desc), output=out)
        ctx.count("mistakes", te + tw)
    ctx.distinct(repr(desc))


# pattern, and number of errors and warnings without and with re.VERBOSE
FLAGGED = [("ab # (not closed", (1, 0), (0, 0)), (" a? # optional", (0, 0), (0, 1)), ("# nothing but a comment", (0, 0), (0, 1)), ("ab # [", (1, 0), (0, 0)),
           ("[ #]x", (0, 0), (0, 0)), ("(a) [b", (1, 0), (1, 0)), ("a* b*", (0, 0), (0, 1)), ("\\ x*", (0, 0), (0, 0)), ("\\# ?x", (0, 0), (0, 0)), (" ", (0, 0), (0, 1)),
           ("a {2}", (0, 0), (0, 0)), ("  (?:a|b)  \n  c # )", (1, 0), (0, 0)), ("abc", (0, 0), (0, 0)), ("x*", (0, 1), (0, 1))]


def case_flags(ctx):
    """the flags of the lexicon belong to its patterns"""
    r = ctx.rng
    ns = {}
    want = {}
    desc = []
    for k in range(r.randint(1, 3)):
        name = "root" if not k else "lex%d" % k
        flags = r.choice([0, re.VERBOSE, re.VERBOSE, re.VERBOSE | re.IGNORECASE, re.IGNORECASE, re.MULTILINE, re.DOTALL])
        items = r.sample(FLAGGED, r.randint(1, 4))
        got = [i[2] if flags & re.VERBOSE else i[1] for i in items]
        want[name] = (sum(g[0] for g in got), sum(g[1] for g in got))
        desc.append((name, int(flags), [i[0] for i in items]))

        def rules(cls, items=items, k=k):
            for i in items:
                yield i[0], Name
            if not k:
                yield "zz", Name, cls.lex1, cls.lex2
        rules.__name__ = name
        ns[name] = lexicon(re_flags=flags)(rules)
    for name in ("lex1", "lex2"):
        if name not in ns:
            def rules(cls):
                yield "yy", Name
            rules.__name__ = name
            ns[name] = lexicon(rules)
            want[name] = (0, 0)
    L = type("VpLang", (parce.Language,), ns)
    for name, (e, w) in want.items():
        v = validate.LexiconValidator(getattr(L, name))
        ok = v.validate()
        ctx.equal((bool(ok), len(v.errors), len(v.warnings)), (not e, e, w), "wrong verdict about patterns with flags", definition=desc, lexicon=name, errors=sorted(v.errors), warnings=sorted(v.warnings))
    ok, out = silent(validate.validate_language, L)
    ctx.equal(bool(ok), not any(e for e, w in want.values()), "wrong verdict about a language with flags", definition=desc, output=out)
    if not any(e or w for e, w in want.values()):
        ctx.equal(out, "", "messages for a sound language", definition=desc)
    ctx.count("flagged")
    ctx.distinct(repr(desc))


def simulate(targets, start, clip=False):
    """ok, handled, runaway or invalid"""
    state = [(start, 0)]
    seen = {state[0]}
    uid = 0
    handled = False
    for _ in range(2000):
        top = state[-1]
        t = targets.get(top[0])
        if t is None:
            return "ok"
        for x in t:
            if isinstance(x, int):
                if x < 0:
                    if len(state) + x < 1:
                        if not clip:
                            return "ok"
                        x = 1 - len(state)
                    if x:
                        del state[x:]
                else:
                    for _ in range(x):
                        uid += 1
                        state.append((top[0], uid))
            else:
                uid += 1
                state.append((x, uid))
        if state[-1] == top:
            return "invalid"
        if state[-1] in seen:
            handled = True
        seen.add(state[-1])
    return "handled" if handled else "runaway"


def case_defaults(ctx):
    r = ctx.rng
    names = ["root"] + ["l%d" % i for i in range(r.randint(0, 4))]
    targets = {}
    for n in names:
        if r.random() < .75:
            targets[n] = [r.choice([-1, -1, -2, 1, 0] + names * 2) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    pats = {n: r.sample(PATTERNS, r.randint(0, 3)) for n in names}
    def mk(n):
        def f(c):
            out = [(p, Text) for p in pats[n]]
            if n in targets:
                out.insert(len(out) // 2, (default_target,) + tuple(x if isinstance(x, int) else getattr(c, x) for x in targets[n]))
            return out
        return f
    L = make({n: mk(n) for n in names})
    bad = False
    for n in names:
        want = simulate(targets, n)
        v = validate.LexiconValidator(getattr(L, n))
        ok = v.validate()
        ctx.equal((bool(ok), bool(v.errors), bool(v.warnings)), (want in ("ok", "handled"), want in ("invalid", "runaway"), want == "handled"),
                  "default target judged wrongly", targets=repr(targets), lexicon=n, expected_outcome=want, messages=sorted(v.errors | v.warnings))
        bad |= want in ("invalid", "runaway")
        ctx.count({"ok": "default_ok", "handled": "default_handled"}.get(want, "default_error"))
    ok, out = silent(validate.validate_language, L)
    ctx.equal(bool(ok), not bad, "validate_language() verdict wrong", targets=repr(targets), output=out)
    # the validator does not follow targets that leave the lexicon it looks at
    if not bad and all(simulate(targets, n, True) != "runaway" for n in names):
        text = "".join(r.choice("abcdxyz12 q=é") for _ in range(r.randrange(20)))
        tree = parce.root(L.root, text)         # accepted: must finish
        common.check_tokens(ctx, tree, text)
        ctx.count("lexed")
    ctx.distinct(repr(targets), repr(pats))


def case_transforms(ctx):
    r = ctx.rng
    names = ["root"] + ["l%d" % i for i in range(r.randint(0, 4))]
    L = make({n: (lambda c: [("a", Text)]) for n in names})
    ns, missing = {}, []
    for n in names:
        k = r.randrange(5)
        if k == 0:
            missing.append(n)
        elif k == 1:
            ns[n] = None
        else:
            def m(self, items):
                return 1
            ns[n] = m
    T = type("VpLangTransform", (Transform,), ns)
    ok, out = silent(validate.validate_transform, T(), L)
    ctx.equal(bool(ok), not missing, "validate_transform() verdict wrong", missing=missing, output=out)
    for n in missing:
        ctx.check("VpLang." + n in out, "missing method not reported", missing=missing, output=out)
        ctx.count("missing_methods")
    ctx.distinct(tuple(names), tuple(missing), tuple(k for k in ns if ns[k] is None))


def case_introspect(ctx):
    r = ctx.rng
    names = ["root"] + ["l%d" % i for i in range(r.randint(0, 3))]
    acts, langs = {}, {}
    def rules(n):
        spec = []
        acts[n], langs[n] = set(), set()
        for p in r.sample(PATTERNS, r.randint(1, 4)):
            k = r.randrange(5)
            a, b = r.choice(ACTIONS), r.choice(ACTIONS)
            other = r.choice(common.languages())[1]
            if k == 0:
                spec.append(lambda c, p=p, a=a: (p, a))
                acts[n].add(a)
            elif k == 1:
                spec.append(lambda c, p=p, a=a, b=b: ("(%s)(k)" % p, bygroup(a, b)))
                acts[n] |= {a, b}
            elif k == 2:
                spec.append(lambda c, p=p, a=a, b=b: (p, ifeq(TEXT, "a", a, b), -1))
                acts[n] |= {a, b}
            elif k == 3:
                spec.append(lambda c, p=p, a=a, o=other: (p, a, o))
                acts[n].add(a)
                langs[n].add(other.language)
            else:
                spec.append(lambda c, p=p, a=a, b=b, o=other: (p, dselect(TEXT, {"x": (a, o), "y": (b, -1)}, (a, c.root))))
                acts[n] |= {a, b}
                langs[n].add(other.language)
        return lambda c: [f(c) for f in spec]
    L = make({n: rules(n) for n in names})
    subnames = [r.choice(names), "extra"] if r.random() < .6 else ["extra"]
    S = make({n: rules(n) for n in subnames}, L, "VpSub") if r.random() < .5 else None
    for lang, nm in ((L, names), (S, sorted(set(names) | set(subnames)))):
        if lang is None or lang is L and S is not None:
            continue
        got = introspect.lexicons(lang)
        ctx.check(len(got) == len(nm) and all(g is getattr(lang, n) for g, n in zip(got, sorted(nm))), "lexicons() wrong", names=nm, got_value=repr(got))
        ctx.equal(introspect.standardactions(lang), set().union(*(acts[n] for n in nm)), "standardactions() wrong")
        ctx.equal(introspect.languages(lang), set().union(*(langs[n] for n in nm)), "languages() wrong")
        for n in nm:
            for build in (False, True):
                tree = list(introspect.decision_tree(getattr(lang, n), build))
                ctx.equal(len(tree), len(getattr(lang, n).rules), "decision_tree() does not give every rule")
                found = set()
                stack = list(tree)
                while stack:
                    x = stack.pop()
                    if isinstance(x, (tuple, frozenset, list)):
                        stack.extend(x)
                    elif x in ACTIONS:
                        found.add(x)
                ctx.equal(found, acts[n], "decision_tree() does not give every action")
    # the exact tree of all choices
    a, b, c = r.sample(ACTIONS, 3)
    T = make({"root": lambda cls: [("p1", a), ("p2", ifeq(TEXT, "x", a, b), -1), ("p3", dselect(TEXT, {"x": (a, cls.root), "y": b}, (c, -2, cls.other))),
                                   (arg(default="p4"), a, ifmember(TEXT, ("u",), -1, cls.other)), ("p5", ifeq(TEXT, "x", ifeq(TEXT, "y", a, b), c))],
              "other": lambda cls: []}, Language, "VpTree")
    want = [("p1", a), ("p2", frozenset([(a,), (b,)]), -1), ("p3", frozenset([(a, T.root), (b,), (c, -2, T.other)])),
            None, ("p5", frozenset([(frozenset([(a,), (b,)]),), (c,)]))]
    for build in (False, True):
        tree = list(introspect.decision_tree(T.root("p4"), build))
        x = tree[3]
        tree[3] = None
        ctx.check(tree == want, "decision_tree() does not give the choices", found=repr(tree))
        ctx.check(x[1:] == (a, frozenset([(-1,), (T.other,)])) and (x[0] == "p4") is build and isinstance(x[0], str) is build,
                  "decision_tree() of a rule with the argument", found=repr(x), build=build)
    ctx.count("decision_trees")
    ctx.distinct(repr(sorted((n, repr(sorted(map(repr, a)))) for n, a in acts.items())))


def case_bundled(ctx):
    langs = common.languages()
    if ctx.index >= len(langs):
        return
    lang = langs[ctx.index][1].language
    ok, out = silent(validate.validate_language, lang)
    ctx.check(ok, "a bundled language is reported as broken", language=repr(lang), output=out)
    ctx.count("bundled")
    ctx.distinct(lang.__name__)
