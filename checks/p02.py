"""P02: the lexer does what the language definition says (differential against a naive reference lexer)."""
import parce
import parce.treebuilder
import parce.ruleitem
from parce.lexer import Lexer
import common
import langspec

PROPERTY = "P02"
RULE = ("a random language definition (up to 5 lexicons: patterns with groups, words, chars, lookaround, all flags, "
        "default action/target, consume, pops/pushes, includes, dynamic items, derived lexicons, delegation) lexes random texts; the event stream "
        "and the tree are compared with an independent rule-by-rule interpreter.  helpers: every rule helper on its own, with the choice it has to make computed directly from its arguments.  Non-trivial: 2+ events with a target, or 5+ events.")
PLAN = {"quick": {"plain": 3000, "dynamic": 5000, "helpers": 4000}, "thorough": {"plain": 60000, "dynamic": 120000, "helpers": 120000}}
REQUIRED = {"events": 100, "ref dynamic": 10, "ref consume": 10, "ref default_target": 10, "ref derived": 10, "ref group": 10, "helper answers": 10000}

_acts = {}


def act_name(a):
    if not _acts:
        for k, v in langspec.get_actions().items():
            _acts[v] = k
    return _acts.get(a, a)


def state(l):
    return (l.name, l.arg)


def real_events(lexicon, text):
    return [((-e.target.pop, tuple(map(state, e.target.push))) if e.target else None,
             tuple((p, t, act_name(x)) for p, t, x in e.lexemes)) for e in parce.events(lexicon, text)]


def real_tree(ctx):
    out = ['C', state(ctx.lexicon), []]
    for n in ctx:
        out[2].append(real_tree(n) if n.is_context else ['T', n.pos, n.text, act_name(n.action), n.group])
    return out


def run(ctx, g):
    spec = g.spec()
    lang = langspec.build_language(spec)
    done = 0
    for k in range(5):
        root = ('root', None)
        if ctx.rng.random() < .2:
            root = (ctx.rng.choice(spec['lexicons'])['name'], ctx.rng.choice([None, "a", "("]) if g.arg_ok else None)
        text = g.text()
        ref = langspec.RefLexer(spec)
        try:
            evs = ref.events(text, root)
        except langspec.Discard:
            ctx.count("discarded")
            continue
        done += 1
        lexicon = getattr(lang, root[0])
        if root[1] is not None:
            lexicon = lexicon(root[1])
        ctx.note(spec=spec, text=text, root=root)
        got = real_events(lexicon, text)
        if got != evs:
            ctx.fail("events differ from the language definition", diff=common.first_diff(got, evs))
        tree = ref.tree(evs, root)
        rt = parce.root(lexicon, text)
        ctx.check(real_tree(rt) == tree, "tree differs from the language definition", got=real_tree(rt), expected=tree)
        common.flat(rt)
        ctx.count("events", len(evs))
        ctx.count("targets", sum(1 for t, l in evs if t))
        for name, n in ref.stats.items():
            ctx.count("ref " + name, n)
        if sum(1 for t, l in evs if t) >= 2 or len(evs) >= 5:
            ctx.distinct(spec, text, root)
        ctx.sample({"spec": spec, "text": text, "events": len(evs)})


def case_plain(ctx):
    run(ctx, langspec.Gen(ctx.rng, dynamic=False, arg_ok=ctx.rng.random() < .5))


def case_dynamic(ctx):
    run(ctx, langspec.Gen(ctx.rng))


# ------------------------------------------------------------ the helpers of parce.rule, each on its own

WORDS = ["a", "b", "ab", "ba", "abc", "cab", "bb", "c", "acb", "ccc", "aab"]


def case_helpers(ctx):
    """A rule for words whose action and target are chosen by one helper."""
    import re
    from parce import Language, lexicon, skip
    import parce.rule as R
    r = ctx.rng
    acts = r.sample(list(langspec.get_actions().values()), 6)
    kind = r.choice(["ifeq", "ifneq", "ifmember", "ifgroup", "gselect", "dselect", "findmember", "select", "target", "derive", "bygroup", "words", "chars",
                     "arg", "ifarg"])
    sl = r.choice([slice(None), slice(1, None), slice(None, 1), slice(-1, None), 0, -1, slice(0, 2), slice(None, None, -1)])
    which = r.choice(["text", "text", "slice", "group", "groupslice", "arg"])
    item = {"text": R.TEXT, "slice": R.TEXT[sl], "group": R.MATCH[1], "groupslice": R.MATCH[2][sl], "arg": R.ARG}[which]
    value = {"text": lambda m, a: m[0], "slice": lambda m, a: m[0][sl], "group": lambda m, a: m[1], "groupslice": lambda m, a: m[2][sl],
             "arg": lambda m, a: a}[which]
    regex = r"(\w?)(\w+)(c)?"
    pool = WORDS + [w[::-1] for w in WORDS]
    arg = r.choice([None, "a", "b", "ab"])
    nested = r.random() < .3
    full = None         # (pattern, items, expected pattern) when the pattern is tested

    # results: index in acts, possibly with a target behind it
    targets = [(), (), (), ("sub",), (-1,), ("sub", "sub"), (0,)]
    res = [(i, r.choice(targets)) for i in range(6)]

    def items(cls, i):
        a, t = res[i]
        t = tuple(getattr(cls, x) if x == "sub" else x for x in t)
        if not t and r.random() < .5:
            return acts[a]
        return (acts[a],) + t
    push = {(): (0, []), ("sub",): (0, [("sub", None)]), (-1,): (-1, []), ("sub", "sub"): (0, [("sub", None)] * 2), (0,): (0, [])}
    keys = [r.choice(pool) for _ in range(4)]
    sets = [r.choice([list, tuple, set, frozenset])(r.sample(pool + ["c", "b"], r.randrange(0, 6))) for _ in range(4)]
    nres = r.randrange(1, 5)
    skipres = [r.random() < .3 for _ in range(3)]
    have_default = r.random() < .7

    if kind in ("ifeq", "ifneq"):
        k = keys[0]
        flip = r.random() < .3
        make = lambda cls: getattr(R, kind)(*((k, item) if flip else (item, k)), items(cls, 0), items(cls, 1))
        choose = lambda m, a: 0 if (value(m, a) == k) == (kind == "ifeq") else 1
    elif kind == "ifmember":
        make = lambda cls: R.ifmember(item, sets[0], items(cls, 0), items(cls, 1))
        choose = lambda m, a: 0 if value(m, a) in sets[0] else 1
    elif kind == "ifgroup":
        n = r.randrange(1, 4)
        make = lambda cls: R.ifgroup(n, items(cls, 0), items(cls, 1))
        regex = r"(?:(a)|(b)|(c))\w*"
        choose = lambda m, a: 0 if m[n] is not None else 1
    elif kind == "gselect":
        regex = r"(a)?(b)?(c)?\w+"
        if all(skipres):
            skipres[1] = False
        make = lambda cls: R.gselect(*(None if x else items(cls, i) for i, x in enumerate(skipres)), default=items(cls, 4))
        choose = lambda m, a: next((i for i in range(3) if not skipres[i] and m[i + 1] is not None), 4)
    elif kind == "dselect":
        d = dict(zip(keys[:nres], range(nres)))
        make = lambda cls: R.dselect(item, {k: items(cls, v) for k, v in d.items()}, items(cls, 5))
        choose = lambda m, a: d.get(value(m, a), 5)
    elif kind == "findmember":
        asdict = r.random() < .3
        pairs = list(zip(sets[:nres], range(nres)))
        if asdict:      # the order does not matter: make them disjoint
            seen = set()
            p2 = []
            for s_, i in pairs:
                p2.append((tuple(sorted(set(s_) - seen)), i))
                seen.update(s_)
            pairs = list(dict(p2).items())
        make = lambda cls: R.findmember(item, (dict if asdict else r.choice([list, iter]))([(s_, items(cls, i)) for s_, i in pairs]), items(cls, 5))
        choose = lambda m, a: next((i for s_, i in pairs if value(m, a) in s_), 5)
    elif kind == "select":
        f = lambda *a: sum(len(x) for x in a if x) % nres
        two = r.random() < .4
        make = lambda cls: R.select(R.call(f, item, *([R.ARG] if two else [])), *(items(cls, i) for i in range(nres)))
        choose = lambda m, a: sum(len(x) for x in ([value(m, a)] + ([a] if two else [])) if x) % nres
    if kind in ("ifeq", "ifneq", "ifmember", "ifgroup", "gselect", "dselect", "findmember", "select"):
        if nested:
            # inside another one that depends on the argument
            make2, choose2 = make, choose
            make = lambda cls: R.ifeq(R.ARG, "a", make2(cls), items(cls, 3))
            choose = lambda m, a: choose2(m, a) if a == "a" else 3
        rule = lambda cls: (regex, make(cls))

        def expect(m, a):
            x, t = res[choose(m, a)]
            return acts[x], push[t]
        rx = regex
    elif kind in ("target", "derive"):
        static = r.choice([None, None, -1, 0, (0, None), (1, None), (0, "x"), (1, "y")])
        names = ["sub", "root"]
        if kind == "derive" and r.random() < .5:
            # the lexicon or the argument is decided later than the other
            arg_item = r.choice([item, R.ARG, "k", None, R.call(lambda x: (x or "") + "!", item)])
            arg_val = lambda m, a: ((a if arg_item is R.ARG else arg_item) if not isinstance(arg_item, parce.ruleitem.Item) or arg_item is R.ARG
                                    else value(m, a) if arg_item is item else (value(m, a) or "") + "!")
            k = keys[0]
            lex_kind = r.randrange(3)
            lexes = lambda cls: [lambda: R.ifeq(item, k, cls.sub, cls.root), lambda: R.select(R.call(bool, R.ARG), cls.sub, cls.root), lambda: cls.sub][lex_kind]()
            lex_val = lambda m, a: ["sub" if value(m, a) == k else "root", "root" if a else "sub", "sub"][lex_kind]
            rule = lambda cls: (regex, acts[0], R.derive(lexes(cls), arg_item))
            expect = lambda m, a: (acts[0], (0, [(lex_val(m, a), arg_val(m, a))]))
        elif kind == "derive":
            static = None
            rule = lambda cls: (regex, acts[0], R.derive(cls.sub, item))
            expect = lambda m, a: (acts[0], (0, [("sub", value(m, a))]))
        elif static is not None:
            rule = lambda cls: (regex, acts[0], R.target(static, cls.sub, cls.root))
            expect = lambda m, a: (acts[0], (static, []) if isinstance(static, int) else (0, [(names[static[0]], static[1])]))
        else:
            def f(t):
                return [-1, 0, (0, None), (1, t), (0, t), (1, None)][(len(t) if t else 0) % 6]
            rule = lambda cls: (regex, acts[0], R.target(R.call(f, item), cls.sub, cls.root))

            def expect(m, a):
                x = f(value(m, a))
                return acts[0], (x, []) if isinstance(x, int) else (0, [(names[x[0]], x[1])])
        rx = regex
    elif kind == "bygroup":
        which_skip = [r.random() < .25 for _ in range(3)]
        rule = lambda cls: (regex, R.bygroup(*(skip if k else acts[i] for i, k in enumerate(which_skip))))
        expect = None
        rx = regex
    elif kind == "words":
        ws = r.sample(WORDS + ["a.b", "c+", "(b", "a|b", "[c]", "\\"], r.randrange(1, 6))
        prefix, suffix = r.choice(["", r"\b", "x", "(?<!a)"]), r.choice(["", r"\b", "y?", "(?!b)"])
        rule = lambda cls: (R.words(ws, prefix, suffix), acts[0])
        alt = "|".join(re.escape(w) for w in sorted(ws, key=len, reverse=True))
        rx = prefix + "(?:" + alt + ")" + suffix
        expect = lambda m, a: (acts[0], (0, []))
    elif kind == "chars":
        cs = r.choice([str, list])("".join(r.sample("abc.^]-\\[ ", r.randrange(1, 6)))) if True else None
        pos = r.random() < .5
        rule = lambda cls: (R.chars(cs, pos) if r.random() < .8 or not pos else R.chars(cs), acts[0])
        rx = "(?:" + "|".join(re.escape(c) for c in cs) + ")" if pos else "(?!" + "|".join(re.escape(c) for c in cs) + r")[\s\S]"
        expect = lambda m, a: (acts[0], (0, []))
    elif kind == "arg":
        arg = r.choice([None, None, "a", "b+", "a|b", "(", ".", 5, "c"])
        escape = r.random() < .7 or arg == "("
        prefix, suffix, default = r.choice(["", "x", "(?<!a)"]), r.choice(["", "c?", r"\b"]), r.choice([None, "b+", "ab"])
        rule = lambda cls: (R.arg(escape, prefix, suffix, default), acts[0])
        rx = prefix + (re.escape(arg) if escape else arg) + suffix if isinstance(arg, str) else default
        expect = lambda m, a: (acts[0], (0, []))
    else:
        pat, els = r.choice(["a", "b+", "c|ab"]), r.choice([None, "b", "ca"])
        rule = lambda cls: (R.ifarg(pat, els) if els or r.random() < .5 else R.ifarg(pat), acts[0])
        rx = pat if arg else els
        expect = lambda m, a: (acts[0], (0, []))
    # one word at a time, so that targets do not matter for the rest of the text
    class X(Language):
        @lexicon
        def root(cls):
            yield rule(cls)

        @lexicon
        def sub(cls):
            yield from ()
    lex = X.root if arg is None else X.root(arg)
    for _ in range(4):
        if kind in ("words", "chars", "arg", "ifarg"):
            text = "".join(r.choice(["a", "b", "c", "x", "y", " ", ".", "+", "|", "(", "[", "]", "-", "^", "\\", "ab", "ba"]) for _ in range(r.randrange(1, 9)))
        else:
            text = r.choice(pool)
        ctx.note(helper=kind, item=which, arg=arg, text=text, regex=rx, results=[(repr(acts[i]), t) for i, t in res])
        got = list(parce.events(lex, text))
        want = []
        if rx is not None:
            c = re.compile(rx)
            pos_ = 0
            while pos_ < len(text):
                m = c.search(text, pos_)
                if not m:
                    break
                pos_ = m.end()
                if kind == "bygroup":
                    lx = tuple((m.start(i + 1), m[i + 1], acts[i]) for i in range(3) if m[i + 1] and not which_skip[i])
                    if lx:
                        want.append((None, lx))
                    continue
                if m.end() == m.start():
                    pos_ += 1
                    continue
                a, t = expect(m, arg)
                want.append((t if t != (0, []) else None, ((m.start(), m[0], a),)))
        real = []
        for e in got:
            t = e.target
            real.append(((t.pop, [(l.name, l.arg) for l in t.push]) if t else None, tuple(tuple(x) for x in e.lexemes)))
        # a target is reported with the next event
        ctx.count("helper answers")
        ctx.equal([x[1] for x in real], [x[1] for x in want], "actions chosen by a rule helper")
        if kind in ("ifeq", "ifneq", "ifmember", "ifgroup", "gselect", "dselect", "findmember", "select", "target", "derive"):
            b = parce.treebuilder.TreeBuilder(lex)
            b.rebuild(text)
            exp = []
            if len(want) == 1 and want[0][0]:
                pop, psh = want[0][0]
                exp = psh
            ctx.equal([(l.name, l.arg) for l in b.lexicons], exp, "lexicons left open by the target of a rule helper")
        if want:
            ctx.distinct(kind, which, arg, text, repr(res), repr(keys), repr(sets))
