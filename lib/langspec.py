"""Random language definitions, in two independent forms.

A *spec* is plain data (dicts, lists, strings).  From one spec we can

* build a real ``parce.Language`` class, using only the documented way to
  define languages (``@lexicon``, the helpers of ``parce.rule``); and
* interpret the spec with the naive reference lexer in this file, which does
  not use any parce code: it tries every rule one by one with :mod:`re`.

The reference lexer is the oracle for what parce should produce.

item specs (the part of a rule after the pattern)::

    ['act', name]                       a plain action
    ['skip']                            the skip action
    ['bygroup', [item, ...]]            one action item per group
    ['using', lexname, value]           delegate (value None: plain lexicon)
    ['int', n]                          pop/push same
    ['lex', lexname]
    ['derive', lexname, value]
    ['ifeq'|'ifneq', v1, v2, items, else_items]
    ['ifmember', v, [strings], items, else_items]
    ['ifgroup', n, items, else_items]
    ['gselect', [items|None, ...], default_items]
    ['dselect', v, [[key, items], ...], default_items]
    ['findmember', v, [[[keys], items], ...], default_items]
    ['select', v_index, [items, ...]]
    ['target', v, [lexname, ...]]

value specs::

    ['TEXT'] ['TEXTI', i] ['TEXTS', a, b] ['MATCH', n] ['MATCHS', n, a, b]
    ['ARG'] ['const', x] ['call', fname, [v, ...]]

"""
import re

ALPHABET = "aaabbbccd01 \n()'xyXY"


# ---------------------------------------------------------------- predicates

def f_len3(s):
    return len(s) % 3 if s else 0

def f_len2(s):
    return len(s) % 2 if s else 0

def f_first_low(s):
    return 1 if s and s[0] in "abx0" else 0

def f_isarg(a):
    return 1 if isinstance(a, str) and a else 0

def f_same(a, b):
    return 1 if a == b else 0

def f_upper(s):
    return s.upper() if isinstance(s, str) else "Q"

def f_tgt_text(s):
    """for target(): int or (index, arg)"""
    n = len(s) % 4
    if n == 0:
        return -1
    if n == 1:
        return (0, s[:1])
    if n == 2:
        return (1, None)
    return 0

def f_tgt_arg(a):
    if not a:
        return (0, None)
    if len(a) == 1:
        return (1, a)
    return -1

FUNCS = {f.__name__: f for f in (
    f_len3, f_len2, f_first_low, f_isarg, f_same, f_upper, f_tgt_text, f_tgt_arg)}

FLAGS = {'': 0, 'I': re.IGNORECASE, 'M': re.MULTILINE, 'IM': re.IGNORECASE | re.MULTILINE,
         'X': re.VERBOSE, 'S': re.DOTALL, 'A': re.ASCII}

MARK = object()


# ---------------------------------------------------------------- real class

_serial = [0]


def build_language(spec, module="verif.generated"):
    """Return a parce Language class for the spec."""
    import sys
    import types
    import parce
    from parce import Language, lexicon, skip, default_action, default_target
    from parce import rule as R
    # a language lives in a module
    sys.modules.setdefault(module, types.ModuleType(module))
    from parce.action import Keyword, Name, Text, Comment, Number, Delimiter, Operator, String
    import parce.standardaction

    _serial[0] += 1
    acts = get_actions(spec)

    def value(v):
        k = v[0]
        if k == 'TEXT':
            return R.TEXT
        if k == 'TEXTI':
            return R.TEXT[v[1]]
        if k == 'TEXTS':
            return R.TEXT[slice(v[1], v[2])]
        if k == 'MATCH':
            return R.MATCH[v[1]]
        if k == 'MATCHS':
            return R.MATCH[v[1]][slice(v[2], v[3])]
        if k == 'ARG':
            return R.ARG
        if k == 'const':
            return v[1]
        if k == 'call':
            return R.call(FUNCS[v[1]], *map(value, v[2]))
        raise ValueError(v)

    def items(cls, l):
        """list of items -> tuple"""
        return tuple(item(cls, i) for i in l)

    def branch(cls, l):
        """a branch; sometimes a bare item, when there is only one"""
        t = items(cls, l)
        return t[0] if len(t) == 1 else t

    def item(cls, i):
        k = i[0]
        if k == 'act':
            return acts[i[1]]
        if k == 'skip':
            return skip
        if k == 'bygroup':
            return R.bygroup(*(item(cls, a) for a in i[1]))
        if k == 'using':
            lex = getattr(cls, i[1])
            return R.using(lex) if i[2] is None else R.using(R.derive(lex, value(i[2])))
        if k == 'int':
            return i[1]
        if k == 'lex':
            return getattr(cls, i[1])
        if k == 'derive':
            return R.derive(getattr(cls, i[1]), value(i[2]))
        if k == 'ifeq':
            return R.ifeq(value(i[1]), value(i[2]), branch(cls, i[3]), branch(cls, i[4]))
        if k == 'ifneq':
            return R.ifneq(value(i[1]), value(i[2]), branch(cls, i[3]), branch(cls, i[4]))
        if k == 'ifmember':
            return R.ifmember(value(i[1]), i[2], branch(cls, i[3]), branch(cls, i[4]))
        if k == 'ifgroup':
            return R.ifgroup(i[1], branch(cls, i[2]), branch(cls, i[3]))
        if k == 'gselect':
            return R.gselect(*(None if x is None else branch(cls, x) for x in i[1]),
                             default=branch(cls, i[2]))
        if k == 'dselect':
            return R.dselect(value(i[1]), {key: branch(cls, x) for key, x in i[2]}, branch(cls, i[3]))
        if k == 'findmember':
            return R.findmember(value(i[1]), [(keys, branch(cls, x)) for keys, x in i[2]], branch(cls, i[3]))
        if k == 'select':
            return R.select(value(i[1]), *(branch(cls, x) for x in i[2]))
        if k == 'target':
            return R.target(value(i[1]), *(getattr(cls, n) for n in i[2]))
        raise ValueError(i)

    def make(lspec):
        def rules(cls):
            for r in lspec['rules']:
                k = r['kind']
                if k == 'pat':
                    yield (r['pattern'], *items(cls, r['items']))
                elif k == 'words':
                    yield (R.words(r['words'], r['prefix'], r['suffix']), *items(cls, r['items']))
                elif k == 'chars':
                    yield (R.chars(r['chars'], r['positive']), *items(cls, r['items']))
                elif k == 'arg':
                    yield (R.arg(r['escape'], r['prefix'], r['suffix'], r['default']), *items(cls, r['items']))
                elif k == 'ifarg':
                    yield (R.ifarg(r['pattern'], r['else']), *items(cls, r['items']))
                elif k == 'pattern_ifeq':
                    yield (R.pattern(R.ifeq(R.ARG, r['value'], r['pattern'], r['else'])), *items(cls, r['items']))
                elif k == 'include':
                    yield from getattr(cls, r['lex'])
                elif k == 'anyof':
                    yield from R.anyof(getattr(cls, r['lex']), *items(cls, r['targets']))
                elif k == 'default_action':
                    yield (default_action, *items(cls, r['items']))
                elif k == 'default_target':
                    yield (default_target, *items(cls, r['items']))
                else:
                    raise ValueError(k)
        rules.__name__ = lspec['name']
        rules.__qualname__ = lspec['name']
        return lexicon(re_flags=FLAGS[lspec['flags']], consume=lspec['consume'])(rules)

    d = {'__module__': module}
    for l in spec['lexicons']:
        d[l['name']] = make(l)
    return type("Gen%d" % _serial[0], (Language,), d)


_actions = {}

def get_actions(spec=None):
    if not _actions:
        from parce import action
        base = [action.Keyword, action.Name, action.Text, action.Comment,
                action.Number, action.Delimiter, action.Operator, action.String]
        for n in range(400):
            b = base[n % len(base)]
            _actions["A%d" % n] = getattr(b, "V%d" % n) if n >= len(base) else b
        _actions["S0"] = "string action"
        _actions["I0"] = 4711
    return _actions


# ------------------------------------------------------------- reference lexer

class Discard(Exception):
    """The generated case is not a legal one (run-away language)."""


class RefMatch:
    """What a rule can see of a match."""
    __slots__ = "start", "text", "groups"

    def __init__(self, start, text, groups):
        self.start = start
        self.text = text
        self.groups = groups    # list of (start, text or None), index 0 is group 1


class RefLexer:
    """Naive interpreter of a language spec.

    A lexicon state is a tuple (name, arg).

    """
    def __init__(self, spec, max_zero=400, max_depth=120):
        self.spec = spec
        self.lex = {l['name']: l for l in spec['lexicons']}
        self.cache = {}
        self.max_zero = max_zero
        self.using_depth = 0
        self.max_depth = max_depth
        self.stats = {'circular': 0, 'leadskip': 0, 'clipped': 0, 'consume': 0, 'default_target': 0,
                      'default_action': 0, 'dynamic': 0, 'group': 0, 'derived': 0, 'zero': 0}

    # -- values

    def value(self, v, m, arg, text):
        k = v[0]
        if k == 'TEXT':
            return text
        if k == 'TEXTI':
            return text[v[1]]
        if k == 'TEXTS':
            return text[v[1]:v[2]]
        if k == 'MATCH':
            return m.groups[v[1] - 1][1]
        if k == 'MATCHS':
            return m.groups[v[1] - 1][1][v[2]:v[3]]
        if k == 'ARG':
            return arg
        if k == 'const':
            return v[1]
        if k == 'call':
            return FUNCS[v[1]](*(self.value(x, m, arg, text) for x in v[2]))
        raise ValueError(v)

    def expand(self, items, state, m, text):
        """Flatten dynamic items to a list of elementary ones."""
        name, arg = state
        for i in items:
            k = i[0]
            if k in ('act', 'skip', 'int', 'bygroup'):
                yield i
            elif k == 'using':
                a = None if i[2] is None else self.value(i[2], m, arg, text)
                yield ['USING', (i[1], a)]
            elif k == 'lex':
                yield ['STATE', (i[1], None)]
            elif k == 'derive':
                self.stats['dynamic'] += 1
                yield ['STATE', (i[1], self.value(i[2], m, arg, text))]
            else:
                self.stats['dynamic'] += 1
                if k == 'ifeq':
                    b = i[3] if self.value(i[1], m, arg, text) == self.value(i[2], m, arg, text) else i[4]
                elif k == 'ifneq':
                    b = i[3] if self.value(i[1], m, arg, text) != self.value(i[2], m, arg, text) else i[4]
                elif k == 'ifmember':
                    b = i[3] if self.value(i[1], m, arg, text) in i[2] else i[4]
                elif k == 'ifgroup':
                    b = i[2] if m.groups[i[1] - 1][1] is not None else i[3]
                elif k == 'gselect':
                    for n, x in enumerate(i[1]):
                        if x is not None and m.groups[n][1] is not None:
                            b = x
                            break
                    else:
                        b = i[2]
                elif k == 'dselect':
                    val = self.value(i[1], m, arg, text)
                    b = i[3]
                    for key, x in i[2]:
                        if key == val:
                            b = x
                elif k == 'findmember':
                    val = self.value(i[1], m, arg, text)
                    b = i[3]
                    for keys, x in i[2]:
                        if val in keys:
                            b = x
                            break
                elif k == 'select':
                    b = i[2][self.value(i[1], m, arg, text)]
                elif k == 'target':
                    val = self.value(i[1], m, arg, text)
                    if isinstance(val, int):
                        yield ['int', val]
                    else:
                        yield ['STATE', (i[2][val[0]], val[1])]
                    continue
                else:
                    raise ValueError(i)
                yield from self.expand(b, state, m, text)

    def net_target(self, expanded, state):
        """(pops, pushes) or None"""
        pop = 0
        push = []
        for i in expanded:
            if i[0] == 'int':
                n = i[1]
                if n > 0:
                    push.extend([state] * n)
                else:
                    for _ in range(-n):
                        if push:
                            push.pop()
                        else:
                            pop += 1
            elif i[0] == 'STATE':
                push.append(i[1])
            else:
                raise Discard("bad target {}".format(i))
        if pop or push:
            return pop, push

    # -- lexicons

    def rules(self, state):
        """Return (list of (regex, items), default_action items, default target)."""
        try:
            return self.cache[state]
        except KeyError:
            pass
        name, arg = state
        lspec = self.lex[name]
        flags = FLAGS[lspec['flags']]
        pats = []
        dflt_action = dflt_target = None
        # included rules are evaluated with the arg of the including lexicon
        for r, items in self.raw_rules(name):
            k = r['kind']
            if k == 'default_action':
                dflt_action = items
                continue
            if k == 'default_target':
                dflt_target = self.net_target(self.expand(items, state, None, None), state)
                continue
            p = self.pattern(r, arg)
            if p is not None:
                pats.append((re.compile(p, flags), items))
        self.cache[state] = pats, dflt_action, dflt_target
        return self.cache[state]

    def raw_rules(self, name):
        for r in self.lex[name]['rules']:
            k = r['kind']
            if k == 'include':
                yield from self.raw_rules(r['lex'])
            elif k == 'anyof':
                for r2, items in self.raw_rules(r['lex']):
                    if r2['kind'] in ('default_action', 'default_target'):
                        continue
                    if len(items) > 1 and self.net_target(
                            [['STATE', i[1]] if i[0] in ('lex',) else i for i in items[1:]], None):
                        continue
                    yield r2, [items[0]] + (r['targets'] or [['lex', r['lex']]])
            else:
                yield r, r['items']

    def pattern(self, r, arg):
        k = r['kind']
        if k == 'pat':
            return r['pattern']
        if k == 'words':
            # longest first, so a prefix does not hide a longer word
            p = '|'.join(map(re.escape, sorted(set(r['words']), key=lambda w: (-len(w), w))))
            return r['prefix'] + '(?:' + p + ')' + r['suffix']
        if k == 'chars':
            cl = ''.join('\\' + c if not c.isalnum() else c for c in r['chars'])
            return '[{}{}]'.format('' if r['positive'] else '^', cl)
        if k == 'arg':
            if isinstance(arg, str):
                return r['prefix'] + (re.escape(arg) if r['escape'] else arg) + r['suffix']
            return r['default']
        if k == 'ifarg':
            return r['pattern'] if arg else r['else']
        if k == 'pattern_ifeq':
            return r['pattern'] if arg == r['value'] else r['else']
        raise ValueError(k)

    def scan(self, state, text, pos):
        """Yield (pos, txt, match or None, items or None, default target or None)."""
        pats, dflt_action, dflt_target = self.rules(state)
        no_empty_at = -1
        end = len(text)
        if dflt_action is None and dflt_target is not None:
            while True:
                for rx, items in pats:
                    m = rx.match(text, pos)
                    if m:
                        break
                else:
                    if pos < end:
                        self.stats['default_target'] += 1
                        yield pos, '', None, None, dflt_target
                    return
                yield pos, m.group(), self.refmatch(m), items, None
                if m.end() == pos:
                    raise Discard("empty match without target with default_target")
                pos = m.end()
        while True:
            p = pos
            found = None
            while p <= end and not found:
                for rx, items in pats:
                    m = rx.match(text, p)
                    if m and not (m.end() == p and no_empty_at == p):
                        found = m, items
                        break
                else:
                    p += 1
            if not found:
                if dflt_action is not None and pos < end:
                    self.stats['default_action'] += 1
                    yield pos, text[pos:], None, dflt_action, None
                return
            m, items = found
            if p > pos and dflt_action is not None:
                self.stats['default_action'] += 1
                yield pos, text[pos:p], None, dflt_action, None
            yield p, m.group(), self.refmatch(m), items, None
            pos = m.end()
            if m.end() == p:
                no_empty_at = p

    def refmatch(self, m):
        return RefMatch(m.start(), m.group(),
            [(m.start(i), m.group(i)) for i in range(1, (m.re.groups or 0) + 1)])

    def lexemes(self, act, state, pos, txt, m, text=None):
        """Return the list of (pos, text, action) for an (expanded) action."""
        k = act[0]
        if k == 'act':
            return [(pos, txt, act[1])] if txt else []
        if k == 'skip':
            return []
        if k == 'USING':
            if self.using_depth > 8:
                raise Discard("recursive using()")
            self.using_depth += 1
            try:
                return [(pos + p, t, a) for target, lexs in self.events(txt, act[1])
                        for (p, t, a) in lexs]
            finally:
                self.using_depth -= 1
        if k == 'bygroup':
            res = []
            for i, sub in enumerate(act[1]):
                gpos, gtext = m.groups[i]
                for e in self.expand([sub], state, m, gtext):
                    if e[0] == 'USING' and not gtext:
                        if gtext is None:
                            raise Discard("using() on a group that did not match")
                        continue
                    if gtext:
                        res.extend(self.lexemes(e, state, gpos, gtext, m))
            return res
        raise ValueError(act)

    def events(self, text, root):
        """Return list of ((pop, push) or None, lexemes); stores final stack in self.stack."""
        stack = [root]
        evs = []
        acc = [0, []]
        pos = 0
        seen = set()
        zero = 0

        def add(pop, push):
            for _ in range(pop):
                if acc[1]:
                    acc[1].pop()
                else:
                    acc[0] += 1
            acc[1].extend(push)

        def emit(lexs, p):
            if lexs:
                if lexs[0][0] != p:
                    self.stats['leadskip'] += 1
                if len(lexs) > 1:
                    self.stats['group'] += 1
                t = (acc[0], tuple(acc[1])) if acc[0] or acc[1] else None
                acc[0] = 0
                acc[1] = []
                evs.append((t, tuple(lexs)))

        while True:
            state = stack[-1]
            if state[1] is not None:
                self.stats['derived'] += 1
            for p, txt, m, items, dtarget in self.scan(state, text, pos):
                if dtarget is not None:
                    act, target = None, dtarget
                else:
                    exp = list(self.expand(items, state, m, txt))
                    act = exp[0]
                    target = self.net_target(exp[1:], state) if m is not None else None
                if target is None:
                    if txt:
                        emit(self.lexemes(act, state, p, txt, m), p)
                    continue
                pop, push = target
                if pop >= len(stack):
                    pop = len(stack) - 1
                    self.stats['clipped'] += 1
                def go():
                    if pop:
                        del stack[-pop:]
                    stack.extend(push)
                    add(pop, push)
                pos = p
                if txt:
                    if push and self.lex[push[-1][0]]['consume']:
                        self.stats['consume'] += 1
                        go()
                        emit(self.lexemes(act, state, p, txt, m), p)
                    else:
                        emit(self.lexemes(act, state, p, txt, m), p)
                        go()
                    seen.clear()
                    pos += len(txt)
                else:
                    self.stats['zero'] += 1
                    zero += 1
                    if zero > self.max_zero + 4 * len(text):
                        raise Discard("runaway")
                    key = pos, len(stack) - pop, len(push)
                    if not pop and not push:    # root can't be left
                        if pos >= len(text):
                            self.stack = stack
                            return evs
                        pos += 1
                        seen.clear()
                        self.stats['noop'] = self.stats.get('noop', 0) + 1
                        break
                    if key in seen:
                        if push and pos < len(text):
                            pos += 1
                        seen.clear()
                        self.stats['circular'] += 1
                    else:
                        seen.add(key)
                    go()
                if len(stack) > self.max_depth:
                    raise Discard("too deep")
                break
            else:
                break
        self.stack = stack
        return evs

    def tree(self, events, root):
        """Nested tree of the events: ['C', state, children], ['T', pos, text, action, group]."""
        tree = ['C', root, []]
        path = [tree]
        for target, lexs in events:
            if target:
                pop, push = target
                if pop:
                    del path[-pop:]
                for s in push:
                    c = ['C', s, []]
                    path[-1][2].append(c)
                    path.append(c)
            n = len(lexs)
            for i, (p, t, a) in enumerate(lexs):
                g = None if n == 1 else (-i if i == n - 1 else i)
                path[-1][2].append(['T', p, t, a, g])
        return tree


# ------------------------------------------------------------ generation

SIMPLE = ["a", "b", "c", "d", "ab", "ba", "bc", "aa", "x", "y", r"\(", r"\)", "'", "0", "1", "xy",
          "a+", "b+", "[ab]+", "[abc]", r"\d+", r"\s+", r"\n", r"[xy]+", r"\w+", r"\w", "a|b", "ab|a",
          r"[^ab\n]", r"a[^b]{0,3}b", r"\([^)]{0,3}\)", "a?b", "a{0,3}b", r"\.", "a b", "é"]
GROUPED = [("(a)(b)?", 2), ("(a)(b?)", 2), (r"(\w)(\d*)", 2), (r"(a|b)(c)", 2), (r"(x)|(y)", 2),
           (r"(\()(\s*)(\w*)", 3), (r"(a)(b)(c)?", 3), (r"(\d)(\d)?(\d)?", 3), (r"(?P<n>a)(?:b)(c)?", 2),
           ("(x+)(y+)", 2), (r"('?)([ab]+)", 2), (r"((a)b)", 2), (r"(0)|(1)|(d)", 3)]
ZERO = ["(?=a)", "(?=b)", r"(?=\()", "(?![ab])", r"(?=[xy])", r"(?=\s)", r"(?=\d)"]
BEHIND = [r"\b", "^", "$", "(?<=a)b", "(?<!a)b", "^a", "b$", r"\ba", r"(?<=\n)"]
AHEAD = ["a(?=b)", "a(?!b)", r"x(?=y|\d)", "b(?=.)"]
ZERO_BEHIND = {r"\b", "^", "$", r"(?<=\n)"}
WORDS = ["a", "ab", "abc", "b", "ba", "bac", "xy", "x", "0", "01", "cab", "dd", "(", "a'"]


class Gen:
    """Random spec generator."""

    def __init__(self, rng, behind=True, unique_actions=False, dynamic=True, include=True,
                 size=None, verbose_flag=True, arg_ok=True, nested_groups=True):
        self.rng = rng
        self.grouped = [g for g in GROUPED if nested_groups or '((' not in g[0]]
        self.behind = behind
        self.unique = unique_actions
        self.dynamic = dynamic
        self.include = include
        self.size = size
        self.verbose_flag = verbose_flag
        self.arg_ok = arg_ok
        self.counter = 0

    def act(self):
        if self.unique:
            self.counter += 1
            return ['act', 'A%d' % (self.counter % 400)]
        return ['act', self.rng.choice(['A%d' % self.rng.randrange(12), 'A%d' % self.rng.randrange(40), 'S0', 'I0'])]

    def spec(self):
        r = self.rng
        n = self.size or r.choice([1, 2, 2, 3, 3, 4, 5])
        self.names = ['root'] + ['l%d' % i for i in range(1, n)]
        return {'lexicons': [self.lexicon(i) for i in range(n)]}

    def lexicon(self, i):
        r = self.rng
        flags = r.choice(['', '', '', '', 'I', 'M', 'IM', 'S', 'A'] + (['X'] if self.verbose_flag else []))
        rules = []
        kind = r.choice(['none', 'none', 'action', 'action', 'target', 'dynaction', 'both'])
        if i == 0 and kind == 'target':
            kind = 'action'
        n = r.choice([0, 1, 1, 1, 2, 3, 4, 5, 6])
        if i == 0:
            n = max(n, 1)
        single_plain = n == 1 and r.random() < .7
        for _ in range(n):
            rules.append(self.rule(i, kind == 'target', single_plain))
        if i and self.include and r.random() < .15 and len(self.names) > i + 1:
            # include another (later, to avoid recursion) lexicon
            rules.insert(r.randrange(len(rules) + 1), {'kind': 'include', 'lex': self.names[i + 1]})
        if self.include and r.random() < .08 and len(self.names) > i + 1:
            rules.insert(r.randrange(len(rules) + 1), {'kind': 'anyof', 'lex': self.names[i + 1],
                'targets': r.choice([[], [['int', 0]], [['int', -1]], [['lex', r.choice(self.names)]]])})
        if kind in ('action', 'both'):
            a = self.act()
            x = r.random()
            if x < .1:
                a = ['skip']
            elif x < .15 and len(self.names) > i + 1:
                a = ['using', self.names[-1], None]
            rules.append({'kind': 'default_action', 'items': [a]})
        if kind in ('target', 'both'):
            rules.append({'kind': 'default_target', 'items': self.targets(i, False) or [['int', -1]]})
        if kind == 'dynaction':
            rules.append({'kind': 'default_action', 'items': [
                r.choice([['ifeq', ['TEXTI', 0], ['const', r.choice("ab (")], [self.act()], [self.act()]],
                          ['select', ['call', 'f_len3', [['TEXT']]], [[self.act()], [self.act()], [self.act()]]],
                          ['ifmember', ['TEXTS', 0, 2], ['ab', 'b', ' ', 'xy'], [self.act()], [['skip']]]])]})
        if r.random() < .3:
            r.shuffle(rules)
        return {'name': self.names[i], 'flags': flags, 'consume': r.random() < .25, 'rules': rules}

    def rule(self, i, has_default_target, single_plain=False):
        r = self.rng
        x = r.random()
        groups = 0
        zero = False
        if single_plain:
            rule = {'kind': 'pat', 'pattern': r.choice(["a", "ab", r"\(", "b", "'", r"\n", "x", "aa", "a b", r"\.", "xy"])}
        elif x < .45:
            rule = {'kind': 'pat', 'pattern': r.choice(SIMPLE)}
        elif x < .62:
            p, groups = r.choice(self.grouped)
            rule = {'kind': 'pat', 'pattern': p}
        elif x < .70:
            rule = {'kind': 'pat', 'pattern': r.choice(ZERO)}
            zero = True
        elif x < .75:
            rule = {'kind': 'pat', 'pattern': r.choice(AHEAD)}
        elif x < .80 and self.behind:
            p = r.choice(BEHIND)
            zero = p in ZERO_BEHIND
            rule = {'kind': 'pat', 'pattern': p}
        elif x < .86:
            rule = {'kind': 'words', 'words': r.sample(WORDS, r.randrange(1, 6)), 'prefix': '', 'suffix': ''}
        elif x < .90:
            rule = {'kind': 'chars', 'chars': ''.join(r.sample("abcxy01()' ", r.randrange(1, 6))), 'positive': r.random() < .8}
        elif x < .95:
            rule = {'kind': 'arg', 'escape': True, 'prefix': r.choice(['', 'a']), 'suffix': r.choice(['', "b?"]),
                    'default': r.choice([None, 'ab', 'x'])}
        elif x < .98:
            rule = {'kind': 'ifarg', 'pattern': r.choice(SIMPLE[:16]), 'else': r.choice([None] + SIMPLE[:16])}
        else:
            rule = {'kind': 'pattern_ifeq', 'value': r.choice(["a", "(", "A"]), 'pattern': r.choice(SIMPLE[:16]),
                    'else': r.choice([None] + SIMPLE[:16])}
        rule['items'] = self.items(i, groups, zero, has_default_target)
        return rule

    def value(self, groups, maybe_arg=True):
        r = self.rng
        opts = [['TEXT'], ['TEXTS', 0, 1], ['TEXTS', 0, 2], ['TEXTS', 1, None]]
        if groups:
            opts += [['MATCH', r.randrange(1, groups + 1)]] * 3
        if maybe_arg and self.arg_ok:
            opts += [['ARG'], ['ARG']]
        v = r.choice(opts)
        if r.random() < .1:
            v = ['call', 'f_upper', [v]]
        return v

    def action_item(self, i, groups, depth=0):
        """An item spec resulting in exactly one action."""
        r = self.rng
        x = r.random()
        if groups and x < .5 and depth < 2:
            return ['bygroup', [self.group_action(i) for _ in range(groups)]]
        if x < .55:
            return ['skip']
        if x < .60 and len(self.names) > 1:
            return ['using', r.choice(self.names[1:] if i == 0 else self.names[-1:]),
                    r.choice([None, None, ['TEXTS', 0, 1], ['const', 'a']]) if self.dynamic and self.arg_ok else None]
        if self.dynamic and x < .80 and depth < 2:
            a = [self.action_item(i, groups, depth + 1)]
            b = [self.action_item(i, groups, depth + 1)]
            return self.choice_item(groups, a, b)
        return self.act()

    def group_action(self, i):
        r = self.rng
        x = r.random()
        if x < .15:
            return ['skip']
        if self.dynamic and x < .3:
            return ['ifmember', ['TEXT'], ['a', 'b', 'x', '0'], [self.act()], [self.act()]]
        if self.dynamic and x < .36 and self.arg_ok:
            return ['ifeq', ['ARG'], ['const', 'a'], [self.act()], [self.act()]]
        return self.act()

    def choice_item(self, groups, a, b):
        r = self.rng
        k = r.choice(['ifeq', 'ifneq', 'ifmember', 'dselect', 'findmember', 'select'] +
                     (['ifgroup', 'gselect'] if groups else []))
        if k in ('ifeq', 'ifneq'):
            return [k, self.value(groups), r.choice([['const', r.choice(["a", "b", "ab", "x"])], self.value(groups)]), a, b]
        if k == 'ifmember':
            return [k, self.value(groups), r.sample(WORDS, 4), a, b]
        if k == 'ifgroup':
            return [k, r.randrange(1, groups + 1), a, b]
        if k == 'gselect':
            l = [r.choice([None, a, b]) for _ in range(groups)]
            if not any(l):
                l[0] = a
            return [k, l, b]
        if k == 'dselect':
            return [k, self.value(groups), [["a", a], ["ab", b], ["x", a]], b]
        if k == 'findmember':
            return [k, self.value(groups), [[["a", "b"], b], [["b", "ab", "x"], a]], b]
        # select
        if r.random() < .5 or not self.arg_ok:
            return [k, ['call', 'f_len2', [['TEXT']]], [a, b]]
        return [k, ['call', 'f_isarg', [['ARG']]], [a, b]]

    def targets(self, i, allow_dynamic=True, groups=0, depth=0):
        """Zero or more target items."""
        r = self.rng
        x = r.random()
        if x < .3:
            return [['int', r.choice([-1, -1, -1, -2, -3])]]
        if x < .45:
            return [['int', -1], ['lex', r.choice(self.names)]]
        if x < .62:
            return [['lex', r.choice(self.names)]]
        if x < .66:
            return [['int', 1]]
        if x < .70:
            return [['lex', r.choice(self.names)], ['lex', r.choice(self.names)]]
        if not (self.dynamic and self.arg_ok):
            return [['lex', r.choice(self.names)]]
        if x < .82:
            if allow_dynamic:
                return [['derive', r.choice(self.names), self.value(groups)]]
            return [['derive', r.choice(self.names), r.choice([['const', 'a'], ['const', '('], ['ARG']])]]
        if x < .86:
            return [['derive', r.choice(self.names), ['const', r.choice(['a', '(', "'", 3])]]]
        if allow_dynamic and x < .90:
            return [['target', ['call', 'f_tgt_text', [['TEXT']]], [r.choice(self.names), r.choice(self.names)]]]
        if allow_dynamic and depth < 2:
            return [self.choice_item(groups, self.targets(i, True, groups, depth + 1),
                                     self.targets(i, True, groups, depth + 1))]
        return [['int', -1]]

    def items(self, i, groups, zero, has_default_target):
        r = self.rng
        if zero:
            t = self.targets(i, False)
            if r.random() < .5:
                t = [['int', -1]] if i else [['lex', r.choice(self.names)]]
            return [self.act()] + t
        x = r.random()
        if self.dynamic and x < .15:
            # one item chooses action and target together
            a = [self.action_item(i, groups, 1)] + (self.targets(i, True, groups) if r.random() < .7 else [])
            b = [self.action_item(i, groups, 1)] + (self.targets(i, True, groups) if r.random() < .5 else [])
            return [self.choice_item(groups, a, b)]
        act = self.action_item(i, groups)
        if x < .55:
            return [act]
        return [act] + self.targets(i, True, groups)

    def text(self, n=None):
        r = self.rng
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 30, 50])
        s = ''.join(r.choice(ALPHABET) for _ in range(n))
        if r.random() < .1:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(["é", "\U0001d11e", "\r\n", "a b", "\t", "\x00", ".", "İ", "ß"]) + s[i:]
        return s
