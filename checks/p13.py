"""P13: generated regular expressions match exactly what they were made from."""
import itertools
import re
import sys
import unicodedata

from parce.regex import common_suffix, make_charclass, to_string, words2regexp
from parce.rule import chars, words
import parce.unicharclass
import common

PROPERTY = "P13"
RULE = ("words: random word lists (small alphabets, prefixes of each other, repetitions, special/non-BMP characters, the bundled word lists); the language of the expression is compared with the list "
        "on the words, all near-misses (one character removed, doubled, swapped, words glued) and for small alphabets on ALL strings up to the longest word + 1; the match at the start of random text is the longest word. "
        "chars: every code point 0-0x10ffff against the set.  literal: random expressions, to_string() result against the parsed pattern.  unicode: each category class against unicodedata 11-compatible data. "
        "Non-trivial: at least two words; distinct by word set.")
PLAN = {"quick": {"words": 5000, "small": 1500, "biglist": 24, "chars": 2500, "charsfull": 24, "literal": 12000, "unicode": 4},
        "thorough": {"words": 90000, "small": 25000, "biglist": 80, "chars": 40000, "charsfull": 240, "literal": 200000, "unicode": 4}}
REQUIRED = {"word_matches": 20000, "nonword_rejected": 50000, "exhaustive_strings": 50000, "longest_prefix": 5000, "chars_checked": 1000000, "literals": 500, "not_literal": 500, "categories": 25}
ASSUMPTIONS = ["word lists and character sets are not empty", "regular expressions given to to_string() are valid"]

SPECIAL = list("^$|.()[]{}+*?\\-&~# \n\t'\"/<>,:;=!@%`_") + ["\U0001d11e", "\U0010ffff", "é", "\u2028", "\x00", "\ud800"]


def alphabet(r):
    c = r.random()
    if c < .4:
        return list("ab")[:r.choice([1, 2, 2])] + ["c"] * r.randrange(2)
    if c < .6:
        return list("abcde")
    if c < .8:
        return r.sample(SPECIAL, r.choice([2, 3, 5]))
    return r.sample(SPECIAL, 3) + list("abcxyz019-")


def wordlist(r, alpha=None, maxlen=7):
    alpha = alpha or alphabet(r)
    out = []
    parts = [''.join(r.choice(alpha) for _ in range(r.randrange(1, 4))) for _ in range(r.randrange(1, 5))]
    for _ in range(r.choice([1, 2, 3, 4, 6, 10, 20])):
        c = r.random()
        if c < .4:
            w = ''.join(r.choice(alpha) for _ in range(r.randrange(1, maxlen + 1)))
        elif c < .75:
            w = ''.join(r.choice(parts) for _ in range(r.randrange(1, 4)))
        elif out and c < .9:
            w = r.choice(out)
            w = w + r.choice(alpha) if r.random() < .5 else r.choice(alpha) + w
        elif out:
            w = r.choice(out) * 2
        else:
            w = r.choice(alpha)
        out.append(w[:maxlen])
    if r.random() < .06:
        out.append("")
    return out


def as_arg(r, l):
    c = r.randrange(6)
    return [l, tuple(l), set(l), frozenset(l), dict.fromkeys(l).keys(), iter(l)][c]


def nearmisses(r, ws, alpha, limit=300):
    seen = set(ws)
    l = sorted(seen)
    out = {"", alpha[0]}
    for w in r.sample(l, min(len(l), 25)):
        for i in range(len(w) + 1):
            out.add(w[:i] + w[i + 1:])
            out.add(w[:i])
            out.add(w[i:])
            out.add(w[:i] + r.choice(alpha) + w[i:])
            out.add(w[:i] + r.choice(alpha) + w[i + 1:])
            if i:
                out.add(w[:i] + w[i - 1] + w[i:])
        v = r.choice(l)
        i = r.randrange(len(w) + 1)
        out.add(w[:i] + v[r.randrange(len(v) + 1):])
        out.update((w + v, w + w, v + w, w + "\n", w.upper(), w.swapcase()))
    return out - seen


def compile_(ctx, expr):
    try:
        return re.compile(expr)
    except re.error as e:
        ctx.fail("expression does not compile: {}".format(e), expr=expr)


def check_words(ctx, ws, rx, misses):
    for w in ws:
        if not rx.fullmatch(w):
            ctx.fail("word not matched", word=w, expr=rx.pattern)
    ctx.count("word_matches", len(ws))
    for w in misses:
        if rx.fullmatch(w):
            ctx.fail("something else is matched", text=w, expr=rx.pattern)
    ctx.count("nonword_rejected", len(misses))


def check_longest(ctx, r, ws, rx, alpha, n=15):
    l = sorted(set(ws))
    for _ in range(n):
        t = ''.join(r.choice(l) if r.random() < .6 else r.choice(alpha) for _ in range(r.randrange(0, 6)))
        want = max((w for w in l if t.startswith(w)), key=len, default=None)
        m = rx.match(t)
        if (m.group() if m else None) != want:
            ctx.fail("not the longest word is matched", text=t, got=m and m.group(), expected=want, expr=rx.pattern)
        ctx.count("longest_prefix")


def case_words(ctx):
    r = ctx.rng
    alpha = alphabet(r)
    ws = wordlist(r, alpha)
    ctx.note(words=ws)
    how = r.random()
    if how < .7:
        expr = words2regexp(as_arg(r, ws))
        rx = compile_(ctx, expr)
        check_words(ctx, ws, rx, nearmisses(r, ws, alpha))
        check_longest(ctx, r, ws, rx, alpha)
    else:
        # with prefix and suffix
        p, s = r.choice([("", ""), ("x", ""), ("", "y"), ("(?:p|q)", "z*"), ("[+-]?", "\\.?"), ("a|", "|b")][:5])
        expr = words(as_arg(r, ws), p, s)
        rx = compile_(ctx, expr)
        ref = re.compile(p + "(?:" + "|".join(sorted(map(re.escape, set(ws)), key=len, reverse=True)) + ")" + s)
        cand = nearmisses(r, ws, alpha) | set(ws)
        for w in sorted(cand):
            for a, b in ((r.choice(["", "x", "p", "q", "+", "-"]), r.choice(["", "y", "z", "zz", "."])), ({"": "", "x": "x"}.get(p, "p" if "p" in p else ""), {"y": "y"}.get(s, ""))):
                t = a + w + b
                if bool(rx.fullmatch(t)) != bool(ref.fullmatch(t)):
                    ctx.fail("words() with prefix and suffix", text=t, expr=expr, expected=bool(ref.fullmatch(t)))
                ctx.count("word_matches" if ref.fullmatch(t) else "nonword_rejected")
        if r.random() < .5:
            rx = compile_(ctx, words(ws, r"\b", r"\b"))
            ref = re.compile(r"\b(?:" + "|".join(sorted(map(re.escape, set(ws)), key=len, reverse=True)) + r")\b")
            for _ in range(5):
                t = ''.join(r.choice(ws + [" ", ".", "a"]) for _ in range(6))
                ctx.equal([m.span() for m in rx.finditer(t)], [m.span() for m in ref.finditer(t)], "words with boundaries", text=t, expr=rx.pattern)
    w2, suffix = common_suffix(ws)
    ctx.equal(sorted(w + suffix for w in w2), sorted(ws), "common_suffix changes the words")
    ctx.check(len(set(ws)) == 1 or min(map(len, ws)) == len(suffix) or len({w[-len(suffix) - 1] for w in ws}) > 1, "common_suffix is not the longest", suffix=suffix)
    if len(set(ws)) > 1:
        ctx.distinct(sorted(set(ws)))
    ctx.sample({"words": ws[:10], "expr": expr[:100]})


def case_small(ctx):
    """All strings over a small alphabet."""
    r = ctx.rng
    alpha = r.choice(["a", "ab", "ab", "ab", "abc", "abc", "a-", "a.", "]^", "\\d"])
    maxlen = {1: 12, 2: 8, 3: 5}[len(alpha)]
    c = r.random()
    if c < .6:
        ws = wordlist(r, list(alpha), maxlen)
    else:
        n = {1: 8, 2: 4, 3: 3}[len(alpha)]
        alls = [''.join(x) for k in range(0 if r.random() < .1 else 1, n + 1) for x in itertools.product(alpha, repeat=k)]
        ws = r.sample(alls, r.randrange(1, len(alls) + 1))
    ctx.note(words=ws)
    expr = words2regexp(as_arg(r, ws))
    rx = compile_(ctx, expr)
    s = set(ws)
    n = min(maxlen, max(map(len, ws)) + 1)
    for k in range(n + 1):
        for x in itertools.product(alpha, repeat=k):
            t = ''.join(x)
            if bool(rx.fullmatch(t)) != (t in s):
                ctx.fail("matches a word not in the list" if t not in s else "does not match a word", word=t, expr=expr)
            ctx.count("exhaustive_strings")
    check_longest(ctx, r, ws, rx, list(alpha), 20)
    if len(s) > 1:
        ctx.distinct(sorted(s))
    ctx.sample({"words": ws[:10], "expr": expr[:100]})


_big = None


def biglists():
    global _big
    if _big is None:
        import importlib
        _big = []
        for m in ("css_words", "javascript_words", "lilypond_words", "python_words", "scheme_words"):
            mod = importlib.import_module("parce.lang." + m)
            for n in sorted(vars(mod)):
                v = getattr(mod, n)
                if not n.startswith("_") and isinstance(v, (tuple, list, set, frozenset, dict)) and v and all(isinstance(w, str) for w in v):
                    _big.append((m + "." + n, sorted(v)))
    return _big


def case_biglist(ctx):
    r = ctx.rng
    b = biglists()
    todo = [b[i] for i in range(ctx.index % 24, len(b), 24)] if ctx.index < 24 else [r.choice(b)]
    for name, ws in todo:
        ctx.note(list=name)
        if ctx.index >= 24:
            ws = r.sample(ws, r.randrange(1, len(ws) + 1))
            ctx.note(words=ws)
        rx = compile_(ctx, words2regexp(ws))
        alpha = sorted(set(''.join(ws)))
        check_words(ctx, ws, rx, nearmisses(r, ws, alpha))
        check_longest(ctx, r, ws, rx, alpha, 60)
        ctx.distinct(ws)


def charset(r):
    c = r.random()
    if c < .3:
        s = [chr(r.randrange(0x20, 0x7f)) for _ in range(r.choice([1, 2, 3, 5, 10, 40]))]
    elif c < .5:
        s = [r.choice(SPECIAL) for _ in range(r.choice([1, 2, 3, 8]))]
    elif c < .8:
        s = []
        for _ in range(r.randrange(1, 6)):
            a = r.choice([r.randrange(0x80), r.randrange(0x80), r.randrange(0x3000), r.randrange(0x110000), 0, 0xd7fe, 0xfffe, 0x10fffd])
            s.extend(map(chr, range(a, min(0x110000, a + r.choice([1, 2, 3, 4, 40])))))
    else:
        s = [chr(r.randrange(0x110000)) for _ in range(r.choice([1, 2, 10]))]
    return s


def case_chars(ctx):
    r = ctx.rng
    s = charset(r)
    ctx.note(chars=s)
    arg = r.choice([s, ''.join(s), tuple(s), set(s)])
    cls = make_charclass(iter(s) if r.random() < .2 else arg)
    pos, neg, plain = compile_(ctx, chars(arg)), compile_(ctx, chars(arg, False)), compile_(ctx, "[x" + cls + "]")
    ss = set(s)
    todo = set(ss) | set(map(chr, range(0x80))) | set(SPECIAL)
    for c in s:
        todo.update(chr(x) for x in range(ord(c) - 2, ord(c) + 3) if 0 <= x < 0x110000)
    for c in todo:
        if bool(pos.fullmatch(c)) != (c in ss):
            ctx.fail("chars() pattern", char=c, expected=c in ss, expr=pos.pattern)
        if bool(neg.fullmatch(c)) != (c not in ss):
            ctx.fail("negative chars() pattern", char=c, expected=c not in ss, expr=neg.pattern)
        if bool(plain.fullmatch(c)) != (c in ss or c == "x"):
            ctx.fail("make_charclass() inside a larger class", char=c, expr=plain.pattern)
        ctx.count("chars_checked", 3)
    ctx.distinct(sorted(ss))


def case_charsfull(ctx):
    """Every code point there is."""
    s = set(charset(ctx.rng)) | set(charset(ctx.rng))
    ctx.note(chars=sorted(s))
    pos, neg = compile_(ctx, chars(s)), compile_(ctx, chars(s, False))
    for n in range(0x110000):
        c = chr(n)
        if (pos.match(c) is not None) != (c in s) or (neg.match(c) is not None) != (c not in s):
            ctx.fail("character class", char=c, expr=pos.pattern)
    ctx.count("chars_checked", 2 * 0x110000)
    ctx.distinct(sorted(s))


ATOMS = ["a", "b", "Z", "9", " ", "-", "'", "/", "é", "\U0001d11e", "\n", "\\.", "\\\\", "\\n", "\\t", "\\r", "\\f", "\\v", "\\a", "\\x41", "\\x2e", "\\x0a", "\\u00e9", "\\U0001d11e", "\\N{SPACE}",
         "\\N{FULL STOP}", "\\023", "\\0", "\\07", "\\101", "\\028", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\+", "\\*", "\\?", "\\^", "\\$", "\\|", "\\-", "\\ ", "\\#", "\\/", "\\'", "\\\n",
         ".", "^", "$", "*", "+", "?", "a*", "b+", "c?", "a{2}", "a{2,}", "{", "}", "{2}", "a|b", "|", "(a)", "(?:ab)", "[ab]", "[^a]", "\\d", "\\w", "\\s", "\\b", "\\B", "\\A", "\\Z", "\\S", "(?=a)", "(?!a)", "\\1", "#", "&&", "~"]
PLAIN = 49


def literal_of(expr):
    """The one string the pattern can match, according to Python's own parser, or None."""
    try:
        import re._parser as sre_parse
    except ImportError:
        import sre_parse
    p = sre_parse.parse(expr)
    out = []
    for op, arg in p.data:
        if str(op) != "LITERAL":
            return None
        out.append(chr(arg))
    return ''.join(out)


def case_literal(ctx):
    r = ctx.rng
    n = r.choice([1, 1, 2, 3, 5, 9])
    pool = ATOMS[:PLAIN] if r.random() < .6 else ATOMS
    expr = ''.join(r.choice(pool) for _ in range(n))
    if r.random() < .1:
        expr = re.escape(''.join(r.choice(SPECIAL + ["a", "b"]) for _ in range(n)))
    if r.random() < .1 and expr:
        i = r.randrange(len(expr))
        expr = expr[:i] + expr[i + 1:]
    ctx.note(expr=expr)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rx = re.compile(expr)
            lit = literal_of(expr)
    except (re.error, OverflowError, ValueError):
        ctx.count("invalid")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = to_string(expr)
    if got is None:
        ctx.count("not_literal")
        # an expression without anything special is a literal
        ctx.check(set(expr) & set("\\^$|.()[]{}+*?"), "plain text is not recognized as such")
        return
    ctx.count("literals")
    ctx.check(rx.fullmatch(got), "the text is not matched by the expression", text=got)
    ctx.equal(got, lit, "expression turned into a text that is not all it can match")
    ctx.distinct(expr)
    ctx.sample({"expr": expr, "text": got})


def case_unicode(ctx):
    """The precomputed character classes."""
    u = parce.unicharclass
    if ctx.index == 0:
        owner = {}
        rxs = [(n, compile_(ctx, "[" + c + "]")) for n, c in sorted(u.categories.items())]
        for name, rx in rxs:
            ctx.count("categories")
            for i in range(0x110000):
                if rx.match(chr(i)):
                    if i in owner:
                        ctx.fail("character in two categories", char=hex(i), categories=(name, owner[i]))
                    owner[i] = name
        ctx.count("chars_checked", 0x110000)
        ctx.equal(len(owner), 0x110000, "character in no category")
        # stable properties: letters, digits etc do not change category between unicode versions, with rare exceptions
        diff = [i for i in range(0x110000) if owner[i] != "Cn" and unicodedata.category(chr(i)) != owner[i]]
        ctx.check(len(diff) <= 20, "categories differ from Unicode", chars=list(map(hex, diff[:30])), n=len(diff))
        bad = [i for i in diff if i < 0x250]
        ctx.check(not bad, "categories of Latin characters differ", chars=bad)
        new = sum(owner[i] == "Cn" and unicodedata.category(chr(i)) != "Cn" for i in range(0x110000))
        ctx.count("newer_characters", new)
        bad = [i for i in range(0x800) if owner[i] == "Cn" and unicodedata.category(chr(i)) != "Cn" and i not in (0x55f, 0x560, 0x588, 0x5ef, 0x7fd, 0x7fe, 0x7ff)]
        ctx.check(len(bad) < 10, "old characters without category", chars=list(map(hex, bad)))
    elif ctx.index in (1, 2):
        name = ("xid_start", "xid_continue")[ctx.index - 1]
        pre = "" if name == "xid_start" else "a"
        rx = compile_(ctx, "[" + getattr(u, name) + "]")
        # assigned in Unicode 11
        cn = compile_(ctx, "[" + u.categories["Cn"] + "]")
        diff = []
        for i in range(0x110000):
            c = chr(i)
            if not cn.match(c) and bool(rx.match(c)) != (pre + c).isidentifier():
                diff.append(i)
        ctx.count("chars_checked", 0x110000)
        ctx.check(len(diff) <= 20 and not [i for i in diff if i < 0x250], name + " differs from Python identifiers", chars=list(map(hex, diff[:30])), n=len(diff))
    else:
        # documented usage
        c = u.categories
        rx = compile_(ctx, '[' + c['Lu'] + '][' + c['Lu'] + c['Ll'] + ']*')
        for w in ("Test", "ÉCole", "ÑandÚ", "Σοφία", "Ж"):
            ctx.check(rx.fullmatch(w), "documented usage", word=w)
        for w in ("test", "T1", "A B", "", "Te-st"):
            ctx.check(not rx.fullmatch(w), "documented usage", word=w)
