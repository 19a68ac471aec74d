"""P19: the language registry."""
import fnmatch
import importlib

import parce
from parce.registry import Registry, registry
import common

PROPERTY = "P19"
RULE = ("model: random registries (entries with overlapping names, aliases, patterns, MIME types, guesses and weights; inherited entries; chains of fallbacks) against a reference written from the documentation: suggest() by each single criterion and by ties, "
        "qualname(), find(), by_section(), copy(); permuted and with unrelated entries added.  real: the global registry: every entry by name, alias, file name, MIME type and typical content.  guess: hostile and generated content.  "
        "Non-trivial: at least two entries match; distinct by (registry, request).")
PLAN = {"quick": {"model": 8000, "real": 1500, "guess": 3000}, "thorough": {"model": 150000, "real": 20000, "guess": 60000}}
REQUIRED = {"by_filename": 2000, "by_mimetype": 1500, "by_contents": 1500, "ties": 300, "names": 5000, "inherit": 500, "fallback": 500, "contents_known": 500, "multi": 1000}
ASSUMPTIONS = ["how weights of different criteria combine is only judged where the earlier criterion is equal for all entries"]

NAMES = ["Aa", "aa", "AA", "Bb", "bB", "Cc", "x y", "C++", "Ée", "éE", "d", "D"]
WORDS = ["foo", "bar", "baz", "qux", "zip"]
EXTS = ["txt", "c", "h", "cfg", "x"]


def pattern_match(pat, name):
    """own glob matching for * ? and [abc]"""
    def m(p, s):
        if not p:
            return not s
        if p[0] == "*":
            return any(m(p[1:], s[i:]) for i in range(len(s) + 1))
        if not s:
            return False
        if p[0] == "?":
            return m(p[1:], s[1:])
        if p[0] == "[":
            e = p.index("]")
            return s[0] in p[1:e] and m(p[e + 1:], s[1:])
        return p[0] == s[0] and m(p[1:], s[1:])
    return m(pat, name)


def rand_entry(r):
    w = lambda: r.choice([.1, .25, .5, .5, .75, 1])
    return dict(
        name=r.choice(NAMES), desc=r.choice(WORDS), section=r.choice(["", "S1", "S2"]), author=r.choice(["", "me", "you"]),
        aliases=[r.choice(NAMES) for _ in range(r.randrange(3))],
        filenames=[(r.choice(["*." + r.choice(EXTS), r.choice(WORDS), r.choice(WORDS) + ".*", "*.[ch]", "f??.*", "*", "?ar"]), w()) for _ in range(r.randrange(4))],
        mimetypes=[("text/" + r.choice(WORDS), w()) for _ in range(r.randrange(3))],
        guesses=[(r.choice(WORDS), w()) for _ in range(r.randrange(4))])


def rand_key(r):
    return "{}.{}.{}".format(r.choice(["m", "pkg.mod"]), r.choice(["Foo", "Bar", "BAZ", "aa", "Cc", "Zip"]), r.choice(["root", "other"]))


def model_qualname(entries, name):
    for rank in range(4):
        for k, e in entries.items():
            cls = k.split(".")[-2]
            hit = (name == e["name"], name in e["aliases"], name.lower() in [x.lower() for x in [e["name"]] + e["aliases"]], name.lower() == cls.lower())[rank]
            if hit:
                return k


def file_weight(e, fn):
    return max([w for p, w in e["filenames"] if pattern_match(p, fn)], default=0)


def mime_weight(e, m):
    return max([w for p, w in e["mimetypes"] if p == m], default=0)


def guess_weight(e, c):
    return sum(w for p, w in e["guesses"] if p in c)


def check_order(ctx, got, weights, msg, **kw):
    """got is the list of keys that have a weight, highest first"""
    ctx.equal(sorted(got), sorted(k for k, w in weights.items() if w), msg + ": the wrong entries", **kw)
    ws = [weights[k] for k in got]
    ctx.check(all(a >= b - 1e-9 for a, b in zip(ws, ws[1:])), msg + ": not ordered by weight", result=list(zip(got, ws)), **kw)
    if len(got) > 1:
        ctx.count("multi")


class Loaded(Registry):
    """a registry that does not import its lexicons"""
    @staticmethod
    def lexicon(qualname):
        return ("lexicon", qualname)


def build(r, ctx, cls=Loaded):
    reg = cls()
    entries = {}
    for _ in range(r.randrange(1, 8)):
        k = rand_key(r)
        e = rand_entry(r)
        inherit = r.choice(sorted(entries)) if entries and r.random() < .2 else None
        if inherit:
            ctx.count("inherit")
            t = entries.pop(inherit)
            given = {x: v for x, v in e.items() if r.random() < .6}
            reg.add(k, inherit=inherit, **given)
            new = {}
            for x in ("name", "desc", "section"):
                new[x] = given.get(x) or t[x]
            a = given.get("author", "")
            new["author"] = t["author"] if not a else a if not t["author"] or t["author"] == a else t["author"] + " + " + a
            for x in ("aliases", "filenames", "mimetypes", "guesses"):
                new[x] = list(t[x]) + list(given.get(x, ()))
            e = new
        else:
            reg.add(k, **e)
        entries[k] = e      # keeps the place of an existing key
    return reg, entries


def case_model(ctx):
    r = ctx.rng
    reg, entries = build(r, ctx)
    ctx.note(entries=entries)
    # contents of the registry
    ctx.equal(list(reg), list(entries), "keys of the registry")
    for k, e in entries.items():
        got = reg[k]
        for x, v in e.items():
            g = getattr(got, x)
            ctx.equal(list(g) if isinstance(v, list) else g, v, "attribute of the entry", key=k, attribute=x)
    ctx.raises(KeyError, reg.add, "a.B.c", name="x", desc="y", inherit="not.There.root")
    ctx.raises(ValueError, reg.add, "a.B.c", name="x")
    ctx.raises(ValueError, reg.add, "a.B.c", desc="x")
    ctx.equal(list(reg), list(entries), "failed add() changed the registry")
    # names
    for n in NAMES + ["foo", "FOO", "zip", "baz", "nothing", "root"]:
        ctx.equal(reg.qualname(n), model_qualname(entries, n), "qualname()", name=n)
        ctx.count("names")
    # file names
    fn = r.choice([r.choice(WORDS), r.choice(WORDS) + "." + r.choice(EXTS), "a." + r.choice(EXTS), "far", "fab.x"])
    mt = "text/" + r.choice(WORDS)
    co = " ".join(r.choice(WORDS) for _ in range(r.randrange(1, 4)))
    fw = {k: file_weight(e, fn) for k, e in entries.items()}
    mw = {k: mime_weight(e, mt) for k, e in entries.items()}
    gw = {k: guess_weight(e, co) for k, e in entries.items()}
    ctx.note(filename=fn, mimetype=mt, contents=co)
    ctx.count("by_filename", any(fw.values()))
    ctx.count("by_mimetype", any(mw.values()))
    ctx.count("by_contents", any(gw.values()))
    for args, w in ((dict(filename=fn), fw), (dict(mimetype=mt), mw), (dict(contents=co), gw)):
        got = reg.suggest(**args)
        check_order(ctx, got, w, "suggest()", request=args)
        # find() gives the first
        ctx.equal(reg.find(**args), ("lexicon", got[0]) if got else None, "find()", request=args)
    if not any(fw.values()):
        check_order(ctx, reg.suggest(fn, mt), mw, "suggest() with a file name nobody wants")
        if not any(mw.values()):
            check_order(ctx, reg.suggest(fn, mt, co), gw, "suggest() with a file name and type nobody wants")
    # one clear match: the contents do not matter
    if sum(1 for w in fw.values() if w) == 1:
        k = [k for k, w in fw.items() if w]
        ctx.equal(reg.suggest(fn, None, co), k, "suggest() with only one entry for the file name")
    # the contents never bring up an entry that the file name and type did not, when these had matches
    asked = r.choice([(fn, None), (None, mt), (fn, mt)])
    wanted = [k for k in entries if asked[0] and fw[k] or asked[1] and mw[k]]
    if wanted:
        got = reg.suggest(*asked, co)
        ctx.check(got and got[0] in wanted, "suggest(): contents beat file name and type", request=asked, found=got, wanted=wanted)
        ctx.check(set(wanted) <= set(got), "suggest(): an entry that matches is missing", request=asked, found=got, wanted=wanted)
        ctx.count("contents_beside")
    if sum(1 for w in fw.values() if w == max(fw.values())) == 1 and any(fw.values()):
        ctx.equal(reg.suggest(fn, None, co)[0], max(fw, key=fw.get), "suggest(): contents beat a clear file name")
    if len(set(fw.values())) == 1 and any(fw.values()):
        # all the same file name weight: the type decides
        ctx.count("ties")
        got = reg.suggest(fn, mt)
        check_order(ctx, got, {k: 1 + mw[k] for k in entries}, "suggest() with equal file name weight")
        if len(entries) > 1:
            got = reg.suggest(fn, None, co)
            check_order(ctx, got, {k: 1 + gw[k] for k in entries}, "suggest() with equal file name weight, by contents")
    ctx.equal(reg.suggest(), [], "suggest() without arguments")
    # contents are looked at in the first 5000 characters only
    check_order(ctx, reg.suggest(contents="-" * 4990 + " " * 10 + co), {k: 0 for k in entries}, "suggest() by text after 5000 characters")
    # unrelated entries and other order
    other = Loaded()
    keys = list(entries)
    r.shuffle(keys)
    for n, k in enumerate(keys):
        if r.random() < .5:
            other.add("unrelated.Un{}.root".format(n), name="Un%d" % n, desc="u", filenames=[("*.unrelated", 1)], mimetypes=[("un/related", 1)], guesses=[("UNRELATED", 1)], aliases=["nope"])
        other.add(k, **entries[k])
    check_order(ctx, other.suggest(filename=fn), fw, "suggest() with unrelated entries")
    check_order(ctx, other.suggest(contents=co), gw, "suggest() with unrelated entries")
    a, b = reg.suggest(filename=fn), other.suggest(filename=fn)
    ctx.equal([fw[x] for x in a], [fw[x] for x in b], "order of weights with unrelated entries")
    # sections
    sec = reg.by_section()
    ctx.equal({s: dict(d) for s, d in sec.items()}, {s: {k: reg[k] for k, e in entries.items() if e["section"] == s} for s in {e["section"] for e in entries.values()}}, "by_section()")
    # copies and fallbacks
    c = reg.copy()
    ctx.check(type(c) is Loaded and dict(c) == dict(reg) and c.fallback is reg.fallback, "copy()")
    c.add("new.New.root", name="New", desc="n")
    ctx.check("new.New.root" not in reg, "copy() is not separate")
    chain = [(reg, entries)]
    for _ in range(r.randrange(3)):
        n, e = build(r, ctx)
        chain[-1][0].fallback = n
        chain.append((n, e))
    if len(chain) > 1:
        ctx.count("fallback")
    ctx.equal(reg.copy().fallback, reg.fallback, "fallback of a copy")
    for n in r.sample(NAMES + ["foo", "zip", "nothing"], 4):
        want = next((("lexicon", q) for q in (model_qualname(e, n) for _, e in chain) if q), None)
        ctx.equal(reg.find(n), want, "find() by name, with fallbacks", name=n)
        ctx.equal(reg.find(n, filename=fn, contents=co), want, "find() by name, with other arguments", name=n)
    got = reg.find(contents=co)
    want = next((x for x in (max([guess_weight(e, co) for e in es.values()], default=0) and (es, max(guess_weight(e, co) for e in es.values())) for _, es in chain) if x), None)
    if want is None:
        ctx.equal(got, None, "find() by contents, with fallbacks")
    else:
        es, w = want
        ctx.check(got and got[1] in es and abs(guess_weight(es[got[1]], co) - w) < 1e-9, "find() by contents, with fallbacks", found=got, weight=w)
    ctx.distinct(str(entries), fn, mt, co)
    ctx.sample({"entries": len(entries), "filename": fn, "result": a})


KNOWN = [
    ('{"key": 123}', "Json"), ('  {\n "a" : [', "Json"), ('<?xml version="1.0"?>\n<a/>', "Xml"), ("#!/bin/sh\nls", "Bash"), ("#!/usr/bin/env python3\nimport sys\n", "Python"),
    ("#!/bin/bash\n", "Bash"), ("<!DOCTYPE html>\n<html>", "Html"), ("<!doctype HTML>", "Html"), ("<html lang=\"en\">", "Html"), ("\\documentclass{article}", "Latex"), ("\\documentstyle[12pt]{x}", "Latex"),
    ("\\version \"2.20\"\n{ c }", "LilyPond"), ("(define (f x) x)", "Scheme"), ("; comment\n(display 1)", "Scheme"), ("\\input texinfo @c x", "Texinfo"), (".TH MAN 1", "Troff"), (".\\\" comment", "Troff"),
    ("#include <stdio.h>\nint main", "C"), ("using namespace std;", "C"), ("[section]\nx = y", "Ini"), ("[a.b]\nx = 1", "Toml"), ("@media print {}", "Css"), ("body { color: red }", "Css"),
    ("<?xml version=\"1.0\"?>\n<xsl:stylesheet x>", "Xslt"), ("<?xml version=\"1.0\"?><!DOCTYPE book PUBLIC \"-//OASIS//DTD DocBook XML\"><book id=\"x\">", "DocBook"), ("<!ENTITY a \"b\">", "Dtd"), ("#!/usr/bin/tclsh\nputs x", "Tcl"),
    ("a,b,c\n1,2,3\n", "Csv"), (">>> x\n1", "PythonConsole"), ("import os\n", "Python"),
]


def case_real(ctx):
    r = ctx.rng
    q = r.choice(sorted(registry))
    e = registry[q]
    ctx.note(entry=q)
    mod, cls, lex = q.rsplit(".", 2)
    want = getattr(getattr(importlib.import_module(mod), cls), lex)
    ctx.check(registry.lexicon(q) is want, "lexicon()")
    ctx.check(want.qualname == q, "qualified name")
    ctx.check(registry.find(e.name) is want and parce.find(e.name) is want, "find() by name")
    ctx.equal(registry.qualname(e.name), q, "qualname()")
    n = ''.join(r.choice((c.lower(), c.upper())) for c in e.name)
    if "ß" not in n:
        ctx.check(registry.find(n) is want, "find() by name, other case", name=n)
    for a in e.aliases:
        found = registry.find(a)
        ctx.check(found is want or registry.qualname(a) == model_qualname(all_entries(), a) != q, "find() by alias", alias=a)
    ctx.count("names")
    others = all_entries()
    for pat, w in e.filenames:
        fn = pat.replace("*", r.choice(["x", "some.name", "a b", "", "UP"]))
        while "[" in fn:
            i, j = fn.index("["), fn.index("]")
            fn = fn[:i] + r.choice(fn[i + 1:j]) + fn[j + 1:]
        ws = {k: file_weight(x, fn) for k, x in others.items()}
        got = registry.suggest(filename=fn)
        check_order(ctx, got, ws, "suggest() of the global registry", filename=fn)
        ctx.check(q in got, "not found by its file name", filename=fn)
        ctx.check(parce.find(filename=fn) is registry.lexicon(got[0]), "parce.find()")
        ctx.count("by_filename")
    for mt, w in e.mimetypes:
        ws = {k: mime_weight(x, mt) for k, x in others.items()}
        got = registry.suggest(mimetype=mt)
        check_order(ctx, got, ws, "suggest() of the global registry", mimetype=mt)
        ctx.count("by_mimetype")
    text, name = r.choice(KNOWN)
    found = parce.find(contents=text)
    ctx.check(found is not None and found.language.__name__ == name, "language guessed from contents", contents=text, found=found, language=name)
    # neither a long text nor a wrong file name changes it
    found = parce.find(filename="unknown.ext", contents=text + "\n" * 5100 + r.choice(KNOWN)[0])
    ctx.check(found.language.__name__ == name, "language guessed from the start of the contents", contents=text, found=found)
    ctx.count("contents_known")
    ctx.check(parce.find("no such language at all") is None and parce.find(filename="unknown.ext") is None, "unknown language")
    ctx.distinct(q, n, text)


_all = None


def all_entries():
    global _all
    if _all is None:
        _all = {k: dict(name=e.name, aliases=list(e.aliases), filenames=list(e.filenames), mimetypes=list(e.mimetypes), section=e.section, guesses=list(e.guesses)) for k, e in registry.items()}
    return _all


def case_guess(ctx):
    r = ctx.rng
    q, lexicon = r.choice(common.languages())
    text = common.text_for(r, lexicon, 1500)
    if r.random() < .3:
        text = r.choice([text[:k] for k in (5, 50)]) + ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(0x250), 10, 0x2028])) for _ in range(r.randrange(100)))
    ctx.note(text=text)
    s = registry.suggest(contents=text)
    ctx.check(len(set(s)) == len(s) and all(x in registry for x in s), "suggest()")
    f = parce.find(contents=text)
    ctx.check((f is None) == (not s), "find() and suggest()")
    if s:
        ctx.check(f is registry.lexicon(s[0]), "find() is not the first suggestion")
        parce.root(f, text[:300])
    # every guess counts
    import re
    ws = {k: sum(w for p, w in e["guesses"] if re.search(p, text[:5000])) for k, e in all_entries().items()}
    check_order(ctx, s, ws, "suggest() by contents")
    ctx.count("by_contents", bool(s))
    ctx.distinct(text)
