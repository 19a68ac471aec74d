"""P14: CSS selectors, cascade and values."""
import os

from parce.css import (Atrule, Condition, Element, LxmlElement, Rule, Style, StyleSheet, Value, Color,
                       calculate_specificity, color2hex, quote_if_needed)
from parce.lang.css_words import CSS3_NAMED_COLORS
import common

PROPERTY = "P14"
RULE = ("sheet: random stylesheets (all supported selectors and combinators, groups, important, nested @media/@supports, @page, comments, escapes, quotes, whitespace) written out as text and read by parce; for every element "
        "of a random element tree the selected rules and the resulting properties against an own matcher and cascade working on the structure the text was made from.  values: random value lists read back.  imports: sheets spread over "
        "files in several directories, circular and conditional.  fuzz: hostile text and bytes never fail.  Non-trivial: some element selects at least two rules; distinct by sheet text.")
PLAN = {"quick": {"sheet": 10000, "values": 12000, "imports": 1500, "fuzz": 6000, "data": 1000}, "thorough": {"sheet": 50000, "values": 90000, "imports": 5000, "fuzz": 30000, "data": 8000}}
REQUIRED = {"matches": 5000, "non_matches": 20000, "combinator_matches": 1000, "cascades": 1000, "important": 300, "values": 10000, "imports": 100, "circular": 20, "fuzzed": 500, "conditions": 300}
ASSUMPTIONS = ["selectors use type, *, class, id, attribute, pseudo class without arguments, pseudo element and the combinators space > + ~",
               "in the cascade oracle all selectors of one group have the same specificity", "keywords and colour names in lower case"]

NAMES = ["a", "b", "p", "h1", "div", "my-el", "x_y"]
CLASSES = ["c", "d", "e", "c-d", "é", "a.b", "1x", "A"]
IDS = ["i", "j", "k", "i#"]
ATTRS = ["href", "lang", "data-x", "title"]
AVALUES = ["", "a", "b", "a b", "en", "en-US", "en US", "abc", "ABC", "x\"y", "x'y", "é", "-", "a\\b", "b a", "xab", "12"]
PSEUDO = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "empty"]
OWNPSEUDO = ["hover", "active"]
PELEMENT = ["before", "after"]
PROPS = ["color", "width", "x", "--v", "font-size", "my\\prop"]


# ------------------------------------------------------------ writing text

class W:
    """Write CSS in some random way."""
    def __init__(self, r, wild):
        self.r = r
        self.wild = wild

    def ws(self):
        """optional whitespace"""
        r = self.r
        return r.choice(["", "", " ", "\n", "  ", "\t", "/* x */", " /* } \" */ ", "/**/"]) if self.wild else ""

    def sp(self):
        """mandatory whitespace"""
        r = self.r
        return r.choice([" ", " ", "\n", "\t ", " /* , > */ ", "/*{*/ "]) if self.wild else " "

    def esc(self, c):
        if c.lower() in "0123456789abcdef\n\r\f" or self.r.random() < .5:
            return "\\{} ".format(format(ord(c), self.r.choice(["x", "X", "04x", "06x"])))
        return "\\" + c

    def ident(self, s):
        out = []
        for i, c in enumerate(s):
            ok = c == "-" or c == "_" or c.isalnum()
            if not ok or (c.isdigit() and (i == 0 or i == 1 and s[0] == "-")) or (self.wild and self.r.random() < .04):
                out.append(self.esc(c))
            else:
                out.append(c)
        return ''.join(out)

    def string(self, s):
        q = self.r.choice("'\"")
        out = [q]
        for c in s:
            if c in "\\\n" + q or self.wild and self.r.random() < .04:
                out.append(self.esc(c))
            else:
                out.append(c)
            if self.wild and self.r.random() < .02:
                out.append("\\\n")
        return ''.join(out) + q

    def compound(self, s):
        out = []
        parts = [("n", s["name"])] if s["name"] else []
        rest = [("c", c) for c in s["classes"]] + [("i", c) for c in s["ids"]] + [("a", c) for c in s["attrs"]] + [("p", c) for c in s["pseudo"]]
        self.r.shuffle(rest)
        rest += [("e", c) for c in s["pelements"]]
        for k, v in parts + rest:
            if k == "n":
                out.append("*" if v == "*" else self.ident(v))
            elif k == "c":
                out.append("." + self.ident(v))
            elif k == "i":
                out.append("#" + self.ident(v))
            elif k == "p":
                out.append(":" + self.ident(v))
            elif k == "e":
                out.append("::" + self.ident(v))
            else:
                name, op, val, flag = v
                w = lambda: self.r.choice(["", " "]) if self.wild else ""
                t = "[" + w() + self.ident(name) + w()
                if op:
                    idt = val and not val[0].isdigit() and val != "-" and self.r.random() < .4
                    t += op + w() + (self.ident(val) if idt else self.string(val))
                    if flag:
                        t += self.r.choice([" ", " "] if idt else ["", " "]) + flag
                    t += w()
                out.append(t + "]")
        return ''.join(out)

    def selector(self, sel):
        out = [self.compound(sel[0])]
        for i in range(1, len(sel), 2):
            if sel[i] == " ":
                out.append(self.sp())
            else:
                out.append(self.ws() + sel[i] + self.ws())
            out.append(self.compound(sel[i + 1]))
        return ''.join(out)

    def decls(self, decls):
        out = []
        for n, (prop, vals, imp) in enumerate(decls):
            t = self.ws() + self.ident(prop) + self.ws() + ":" + self.ws() + self.values(vals)
            if imp:
                t += self.r.choice(["", " "]) + "!important"
            if n < len(decls) - 1 or self.r.random() < .5:
                t += self.ws() + ";"
            out.append(t)
        return ''.join(out) + self.ws()

    def rule(self, rule):
        sels = (self.ws() + "," + self.ws()).join(map(self.selector, rule["selectors"]))
        return self.ws() + sels + self.ws() + "{" + self.decls(rule["decls"]) + "}" + self.ws()

    def values(self, vals):
        out = []
        prev_delim = True
        for v in vals:
            t = self.value(v)
            if v[0] == "delim":
                out.append(self.ws() + t + self.ws())
                prev_delim = True
            else:
                if not prev_delim:
                    out.append(self.sp())
                out.append(t)
                prev_delim = False
        return ''.join(out)

    def value(self, v):
        k = v[0]
        if k in ("delim", "hex"):
            return v[1]
        if k in ("ident", "color"):
            return self.ident(v[1])
        if k == "number":
            return v[1] + (v[2] if v[2] == "%" else self.ident(v[2]) if v[2] else "")
        if k == "string":
            return self.string(v[1])
        if k == "url":
            w = lambda: self.r.choice(["", " ", "\n"]) if self.wild else ""
            if self.r.random() < .6 or not v[1] or v[1] != v[1].strip() or set(v[1]) & set("'\"()\\ \n\t") or "/*" in v[1]:
                return "url(" + w() + self.string(v[1]) + w() + ")"
            return "url(" + w() + v[1] + w() + ")"
        if k == "func":
            return v[1] + "(" + self.ws() + self.values(v[2]) + self.ws() + ")"
        if k == "rgb":
            args = [n + u for n, u in v[1]]
            sep = self.r.choice([", ", ",", " "])
            return ("rgba(" if len(args) == 4 and self.r.random() < .7 else "rgb(") + sep.join(args) + ")"
        raise ValueError(k)


# ------------------------------------------------------------ generating

def rand_compound(r):
    s = {"name": None, "classes": [], "ids": [], "attrs": [], "pseudo": [], "pelements": []}
    if r.random() < .5:
        s["name"] = r.choice(NAMES + ["*", "*"])
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        s["classes"].append(r.choice(CLASSES))
    if r.random() < .1:
        s["ids"].append(r.choice(IDS))
    if r.random() < .2:
        op = r.choice([None, "=", "~=", "|=", "^=", "$=", "*="])
        s["attrs"].append((r.choice(ATTRS), op, r.choice(AVALUES) if op else None, r.choice([None, None, "i", "I"]) if op else None))
    if r.random() < .2:
        s["pseudo"].append(r.choice(PSEUDO + OWNPSEUDO))
    if r.random() < .05:
        s["pelements"].append(r.choice(PELEMENT))
    if not any(s.values()):
        s["name"] = r.choice(NAMES + ["*"])
    return s


def rand_selector(r):
    sel = [rand_compound(r)]
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
        sel += [r.choice(["  ", ">", "+", "~"])[0] if r.random() < .7 else " ", rand_compound(r)]
    return sel


def specificity(sel):
    ids = cls = els = 0
    for s in sel[::2]:
        ids += len(s["ids"])
        cls += len(s["classes"]) + len(s["attrs"]) + len(s["pseudo"])
        els += len(s["pelements"]) + (s["name"] not in (None, "*"))
    return ids, cls, els


def rand_number(r):
    t = r.choice(["0", "1", "12", "+5", "-3", ".5", "0.25", "-1.75", "+.5", "1e3", "1e+2", "25E-1", "100", "007", "3.0"])
    return t


def rand_values(r, depth=0):
    out = []
    for n in range(r.choice([1, 1, 1, 2, 3, 5])):
        if n and r.random() < .25:
            out.append(("delim", r.choice(",,/" if not depth else ",")))
        c = r.random()
        if c < .2:
            out.append(("ident", r.choice(["auto", "bold", "x", "-moz-thing", "été", "a b", "a\"b", "redd", "urls", "_u", "A1", "1a", "-1", "a\\"])))
        elif c < .35:
            out.append(("color", r.choice(sorted(CSS3_NAMED_COLORS) + ["transparent"] * 5)))
        elif c < .5:
            out.append(("hex", "#" + ''.join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([3, 4, 6, 8])))))
        elif c < .65:
            out.append(("number", rand_number(r), r.choice([None, None, "px", "em", "%", "fr", "x y"])))
        elif c < .8:
            out.append(("string", ''.join(r.choice(list("ab c{};:/*,'\"\\()<>!@#") + ["é", "\U0001d11e", "\n", "url(", "\t"]) for _ in range(r.randrange(0, 8)))))
        elif c < .88:
            out.append(("url", r.choice(["x.png", "http://a.b/c?d=e&f#g", "a b.png", "a'b\"c", "", "d/e.css", "p(q)", "/*x", "é\\"])))
        elif c < .94:
            n = r.choice([3, 3, 4])
            args = [(r.choice(["0", "255", "128", "300", "-5", "12.5", "1e9", "50", "100"]), r.choice(["", "", "%"])) for _ in range(3)]
            if n == 4:
                args.append((r.choice(["0", "1", ".5", "0.25", "2", "-1", "50"]), r.choice(["", "%"])))
            out.append(("rgb", args))
        elif depth < 3:
            out.append(("func", r.choice(["calc", "var", "foo", "linear-gradient"]), rand_values(r, depth + 1)))
        else:
            out.append(("ident", "deep"))
    return out


def rand_rule(r, n, same_spec=True, simple_values=True):
    sels = [rand_selector(r)]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        for _ in range(20):
            s = rand_selector(r)
            if not same_spec or specificity(s) == specificity(sels[0]):
                sels.append(s)
                break
    decls = [("--r", [("number", str(n), None)], False)]
    for k in range(r.choice([0, 1, 1, 2, 3])):
        decls.append((r.choice(PROPS), [("number", str(n * 10 + k), None)] if simple_values else rand_values(r), r.random() < .15))
    return {"kind": "rule", "n": n, "selectors": sels, "decls": decls}


def rand_sheet(r, count, depth=0):
    out = []
    for _ in range(r.randrange(1, 8)):
        c = r.random()
        if c < .8 or depth > 1:
            count[0] += 1
            out.append(rand_rule(r, count[0]))
        elif c < .92:
            out.append({"kind": "cond", "keyword": r.choice(["media", "supports", "document"]), "name": r.choice(["screen", "print", "m1", "m2"]), "rules": rand_sheet(r, count, depth + 1)})
        elif c < .97:
            count[0] += 1
            out.append({"kind": "block", "keyword": r.choice(["page", "font-face", "viewport"]), "n": count[0], "decls": [("x", [("number", str(count[0]), None)], False)]})
        else:
            count[0] += 1
            out.append({"kind": "plain", "keyword": r.choice(["namespace", "charset", "foo"]), "text": "t%d" % count[0]})
    return out


def write_sheet(w, sheet):
    out = []
    for s in sheet:
        if s["kind"] == "rule":
            out.append(w.rule(s))
        elif s["kind"] == "cond":
            out.append(w.ws() + "@" + s["keyword"] + " " + w.ident(s["name"]) + w.ws() + "{" + write_sheet(w, s["rules"]) + "}" + w.ws())
        elif s["kind"] == "block":
            out.append(w.ws() + "@" + s["keyword"] + w.ws() + "{" + w.decls(s["decls"]) + "}" + w.ws())
        else:
            out.append(w.ws() + "@" + s["keyword"] + " " + w.string(s["text"]) + w.ws() + ";" + w.ws())
    return ''.join(out)


# ------------------------------------------------------------ oracle

class El:
    def __init__(self, r, parent, name=None):
        self.name = name or r.choice(NAMES)
        self.parent = parent
        self.children = []
        self.attrs = {}
        for a in ATTRS:
            if r.random() < .25:
                self.attrs[a] = r.choice(AVALUES)
        if r.random() < .6:
            self.attrs["class"] = r.choice([" ", "  "]).join(r.sample(CLASSES, r.choice([0, 1, 2, 3])))
        if r.random() < .2:
            self.attrs["id"] = r.choice(IDS)
        self.pseudo = [p for p in OWNPSEUDO if r.random() < .2]
        self.pelements = [p for p in PELEMENT if r.random() < .15]
        if parent:
            parent.children.append(self)

    def index(self):
        return [i for i, c in enumerate(self.parent.children) if c is self][0] if self.parent else 0

    def siblings(self):
        return self.parent.children if self.parent else [self]


def matches_compound(e, s):
    if s["name"] not in (None, "*", e.name):
        return False
    if any(i != e.attrs.get("id") for i in s["ids"]):
        return False
    cl = e.attrs.get("class", "").split()
    if any(c not in cl for c in s["classes"]):
        return False
    for a, op, val, flag in s["attrs"]:
        if a not in e.attrs:
            return False
        if op:
            v = e.attrs[a]
            if flag:
                v, val = v.lower(), val.lower()
            ok = {"=": v == val, "~=": val in v.split() and bool(val), "|=": v == val or v[:len(val) + 1] == val + "-", "^=": bool(val) and v[:len(val)] == val,
                  "$=": bool(val) and v[len(v) - len(val):] == val and len(v) >= len(val), "*=": bool(val) and v.find(val) >= 0}[op]
            if not ok:
                return False
    sib, i = e.siblings(), e.index()
    for p in s["pseudo"]:
        ok = {"first-child": i == 0, "last-child": i == len(sib) - 1, "only-child": len(sib) == 1, "empty": not e.children,
              "first-of-type": all(x.name != e.name for x in sib[:i]), "last-of-type": all(x.name != e.name for x in sib[i + 1:])}.get(p, p in e.pseudo)
        if not ok:
            return False
    return all(p in e.pelements for p in s["pelements"])


def matches(e, sel):
    """straightforward recursive definition"""
    if not matches_compound(e, sel[-1]):
        return False
    if len(sel) == 1:
        return True
    op, rest = sel[-2], sel[:-2]
    if op == ">":
        return e.parent is not None and matches(e.parent, rest)
    if op == " ":
        p = e.parent
        while p is not None:
            if matches(p, rest):
                return True
            p = p.parent
        return False
    before = e.siblings()[:e.index()]
    if op == "+":
        return bool(before) and matches(before[-1], rest)
    return any(matches(x, rest) for x in before)


def cascade(rules):
    """winning declarations; rules in source order"""
    best = {}
    for pos, rule in enumerate(rules):
        sp = max(map(specificity, rule["selectors"]))
        for k, (prop, vals, imp) in enumerate(rule["decls"]):
            key = (imp, sp, pos, k)
            if prop not in best or key > best[prop][0]:
                best[prop] = (key, vals)
    return {p: v for p, (k, v) in best.items()}


def flatten(sheet, keep=lambda s: True):
    for s in sheet:
        if s["kind"] == "rule":
            yield s
        elif s["kind"] == "cond":
            if keep(s):
                yield from flatten(s["rules"], lambda s: True)


def atrules(sheet):
    for s in sheet:
        if s["kind"] == "cond":
            yield from atrules(s["rules"])
        elif s["kind"] != "rule":
            yield s


class FakeLxml:
    """The part of the lxml.etree.Element interface that is needed."""
    cache = {}

    def __new__(cls, el, cache):
        if id(el) not in cache:
            self = object.__new__(cls)
            self.el, self.cache = el, cache
            self.tag, self.attrib = el.name, el.attrs
            cache[id(el)] = self
        return cache[id(el)]

    def getparent(self):
        return FakeLxml(self.el.parent, self.cache) if self.el.parent else None

    def __len__(self):
        return len(self.el.children)

    def __iter__(self):
        for c in self.el.children:
            yield FakeLxml(c, self.cache)

    def itersiblings(self, preceding=False):
        i, sib = self.el.index(), self.el.siblings()
        for c in (reversed(sib[:i]) if preceding else sib[i + 1:]):
            yield FakeLxml(c, self.cache)


# ------------------------------------------------------------ cases

def make_tree(r):
    root = El(r, None)
    els = [root]
    for _ in range(r.randrange(0, 14)):
        els.append(El(r, r.choice(els[-4:] if r.random() < .5 else els)))
    return els


def real_tree(els):
    m = {}
    for e in els:
        m[id(e)] = Element(e.name, m[id(e.parent)] if e.parent else None, e.pseudo, e.pelements, **{k: v for k, v in e.attrs.items() if k != "class"})
        if "class" in e.attrs:
            m[id(e)].attrs["class"] = e.attrs["class"]
    return m


def marker(rule):
    return rule.properties["--r"][0].number


def case_sheet(ctx):
    r = ctx.rng
    sheet = rand_sheet(r, [0])
    text = write_sheet(W(r, r.random() < .6), sheet)
    ctx.note(text=text)
    ss = StyleSheet.from_text(text, allow_import=r.random() < .5)
    keep = lambda s: True
    style = ss.style
    if r.random() < .4:
        kw = r.choice(["media", "supports"])
        name = r.choice(["screen", "print", "m1"])
        keep = lambda s: s["keyword"] != kw or s["name"] == name
        ss2 = ss.filter_conditions(kw, lambda rule: any(isinstance(v, Value) and v.text == name for v in rule.node))
        ctx.note(filter=(kw, name))
        style = ss2.style
        ctx.count("conditions")
    if r.random() < .2:
        # two sheets combined
        other = rand_sheet(r, [1000])
        t2 = write_sheet(W(r, r.random() < .6), other)
        ctx.note(text2=t2)
        if style is not ss.style and keep is not None:
            style = ((ss2 if "filter" in ctx.detail else ss) + StyleSheet.from_text(t2)).style
        rules = list(flatten(sheet, keep)) + list(flatten(other))
        at = None
    else:
        rules = list(flatten(sheet, keep))
        at = list(atrules(sheet))
    ctx.equal(sorted(marker(x) for x in style.rules), sorted(x["n"] for x in rules), "rules in the sheet")
    for x in style.rules:
        src = [s for s in rules if s["n"] == marker(x)][0]
        ctx.equal(tuple(calculate_specificity(x.prelude)), max(map(specificity, src["selectors"])), "specificity", rule=src)
        ctx.equal(len(x.prelude), len(src["selectors"]), "number of selectors", rule=src)
    if at is not None:
        for kw in ("page", "font-face", "viewport", "namespace", "charset", "foo"):
            want = [s for s in at if s["keyword"] == kw]
            got = ss.at.select(kw).rules
            ctx.equal(len(got), len(want), "at-rules", keyword=kw)
            for g, s in zip(got, want):
                if s["kind"] == "block":
                    ctx.equal(g.block["x"][0].number, s["n"], "at-rule block")
                else:
                    ctx.check(g.block is None and [v.text for v in g.contents if isinstance(v, Value)] == [s["text"]], "at-rule contents", got=repr(g))
    els = make_tree(r)
    real = real_tree(els)
    lx = {}
    two = False
    for e in els:
        want = [x for x in rules if any(matches(e, s) for s in x["selectors"])]
        ctx.note(element=repr((e.name, e.attrs, e.pseudo)), path=[p.name for p in path(e)])
        got = style.select_element(real[id(e)])
        ctx.equal(sorted(marker(x) for x in got.rules), sorted(x["n"] for x in want), "rules selected for an element")
        order = sorted(want, key=lambda x: (max(map(specificity, x["selectors"])), rules.index(x)), reverse=True)
        ctx.equal([marker(x) for x in got.rules], [x["n"] for x in order], "order of selected rules")
        ctx.count("matches", len(want))
        ctx.count("non_matches", len(rules) - len(want))
        ctx.count("combinator_matches", sum(any(len(s) > 1 and matches(e, s) for s in x["selectors"]) for x in want))
        props = got.properties()
        wp = cascade(want)
        ctx.equal({k: v[0].number for k, v in props.items() if v}, {k: int(v[0][1]) for k, v in wp.items()}, "properties of an element")
        ctx.check(all(len(v) == 1 for v in props.values()), "property values", got=repr(props))
        if len(want) > 1:
            two = True
            ctx.count("cascades")
        if any(d[2] for x in want for d in x["decls"]):
            ctx.count("important")
        if not e.pseudo and not e.pelements and all(not s["pseudo"] or set(s["pseudo"]) <= set(PSEUDO) for x in rules for sel in x["selectors"] for s in sel[::2]) \
                and all(not s["pelements"] for x in rules for sel in x["selectors"] for s in sel[::2]):
            g2 = style.select_lxml_element(FakeLxml(e, lx))
            ctx.equal([marker(x) for x in g2.rules], [marker(x) for x in got.rules], "selection for an lxml element differs")
            ctx.count("lxml")
        # narrowing down again does not change anything
        ctx.check(got.select_element(real[id(e)]).rules == got.rules, "selecting twice")
    if two:
        ctx.distinct(text)
    ctx.sample({"text": text[:300], "elements": len(els)})


def path(e):
    while e:
        yield e
        e = e.parent


def hexcolor(t):
    h = t[1:]
    if len(h) in (3, 4):
        h = ''.join(c * 2 for c in h)
    v = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
    return v[0], v[1], v[2], (v[3] / 255 if len(v) == 4 else 1.0)


def close_color(ctx, got, want, **kw):
    ctx.check(got is not None and all(isinstance(x, int) and abs(x - y) <= 1 and 0 <= x <= 255 for x, y in zip(got[:3], want[:3])) and abs(got[3] - want[3]) < .005, "colour", got=repr(got), expected=want, **kw)


def compare_values(ctx, got, want):
    ctx.equal(len(got), len(want), "number of values", gotvalues=repr(got), wantvalues=want)
    for g, v in zip(got, want):
        ctx.count("values")
        k = v[0]
        ctx.note(value=repr(g), meant=v)
        if k == "delim":
            ctx.check(g == v[1], "delimiter")
            continue
        ctx.check(isinstance(g, Value), "value is not a Value")
        if k == "ident":
            ctx.equal(g.text, v[1], "identifier")
            ctx.check(not g.quoted and g.color is None and g.number is None and g.url is None and g.funcname is None, "identifier has other attributes")
        elif k == "color":
            ctx.equal(g.text, v[1], "colour name")
            ctx.equal(tuple(g.color), (0, 0, 0, 0) if v[1] == "transparent" else tuple(CSS3_NAMED_COLORS[v[1]]) + (1.0,), "named colour")
        elif k == "hex":
            ctx.equal(g.text, v[1], "hex colour text")
            close_color(ctx, g.color, hexcolor(v[1]))
            ctx.check(tuple(g.color[:3]) == hexcolor(v[1])[:3] and abs(g.color[3] - hexcolor(v[1])[3]) < 1e-9, "hex colour")
            ctx.equal(hexcolor(color2hex(g.color)), hexcolor(v[1]), "colour written as hexadecimal again", hex=color2hex(g.color))
        elif k == "number":
            ctx.check(g.number == float(v[1]) and g.text == v[1] and g.unit == v[2], "number or unit")
        elif k == "string":
            ctx.check(g.text == v[1] and g.quoted, "quoted string")
        elif k == "url":
            ctx.check(g.url == v[1], "url")
        elif k == "func":
            ctx.equal(g.funcname, v[1], "function name")
            compare_values(ctx, g.arguments, v[2])
        elif k == "rgb":
            def num(x, m):
                n = float(x[0])
                return min(m, max(0, n * m / 100 if x[1] else n))
            close_color(ctx, g.color, [num(x, 255) for x in v[1][:3]] + [num(v[1][3], 1) if len(v[1]) == 4 else 1.0])


def case_values(ctx):
    r = ctx.rng
    rule = {"selectors": [rand_selector(r)], "decls": []}
    for i in range(r.choice([1, 1, 2, 4])):
        rule["decls"].append((r.choice(["p", "font", "--x", "é", "a b"]) + str(i), rand_values(r), r.random() < .2))
    w = W(r, r.random() < .6)
    text = w.rule(rule)
    ctx.note(text=text)
    for _ in range(2):
        rules = StyleSheet.from_text(text).rules
        ctx.equal(len(rules), 1, "number of rules", rules=repr(rules))
        props = rules[0].properties
        ctx.equal(list(props), [d[0] for d in rule["decls"]], "property names")
        for name, vals, imp in rule["decls"]:
            got = list(props[name])
            if imp:
                ctx.check(got and got[-1] == "!important", "important", prop=name)
                got.pop()
            compare_values(ctx, got, vals)
        # and without the mark in the end result
        for name, vals, imp in rule["decls"]:
            compare_values(ctx, Style(rules).properties()[name], vals)
        text = "/* x */" + text + "\n"
    # quote_if_needed()
    s = ''.join(r.choice(list("ab-_ 12\"'\\;:{}/*,#!.") + ["é", "\U0001d11e", "\n"]) for _ in range(r.randrange(0, 7)))
    t = "a{b:" + quote_if_needed(s) + "}"
    ctx.note(text=t, string=s)
    v = StyleSheet.from_text(t).rules[0].properties["b"]
    ctx.check(len(v) == 1 and isinstance(v[0], Value) and v[0].text == s and v[0].unit is None, "quote_if_needed() round trip", got=repr(v))
    # all Colors
    c = Color(r.randrange(256), r.randrange(256), r.randrange(256), r.choice([1.0, 0, .5, 1 / 255, 254 / 255, r.random()]))
    h = hexcolor(color2hex(c))
    ctx.check(h[:3] == tuple(c[:3]) and abs(h[3] - c.a) <= 1 / 255, "color2hex", color=repr(c), hex=color2hex(c))
    ctx.distinct(text)
    ctx.sample({"text": text[:200]})


def case_imports(ctx):
    """Several files."""
    r = ctx.rng
    d = ctx.scratch()
    dirs = ["", "s", "s/t", "u"]
    for x in dirs[1:]:
        os.makedirs(os.path.join(d, x), exist_ok=True)
    files = [os.path.join(r.choice(dirs), "f%d.css" % i) for i in range(r.randrange(1, 6))]
    count = [0]
    spec = {}
    for f in files:
        imps = [(r.choice(files), r.choice([None, None, "screen", "print"])) for _ in range(r.choice([0, 1, 1, 2]))]
        spec[f] = (imps, [rand_rule(r, count.__setitem__(0, count[0] + 1) or count[0]) for _ in range(r.randrange(0, 4))])
    texts = {}
    for f, (imps, rules) in spec.items():
        w = W(r, r.random() < .5)
        t = ""
        for g, cond in imps:
            rel = os.path.relpath(os.path.join(d, g), os.path.dirname(os.path.join(d, f)))
            t += "@import " + (w.string(rel) if r.random() < .5 else "url(" + w.string(rel) + ")") + (" " + cond if cond else "") + w.ws() + ";" + w.ws()
        t += write_sheet(w, rules)
        texts[f] = t
        with open(os.path.join(d, f), "w", encoding="utf-8") as fp:
            fp.write(t)
    ctx.note(files=texts)
    # the oracle: files are read once (depth first), relative to the importing file
    allow = r.random() < .9
    seen = {os.path.normpath(files[0])}
    twice = [False]
    loaded = [files[0]]

    def load(f, stack, cond):
        imps, rules = spec[f]
        for g, c in imps if allow else ():
            if g in seen:
                if g in stack:
                    ctx.count("circular")
                else:
                    twice[0] = True
                continue
            seen.add(g)
            loaded.append(g)
            yield from load(g, stack + [g], cond + ([c] if c else []))
        for x in rules:
            yield x["n"], cond
    want = list(load(files[0], [files[0]], []))
    if twice[0]:
        ctx.count("imported_twice")
    main = os.path.join(d, files[0])
    how = r.randrange(3)
    if how == 0:
        ss = StyleSheet.from_file(main, allow_import=allow)
    elif how == 1:
        ss = StyleSheet.from_text(texts[files[0]], main, allow_import=allow)
    else:
        ss = StyleSheet.from_data(texts[files[0]].encode("utf-8"), main, allow_import=allow)
    if ss_norm_needed(files):
        pass
    got = [marker(x) for x in ordered(ss.rules)]
    ctx.check(set(got) == {n for n, c in want}, "rules of imported files", got=got, expected=want)
    if not twice[0]:
        ctx.equal(dedup(got), [n for n, c in want], "order of the rules of imported files")
        ctx.equal({os.path.normpath(f) for f in ss.filenames()}, {os.path.normpath(os.path.join(d, f)) for f in loaded}, "filenames()")
        if ss.filenames():
            ctx.equal(ss.filenames()[0], main, "first filename")
        # conditions on imports
        s2 = ss.filter_conditions("import", lambda rule: any(isinstance(v, Value) and v.text == "screen" for v in rule.node))
        got = dedup([marker(x) for x in ordered(s2.rules)])
        w2 = [n for n, c in want if not c or c[0] == "screen"]
        ctx.equal(got, w2, "conditional imports")
    # sheets added together
    add = StyleSheet.from_text("zz { a: b }", r.choice(["", os.path.join(d, "other.css")]))
    for x, y in ((ss, add), (add, ss)):
        z = x + y
        ctx.equal([id(q) for q in z.rules], [id(q) for q in x.rules + y.rules], "rules of added sheets")
        ctx.equal(sorted(set(z.filenames())), sorted(set(x.filenames()) | set(y.filenames())), "filenames of added sheets")
    if len(loaded) > 1:
        ctx.count("imports")
        ctx.distinct(texts)
    ctx.sample({"files": {k: v[:80] for k, v in texts.items()}})


def ss_norm_needed(files):
    return False


def dedup(l):
    return list(dict.fromkeys(l))


def ordered(rules):
    for x in rules:
        if isinstance(x, Condition):
            yield from ordered(x.style.rules)
        elif isinstance(x, Rule):
            yield x


PIECES = ["a", ".b", "#c", "*", ">", "+", "~", "||", "|", ",", "[", "]", "=", "~=", "[x=", '"', "'", ":", "::", ":not(", "(", ")", "{", "}", "{}", ";", "@", "@media ", "@import ", "@page", "@charset ", "!important", "!", "url(",
          "rgb(", "rgba(", "rgb(1,2,3)", "#fff", "#ffff", "#12345", "1", "-", "+1e+999", "1e-999", "1e5", "%", "px", "\\", "\\0 ", "\\110000 ", "\\d800 ", "\\\n", "\n", "/*", "*/", "<!--", "-->", "</", " ", "color:", "red", "transparent", "é", "\x00",
          "a{b:c}", "a,{}", ",{b:c}", "{}{}", "@{", "@x;", "@x{", "$", "`", "٣", "\\g", "calc(", "url(\"x", "a{!important}", "a{:}", "a{b:}", "a{b:!important}"]


def case_fuzz(ctx):
    r = ctx.rng
    c = r.random()
    if c < .5:
        text = ''.join(r.choice(PIECES) for _ in range(r.randrange(1, 25)))
    elif c < .8:
        text = common.mutate(r, write_sheet(W(r, True), rand_sheet(r, [0])), r.randrange(1, 6))
        if r.random() < .5:
            i = r.randrange(len(text) + 1)
            text = text[:i] + r.choice(PIECES) + text[i:]
    else:
        text = common.mutate(r, r.choice([t for n, t in common.corpus() if n.endswith("css")] or [""]))
    ctx.note(text=text)
    ss = StyleSheet.from_text(text, allow_import=False)
    style = ss.style
    ss.at.select("page", "font-face")
    repr(ss.rules)
    repr(ss)
    els = make_tree(r)
    for e in real_tree(els).values():
        style.select_element(e).properties()
    ss.filter_conditions("media", lambda rule: True).style.properties()
    for x in style.rules:
        calculate_specificity(x.prelude)
    # comments at the end do not make a difference
    ctx.count("fuzzed")
    ctx.distinct(text)


def case_data(ctx):
    """Bytes in some encoding."""
    r = ctx.rng
    s = ''.join(r.choice(["a", "é", "ü", "x"]) for _ in range(5))
    enc = r.choice(["utf-8", "latin1", "utf-16", "utf-8-sig", "utf-16-le", "iso-8859-15", "cp1252", "utf-32"])
    body = 'a { --s: "%s"; }' % s
    if enc in ("utf-16", "utf-8-sig", "utf-32"):
        data = body.encode(enc)
    elif enc == "utf-16-le":
        data = b"\xff\xfe" + body.encode(enc)
    elif enc == "utf-8" and r.random() < .5:
        data = body.encode(enc)
    else:
        data = ('@charset "%s";\n' % enc + body).encode(enc)
    ctx.note(data=repr(data))
    v = StyleSheet.from_data(data).style.properties()["--s"]
    ctx.check(v[0].text == s, "text in an encoded stylesheet", got=repr(v), expected=s)
    # anything goes
    bad = r.choice([b"", b"\xff", b"\xfe\xff", b"@charset", b'@charset "', b'@charset "nonsense";', b'@charset "hex";', b'@charset "a\x00";', b'@charset "utf-16";', b'@charset "ascii";', b'@charset "rot13";'])
    bad += bytes(r.choice([r.randrange(256), 0x61, 0x7b, 0x7d]) for _ in range(r.randrange(0, 20)))
    ctx.note(data=repr(bad))
    StyleSheet.from_data(bad, allow_import=False).style.properties()
    d = ctx.scratch()
    with open(os.path.join(d, "x.css"), "wb") as f:
        f.write(data)
    ctx.check(StyleSheet.from_file(os.path.join(d, "x.css")).style.properties()["--s"][0].text == s, "file in an encoding")
    ctx.distinct(data, bad)
