"""P20: the transforms of the bundled data languages."""
import cmath
import re
import fractions
import json
import math

import parce
from parce.lang.csv import Csv
from parce.lang.ini import Ini
from parce.lang.json import Json
from parce.lang import numbers
from parce.lang.scheme import Scheme, scheme_number, scheme_number_from_text
from parce.transform import transform_text

PROPERTY = "P20"
RULE = ("json/csv/ini: random values written in many layouts and escape styles, the transform must give the value back; "
        "words: numbers below a thousand million in four languages, written by an independent writer in varying spelling, case and spacing, alone and in lists; "
        "scheme: numbers in all notations with the value computed beside the text, alone and inside programs; faulty: random number-like texts only raise the documented errors.  "
        "Non-trivial: the value is not empty; distinct by text.")
PLAN = {"quick": {"json": 20000, "csv": 15000, "ini": 15000, "words": 20000, "scheme": 30000, "faulty": 20000, "broken": 20000},
        "thorough": {"json": 300000, "csv": 300000, "ini": 300000, "words": 400000, "scheme": 500000, "faulty": 400000, "broken": 400000}}
REQUIRED = {"json_values": 3000, "json_escapes": 500, "csv_fields": 3000, "ini_values": 3000, "ini_escapes": 500, "numbers_read": 5000, "scheme_numbers": 3000, "faulty": 2000}
ASSUMPTIONS = ["newlines are \\n", "INI: special characters in keys and values are written as escapes, keys and values are not empty, sections have different names",
               "CSV: a record is not one empty field", "exponents below 400"]

CHARS = list("abcXYZ019 _-.!?{}[]()<>'\"\\/,;:#=|&~^$@*+%") + list("éß€中😀\u2028\t") + ["\x01", "\x7f", "\xa0"]
CTRL = "\b\f\n\r\t"


def text_of(r, extra="", maxlen=8, minlen=0):
    pool = CHARS + list(extra)
    return "".join(r.choice(pool) for _ in range(r.randint(minlen, maxlen)))


# ---------------------------------------------------------------- JSON
def json_value(r, depth):
    k = r.randrange(9)
    if k < 2 and depth:
        return [json_value(r, depth - 1) for _ in range(r.randrange(5))]
    if k < 4 and depth:
        return {text_of(r, CTRL, 5): json_value(r, depth - 1) for _ in range(r.randrange(5))}
    return r.choice([
        lambda: None, lambda: True, lambda: False, lambda: 0, lambda: r.randint(-1000, 1000),
        lambda: r.randint(-10 ** 30, 10 ** 30), lambda: r.choice([1, -1]) * 2 ** r.randrange(50, 80) + 1,
        lambda: r.uniform(-10, 10), lambda: r.uniform(-1, 1) * 10 ** r.randint(-200, 200),
        lambda: text_of(r, CTRL), lambda: text_of(r, CTRL, 20), lambda: "", lambda: "true", lambda: "12"])()


def json_str(ctx, r, s):
    out = []
    style = r.randrange(3)
    esc = {'"': '"', "\\": "\\", "\b": "b", "\f": "f", "\n": "n", "\r": "r", "\t": "t", "/": "/"}
    for c in s:
        def u():
            b = c.encode("utf-16-be")
            h = ["{:04x}".format(b[i] << 8 | b[i + 1]) for i in range(0, len(b), 2)]
            return "".join("\\u" + (x.upper() if r.random() < .5 else x) for x in h)
        if c in esc and (c != "/" or r.random() < .5):
            out.append("\\" + esc[c] if r.random() < .7 else u())
            ctx.count("json_escapes")
        elif ord(c) < 32 or style == 1 and ord(c) > 127 or style == 2 and r.random() < .4:
            out.append(u())
            ctx.count("json_escapes")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def json_num(r, v):
    if isinstance(v, int):
        if r.random() < .2 and abs(v) < 1000:
            return r.choice(["{}.0", "{}e0", "{}E+0", "{}.00e-0"]).format(v)
        return str(v)
    s = repr(v)
    if r.random() < .3:
        s = s.upper()
    if r.random() < .2:
        s = "{:.17e}".format(v)
    return s


def json_text(ctx, r, v, w):
    if isinstance(v, str):
        return json_str(ctx, r, v)
    ctx.count("json_values")
    if v is None or v is True or v is False:
        return {None: "null", True: "true", False: "false"}[v]
    if isinstance(v, (int, float)):
        return json_num(r, v)
    if isinstance(v, list):
        return "[" + w() + ("," + w()).join(json_text(ctx, r, x, w) + w() for x in v) + "]"
    return "{" + w() + ("," + w()).join(json_str(ctx, r, k) + w() + ":" + w() + json_text(ctx, r, x, w) + w() for k, x in v.items()) + "}"


def norm(v):
    """make differences in type visible, but not 1 and 1.0"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, (int, float)):
        return ("num", v)
    if isinstance(v, list):
        return ("list", [norm(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, norm(x)) for k, x in v.items()])
    return ("other", repr(v))


def case_json(ctx):
    r = ctx.rng
    v = json_value(r, 4)
    ws = r.choice([[""], ["", " "], ["", " ", "\n", "\t", "\r\n", "  "]])
    w = lambda: r.choice(ws)
    text = w() + json_text(ctx, r, v, w) + w()
    want = json.loads(text)         # cross-check of the writer
    if norm(want) != norm(v):
        raise AssertionError("writer and json.loads disagree: {!r} {!r}".format(text, v))
    got = transform_text(r.choice([Json.root, parce.find("json")]), text)
    ctx.equal(norm(got), norm(v), "JSON text transformed to another value", text=text)
    if v not in (None, "", 0, [], {}):
        ctx.distinct(text)


# ---------------------------------------------------------------- CSV
def case_csv(ctx):
    r = ctx.rng
    recs = []
    lines = []
    for _ in range(r.randrange(6)):
        rec, fields = [], []
        for _ in range(r.randint(1, 5)):
            k = r.randrange(8)
            v = None if k == 0 else "" if k == 1 else text_of(r, '\n"",,', 8, 1)
            if v is None:
                f = ""
            elif not v or any(c in ',"\n' for c in v) or r.random() < .3:
                f = '"' + v.replace('"', '""') + '"'
                if r.random() < .1:
                    f = r.choice([" ", "\t", "  "]) + f
                if r.random() < .1:
                    f += r.choice([" ", "\t"])
            else:
                f = v
            rec.append(v)
            fields.append(f)
        if rec == [None]:
            continue
        recs.append(tuple(rec))
        lines.append(",".join(fields))
        ctx.count("csv_fields", len(rec))
    text = "\n".join(lines)
    if lines and r.random() < .6:
        text += "\n"
    got = transform_text(r.choice([Csv.root, parce.find("csv")]), text)
    ctx.equal(got, recs, "CSV text transformed to other records", text=text)
    if recs:
        ctx.distinct(text)


# ---------------------------------------------------------------- INI
INI_ESC = {"\\": "\\", "'": "'", '"': '"', "\0": "0", "\a": "a", "\b": "b", "\t": "t", "\r": "r", "\n": "n", ";": ";", "#": "#", "=": "=", ":": ":"}


def ini_text(ctx, r, s):
    out = []
    for i, c in enumerate(s):
        hexa = "\\" + r.choice("xX") + r.choice(["{:04x}", "{:04X}"]).format(ord(c)) if ord(c) < 65536 else None
        must = c in "\\\n;=#:[" or c in " \t" and i in (0, len(s) - 1)
        if c in INI_ESC and (must or r.random() < .3):
            out.append("\\" + INI_ESC[c] if r.random() < .75 else hexa)
            ctx.count("ini_escapes")
        elif must or hexa and r.random() < .05:
            out.append(hexa)
            ctx.count("ini_escapes")
        else:
            out.append(c)
    return "".join(out)


def case_ini(ctx):
    r = ctx.rng
    blank = lambda: r.choice(["", "", " ", "\t", "  "])
    comment = lambda: r.choice(["", "", "", r.choice(";#") + text_of(r, "", 6).replace("\\", "")])
    want = {}
    lines = []
    secs = [None] + r.sample(["s", "sec two", "ü", "a=b", "x;y", "#", "C:\\dir", "\\x", "a.b", "\\", "0"], r.randrange(4))
    for sec in secs:
        d = {}
        if sec is not None:
            lines.append(blank() + "[" + blank() + sec + blank() + "]" + blank() + comment())
        for _ in range(r.randrange(4)):
            if r.random() < .2:
                lines.append(blank() + comment())
            key = text_of(r, "\n\r\0\a\b=:;#", 6, 1)
            if key in d:
                continue
            val = None if r.random() < .1 else text_of(r, "\n\r\0\a\b=:;#", 10, 1)
            d[key] = val
            if val is None:
                lines.append(blank() + ini_text(ctx, r, key) + blank() + "=" + comment())
            else:
                lines.append(blank() + ini_text(ctx, r, key) + blank() + "=" + blank() + ini_text(ctx, r, val) + blank() + comment())
            ctx.count("ini_values")
        if sec is not None or d:
            want[sec] = d
    text = "\n".join(lines) + r.choice(["", "\n", "\n\n"])
    got = transform_text(r.choice([Ini.root, parce.find("ini")]), text)
    ctx.equal(got, want, "INI text transformed to other data", text=text)
    if want:
        ctx.distinct(text)


# ---------------------------------------------------------------- number words
EN = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
EN10 = "twenty thirty forty fifty sixty seventy eighty ninety".split()
NL = "nul een twee drie vier vijf zes zeven acht negen tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien".split()
NL10 = "twintig dertig veertig vijftig zestig zeventig tachtig negentig".split()
DE = "null ein zwei drei vier fünf sechs sieben acht neun zehn elf zwölf dreizehn vierzehn fünfzehn sechzehn siebzehn achtzehn neunzehn".split()
DE10 = "zwanzig dreißig vierzig fünfzig sechzig siebzig achtzig neunzig".split()
FR = "zéro un deux trois quatre cinq six sept huit neuf dix onze douze treize quatorze quinze seize dix-sept dix-huit dix-neuf".split()
FR10 = {2: "vingt", 3: "trente", 4: "quarante", 5: "cinquante", 6: "soixante", 8: "quatre-vingt"}


def below100(r, lang, n, last):
    """words for n < 100; separators are written as a space by the caller"""
    if lang == "en":
        return [EN[n]] if n < 20 else [EN10[n // 10 - 2]] + ([EN[n % 10]] if n % 10 else [])
    if lang in ("nl", "de"):
        to19, tens, und = (NL, NL10, ["en", "ën"]) if lang == "nl" else (DE, DE10, ["und"])
        if n < 20:
            if lang == "de" and n == 1 and last and r.random() < .5:
                return ["eins"]
            return [to19[n]]
        t = tens[n // 10 - 2]
        if t == "dreißig" and r.random() < .5:
            t = "dreissig"
        if n % 10:
            sp = r.choice(["", " "])
            return [to19[n % 10] + sp + r.choice(und) + sp + t]
        return [t]
    if n < 20:
        return [r.choice(["zero", "zéro"]) if n == 0 else FR[n]]
    t = n // 10
    if t in (7, 9):
        t -= 1
    rest = n - t * 10
    if n == 80:
        return [r.choice(["quatre-vingt", "quatre-vingts"])]
    if not rest:
        return [FR10[t]]
    if rest in (1, 11) and t != 8:
        return [FR10[t], "et", FR[rest]]
    return [FR10[t], FR[rest]]


def below1000(r, lang, n, last):
    words = []
    h, rest = divmod(n, 100)
    if h:
        if h > 1 or lang == "en" or lang != "fr" and r.random() < .5:
            words += below100(r, lang, h, False)
        words.append({"en": "hundred", "nl": "honderd", "de": "hundert", "fr": "cents" if h > 1 and r.random() < .5 else "cent"}[lang])
    if rest:
        words += below100(r, lang, rest, last)
    return words


def number_words(r, lang, n):
    if not n:
        return below100(r, lang, 0, True)
    m, rest = divmod(n, 1000000)
    words = []
    if m:
        words += below1000(r, lang, m, False)
        words.append({"en": "million", "nl": "miljoen", "de": "million" if m == 1 else "millionen", "fr": "million" if m == 1 else r.choice(["millions", "million"])}[lang])
    th = rest // 1000
    if not m and lang != "fr" and 11 <= rest // 100 <= 99 and rest // 100 % 10 and r.random() < .5:
        words += below100(r, lang, rest // 100, False)
        words.append({"en": "hundred", "nl": "honderd", "de": "hundert"}[lang])
        rest %= 100
        if rest:
            words += below100(r, lang, rest, True)
        return words
    rest %= 1000
    if th:
        if th > 1 or lang == "en" or lang != "fr" and r.random() < .5:
            words += below1000(r, lang, th, False)
        words.append({"en": "thousand", "nl": "duizend", "de": "tausend", "fr": "mille"}[lang])
    if rest:
        words += below1000(r, lang, rest, True)
    return words


LANGS = {"en": numbers.English, "nl": numbers.Nederlands, "de": numbers.Deutsch, "fr": numbers.Français}


def case_words(ctx):
    r = ctx.rng
    lang = r.choice("en nl de fr".split())
    if ctx.index < 1000:
        ns = [ctx.index, ctx.index * 1000 % 1000000 + ctx.index]
    else:
        ns = [r.choice([lambda: r.randrange(100), lambda: r.randrange(1000), lambda: r.randrange(10000), lambda: r.randrange(1000000), lambda: r.randrange(10 ** 9),
                        lambda: r.randrange(1000) * 1000000, lambda: r.randrange(1000) * 1000])() for _ in range(r.randint(1, 4))]
    langs = list(LANGS) if ctx.index < 1000 else [lang]
    for lang in langs:
        seps = [" ", "-", "  ", "\n"] if lang == "fr" else [" ", "-", "", "", "\n"]
        if r.random() < .4:
            seps = [r.choice(seps)]
        parts = []
        for n in ns:
            ws = number_words(r, lang, n)
            s = ws[0]
            for a in ws[1:]:
                s += r.choice(seps) + a
            k = r.randrange(4)
            s = s if k == 0 else s.title() if k == 1 else s.upper() if k == 2 else "".join(r.choice([c, c.upper() if len(c.upper()) == 1 else c]) for c in s)
            if lang == "de" and "dreißig" not in s.lower():
                pass
            parts.append(s)
        text = r.choice([", ", ",", " ; ", "."]).join(parts)
        got = transform_text(LANGS[lang].root, text)
        ctx.equal(got, ns, "number words read as other numbers", lang=lang, text=text)
        ctx.count("numbers_read", len(ns))
        ctx.distinct((lang, text))


# ---------------------------------------------------------------- Scheme numbers
def digits(r, radix, maxlen=6):
    if r.random() < .05:
        maxlen = 25
    return "".join(r.choice("0123456789abcdef"[:radix]) for _ in range(r.randint(1, maxlen)))


def ureal(r, radix, exact):
    """text and value of an unsigned real; value float when inexact"""
    def uint(hashes):
        d = digits(r, radix)
        h = "#" * r.randint(1, 3) if hashes and r.random() < .15 else ""
        return d + h, int(d, radix) * radix ** len(h), bool(h)
    k = r.randrange(6)
    if k == 0:
        at, av, ah = uint(True)
        bt, bv, bh = uint(True)
        if not bv:
            bt, bv, bh = "3", 3, False
            if radix < 4:
                bt = "11"
        t = at + "/" + bt
        if exact is False or exact is None and (ah or bh):
            return t, av / bv
        return t, fractions.Fraction(av, bv)
    if radix == 10 and k < 4:
        a, b = digits(r, 10), digits(r, 10)
        h = "#" * r.randint(1, 2) if r.random() < .1 else ""
        forms = [a + "." + b, "." + b, a + ".", a + h + ".", a, a + h, a + "." + b + h]
        t = r.choice(forms)
        e = ""
        plain = t.replace("#", "0")
        if r.random() < .4:
            e = r.choice(["", "", "+", "-"]) + str(r.randrange(60))
            t += r.choice("esfdlESFDL") + e
        frac = fractions.Fraction(plain if not plain.endswith(".") else plain + "0") * fractions.Fraction(10) ** int(e or 0)
        if exact:
            return t, frac
        if "." in t or e:
            return t, float((plain if not plain.endswith(".") else plain + "0") + ("e" + e if e else ""))
        return t, Inexact(plain) if "#" in t else int(plain)
    t, v, h = uint(True)
    return t, Inexact(v) if h and not exact else v


def real(r, radix, exact, sign_required=False):
    if r.random() < .06:
        return r.choice([("+inf.0", math.inf), ("-inf.0", -math.inf), ("+nan.0", math.nan)])
    t, v = ureal(r, radix, exact)
    s = r.choice(["+", "-"] if sign_required else ["", "", "", "+", "-"])
    return s + t, type(v)(-v) if s == "-" else v


def scheme_num(r):
    radix = r.choice([10, 10, 10, 10, 2, 8, 16])
    exact = r.choice([None, None, None, True, False])
    p = r.choice({10: ["", "", "#d", "#D"], 2: ["#b", "#B"], 8: ["#o", "#O"], 16: ["#x", "#X"]}[radix])
    e = {None: "", True: r.choice(["#e", "#E"]), False: r.choice(["#i", "#I"])}[exact]
    prefix = r.choice([p + e, e + p])
    k = r.randrange(8)
    if k == 0:
        a, b = real(r, radix, exact), real(r, radix, exact)
        if not abs(b[1]) < 1000:
            b = ("1", 1)
        t, v = a[0] + "@" + b[0], Polar(cmath.rect(float(a[1]), float(b[1])))
    elif k == 1:
        if r.random() < .2:
            im = r.choice([("+", 1), ("-", -1)])
        else:
            im = real(r, radix, exact, True)
        re = real(r, radix, exact) if r.random() < .7 else ("", 0)
        t, v = re[0] + im[0] + "i", complex(re[1], im[1])
    else:
        t, v = real(r, radix, exact)
        if exact is False:
            v = Inexact(v)
    if radix == 16 and r.random() < .4 and "inf" not in t and "nan" not in t:
        t = t.upper()
    return prefix + t, v


class Inexact(float):
    """value of a number with the prefix #i"""


class Polar(complex):
    """value of a number written with @: rounding of a large angle shows in both parts"""


def same(a, b):
    if isinstance(b, Polar) and isinstance(a, complex) and cmath.isfinite(a) and cmath.isfinite(b):
        return abs(a - b) <= 1e-9 * abs(b)
    if isinstance(b, Inexact):
        a, b = float(a), float(b)
    if isinstance(a, complex) or isinstance(b, complex):
        return isinstance(a, complex) == isinstance(b, complex) and same(a.real, b.real) and same(a.imag, b.imag)
    if a != a or b != b:
        return a != a and b != b
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isclose(a, b, rel_tol=1e-13)
    return a == b


def case_scheme(ctx):
    r = ctx.rng
    if r.random() < .7:
        t, v = scheme_num(r)
        got = scheme_number_from_text(t)
        if not same(got, v):
            ctx.fail("Scheme number has another value", text=t, got=repr(got), expected=repr(v))
        ctx.check(isinstance(v, float) or not isinstance(got, float) or v != int(v) if not isinstance(v, complex) and v == v and abs(v) != math.inf and "#" not in t else True,
                  "exact Scheme number became inexact", text=t, got_value=repr(got))
        ctx.count("scheme_numbers")
        ctx.distinct(t)
        return
    nums = [scheme_num(r) for _ in range(r.randint(1, 6))]
    text = "(list"
    for t, v in nums:
        text += r.choice([" ", "\n", " ; com 12\n", ' "3 4" ', " foo ", " #t ", " 'a "]) + t
    text += ")"
    got = []
    tree = parce.root(Scheme.root, text)
    stack = [tree]
    while stack:
        for n in stack.pop():
            if n.is_context:
                if n.lexicon.name == "number":
                    got.append(scheme_number(n))
                else:
                    stack.append(n)
    ctx.check(len(got) == len(nums) and all(same(a, v) for a, (t, v) in zip(got, nums)), "Scheme numbers in a program have other values", text=text, got=repr(got), expected=repr([v for t, v in nums]))
    ctx.count("scheme_numbers", len(nums))
    ctx.distinct(text)


def case_faulty(ctx):
    r = ctx.rng
    t = "".join(r.choice("0123456789abfisdle.+-/@#xobi# ()") for _ in range(r.randint(1, 9)))
    if r.random() < .3:
        t, _ = scheme_num(r)
        p = r.randrange(len(t))
        t = t[:p] + r.choice(["", "i", "/", "@", "#", "-", "."]) + t[p + r.randrange(2):]
    if re.search(r"[esdlf][+-]?\d{5}", t, re.I):
        return      # an exact number with such an exponent takes all memory there is
    try:
        v = scheme_number_from_text(t)
        ctx.check(isinstance(v, (int, float, complex, fractions.Fraction)), "not a number", text=t, got_value=repr(v))
    except (ValueError, ZeroDivisionError):
        pass
    ctx.count("faulty")
    ctx.distinct(t)


def case_broken(ctx):
    """damaged data must never make a transform fail"""
    r = ctx.rng
    pool = {"json": ['{', '}', '[', ']', '"', ':', ',', '1', '-', '.', 'e', 'true', 'null', '\\', '\\u12', '\\n', 'x', ' ', '\n'],
            "csv": ['"', '""', ',', 'a', ' ', '\n', 'b c', '\t', '\r'],
            "ini": ['[', ']', '=', ':', 'a', 'b', ' ', '\n', '\\', '\\x', '\\x0041', '\\n', ';', '#', '\\\n'],
            "nederlands": None}
    lang = r.choice(["json", "csv", "ini", "words"])
    if lang == "words":
        cls = r.choice(list(LANGS.values()))
        parts = EN + NL + DE + FR + EN10 + NL10 + DE10 + ["hundred", "honderd", "cent", "cents", "mille", "million", "en", "und", "et", "s", " ", "-", ",", "x", "duizend", "tausend"]
        text = "".join(r.choice(parts) + r.choice(["", " ", "-"]) for _ in range(r.randint(1, 10)))
        got = transform_text(cls.root, text)
        ctx.check(isinstance(got, list) and all(isinstance(x, int) for x in got), "not a list of numbers", text=text, got_value=repr(got))
    else:
        text = "".join(r.choice(pool[lang]) for _ in range(r.randint(1, 14)))
        got = transform_text({"json": Json.root, "csv": Csv.root, "ini": Ini.root}[lang], text)
        if lang == "csv":
            ctx.check(isinstance(got, list) and all(isinstance(x, tuple) for x in got), "not a list of records", text=text, got_value=repr(got))
        elif lang == "ini":
            ctx.check(isinstance(got, dict) and all(isinstance(x, dict) for x in got.values()), "not a dict of sections", text=text, got_value=repr(got))
    ctx.count("broken")
    ctx.distinct(text)
