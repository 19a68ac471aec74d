"""Random themes, trees and formatters for the formatter and HTML checks."""
import parce
from parce.theme import Theme
import common
import langspec

ACTIONS = ["comment", "name", "name.tag", "literal", "literal.string", "string", "literal.number", "number", "delimiter", "delimiter.bracket", "bracket", "keyword", "operator", "text", "escape", "definition",
           "name.symbol", "template", "invalid", "variable", "builtin", "function", "markup", "attribute", "property"]
DECLS = ["color: red", "color: #123", "color: #01020380", "background-color: blue", "background: #eee", "font-weight: bold", "font-weight: 300", "font-style: italic", "font-style: oblique 10deg", "font-family: 'A \"B\" C', serif",
         "font-family: monospace", "font: bold 12px/14px 'X&Y', serif", "text-decoration: underline dotted green", "text-decoration-line: none", "font-size: 12pt", "font-size: large", "font-stretch: 75%", "font-stretch: condensed",
         "font-kerning: none", "font-variant-caps: small-caps", "font-variant-position: sub", "caret-color: black", "unknown: x", "color: rgb(1,2,3) !important", "font-family: \"<b>&amp;\""]
ROLES = ["current-line", "eol", "myrole"]


def stylesheet(r, unparsed=None):
    out = []
    if r.random() < .8:
        out.append(".parce { %s }" % "; ".join(r.sample(DECLS, r.choice([0, 1, 2, 3]))))
    for _ in range(r.randrange(0, 10)):
        sel = ".parce ." + r.choice(ACTIONS)
        if r.random() < .2:
            sel += ", ." + r.choice(ACTIONS)
        out.append("%s { %s }" % (sel, "; ".join(r.sample(DECLS, r.choice([1, 1, 2, 3])))))
    if r.random() < .2 if unparsed is None else unparsed:
        out.append(".parce ._unparsed { %s }" % r.choice(["color: gray", "background: #ddd", "font-style: italic"]))
    if r.random() < .3:
        out.append(".parce::selection { background: #00f }")
    if r.random() < .3:
        out.append(".parce.%s { background: #0ff }" % r.choice(ROLES))
    if r.random() < .2:
        out.append(".parce:focus { color: yellow }")
    r.shuffle(out)
    return "\n".join(out)


def theme(r, unparsed=None):
    if r.random() < .15:
        return parce.theme_by_name(r.choice(["default", "dark"]))
    return Theme(stylesheet=stylesheet(r, unparsed))


def language_and_text(ctx, maxlen=1200):
    """(lexicon, text), or None"""
    r = ctx.rng
    c = r.random()
    if c < .3:
        g = langspec.Gen(r, unique_actions=True, nested_groups=False)
        spec = g.spec()
        lang = langspec.build_language(spec)
        ctx.note(spec=spec)
        text = g.text(r.choice([0, 5, 20, 60, 120]))
        try:
            langspec.RefLexer(spec).events(text, ('root', None))
        except langspec.Discard:
            ctx.count("discarded")
            return
        return lang.root, text
    langs = common.languages()
    if c < .65:
        # mixed languages
        langs = [x for x in langs if x[1].language.__name__ in ("Html", "LilyPond", "XHtml", "PythonConsole", "Latex", "Texinfo", "Tex")] or langs
        q, lexicon = r.choice(langs)
        text = r.choice(MIXED)
        text = common.mutate(r, text)
    else:
        q, lexicon = r.choice(langs)
        text = common.text_for(r, lexicon, maxlen)
    ctx.note(language=q)
    return lexicon, text


MIXED = ["""<html><head><style>h1 { color: "red"; } /* c */ @media x { a{b:c} } p{}</style>
<script>var x = 'a<b'; // comment
function f() { return {a: 1}; }</script></head><body style="color: red; x:y">text &amp; <b>bold</b> <!-- c --></body></html>
""",
         """\\version "2.20"\n#(define (f x) "s" '(a . b))\nmusic = { c'4 d-#'(x) $x \\markup { a #(g "z") b } <c e>8 } % comment
\\lyrics { a -- b }
""",
         """>>> def f(x):\n...     return "a"\n>>> f(1)\n'a'\n""",
         """a { b: c } <style>x{}</style><script></script>\n\n\n<p style='a:b'>x</p>"""]
