"""P01: every token is a faithful piece of the text, for any language and any text."""
import parce
from parce.standardaction import StandardAction
import common
import langspec

PROPERTY = "P01"
RULE = ("bundled: a bundled language lexes a corpus text, a mutated one, or hostile text (mixed snippets, control and "
        "non-BMP characters); generated: a random language definition lexes random text.  Monitors check every event and every "
        "token.  Non-trivial: at least 3 tokens were seen; distinct by (language, text).")
PLAN = {"quick": {"bundled": 6000, "lexicons": 4000, "generated": 3000}, "thorough": {"bundled": 90000, "lexicons": 60000, "generated": 60000}}
REQUIRED = {"other_roots": 500, "tokens_seen": 100, "events_seen": 100}


def monitor_events(ctx, lexicon, text):
    """Watch the event stream online."""
    prev = 0
    depth = 1
    lexemes = []
    for e in parce.events(lexicon, text):
        ctx.count("events_seen")
        if e.target is not None:
            pop = -e.target.pop
            ctx.check(0 <= pop < depth, "target pops the root context", pop=pop, depth=depth)
            ctx.check(pop or e.target.push, "target that does nothing")
            depth += len(e.target.push) - pop
        ctx.check(len(e.lexemes), "event without lexemes")
        for pos, txt, action in e.lexemes:
            if pos < prev:
                ctx.fail("lexemes overlap or out of order", pos=pos, prev=prev)
            if not txt or text[pos:pos + len(txt)] != txt:
                ctx.fail("lexeme is not the text at its position", lexeme=(pos, txt))
            prev = pos + len(txt)
            lexemes.append((pos, txt, action))
    ctx.check(prev <= len(text), "lexeme past the end of the text")
    return lexemes


def observe(ctx, lexicon, text):
    lexemes = monitor_events(ctx, lexicon, text)
    tree = parce.root(lexicon, text)
    n = common.check_tokens(ctx, tree, text)
    toks = [(t.pos, t.text, t.action) for t in tree.tokens()]
    ctx.check(toks == lexemes, "tokens of the tree differ from the lexed events", diff=common.first_diff(toks, lexemes) if toks != lexemes else '')
    ctx.check(tree.lexicon is lexicon, "root context has another lexicon")
    a = common.flat(tree)
    b = common.flat(parce.root(lexicon, text))
    ctx.check(a == b, "parsing the same text twice gives different trees", diff=common.first_diff(a, b) if a != b else '')
    return n, toks


def case_bundled(ctx):
    q, lexicon = ctx.rng.choice(common.languages())
    text = common.text_for(ctx.rng, lexicon)
    ctx.note(language=q, text=text)
    n, toks = observe(ctx, lexicon, text)
    for pos, txt, action in toks:
        if not isinstance(action, StandardAction):
            ctx.fail("token of a bundled language has no standard action", token=(pos, txt, repr(action)))
    if n >= 3:
        ctx.distinct(q, text)
    ctx.count("lang " + lexicon.language.__name__)
    ctx.sample({"language": q, "text": text[:200], "tokens": n})


_all = []


def all_lexicons():
    """every lexicon of every bundled language: each may be used as root"""
    if not _all:
        from parce import introspect
        langs = {}
        for q, l in common.languages():
            langs[l.language.__module__ + l.language.__name__] = l.language
        for k in sorted(langs):
            _all.extend(introspect.lexicons(langs[k]))
    return _all


def case_lexicons(ctx):
    lexs = all_lexicons()
    lexicon = lexs[ctx.index % len(lexs)] if ctx.index < 2000 else ctx.rng.choice(lexs)
    if ctx.rng.random() < .15:
        text = "".join(ctx.rng.choice("ab1 \n\\\"'<>=:;,.(){}[]#%$@-+*/é") for _ in range(ctx.rng.randrange(30)))
    else:
        text = common.text_for(ctx.rng, lexicon, 800)
        if ctx.rng.random() < .5:
            p = ctx.rng.randrange(len(text) + 1)
            text = text[p:p + ctx.rng.randrange(200)]
    ctx.note(lexicon=repr(lexicon), text=text)
    n, toks = observe(ctx, lexicon, text)
    if n >= 3:
        ctx.count("other_roots")
        ctx.distinct(repr(lexicon), text)


def case_generated(ctx):
    g = langspec.Gen(ctx.rng, nested_groups=False)
    spec = g.spec()
    lang = langspec.build_language(spec)
    text = g.text()
    ctx.note(spec=spec, text=text)
    try:
        langspec.RefLexer(spec).events(text, ('root', None))
    except langspec.Discard:
        ctx.count("discarded")
        return
    n, toks = observe(ctx, lang.root, text)
    if n >= 3:
        ctx.distinct(spec, text)
    ctx.sample({"spec": spec, "text": text, "tokens": n})
