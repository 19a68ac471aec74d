"""Shared monitors and workload helpers; uses only documented parce API."""
import os
import random
import re

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")


class StructureError(Exception):
    pass


def flat(tree):
    """A tree as a flat list, checking the parent links on the way.

    Not recursive, so usable for very deep trees.
    """
    out = []
    if tree is None:
        return out
    if tree.parent is not None:
        raise StructureError("root has a parent")
    out.append((0, 'C', tree.lexicon))
    stack = [(tree, iter(tree))]
    while stack:
        ctx, it = stack[-1]
        for n in it:
            if n.parent is not ctx:
                raise StructureError("parent of {!r} is not its container".format(n))
            if n.is_context:
                if not len(n):
                    raise StructureError("empty context in tree")
                out.append((len(stack), 'C', n.lexicon))
                stack.append((n, iter(n)))
                break
            else:
                out.append((len(stack), 'T', n.pos, n.text, n.action, n.group))
        else:
            stack.pop()
    return out


def check_tokens(ctx, tree, text):
    """Monitor for the basic guarantees of the tokens of a tree built from text."""
    prev = 0
    n = 0
    for t in tree.tokens():
        n += 1
        if t.pos < prev:
            ctx.fail("tokens overlap or are out of order", token=repr(t), prev_end=prev)
        if not t.text:
            ctx.fail("empty token", token=repr(t))
        if text[t.pos:t.pos + len(t.text)] != t.text:
            ctx.fail("token text is not the text at its position", token=repr(t), text_there=text[t.pos:t.pos + len(t.text)])
        if t.end != t.pos + len(t.text):
            ctx.fail("token end wrong", token=repr(t))
        prev = t.end
    ctx.count("tokens_seen", n)
    return n


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "at {}: {!r} != {!r}".format(i, x, y)
    return "lengths {} != {}; {!r}".format(len(a), len(b), (a[len(b):] or b[len(a):])[:3])


# --------------------------------------------------------------- languages

_langs = None


def languages():
    """All bundled root lexicons, sorted by name: list of (qualname, lexicon)."""
    global _langs
    if _langs is None:
        from parce.registry import registry
        _langs = [(q, registry.lexicon(q)) for q in sorted(registry)]
    return _langs


_corpus = None


def corpus():
    """List of (filename, text)."""
    global _corpus
    if _corpus is None:
        _corpus = []
        for n in sorted(os.listdir(CORPUS)):
            with open(os.path.join(CORPUS, n), encoding="utf-8", newline="") as f:
                _corpus.append((n, f.read()))
    return _corpus


EXT = {  # language class name -> corpus extensions
    'Bash': ['bash'], 'C': ['c'], 'Cpp': ['c'], 'Css': ['css'], 'Csv': ['csv'], 'DocBook': ['docbook'], 'Dtd': ['dtd'],
    'Html': ['html'], 'XHtml': ['html'], 'Ini': ['ini'], 'JavaScript': ['js'], 'Json': ['json'], 'LilyPond': ['ly'],
    'Python': ['py'], 'PythonConsole': ['py'], 'Scheme': ['scm'], 'Tcl': ['tcl'], 'Tex': ['tex'], 'Latex': ['tex'],
    'Texinfo': ['texinfo'], 'Toml': ['toml'], 'Xml': ['xml'], 'Xslt': ['xsl'], 'XSLT': ['xsl'], 'Troff': ['1'],
}

SNIPPETS = ["{", "}", "(", ")", "[", "]", "<", ">", "</", "/>", "<!--", "-->", "/*", "*/", "//", "#", "%", "%{", "%}",
            '"', "'", '"""', "'''", "\\", "\\\\", "\\\"", "$", "$(", "${", "`", "<<EOF\n", "EOF\n", "\n", "\r\n", "\t", " ",
            "  \n", ":", ";", ",", "=", "==", "!", "&", "&amp;", "@", "@media ", "!important", "0", "1", "12.5e-3", "0x1F",
            "-1", "true", "null", "def f(x):\n", "class A:\n", "if ", "for i in range(3):\n", "\\relative { c' }", "#(",
            "#'", "#{", "#}", "'(a . b)", "<script>", "</script>", "<style>", "</style>", "<?xml ", "?>", "<![CDATA[", "]]>",
            "\\begin{x}", "\\end{x}", "@node ", "@end ", ".TH ", "[section]\n", "key=value\n", "f'{a!r:>{w}}'", "b'x'",
            "é", "\U0001d11e", "\u2028", "\x00", "\ufeff", "ß", "İ", "a", "foo", "bar_1", "Σ", "\x0c", "\xa0"]


def mutate(rng, text, n=None):
    """Mutate text with a number of random edits."""
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n):
        i = rng.randrange(len(text) + 1)
        j = min(len(text), i + rng.choice([0, 0, 1, 1, 2, 5, 20]))
        r = rng.random()
        if r < .45:
            ins = rng.choice(SNIPPETS)
        elif r < .6:
            k = rng.randrange(len(text) + 1)
            ins = text[k:k + rng.choice([1, 3, 10, 40])]
        elif r < .7:
            ins = rng.choice(SNIPPETS) * rng.randrange(1, 6)
        elif r < .8:
            ins = ''.join(rng.choice(SNIPPETS) for _ in range(rng.randrange(1, 8)))
        else:
            ins = ''
        text = text[:i] + ins + text[j:]
    return text


def text_for(rng, lexicon, maxlen=2500):
    """A realistic or hostile text for a bundled language."""
    name = lexicon.language.__name__
    exts = EXT.get(name, [])
    own = [t for n, t in corpus() if n.rsplit('.')[-1] in exts]
    r = rng.random()
    if own and r < .6:
        base = rng.choice(own)
    elif r < .8:
        base = rng.choice(corpus())[1]
    elif r < .9:
        base = ''.join(rng.choice(SNIPPETS) for _ in range(rng.randrange(0, 40)))
    else:
        base = ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x20), rng.randrange(0x80, 0x250), 10]))
                       for _ in range(rng.randrange(0, 60)))
    if rng.random() < .3:
        i = rng.randrange(len(base) + 1)
        base = base[i:i + rng.randrange(1, 400)]
    if rng.random() < .15:
        base = base + rng.choice(corpus())[1]
    return mutate(rng, base)[:maxlen]


def parsed(ctx, maxlen=1200, generated=.5, minlen=0):
    """A (lexicon, text, tree) from a bundled or a generated language; or None to discard."""
    import parce
    import langspec
    rng = ctx.rng
    if rng.random() < generated:
        g = langspec.Gen(rng, nested_groups=False)
        spec = g.spec()
        lang = langspec.build_language(spec)
        text = g.text()
        if rng.random() < .3:
            text += g.text()
        ctx.note(spec=spec, text=text)
        try:
            langspec.RefLexer(spec).events(text, ('root', None))
        except langspec.Discard:
            ctx.count("discarded")
            return None
        lexicon = lang.root
    else:
        q, lexicon = rng.choice(languages())
        text = text_for(rng, lexicon, maxlen)
        ctx.note(language=q, text=text)
    return lexicon, text, parce.root(lexicon, text)


class Model:
    """A plain picture of a tree, made by walking the child lists only."""

    def __init__(self, tree):
        self.tree = tree
        self.nodes = []         # all nodes in document order (root first)
        self.up = {}            # id -> list of ancestors, nearest first
        self.index = {}         # id -> index in parent
        stack = [(tree, [], None)]
        while stack:
            n, anc, i = stack.pop()
            self.nodes.append(n)
            self.up[id(n)] = anc
            self.index[id(n)] = i
            if n.is_context:
                below = [n] + anc
                stack.extend((m, below, k) for k, m in reversed(list(enumerate(n))))
        self.tokens = [n for n in self.nodes if n.is_token]
        self.order = {id(t): k for k, t in enumerate(self.tokens)}

    def under(self, ctx):
        """Tokens under (or equal to) the node."""
        return [t for t in self.tokens if t is ctx or any(p is ctx for p in self.up[id(t)])]

    def descendants(self, ctx):
        return [n for n in self.nodes if any(p is ctx for p in self.up[id(n)])]


def same(a, b):
    """True if two sequences have the same objects."""
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))
