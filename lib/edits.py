"""Edits and edit histories."""
import common


def rand_edit(rng, text, add, lines=False):
    """(start, removed, added text); add() gives a text to insert."""
    n = len(text)
    r = rng.random()
    if r < .15:
        s = n                           # at the end, as while typing
    elif r < .25:
        s = 0
    else:
        s = rng.randrange(n + 1)
    rem = min(rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 10, 30, n]), n - s)
    ins = rng.choice(["", add(), add(), add()])
    if rem and rng.random() < .1:
        ins = text[s:s + rem]           # no change at all
    elif rem and rng.random() < .1:
        ins = text[s:s + rem][::-1]
    return s, rem, ins


def lang_insert(rng, text):
    def add():
        r = rng.random()
        if r < .5:
            return rng.choice(common.SNIPPETS)
        if r < .7:
            return rng.choice("abcxyz0123 \n\t(){}[]<>\"'\\")
        if r < .85:
            i = rng.randrange(len(text) + 1)
            return text[i:i + rng.choice([1, 5, 20, 60])]
        return ''.join(rng.choice(common.SNIPPETS) for _ in range(rng.randrange(1, 5)))
    return add


def apply(text, e):
    s, rem, ins = e
    return text[:s] + ins + text[s + rem:]


def states(tree):
    """[(pos, text, action, group, lexicons)] of all tokens."""
    out = []
    stack = [(iter(tree), (tree.lexicon,))]
    while stack:
        it, lex = stack[-1]
        for n in it:
            if n.is_context:
                stack.append((iter(n), lex + (n.lexicon,)))
                break
            out.append((n.pos, n.text, n.action, n.group, lex))
        else:
            stack.pop()
    return out
