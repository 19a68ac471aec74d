"""Generic transforms, with an independent oracle."""
import types

from parce.transform import Transform, Transformer, add_untransformed


def untransformed(node):
    """A plain picture of an untransformed context (positions left out)."""
    out = []
    stack = [(iter(node), out)]
    while stack:
        it, l = stack[-1]
        for n in it:
            if n.is_context:
                sub = [n.lexicon]
                l.append(sub)
                stack.append((iter(n), sub))
                break
            l.append((n.text, n.action))
        else:
            stack.pop()
    return (node.lexicon, out)


def collect(name, arg, items):
    out = []
    for i in items:
        if i.is_token:
            out.append((i.text, i.action))
        elif i.name == "<untransformed>":
            out.append((i.name, untransformed(i.obj)))
        else:
            out.append((i.name, i.obj))
    return (name, arg, tuple(out))


class Decide:
    """Decides, per language and lexicon name, what the transform does: None (no method), 1 (method) or 2 (also wants untransformed)."""

    def __init__(self, rng, nomethod, notransform):
        self.seed = rng.randrange(1 << 30)
        self.nomethod = nomethod
        self.notransform = notransform
        self._d = {}

    def __call__(self, language, name):
        import random
        key = language, name
        if key not in self._d:
            r = random.Random("{}|{}|{}".format(self.seed, language.__name__, name))
            if name == "root" and r.random() < .95:
                v = r.choice([1, 2])
            elif r.random() < self.nomethod:
                v = None
            else:
                v = r.choice([1, 2])
            self._d[key] = v
        return self._d[key]

    def has_transform(self, language):
        import random
        key = language, None
        if key not in self._d:
            self._d[key] = random.Random("{}|{}".format(self.seed, language.__name__)).random() >= self.notransform
        return self._d[key]


class Generic(Transform):
    """Gives a result that shows all the input of every method."""
    calls = None

    def __init__(self, decide, language, hook=None, tag=None):
        self._decide = decide
        self._language = language
        self._hook = hook
        self._tag = tag
        self._meths = {}

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        d = self.__dict__
        if name not in d["_meths"]:
            kind = d["_decide"](d["_language"], name)
            if kind is None:
                m = None
            else:
                def func(self, items):
                    if self._hook:
                        self._hook(name)
                    return collect(name if self._tag is None else (self._tag, name), items.arg, items)
                func.__name__ = name
                if kind == 2:
                    func = add_untransformed(func)
                m = types.MethodType(func, self)
            d["_meths"][name] = m
        m = d["_meths"][name]
        if m is None:
            raise AttributeError(name)
        return m


class GenericTransformer(Transformer):
    def __init__(self, decide, hook=None, tag=None):
        super().__init__()
        self.decide = decide
        self.hook = hook
        self.tag = tag

    def find_transform(self, language):
        if self.decide.has_transform(language):
            return Generic(self.decide, language, self.hook, self.tag)


class _Item:
    is_token = False

    def __init__(self, name, obj):
        self.name = name
        self.obj = obj


def oracle(decide, tree, tag=None):
    """What the result should be, from the tree alone (not recursive)."""
    def kind(lexicon):
        if decide.has_transform(lexicon.language):
            return decide(lexicon.language, lexicon.name)
    if tree.lexicon is None or kind(tree.lexicon) is None:
        return None
    stack = [(tree, iter(tree), [])]
    while True:
        node, it, items = stack[-1]
        for n in it:
            if n.is_token:
                items.append(n)
            elif kind(n.lexicon) is not None:
                stack.append((n, iter(n), []))
                break
            elif kind(node.lexicon) == 2:
                items.append(_Item("<untransformed>", n))
        else:
            name = node.lexicon.name
            res = collect(name if tag is None else (tag, name), node.lexicon.arg, items)
            stack.pop()
            if not stack:
                return res
            stack[-1][2].append(_Item(name, res))
