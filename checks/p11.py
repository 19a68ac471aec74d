"""P11: background tokenizing and transforming always deliver the current result."""
import sys
import threading
import time

import parce
from parce.document import Cursor
from parce.transform import Transformer
from parce.treebuilder import TreeBuilder
from parce.work import BackgroundWorker, Worker
import common
import edits
import langspec
import tf
from checks import p06

PROPERTY = "P11"
RULE = ("documents with a background worker get bursts of edits, undo/redo, other root lexicons and other transformers from the main thread while the worker threads are slowed "
        "down at random function calls in parce and in event handlers (profiler hook, sleeps of 0..3 ms up to .2 s per case, 10 us switch interval); the monitor compares every tree and transform that is "
        "handed out with one made from scratch, counts callback and event calls, and watches for deadlock.  Non-trivial: an edit was made or a request came while the worker was busy.")
PLAN = {"quick": {"burst": 2600, "waiters": 900, "sync": 2000}, "thorough": {"burst": 26000, "waiters": 8000, "sync": 20000}}
REQUIRED = {"busy_requests": 300, "waited": 1000, "callbacks": 300, "edits_while_busy": 200, "transforms_checked": 500, "started": 500}
ASSUMPTIONS = p06.ASSUMPTIONS + ["the document is edited from one thread only (documented)", "schedules differ from run to run; a replay repeats the operations, not the exact schedule"]
WALL_LIMIT = 60
WORKERS = 16
BUDGET = {"quick": 170, "thorough": 780}


INTERESTING = {"build_new_tree", "replace_tree", "process", "_run_stages", "start", "update", "emit", "connect", "get_changes", "transform_tree", "interrupt",
               "finish_build", "finish_transform", "start_build", "invalidate_node", "add_changes", "slot_replace", "disconnect", "get_root", "get_transform"}


class Slow:
    """Slows down all threads started inside it, at random places in parce."""

    def __init__(self, rng, p):
        self.p = p
        self.rnd = rng.random
        self.places = set()
        self.n = 0
        self.budget = rng.choice([.05, .1, .2])

    def __enter__(self):
        rnd, p = self.rnd, self.p
        near = ("work.py", "util.py", "transform.py")

        def hook(frame, event, arg):
            if (event == 'call' or event == 'return') and '/parce/' in frame.f_code.co_filename:
                self.n += 1
                if rnd() < (p * 8 if frame.f_code.co_filename.endswith(near) else p):
                    self.places.add(frame.f_code.co_name)
                    t = rnd() * rnd() * .003
                    self.budget -= t
                    if self.budget < 0:
                        sys.setprofile(None)
                    else:
                        time.sleep(t)
        threading.setprofile(hook)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *a):
        threading.setprofile(None)
        sys.setswitchinterval(self.old)


def settle(ctx, base, limit=40):
    """Wait until all threads that were started are finished."""
    t = time.monotonic() + limit
    while True:
        alive = [x for x in threading.enumerate() if x not in base]
        if not alive:
            return
        if time.monotonic() > t:
            ctx.fail("deadlock: worker threads do not finish", threads=repr(alive))
        alive[0].join(.05)


def language(ctx):
    r = ctx.rng
    k = r.random()
    langs = [l for q, l in common.languages()]
    if k < .3:
        lex = parce.find("json")
        items = [r.randrange(1000) for _ in range(r.randrange(0, 30))]
        text = "[" + ", ".join(r.choice(['%d', '"s%d"', '{"k": %d}', '[%d]']) % i for i in items) + "]"
        return lex, text, lambda t: lambda: r.choice(["1, ", "[2]", '"x"', ", ", "true", "{", "}", "]", '{"a": 1},', " "]), [parce.find("json"), parce.find("xml"), None]
    if k < .6:
        g = langspec.Gen(r, unique_actions=True, nested_groups=False)
        spec = g.spec()
        lang = langspec.build_language(spec)
        ctx.note(spec=spec)
        text = g.text(r.choice([20, 60, 120]))
        lang.root.verif_spec = None
        specs[lang] = spec
        return lang.root, text, lambda t: lambda: g.text(r.choice([1, 2, 3, 6])), [None, lang.root] + [getattr(lang, l["name"]) for l in spec["lexicons"]]
    q, lex = r.choice(common.languages())
    return lex, common.text_for(r, lex, 500), lambda t: edits.lang_insert(r, t), langs + [None]


specs = {}


def ok(text, lexicon):
    if lexicon is None:
        return True
    spec = specs.get(lexicon.language)
    if spec is None:
        return True
    try:
        ref = langspec.RefLexer(spec)
        ref.events(text, (lexicon.name, None))
        return not ref.stats['leadskip']
    except langspec.Discard:
        return False


class Harness:
    def __init__(self, ctx, background=True):
        self.ctx = ctx
        r = self.r = ctx.rng
        specs.clear()
        self.lexicon, self.text, self.make_add, self.lexicons = language(ctx)
        self.usable = ok(self.text, self.lexicon)
        if not self.usable:
            ctx.count("discarded")
            return
        self.decide = tf.Decide(r, r.choice([0, 0, .3]), 0)
        self.tag = None
        self.base_text = self.text      # text and lexicon of the tree when all was quiet
        self.lo = []                    # starts of the edits since
        self.chain = []
        self.script = [repr(self.lexicon), self.text]
        ctx.note(script=self.script)
        self.log = []
        self.made = []                  # callbacks: [kind, times called]
        self.busy = 0
        self.slowp = r.choice([.002, .01, .05, .2]) if background else 0
        sr = __import__("random").Random(r.random())
        self.jit = r.choice([0, .3, .6]) if background else 0

        def jitter(*a):
            if self.jit and sr.random() < self.jit:
                time.sleep(sr.random() * .002)
        self.jitter = jitter
        self.slow = Slow(sr, self.slowp)
        self.background = background

    def start(self):
        r = self.r
        t = tf.GenericTransformer(self.decide, self.jitter) if r.random() < .8 else None
        self.transformer = t
        how = r.randrange(4)
        if self.background and how < 2:
            d = parce.Document(self.lexicon, self.text, transformer=t)
            assert isinstance(d.worker(), BackgroundWorker)
        else:
            cls = BackgroundWorker if self.background else Worker
            # the document sets its own lexicon
            w = cls(TreeBuilder(r.choice([self.lexicon, None, parce.find("css")])))
            d = parce.Document(self.lexicon, self.text, worker=w, transformer=t)
            if how == 3 and t:
                # one transformer for two workers
                d2 = parce.Document(parce.find("json"), "[1, 2]", transformer=t)
                self.other = d2
        self.d = d
        w = d.worker()
        self.docevents = []
        if self.background:
            d.get_root(True)
            settle(self.ctx, self.threads)
        for e in ("started", "tree_updated", "tree_finished", "transform_finished"):
            w.connect(e, (lambda e: lambda *a: (self.log.append(e), self.jitter()))(e))
        for e in ("tree_updated", "tree_finished", "transform_finished"):
            d.connect(e, (lambda e: lambda *a: self.docevents.append(e))(e))
        for e in ("replace", "finished", "invalidate", "started"):
            d.builder().connect(e, self.jitter)
        self.root = d.get_root(True)

    # -- expectations
    def fresh(self):
        b = TreeBuilder(self.lexicon)
        b.rebuild(self.text)
        return b

    def check_tree(self, root, what):
        ctx = self.ctx
        b = self.fresh()
        ctx.check(root is self.root, "get_root returns another root object")
        ctx.check(root.lexicon is self.lexicon, "root lexicon is not the one that was set", got=repr(root.lexicon), expected=repr(self.lexicon), what=what)
        got, want = common.flat(root), common.flat(b.root)
        ctx.check(got == want, "tree is not that of the current text ({})".format(what), diff=common.first_diff(got, want) if got != want else '', text=self.text)
        return b

    def quiet(self):
        """The tree is known to be up to date."""
        self.base_text = self.text
        self.lo = []
        self.chain = []

    def want_transform(self, b=None):
        if self.transformer is None:
            return None
        return tf.oracle(self.decide, (b or self.fresh()).root, self.tag)

    def compare(self, got, want, what):
        ctx = self.ctx
        ctx.count("transforms_checked")
        if got != want:
            a, b = repr(got), repr(want)
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                i += 1
            ctx.fail("transform result is not that of the current text ({})".format(what), got=a[max(0, i - 100):i + 150], expected=b[max(0, i - 100):i + 150], text=self.text)

    # -- operations
    def allowed(self, new, start):
        lex = self.lexicon
        if not ok(new, lex):
            return False
        if lex is None:
            return True
        if p06.beyond_lookback(lex, self.text, new, start):
            return False
        if self.chain and self.chain[-1] == "lexicon":
            return True
        lo = min(self.lo + [start])
        return not p06.beyond_lookback(lex, self.base_text, new, lo)

    def is_busy(self):
        return self.d.builder().busy

    def edit(self):
        r, d, text = self.r, self.d, self.text
        op = r.random()
        if op < .12 and self.history_ok():
            return self.undo()
        if op < .25:
            n = len(text)
            x = sorted(r.randrange(n + 1) for _ in range(4))
            if x[0] == x[2]:
                return
            s1, s2 = self.make_add(text)(), self.make_add(text)()
            new = text[:x[0]] + s1 + text[x[1]:x[2]] + s2 + text[x[3]:]
            if new == text or not self.allowed(new, x[0]):
                return
            if self.is_busy():
                self.ctx.count("edits_while_busy")
                self.busy += 1
            with d:
                d[x[2]:x[3]] = s2
                d[x[0]:x[1]] = s1
            start = x[0]
            self.script.append(("block", x, s1, s2))
        else:
            e = edits.rand_edit(r, text, self.make_add(text))
            new = edits.apply(text, e)
            if new == text or not self.allowed(new, e[0]):
                return
            if self.is_busy():
                self.ctx.count("edits_while_busy")
                self.busy += 1
            d[e[0]:e[0] + e[1]] = e[2]
            start = e[0]
            self.script.append(e)
        self.text = new
        self.lo.append(start)

    def history_ok(self):
        return False

    def undo(self):
        pass

    def set_lexicon(self):
        lex = self.r.choice(self.lexicons)
        if not ok(self.text, lex):
            return
        self.script.append(("lexicon", repr(lex)))
        self.d.set_root_lexicon(lex)
        self.lexicon = lex
        self.chain.append("lexicon")

    def set_transformer(self):
        r = self.r
        k = len(self.script)
        if r.random() < .15:
            self.transformer = None
        else:
            self.decide = tf.Decide(r, r.choice([0, 0, .3]), 0)
            self.tag = k
            self.transformer = tf.GenericTransformer(self.decide, self.jitter, k)
        self.script.append(("transformer", self.transformer is not None))
        self.d.set_transformer(self.transformer)

    def request(self):
        r, d, ctx = self.r, self.d, self.ctx
        op = r.choice(["root", "root", "transform", "transform", "nowait", "nowait_t", "cb", "cb_t", "token", "cursor"])
        self.script.append(op)
        ctx.note(script=self.script)
        if self.is_busy():
            ctx.count("busy_requests")
            self.busy += 1
        never = self.text == "" and d.revision() == 0 and len(self.script) == 3
        if op == "root":
            ctx.count("waited")
            root = d.get_root(True)
            b = self.check_tree(root, "waited")
            ctx.check([x for x in d.open_lexicons()] == list(b.lexicons), "open lexicons are not those of the current text",
                      got=repr(d.open_lexicons()), expected=repr(b.lexicons))
            ctx.check(d.root_lexicon() is self.lexicon, "root_lexicon()")
            self.quiet()
        elif op == "transform":
            ctx.count("waited")
            if self.built:
                self.compare(d.get_transform(True), self.want_transform(), "waited")
        elif op == "nowait":
            root = d.get_root()
            if root is not None:
                self.check_tree(root, "not waited")
                self.quiet()
        elif op == "nowait_t":
            res = d.get_transform()
            if res is not None:
                self.compare(res, self.want_transform(), "not waited")
        elif op in ("cb", "cb_t"):
            rec = [op, 0, None]

            def cb(doc, rec=rec):
                rec[1] += 1
                rec[2] = doc
            if op == "cb":
                res = d.get_root(False, cb)
                if res is not None:
                    self.check_tree(res, "with callback")
                    self.quiet()
            else:
                res = d.get_transform(False, cb)
                if self.transformer is None or self.want_transform() is None or not self.built:
                    return
                if res is not None:
                    self.compare(res, self.want_transform(), "with callback")
            rec.append(res is None)
            self.made.append(rec)
        elif op == "token":
            pos = r.randrange(len(self.text) + 1)
            tok = d.token(pos)
            b = self.check_tree(self.root, "token()")
            want = None
            toks = [(t.pos, t.end, t.text) for t in b.root.tokens()]
            inside = [t for t in toks if t[0] <= pos < t[1]]
            left = [t for t in toks if t[1] == pos]
            right = [t for t in toks if t[0] > pos and "\n" not in self.text[pos:t[0]]]
            want = inside[:1] or left[:1] or right[:1]
            got = tok and (tok.pos, tok.end, tok.text)
            if want:
                ctx.equal(got, want[0], "token at position", pos=pos, text=self.text)
            else:
                # nothing touches or follows; an earlier token on the same line would do
                ctx.check(got is None or got in toks and got[1] < pos and "\n" not in self.text[got[1]:pos], "token at position",
                          pos=pos, got=got, text=self.text)
            self.quiet()
        else:
            n = len(self.text)
            a, e = sorted((r.randrange(n + 1), r.randrange(n + 1)))
            got = [(t.pos, t.text) for t in Cursor(d, a, e).tokens()]
            b = self.check_tree(self.root, "cursor.tokens()")
            if a < e:
                ctx.equal(got, [(t.pos, t.text) for t in b.root.tokens() if t.pos < e and t.end > a], "tokens of a cursor", start=a, end=e)
            self.quiet()

    def finish(self):
        """Check all at the end."""
        ctx, d = self.ctx, self.d
        self.script.append("end")
        b = self.check_tree(d.get_root(True), "end")
        if self.built:
            self.compare(d.get_transform(True), self.want_transform(b), "end")
        if self.background:
            settle(ctx, self.threads)
            self.check_tree(d.get_root(False), "end, threads finished")
            if self.built:
                self.compare(d.get_transform(False), self.want_transform(b), "end, threads finished")
        n = self.log.count("started")
        ctx.count("started", n)
        for e in ("tree_updated", "tree_finished"):
            ctx.equal(self.log.count(e), n, "start and finish notifications are not paired: " + e, log=self.log)
            ctx.equal(self.docevents.count(e), n, "notifications of the document: " + e)
        ctx.check(self.log.count("transform_finished") <= n and self.docevents.count("transform_finished") == self.log.count("transform_finished"),
                  "transform notifications", log=self.log)
        for rec in self.made:
            op, n, doc, expected = rec
            ctx.count("callbacks", n)
            if expected and op == "cb":
                ctx.check(n == 1, "callback called {} times".format(n), kind=op, script=self.script)
            elif expected:
                # the transformer can have been removed before it finished
                ctx.check(n == 1 or (n == 0 and any(x == ("transformer", False) for x in self.script)), "callback called {} times".format(n), kind=op, script=self.script)
            else:
                ctx.check(n == 0, "callback called although the result was returned", kind=op)
            ctx.check(not n or doc is d, "callback called with the wrong argument")


def run(ctx, background, waiters=False):
    h = Harness(ctx, background)
    if not h.usable:
        return
    r = h.r
    h.threads = set(threading.enumerate())
    with h.slow:
        h.start()
        h.built = bool(h.text)
        for _ in range(r.randrange(3, 14)):
            op = r.random()
            rev = h.d.revision()
            if op < .5:
                h.edit()
                if r.random() < .3:
                    h.edit()
            elif op < .57:
                h.set_lexicon()
                if h.chain and h.chain[-1] == "lexicon":
                    h.built = h.built or h.d.revision() > 0 or bool(h.text)
            elif op < .64:
                h.set_transformer()
            elif op < .7:
                time.sleep(r.random() * .003 if background else 0)
            else:
                h.request()
            if h.d.revision() != rev:
                h.built = True
            if waiters and r.random() < .4:
                wait_in_threads(h)
        h.finish()
    h.ctx.count("calls_slowable", h.slow.n)
    for p in h.slow.places:
        ctx.count("slowed in " + p) if p in INTERESTING else ctx.count("slowed elsewhere")
    if h.busy or not background:
        ctx.distinct(h.script, h.log if background else 0)
    ctx.sample({"script": [repr(x)[:60] for x in h.script[2:12]], "events": h.log[:12]})


def wait_in_threads(h):
    """Some other threads also wait for the current result; no edits in the meantime."""
    ctx, d = h.ctx, h.d
    errors = []
    want = common.flat(h.fresh().root)
    wt = h.want_transform() if h.built else None

    def work(kind):
        try:
            if kind == 0:
                got = common.flat(d.get_root(True))
                if got != want:
                    errors.append("tree in other thread is not that of the current text: " + common.first_diff(got, want))
            elif h.built:
                got = d.get_transform(True)
                if got != wt:
                    errors.append("transform in other thread is not that of the current text")
        except BaseException as e:
            errors.append(repr(e))
    ts = [threading.Thread(target=work, args=(k % 2,)) for k in range(h.r.randrange(1, 5))]
    for t in ts:
        t.start()
    h.check_tree(d.get_root(True), "with other waiters")
    h.quiet()
    for t in ts:
        t.join(40)
        ctx.check(not t.is_alive(), "deadlock: a waiting thread does not return")
    ctx.count("waited", len(ts))
    ctx.check(not errors, "waiting in other threads", errors=errors[:3], text=h.text)


def case_burst(ctx):
    run(ctx, True)


def case_waiters(ctx):
    run(ctx, True, True)


def case_sync(ctx):
    run(ctx, False)
