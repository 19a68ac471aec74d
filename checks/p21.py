"""P21: notification, caching, locking and small helper objects."""
import codecs
import contextlib
import gc
import itertools
import os
import shutil
import sys
import tempfile
import threading
import time
import weakref

import parce
from parce import util
from parce.util import Observable, Dispatcher, Switch
import parce.lang.css
import parce.lang.json
import parce.lang.html

PROPERTY = "P21"
RULE = ("observe: histories of connect/disconnect/emit with functions and methods of dying objects, callbacks that connect, disconnect and emit themselves, against a model; "
        "contexts: callbacks returning context managers; emit_threads: concurrent emit, connect and disconnect; dispatch: random class hierarchies; switch: nesting per instance; "
        "caches: caching_dict, cached_func, cached_method, cached_property, object_locker under threads with injected delays; files: file_cache histories; helpers: range, list and BOM helpers against plain code.  "
        "Non-trivial: every case; distinct by the generated history.")
PLAN = {"quick": {"observe": 30000, "contexts": 5000, "emit_threads": 500, "dispatch": 6000, "switch": 6000, "caches": 800, "cache_model": 4000, "files": 400, "helpers": 12000},
        "thorough": {"observe": 200000, "contexts": 40000, "emit_threads": 3000, "dispatch": 40000, "switch": 60000, "caches": 5000, "cache_model": 80000, "files": 6000, "helpers": 300000}}
REQUIRED = {"emits": 8000, "calls": 10000, "nested_emits": 300, "once_calls": 800, "dead_methods": 200, "thread_emits": 3000, "dispatched": 5000, "factory_calls": 3000, "lock_sections": 3000, "file_reads": 500, "helper_calls": 5000}
ASSUMPTIONS = ["whether a callback connected or disconnected during a notification takes part in that notification is not specified",
               "factories of caches are not recursive"]


# ------------------------------------------------------------ Observable
class Owner:
    def __init__(self, world, key):
        self.world, self.key = world, key

    def meth(self, *args):
        self.world.called(self.key, args)


class World:
    """the real observable beside a model of it"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.r = ctx.rng
        self.obs = Observable()
        self.model = {}         # event -> list of [prio, seq, key, once, prepend]
        self.seq = itertools.count()
        self.funcs = {}
        self.owners = {}
        self.script = {}        # key -> list of ops to perform when called
        self.emissions = []     # stack
        self.depth = 0
        self.log = []

    def func(self, key):
        """the real callable for a key"""
        if key[0] == "m":
            o = self.owners.get(key)
            if o is None:
                o = self.owners[key] = Owner(self, key)
            return o.meth
        if key not in self.funcs:
            def f(*args):
                self.called(key, args)
            self.funcs[key] = f
        return self.funcs[key]

    def entry(self, event, key):
        for e in self.model.get(event, []):
            if e[2] == key:
                return e

    def connect(self, event, key):
        once, prepend, prio = self.r.random() < .3, self.r.random() < .3, self.r.choice([0, 0, 0, -1, 1, 5, 2.5])
        for em in self.emissions:       # reconnecting during the same notification: not specified
            if em["event"] == event and (key in em["loose"] or key in [k for k, _ in em["calls"]]):
                return
        self.log.append(("connect", event, key, once, prepend, prio))
        self.obs.connect(event, self.func(key), once=once, prepend_self=prepend, priority=prio)
        if self.entry(event, key) is None:
            self.model.setdefault(event, []).append([prio, next(self.seq), key, once, prepend])
            self.model[event].sort(key=lambda e: e[:2])
            for em in self.emissions:
                if em["event"] == event:
                    em["loose"].add(key)

    def remove(self, event, key):
        for e in self.model.get(event, []):
            if e[2] == key:
                self.model[event].remove(e)
                for em in self.emissions:
                    if em["event"] == event:
                        em["loose"].add(key)
                return

    def disconnect(self, event, key):
        self.log.append(("disconnect", event, key))
        if key[0] == "m" and key not in self.owners:
            return
        self.obs.disconnect(event, self.func(key))
        self.remove(event, key)

    def disconnect_all(self, event):
        self.log.append(("disconnect_all", event))
        if event is None:
            self.obs.disconnect_all()
            events = list(self.model)
        else:
            self.obs.disconnect_all(event)
            events = [event]
        for ev in events:
            for e in list(self.model.get(ev, [])):
                self.remove(ev, e[2])

    def kill(self, key):
        if key in self.owners:
            self.log.append(("kill", key))
            del self.owners[key]
            self.ctx.count("dead_methods")
            for ev in list(self.model):
                self.remove(ev, key)

    def called(self, key, args):
        self.ctx.count("calls")
        if not self.emissions:
            self.ctx.fail("callback called outside a notification", history=self.log, key=key)
        em = self.emissions[-1]
        em["calls"].append((key, args))
        e = self.entry(em["event"], key)
        if e is not None and e[3]:      # once: from now on disconnected
            was_loose = key in em["loose"]
            self.remove(em["event"], key)
            if not was_loose:
                em["loose"].discard(key)
            self.ctx.count("once_calls")
        for op in self.script.get(key, ()):
            self.do(op)

    def emit(self, event):
        if len(self.emissions) > 2:
            return
        arg = next(self.seq)
        self.log.append(("emit", event))
        em = {"event": event, "calls": [], "loose": set()}
        snap = [list(e) for e in self.model.get(event, [])]
        if self.emissions:
            self.ctx.count("nested_emits")
        self.emissions.append(em)
        try:
            self.obs.emit(event, arg)
        finally:
            self.emissions.pop()
        self.ctx.count("emits")
        keys = [k for k, _ in em["calls"]]
        if len(set(keys)) != len(keys):
            self.ctx.fail("a callback was called twice in one notification", history=self.log, calls=keys)
        loose = em["loose"]
        want = [e[2] for e in snap if e[2] not in loose]
        got = [k for k in keys if k not in loose]
        self.ctx.equal(got, want, "wrong callbacks or wrong order in a notification", history=self.log, loose=repr(loose))
        pre = {e[2]: e[4] for e in snap}
        for k, args in em["calls"]:
            if k in pre and k not in loose:
                exp = ((self.obs, arg) if pre[k] else (arg,))
                if len(args) != len(exp) or any(a is not b for a, b in zip(args, exp)):
                    self.ctx.fail("callback called with other arguments", history=self.log, key=k, args=repr(args))

    def do(self, op):
        getattr(self, op[0])(*op[1:])
        if not self.emissions:
            self.audit()

    def audit(self):
        for ev in ("a", "b"):
            for key in KEYS:
                if key[0] == "m" and key not in self.owners:
                    continue
                self.ctx.equal(bool(self.obs.is_connected(ev, self.func(key))), self.entry(ev, key) is not None, "is_connected() wrong", history=self.log, event=ev, key=key)
            if self.model.get(ev):
                self.ctx.check(self.obs.has_connections(ev), "has_connections() false although a callback is connected", history=self.log, event=ev)
            elif not self.dead:
                self.ctx.check(not self.obs.has_connections(ev), "has_connections() true although no callback is connected", history=self.log, event=ev)

    dead = False


KEYS = ["f1", "f2", "f3", "f4", "m1", "m2", "m3"]


def case_observe(ctx):
    r = ctx.rng
    w = World(ctx)
    def op(inner=False):
        k = r.randrange(12)
        ev, key = r.choice("aab"), r.choice(KEYS)
        if k < 4:
            return ("connect", ev, key)
        if k < 6:
            return ("disconnect", ev, key)
        if k == 6 and r.random() < .3:
            return ("disconnect_all", r.choice(["a", "b", None]))
        if k == 7 and not inner:
            w.dead = True
            return ("kill", r.choice(KEYS[4:]))
        return ("emit", ev)
    if r.random() < .6:
        for key in r.sample(KEYS, r.randint(1, 4)):
            w.script[key] = [op(True) for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(3, 25)):
        w.do(op())
    ctx.distinct(repr(w.log))


def case_contexts(ctx):
    r = ctx.rng
    obs = Observable()
    log = []
    want_in, keep = [], []
    n = r.randint(0, 6)
    fail = r.random() < .2
    for i in range(n):
        kind = r.choice(["cm", "none", "value", "cls"])
        prio = r.choice([0, 0, 1, -1])
        def mk(i=i, kind=kind):
            @contextlib.contextmanager
            def cm():
                log.append(("enter", i))
                try:
                    yield
                finally:
                    log.append(("exit", i))
            class C:
                def __enter__(self):
                    log.append(("enter", i))

                def __exit__(self, *a):
                    log.append(("exit", i))
            def f(x):
                log.append(("call", i))
                return {"cm": cm, "none": lambda: None, "value": lambda: 12, "cls": C}[kind]()
            return f
        f = mk()
        keep.append(f)
        obs.connect("e", f, priority=prio)
        want_in.append((prio, i, kind))
    want_in.sort(key=lambda t: t[:2])
    expect = []
    for p, i, k in want_in:
        expect.append(("call", i))
        if k in ("cm", "cls"):
            expect.append(("enter", i))
    expect.append("body")
    expect += [("exit", i) for p, i, k in reversed(want_in) if k in ("cm", "cls")]
    try:
        with obs.emit("e", 1):
            log.append("body")
            if fail:
                raise KeyError("x")
    except KeyError:
        pass
    ctx.equal(log, expect, "contexts of a notification entered or left in the wrong order", fail=fail)
    ctx.count("emits")
    ctx.count("calls", n)
    ctx.distinct(repr(want_in), fail)


def case_emit_threads(ctx):
    r = ctx.rng
    obs = Observable()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    nthreads, rounds = r.randint(2, 5), r.randint(5, 40)
    counts = {}
    lock = threading.Lock()
    errors = []
    perm, once = [], []
    class Obj:
        def __init__(self, i):
            self.i = i

        def meth(self, x):
            with lock:
                counts["m", self.i] = counts.get(("m", self.i), 0) + 1
    objs = [Obj(i) for i in range(3)]
    for i in range(r.randint(1, 4)):
        def f(x, i=i):
            with lock:
                counts["p", i] = counts.get(("p", i), 0) + 1
        perm.append(f)
        obs.connect("e", f, priority=r.randrange(3))
    for o in objs:
        obs.connect("e", o.meth, priority=r.randrange(3))
    delay = r.random() < .5
    nonce = r.randint(1, 5)
    start = threading.Barrier(nthreads)
    def mkonce(t, i):
        def f(x):
            with lock:
                counts["o", t, i] = counts.get(("o", t, i), 0) + 1
            if delay:
                time.sleep(0)
        return f
    onces = {(t, i): mkonce(t, i) for t in range(nthreads) for i in range(nonce)}
    temps = {t: (lambda x: None) for t in range(nthreads)}
    def run(t):
        try:
            start.wait(20)
            for n in range(rounds):
                if n < nonce:
                    obs.connect("e", onces[t, n], once=True, priority=n % 3)
                tmp = temps[t]
                obs.connect("e", tmp)
                if not obs.is_connected("e", tmp):
                    errors.append("connected callback is not connected")
                obs.emit("e", n)
                obs.disconnect("e", tmp)
                if obs.is_connected("e", tmp):
                    errors.append("disconnected callback still connected")
                ctx_calls[t] += 1
        except BaseException as e:
            errors.append(repr(e))
    ctx_calls = [0] * nthreads
    threads = [threading.Thread(target=run, args=(t,)) for t in range(nthreads)]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
    finally:
        sys.setswitchinterval(.005)
    obs.emit("e", 0)
    total = nthreads * rounds + 1
    ctx.check(not errors, "errors in threads", errors=errors[:3])
    for i in range(len(perm)):
        ctx.equal(counts.get(("p", i), 0), total, "a connected callback missed or repeated notifications")
    for o in objs:
        ctx.equal(counts.get(("m", o.i), 0), total, "a connected method missed or repeated notifications")
    for t in range(nthreads):
        for i in range(min(nonce, rounds)):
            ctx.equal(counts.get(("o", t, i), 0), 1, "a once-callback was not called exactly once")
    ctx.count("thread_emits", total)
    ctx.distinct(nthreads, rounds, nonce, ctx.index)


# ------------------------------------------------------------ Dispatcher
def case_dispatch(ctx):
    r = ctx.rng
    KEYSPACE = [1, 2, 3, "a", ("t", 1), None, 0, ""]
    METHS = ["m0", "m1", "m2", "m3"]
    classes = []        # (cls, bases idx, has_dispatcher)
    model = []          # per class: own table {key: methname}, own methods {name: label}, has own dispatcher, default label
    n = r.randint(1, 5)
    desc = []
    for ci in range(n):
        bases = tuple(sorted(r.sample(range(ci), min(ci, r.randrange(3))), reverse=True)) if ci else ()
        own = ci == 0 or not bases or r.random() < .5
        default = own and r.random() < .4
        ns = {}
        if own:
            if default:
                def dispatch(self, key, *args, _l=("default", ci), **kw):
                    return (_l, self, (key,) + args, kw)
                dispatch = Dispatcher(dispatch)
            else:
                dispatch = Dispatcher()
            ns["dispatch"] = dispatch
        table, meths = {}, {}
        for mname in r.sample(METHS, r.randrange(len(METHS) + 1)):
            def f(self, *args, _l=(mname, ci), **kw):
                return (_l, self, args, kw)
            f.__name__ = mname
            if own and r.random() < .7:
                keys = r.sample(KEYSPACE, r.randint(1, 3))
                f = ns["dispatch"](*keys)(f)
                for k in keys:
                    table[k] = mname
            ns[mname] = f
            meths[mname] = (mname, ci)
        try:
            cls = type("C%d" % ci, tuple(classes[b][0] for b in bases), ns)
        except TypeError:       # inconsistent mro
            bases = ()
            if not own:
                ns["dispatch"] = dispatch = Dispatcher()
                own = True
            cls = type("C%d" % ci, (), ns)
        cls._ci = ci
        classes.append((cls, own))
        model.append((table, meths, own, ("default", ci) if default else None))
        desc.append((ci, bases, own, default, table, sorted(meths)))
    order = [r.randrange(n) for _ in range(n * 2)]
    insts = {}
    for ci in order:
        cls = classes[ci][0]
        inst = insts.setdefault(ci, cls())
        mro = [c._ci for c in cls.mro()[:-1]]
        table = {}
        for c in reversed(mro):
            if model[c][2]:
                table.update(model[c][0])
        first = next(c for c in mro if model[c][2])
        default = model[first][3]
        for key in KEYSPACE + ["nokey"]:
            args, kw = (r.random(), "x"), {"k": 1}
            got = inst.dispatch(key, *args, **kw)
            g = inst.dispatch.get(key)
            if key in table:
                label = next(model[c][1][table[key]] for c in mro if table[key] in model[c][1])
                want = (label, inst, args, kw)
                ctx.check(g is not None and g(*args, **kw) == want, "Dispatcher.get() gives another method", classes=repr(desc), cls=ci, key=repr(key))
            else:
                want = (default, inst, (key,) + args, kw) if default else None
                ctx.check(g is None, "Dispatcher.get() gives a method for an unknown key", classes=repr(desc), cls=ci, key=repr(key))
            ctx.equal(got, want, "dispatched to another method", classes=repr(desc), cls=ci, key=repr(key))
            ctx.count("dispatched")
        d = inst.dispatch.default
        ctx.equal(d(7, 8) if d else None, (default, inst, (7, 8), {}) if default else None, "Dispatcher default method wrong", classes=repr(desc))
    ctx.distinct(repr(desc))


# ------------------------------------------------------------ Switch
def case_switch(ctx):
    r = ctx.rng
    class A:
        s = Switch()
        t = Switch()
    class B(A):
        t = Switch()
    objs = [A(), A(), B()]
    free = [Switch(), Switch()]
    state = {}
    stack = []
    log = []
    def get(k):
        return free[k[1]] if k[0] == "free" else getattr(objs[k[1]], k[0])
    keys = [("free", 0), ("free", 1)] + [(n, i) for n in "st" for i in range(3)]
    for _ in range(r.randint(3, 30)):
        k = r.choice(keys)
        op = r.randrange(4)
        if op < 2:
            cm = get(k)
            cm.__enter__()
            stack.append((k, cm))
            state[k] = state.get(k, 0) + 1
            log.append(("enter", k))
        elif op == 2 and stack:
            k, cm = stack.pop(r.randrange(len(stack)))
            if r.random() < .5:
                cm = get(k)
            cm.__exit__(None, None, None)
            state[k] -= 1
            log.append(("exit", k))
        else:
            log.append("class access")
            A.s, B.t
            if r.random() < .2:
                gc.collect(0)
        for q in keys:
            ctx.equal(bool(get(q)), state.get(q, 0) > 0, "Switch has the wrong state", history=repr(log), key=repr(q))
    s = get(r.choice(keys))
    try:
        with s:
            ctx.check(bool(s), "Switch not on inside its context")
            raise KeyError
    except KeyError:
        pass
    ctx.distinct(repr(log))


# ------------------------------------------------------------ caches and locks
def case_cache_model(ctx):
    r = ctx.rng
    calls = []
    vals = {}
    def factory(*key):
        calls.append(key)
        k = key if unpack else key[0]
        v = vals.setdefault(k, r.choice([None, 0, "", "x", 1, ()]))
        if v == "x" and r.random() < boom:
            raise LookupError(k)
        return v
    unpack, cache_none = r.random() < .5, r.random() < .5
    boom = r.choice([0, .3])
    kind = r.choice(["dict", "func", "method"])
    model = {}
    if kind == "dict":
        d = util.caching_dict(factory, unpack, cache_none)
        get = d.__getitem__
    elif kind == "func":
        unpack, cache_none = True, True
        f = util.cached_func(factory)
        get = lambda k: f(*k)
    else:
        unpack, cache_none = True, True
        class C:
            @util.cached_method
            def m(self, *args):
                return factory(*args)
            @util.cached_property
            def p(self):
                return factory("p")
        objs = [C(), C()]
        get = None
    keys = [(), (1,), (1, 2), ("a",), (None,)] if unpack else [1, 2, "a", None, (1, 2)]
    log = []
    for _ in range(r.randint(3, 20)):
        k = r.choice(keys)
        before = len(calls)
        mk = k
        if kind == "method":
            i = r.randrange(2)
            if r.random() < .2:
                k = ("p",)
                g = lambda: objs[i].p
                mk = (i, "prop")
            else:
                g = lambda: objs[i].m(*k)
                mk = (i, k)
        else:
            g = lambda: get(k)
        known = mk in model
        log.append(mk)
        try:
            got = g()
        except LookupError as e:
            ctx.check(not known and vals.get(k) == "x", "cache raised although the value was known", history=repr(log))
            continue
        ctx.equal(len(calls) - before, 0 if known else 1, "factory called the wrong number of times", history=repr(log), kind=kind)
        if not known:
            ctx.equal(calls[-1], k if unpack else (k,), "factory called with other arguments", history=repr(log))
            if got is not None or cache_none:
                model[mk] = got
            ctx.count("factory_calls")
        ctx.check(got is vals[k] or got == vals[k] and type(got) is type(vals[k]), "cache returned another value", history=repr(log), got_value=repr(got))
    if kind == "method":
        ref = weakref.ref(objs[0])
        objs[0] = None
        gc.collect(0)
        ctx.check(ref() is None, "cached_method keeps the instance alive", history=repr(log))
    ctx.distinct(kind, unpack, cache_none, repr(log))


def case_caches(ctx):
    r = ctx.rng
    kind = r.choice(["dict", "func", "method", "locker", "symbol", "lexicon"])
    nthreads = r.randint(2, 6)
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    errors = []
    active = {}
    made = {}
    lock = threading.Lock()
    start = threading.Barrier(nthreads)
    naps = [r.choice([0, 0, .0005]) for _ in range(7)]
    def factory(*key):
        with lock:
            made[key] = made.get(key, 0) + 1
        time.sleep(naps[hash(key) % 7])
        return [key]
    class C:
        @util.cached_method
        def m(self, *args):
            return factory(self.i, *args)
    objs = [C() for _ in range(3)]
    for i, o in enumerate(objs):
        o.i = i
    d = util.caching_dict(factory)
    f = util.cached_func(factory)
    lk = util.object_locker()
    seen = [dict() for _ in range(nthreads)]
    plans = [[(r.randrange(3), r.randrange(4)) for _ in range(40)] for _ in range(nthreads)]
    tag = "vp{}{}".format(ctx.index, r.random())
    reusable = [object() for _ in range(3)]
    def run(t):
        try:
            start.wait(20)
            for a, b in plans[t]:
                if kind == "dict":
                    v = d[a, b]
                elif kind == "func":
                    v = f(a, b)
                elif kind == "method":
                    v = objs[a].m(b)
                elif kind == "symbol":
                    v = util.Symbol("{}{}{}".format(tag, a, b))
                elif kind == "lexicon":
                    v = getattr(parce.lang.css.Css, ("root", "rule", "selector")[a])
                else:
                    obj = reusable[a]
                    with lk(obj):
                        active[a] = active.get(a, 0) + 1
                        if active[a] != 1:
                            errors.append("two threads inside the lock of one object")
                        time.sleep(naps[b])
                        if b == 0:
                            with lk((t, "other")):      # another object: must not block
                                pass
                        active[a] -= 1
                    ctx.counts["lock_sections"] += 1
                    continue
                old = seen[t].setdefault((a, b if kind != "lexicon" else 0), v)
                if old is not v:
                    errors.append("a cache gave different objects for one key")
        except BaseException as e:
            errors.append(repr(e))
    threads = [threading.Thread(target=run, args=(t,)) for t in range(nthreads)]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(100)
    finally:
        sys.setswitchinterval(.005)
    ctx.check(not any(t.is_alive() for t in threads), "threads are stuck", kind=kind)
    ctx.check(not errors, "errors in threads", kind=kind, errors=errors[:3])
    for k in set().union(*seen):
        ctx.equal(len({id(s[k]) for s in seen if k in s}), 1, "threads got different objects for one key", kind=kind)
    for k, n in made.items():
        ctx.equal(n, 1, "the factory was called more than once for a key", kind=kind, key=repr(k))
    ctx.count("factory_calls", len(made))
    if kind == "locker":
        refs = [weakref.ref(o) for o in objs]
        with lk(objs[0]):
            pass
        objs.clear()
        del o
        gc.collect(0)
        ctx.check(all(x() is None for x in refs), "object_locker keeps a released object alive")
        try:
            with lk("e"):
                raise KeyError
        except KeyError:
            pass
        with lk("e"):       # hangs when an exception leaves it locked
            pass
    ctx.distinct(kind, nthreads, repr(plans)[:200])


def case_files(ctx):
    r = ctx.rng
    tmp = tempfile.mkdtemp(prefix="vp21")
    try:
        calls = []
        def read(name):
            calls.append(name)
            with open(name) as f:
                return f.read()
        cache = util.file_cache(read)
        files = [os.path.join(tmp, x) for x in "abc"]
        used = set()
        state = {}      # name -> (mtime, text)
        model = {}      # name -> mtime of the cached
        log = []
        for _ in range(r.randint(3, 25)):
            f = r.choice(files)
            op = r.randrange(5)
            if op == 0:
                txt, mt = str(r.random()), r.choice([-1, 0, 1, 1000, 1e9, 1e9 + .5, r.randrange(10 ** 9), -100])
                if (f, mt) in used:
                    continue
                used.add((f, mt))
                with open(f, "w") as x:
                    x.write(txt)
                os.utime(f, (mt, mt))
                state[f] = (mt, txt)
                log.append(("write", f[-1], mt))
            elif op == 1 and f in state:
                os.remove(f)
                del state[f]
                log.append(("remove", f[-1]))
            else:
                log.append(("read", f[-1]))
                n = len(calls)
                try:
                    v = cache[f]
                except OSError:
                    ctx.check(f not in state, "file_cache raised for an existing file", history=repr(log))
                    continue
                ctx.check(f in state, "file_cache gave a value for a file that does not exist", history=repr(log))
                ctx.equal(v, state[f][1], "file_cache gave stale contents", history=repr(log))
                if state[f][0] >= 0:
                    ctx.equal(len(calls) - n, 0 if model.get(f) == state[f][0] else 1, "file_cache read the file the wrong number of times", history=repr(log))
                    model[f] = state[f][0]
                ctx.count("file_reads")
        ctx.distinct(repr(log))
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------ helpers
def deep(r, depth):
    if depth == 0 or r.random() < .4:
        return r.choice([1, "ab", None, {1: 2}, frozenset([1])])
    return r.choice([list, tuple])(deep(r, depth - 1) for _ in range(r.randrange(4)))


def flatten(x):
    return [y for z in x for y in flatten(z)] if type(x) in (list, tuple) else [x]


TEXT = ['p { color: red; } /* hi */ @media x { b { a: 1px } }', '{"a": [1, 2, {"b": null}], "c": "x\\ny"}', '<p style="color:red">a &amp; b</p><script>var a = 1;</script>']


def case_helpers(ctx):
    r = ctx.rng
    k = r.randrange(8)
    ctx.count("helper_calls")
    if k in (0, 1):
        # ranges in order, not overlapping
        pos, items = r.randrange(3), []
        for _ in range(r.randrange(8)):
            pos += r.choice([0, 0, 0, 1, 3])
            end = pos + r.randint(1, 4)
            items.append((pos, end) + tuple(r.choice("ab") for _ in range(1)))
            pos = end
        if k == 0:
            want = []
            for p, e, x in items:
                if want and want[-1][1] == p and want[-1][2] == x:
                    want[-1] = (want[-1][0], e, x)
                else:
                    want.append((p, e, x))
            ctx.equal(list(util.merge_adjacent(items)), want, "merge_adjacent() wrong", items=items)
            import collections
            nt = collections.namedtuple("NT", "pos end x")
            got = list(util.merge_adjacent(iter(items), nt))
            ctx.check(got == want and all(type(g) is nt for g in got), "merge_adjacent() with a factory wrong", items=items)
        else:
            start = r.randrange(12)
            end = r.choice([None, r.randrange(start, 40)])
            sel = [i for i in items if i[1] > start and (end is None or i[0] < end)]
            want = [(max(p, start), e if end is None else min(e, end), x) for p, e, x in sel]
            ctx.equal(list(util.fix_boundaries(iter(sel), start, end)), want, "fix_boundaries() wrong", items=sel, start=start, end=end)
        ctx.distinct(k, items)
    elif k == 2:
        l = [r.choice([0, 1, ",", ";"]) for _ in range(r.randrange(10))]
        want, cur = [], []
        for x in l:
            if x == ",":
                want.append(cur)
                cur = []
            else:
                cur.append(x)
        want.append(cur)
        ctx.equal(list(util.split_list(l, ",")), want, "split_list() wrong", list=l)
        ctx.distinct(k, l)
    elif k == 3:
        o = deep(r, 4)
        ctx.equal(list(util.unroll(o)), flatten(o), "unroll() wrong", obj=repr(o))
        ctx.distinct(k, repr(o))
    elif k == 4:
        enc, bom = r.choice([("utf-8", codecs.BOM_UTF8), ("utf-16-le", codecs.BOM_UTF16_LE), ("utf-16-be", codecs.BOM_UTF16_BE), ("utf-32-le", codecs.BOM_UTF32_LE), ("utf-32-be", codecs.BOM_UTF32_BE), (None, b"")])
        text = "".join(r.choice("abé€😀\n") for _ in range(r.randrange(10)))
        data = bom + text.encode(enc or "utf-8")
        e, rest = util.get_bom_encoding(data)
        if enc:
            ctx.check(e is not None and codecs.lookup(e).name == codecs.lookup(enc).name and rest == data[len(bom):], "get_bom_encoding() wrong", data=repr(data), got_value=repr((e, rest)))
        else:
            ctx.check(e is None and rest == data, "get_bom_encoding() wrong without BOM", data=repr(data))
        ctx.distinct(k, data)
    elif k in (5, 6):
        lang = r.randrange(3)
        s = TEXT[lang]
        a = r.randrange(len(s))
        text = s[a:] + s[:a] if r.random() < .6 else s * 2
        tree = parce.root([parce.lang.css.Css, parce.lang.json.Json, parce.lang.html.Html][lang].root, text)
        toks = list(tree.tokens())
        nodes = list(tree)
        ctx.check([id(t) for t in util.tokens(nodes)] == [id(t) for t in toks], "tokens() wrong", text=text)
        ctx.check([id(t) for t in util.tokens(nodes, True)] == [id(t) for t in reversed(toks)], "tokens(reverse) wrong", text=text)
        for fn, key in ((util.merge_adjacent_actions, lambda t: (t.action,)), (util.merge_adjacent_actions_with_language, lambda t: (t.action, t.parent.lexicon.language))):
            want = []
            for t in toks:
                if want and want[-1][1] == t.pos and want[-1][2:] == key(t):
                    want[-1] = (want[-1][0], t.end) + want[-1][2:]
                else:
                    want.append((t.pos, t.end) + key(t))
            ctx.equal([tuple(x) for x in fn(toks)], want, fn.__name__ + "() wrong", text=text)
        ctx.distinct(k, text)
    else:
        import types
        name = "vp_sister_%d" % r.randrange(10 ** 9)
        mod = types.ModuleType(name)
        sys.modules[name] = mod
        try:
            class Base:
                pass
            chain = []
            base = parce.Language
            for i in range(r.randint(1, 4)):
                cls = type(parce.Language)("L%d" % i, (base,), {"__module__": name})
                setattr(mod, cls.__name__, cls)
                chain.append(cls)
                base = cls
            sis = {}
            for c in chain:
                q = r.randrange(4)
                if q == 0:
                    sis[c] = type(c.__name__ + "X", (Base,), {})
                    setattr(mod, c.__name__ + "X", sis[c])
                elif q == 1:
                    setattr(mod, c.__name__ + "X", r.choice([type("Z", (), {}), 3, Base()]))
            for i, c in enumerate(chain):
                ctx.check(util.language_sister_class(c, "{}X", Base) is sis.get(c), "language_sister_class() wrong", classes=repr(sis))
                want = next((sis[x] for x in reversed(chain[:i + 1]) if x in sis), None)
                ctx.check(util.language_sister_class(c, "{}X", Base, True) is want, "language_sister_class() with parents wrong", classes=repr(sis))
            ctx.distinct(k, len(chain), sorted(x.__name__ for x in sis))
        finally:
            del sys.modules[name]
