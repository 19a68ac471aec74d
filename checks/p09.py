"""P09: undo, redo, the modified state and their notifications follow a simple model."""
import parce
from parce.document import Document

from checks import p08

PROPERTY = "P09"
RULE = ("random histories of edits (single, blocks with several changes, substitutions), undo, redo, marking as saved, switching undo off and on, clearing the "
        "history, also long undo/redo runs; a model with explicit state stacks runs in lock step and a monitor compares text, can_undo/can_redo, modified "
        "and all notifications after every operation.  Non-trivial: 2+ undos or redos that did something.")
PLAN = {"quick": {"history": 30000, "runs": 6000}, "thorough": {"history": 700000, "runs": 120000}}
REQUIRED = {"undone": 1000, "redone": 500, "availability_events": 500, "modification_events": 200, "multi_change_undo": 200, "refused": 50}
ASSUMPTIONS = ["edit blocks whose changes cancel each other (text stays the same) are not part of the histories"]


class Model:
    def __init__(self, text):
        self.text = text
        self.modified = False
        self.undo = []      # (text, modified) to go back to
        self.redo = []
        self.enabled = True

    def edit(self, new):
        if new == self.text:
            return
        if self.enabled:
            self.undo.append([self.text, self.modified])
            self.redo.clear()
        self.text = new
        self.modified = True

    def back(self, a, b):
        if a:
            text, modified = a.pop()
            b.append([self.text, self.modified])
            self.text, self.modified = text, modified
            return True

    def saved(self, value):
        self.modified = value
        if not value:
            for s in self.undo + self.redo:
                s[1] = True


def make(r, text):
    d = Document(text) if r.random() < .85 else parce.Document(None, text)
    d.events = []
    for e in ("modification_changed", "undo_available", "redo_available"):
        d.connect(e, (lambda e: lambda v: d.events.append((e, v)))(e))
    d.changes = []
    d.connect("text_change", lambda *a: d.changes.append(a))
    return d


def block(ctx, r, d, text):
    """A random block of non-overlapping changes; returns the new text."""
    n = len(text)
    points = sorted(r.randrange(n + 1) for _ in range(2 * r.choice([1, 1, 2, 2, 3, 4])))
    new = text
    l = []
    for s, e in zip(points[::2], points[1::2]):
        if r.random() < .3:
            e = s
        if l and l[-1][0] == s:
            continue
        t = p08.rtext(r)
        if text[s:e] != t:
            l.append((s, e, t))
    for s, e, t in reversed(l):
        new = new[:s] + t + new[e:]
    if new == text:
        return text, []
    order = list(l)
    r.shuffle(order)
    with d:
        for s, e, t in order:
            d[s:e] = t
    return new, l


def verify(ctx, d, m, before, exact=True):
    """before: (undo, redo, modified) booleans before the operation."""
    ctx.equal(d.text(), m.text, "text differs from the model")
    ctx.check(d.can_undo() == bool(m.undo) and d.can_redo() == bool(m.redo), "availability of undo or redo",
              got=(d.can_undo(), d.can_redo()), expected=(len(m.undo), len(m.redo)))
    ctx.equal(d.modified, m.modified, "modified state")
    now = bool(m.undo), bool(m.redo), m.modified
    for name, was, new in zip(("undo_available", "redo_available", "modification_changed"), before, now):
        got = [v for e, v in d.events if e == name]
        ctx.count("modification_events" if name == "modification_changed" else "availability_events", len(got))
        if was == new:
            ctx.equal(got, [], "notification without change: " + name)
        else:
            ctx.equal(got, [new], "notification of change: " + name)
    d.events.clear()
    d.changes.clear()


def state(m):
    return bool(m.undo), bool(m.redo), m.modified


def case_history(ctx):
    r = ctx.rng
    text = p08.rtext(r, r.randrange(0, 20))
    d = make(r, text)
    m = Model(text)
    script = [text]
    ctx.note(script=script)
    steps = 0
    for _ in range(r.randrange(2, 30)):
        before = state(m)
        op = r.choice(["edit"] * 4 + ["block"] * 3 + ["undo"] * 5 + ["redo"] * 4 + ["saved", "saved", "setmod", "toggle", "clear", "refuse", "sub", "cancel"])
        script.append(op)
        if op == "edit":
            desc, func, s, e, t = p08.one_edit(r, d, m.text)
            script[-1] = desc
            func()
            m.edit(m.text[:s] + t + m.text[e:])
        elif op == "block":
            new, l = block(ctx, r, d, m.text)
            script[-1] = (op, l)
            if len(l) > 1:
                ctx.count("multi_change_blocks")
            m.multi = len(l) > 1
            m.edit(new)
        elif op == "sub":
            a, b = r.choice("ab \n"), r.choice(["", "qq", "Z"])
            script[-1] = (op, a, b)
            d.replace(a, b)
            m.edit(m.text.replace(a, b))
        elif op == "undo":
            d.undo()
            if m.back(m.undo, m.redo):
                steps += 1
                ctx.count("undone")
                # what was sent to listeners?
                if d.changes and d.changes[-1][1] > 1 and d.changes[-1][2] > 1:
                    ctx.count("multi_change_undo")
        elif op == "redo":
            d.redo()
            if m.back(m.redo, m.undo):
                steps += 1
                ctx.count("redone")
        elif op == "saved":
            d.modified = False
            m.saved(False)
        elif op == "setmod":
            d.modified = True
            m.saved(True)
        elif op == "toggle":
            # switching it off makes existing history useless, so clear it
            if m.enabled:
                d.clear_undo_redo()
                m.undo.clear()
                m.redo.clear()
            m.enabled = d.undo_redo_enabled = not m.enabled
        elif op == "clear":
            d.clear_undo_redo()
            m.undo.clear()
            m.redo.clear()
        elif op == "refuse":
            ctx.count("refused")
            with d:
                ctx.raises(RuntimeError, d.undo)
                ctx.raises(RuntimeError, d.redo)
        elif op == "cancel":
            try:
                with d:
                    d.append("zz")
                    d[0:1] = "yyy"
                    raise p08.Oops
            except p08.Oops:
                pass
        verify(ctx, d, m, before)
    if steps >= 2:
        ctx.distinct(script)
    ctx.sample({"script": [repr(x)[:80] for x in script[:10]]})


def case_runs(ctx):
    """Edit k times, undo all, redo all, with random turns; every intermediate state must come back."""
    r = ctx.rng
    text = p08.rtext(r, r.randrange(0, 30))
    d = make(r, text)
    states = [text]
    saved_at = 0
    script = [text]
    ctx.note(script=script)
    for _ in range(r.randrange(1, 25)):
        new, l = block(ctx, r, d, states[-1])
        if new != states[-1]:
            states.append(new)
            script.append(l)
        if r.random() < .1:
            d.modified = False
            saved_at = len(states) - 1
    i = len(states) - 1
    for _ in range(r.randrange(2, 60)):
        if r.random() < .1:
            target = r.choice([0, len(states) - 1])
        else:
            target = max(0, min(len(states) - 1, i + r.choice([-3, -2, -1, 1, 2, 3])))
        while i != target:
            if i > target:
                ctx.check(d.can_undo(), "undo not available")
                d.undo()
                ctx.count("undone")
                i -= 1
            else:
                ctx.check(d.can_redo(), "redo not available")
                d.redo()
                ctx.count("redone")
                i += 1
            ctx.equal(d.text(), states[i], "undo or redo does not restore the text", at=i, script=script)
            ctx.equal(d.modified, i != saved_at, "modified state after undo or redo", at=i, saved_at=saved_at, script=script)
        ctx.check(d.can_undo() == (i > 0) and d.can_redo() == (i < len(states) - 1), "availability", at=i)
    if len(states) > 3:
        ctx.distinct(script)
    ctx.sample({"states": len(states), "script": repr(script)[:300]})
