From 9904d3dc5e5b2fd9d9331614b333f2104928eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 01/88] fix: do not use str.find for a single pattern when
 re.VERBOSE is set

In verbose mode whitespace in the pattern is insignificant, so the literal
pattern text is not what the regular expression matches.
---
 parce/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..c0445b3 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
-- 
2.43.0


From 49e6034be6541d0389f6e36d9b06711d25285034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 02/88] fix: keep the last unchanged token when a tree build is
 restarted

When a change arrives while a new tree is being built, the build is restarted
inside the partly built tree. The last token (group) that remained the same
was removed from that tree but not generated again by the prepared lexer.
---
 parce/treebuilder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..7a31781 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,11 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    # keep the tokens that remained the same
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From 9da7272c01e7551a73296f069d8bfd0551c717cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 03/88] fix: merge a change that starts before the changes
 already recorded

Changes.add() overwrote the start value it needed for computing the merged
region, so a change left of earlier changes did not extend the region.
---
 parce/treebuilderutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..5f560ec 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -95,9 +95,9 @@ class Changes:
         else:
             offset = 0
         # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
-        end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        inside_start = max(start, self.start)
+        inside_end = min(start + removed, self.start + self.added)
+        offset -= max(0, inside_end - inside_start)
         # set the new values
         self.start = min(self.start, start)
         self.removed += removed + offset
-- 
2.43.0


From ebd08773e68442616cbfc304f148f1d5ae54949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:57 +0000
Subject: [PATCH 04/88] fix: update the root lexicon also when it changes to a
 derived lexicon

Derived lexicons compare equal to the lexicon they were derived from, so they
need to be compared on identity.
---
 parce/treebuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 7a31781..c1d1d21 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -387,7 +387,7 @@ class TreeBuilder(util.Observable):
         """
         tree, start, end, offset, lexicons = result
 
-        if not tree.lexicon or tree.lexicon != self.root.lexicon:
+        if not tree.lexicon or tree.lexicon is not self.root.lexicon:
             # whole tree update
             root = self.root
             for n in tree:
-- 
2.43.0


From 14d274d5401eb0ae48b27c649cc5cc89b9b8bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:21 +0000
Subject: [PATCH 05/88] fix: correct pop value after an untransformed context
 in transform_text()

Leaving the untransformed context itself takes one pop.
---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..2d1d9a2 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -229,7 +229,7 @@ class Transformer(util.Observable):
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
-- 
2.43.0


From 8418613b89aa0024b947a56df3b884bd0a939eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:21 +0000
Subject: [PATCH 06/88] fix: invalidate contexts that have no cached transform
 result

Contexts without a transform method are never in the cache, which caused a
KeyError during the tree build, leaving the builder busy forever.
---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 2d1d9a2..8e44537 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -397,7 +397,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None) # not all contexts are transformed
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From dc8255e499ecef0f1cd23d0191372a86070727dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:42 +0000
Subject: [PATCH 07/88] fix: wait for the most recent process when asking the
 tree or transform

When a new process was started while an earlier one was still emitting its
finished events or transforming, the earlier one marked the Worker as idle
and get_root(True) and get_transform(True) returned outdated results. Also
two threads could be working on the same tree simultaneously.
---
 parce/work.py | 54 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index cb2be97..8c13c64 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -99,6 +99,7 @@ class Worker(util.Observable):
         self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._generation = 0    # incremented every time a process is started
 
         treebuilder.connect("invalidate", self.slot_invalidate)
         treebuilder.connect("replace", self.slot_replace)
@@ -151,8 +152,9 @@ class Worker(util.Observable):
 
         """
         with self._condition:
+            self._generation += 1
             self._tree_state = BUILD
-            if self._transformer and self._transform_state == IDLE:
+            if self._transformer:
                 self._transform_state = BUILD
         self.run_process()
 
@@ -172,6 +174,12 @@ class Worker(util.Observable):
     def process(self):
         """Generator performing the actual process, exhausted by :meth:`run_process`."""
         c = self._condition
+        with c:
+            generation = self._generation
+
+        def is_current():
+            """Return False if a newer process, that manages the state, was started."""
+            return generation == self._generation
 
         try:
             ## run the treebuilder
@@ -181,11 +189,13 @@ class Worker(util.Observable):
                 state = _STATES.get(stage)
                 if state:
                     with c:
-                        self._tree_state = state
+                        if is_current():
+                            self._tree_state = state
             self.finish_build()
             with c:
-                self._tree_state = IDLE
-                c.notify_all()
+                if is_current():
+                    self._tree_state = IDLE
+                    c.notify_all()
 
             ## run the transformer
             self._transform_lock.acquire()
@@ -198,7 +208,8 @@ class Worker(util.Observable):
                         state = _STATES.get(stage)
                         if state is not None:
                             with c:
-                                self._transform_state = state
+                                if is_current():
+                                    self._transform_state = state
                     self._transform_lock.acquire()
                     # if the transformer was replaced while running, start again
                     t, old = self._transformer, t
@@ -209,9 +220,10 @@ class Worker(util.Observable):
 
         finally:
             with c:
-                self._tree_state = IDLE
-                self._transform_state = IDLE
-                c.notify_all()
+                if is_current():
+                    self._tree_state = IDLE
+                    self._transform_state = IDLE
+                    c.notify_all()
 
     def wait_build(self):
         """Wait for the build job to be completed.
@@ -333,9 +345,33 @@ class Worker(util.Observable):
 
 class BackgroundWorker(Worker):
     """A Worker implementation that does the work in a background thread."""
+    def __init__(self, treebuilder, transformer=None):
+        super().__init__(treebuilder, transformer)
+        self._run_lock = threading.Lock()
+
     def run_process(self):
         """Run the update process in a background thread."""
-        threading.Thread(target=super().run_process).start()
+        self.slot_replace() # a transformation that's still running is outdated
+        threading.Thread(target=self._run_stages).start()
+
+    def _run_stages(self):
+        """Exhaust the :meth:`process` generator.
+
+        Prevents two threads from working on the tree at the same time.
+
+        """
+        lock = self._run_lock
+        locked = lock.acquire()
+        try:
+            for stage in self.process():
+                if stage in ("tree_done", "transform_done"):
+                    lock.release()
+                    locked = False
+                elif not locked:
+                    locked = lock.acquire()
+        finally:
+            if locked:
+                lock.release()
 
 
 class WorkerDocumentMixin:
-- 
2.43.0


From 83a761495ab70ddc6a25dcc0c308f29b16cac535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:31 +0000
Subject: [PATCH 08/88] fix: forget overlapping changes after raising the
 RuntimeError

Otherwise all later edits fail with the same error. The changes are now
cleared before they are applied, so they are also not applied again when a
handler edits the text.
---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..2e163fc 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From 6d8f7dc37587cbfc4b3b8a9ee965bc99ec3f45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:31 +0000
Subject: [PATCH 09/88] fix: update cursors correctly when an edit has multiple
 changes

The positions of the second and later changes were compared with cursor
positions that were already moved by the earlier changes, and cursors could
be skipped that still needed to be updated.
---
 parce/document.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..d3f8b9e 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,12 +81,15 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
+        cursors = list(self._cursors)
+        offset = 0
         for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
+            # the changes refer to the original text, but the cursors were
+            # already adjusted for the previous changes
+            start += offset
+            end += offset
+            for c in cursors:
+                if c.pos > start:
                     if end >= c.pos:
                         c.pos = start
                     else:
@@ -96,8 +99,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
                         c.end = start + len(text)
                     else:
                         c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
+            offset += start + len(text) - end
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From bea240e21b3cca287478d7b7b2e9a6fefaf53d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:31 +0000
Subject: [PATCH 10/88] fix: emit undo_available/redo_available when the last
 item is undone or redone

---
 parce/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index d3f8b9e..88bbf9d 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -376,7 +376,8 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
+            with self._check_undo_state():
+                changes, modified = stack.pop()
             with switch, self:
                 for start, end, text in changes:
                     self[start:end] = text
-- 
2.43.0


From ab9770d5085502f106f48e1ffac0dc80214128eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:27 +0000
Subject: [PATCH 11/88] fix: keep calling the right callbacks when they connect
 or disconnect during emit

---
 parce/util.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..76fdae9 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -378,20 +378,25 @@ class Observable:
             slots = self._callbacks[event]
         except KeyError:
             return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        def disconnect(observer):
+            # callbacks may connect or disconnect functions themselves
+            for i, o in enumerate(slots):
+                if o is observer:
+                    del slots[i]
+                    break
+            if not slots and self._callbacks.get(event) is slots:
+                del self._callbacks[event]
+
+        for observer in slots[:]:
+            if observer.once:
+                disconnect(observer)
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
             if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+                disconnect(observer)
         return s
 
 
-- 
2.43.0


From 04cc66644e653634f6c9890b54d330eaa7ef2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:27 +0000
Subject: [PATCH 12/88] fix: keep the lock of object_locker alive until its
 last user releases it

---
 parce/util.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 76fdae9..84e7d9c 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -497,23 +497,24 @@ def object_locker():
     might not be desirable if you have a large amount of objects of this type.
 
     """
-    locker = {}
+    locker = {}         # maps object to [lock, number of users]
     locker_lock = threading.Lock()
 
+    @contextlib.contextmanager
     def lock_object(obj):
         with locker_lock:
-            try:
-                return locker[obj]
-            except KeyError:
-                lock = locker[obj] = threading.Lock()
-                @contextlib.contextmanager
-                def cleanup():
-                    try:
-                        with lock:
-                            yield
-                    finally:
-                        del locker[obj]
-                return cleanup()
+            entry = locker.setdefault(obj, [None, 0])
+            if entry[0] is None:
+                entry[0] = threading.Lock()
+            entry[1] += 1
+        try:
+            with entry[0]:
+                yield
+        finally:
+            with locker_lock:
+                entry[1] -= 1
+                if not entry[1]:
+                    del locker[obj]
     return lock_object
 
 
-- 
2.43.0


From 4338a9b6267ac3794631bb0aa8803304f8293687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:27 +0000
Subject: [PATCH 13/88] fix: detect the UTF-32-LE byte order mark

---
 parce/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 84e7d9c..bf66957 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -730,10 +730,11 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
-        (codecs.BOM_UTF16_LE, 'utf_16_le'),
-        (codecs.BOM_UTF16_BE, 'utf_16_be'),
+        # the UTF-32-LE mark starts with the UTF-16-LE mark, so check it first
         (codecs.BOM_UTF32_LE, 'utf_32_le'),
         (codecs.BOM_UTF32_BE, 'utf_32_be'),
+        (codecs.BOM_UTF16_LE, 'utf_16_le'),
+        (codecs.BOM_UTF16_BE, 'utf_16_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From 51525aee5413233f4bcf1488ba96496e27cfc0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:27 +0000
Subject: [PATCH 14/88] fix: make merge_adjacent() work with its default
 factory

---
 parce/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/util.py b/parce/util.py
index bf66957..10932d4 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -688,6 +688,8 @@ def merge_adjacent(stream, factory=tuple):
     or any other type to wrap the streams items in.
 
     """
+    if factory is tuple:
+        factory = lambda *args: args
     stream = iter(stream)
     for pos, end, *rest in stream:
         for npos, nend, *nrest in stream:
-- 
2.43.0


From aa1aa5a2c26442d0bcf87301c7cabc9c78048c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:27 +0000
Subject: [PATCH 15/88] fix: do not return a Range with reversed trails when
 there are no tokens between start and end

---
 parce/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..3ae23c2 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -1004,6 +1004,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # there are no tokens between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From 657924fca9cf8e89a1e8c5ec3b374fde709f39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:27 +0000
Subject: [PATCH 16/88] fix: only format the requested range when multiple
 themes are used

---
 parce/formatter.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..e99602c 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -202,24 +202,21 @@ class AbstractFormatter:
 
                 for context, slice_ in r.slices():
                     check_lang(context.lexicon.language)
-                    n = context[slice_]
                     stack = []
-                    i = 0
+                    gen = iter(context[slice_])
                     while True:
-                        for i in range(i, len(n)):
-                            m = n[i]
+                        for m in gen:
                             if m.is_context:
-                                stack.append(i)
-                                i = 0
-                                n = m
-                                check_lang(n.lexicon.language)
+                                stack.append((context, gen))
+                                context = m
+                                gen = iter(m)
+                                check_lang(context.lexicon.language)
                                 break
                             yield m
                         else:
                             if stack:
-                                n = n.parent
-                                check_lang(n.lexicon.language)
-                                i = stack.pop() + 1
+                                context, gen = stack.pop()
+                                check_lang(context.lexicon.language)
                             else:
                                 break
 
-- 
2.43.0


From d887bc70ef62de4dfd22bc5a4b5b1a027b0d8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 17/88] fix: parse quoted strings in CSS

---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..faa606e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From 31ca0730a2253acc8e35913966d92d08e411e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 18/88] fix: make @import work in stylesheets

---
 parce/css.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index faa606e..e9ce196 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -223,6 +223,7 @@ class StyleSheet:
 
         """
         filenames = {filename}
+        imported_filenames = []
 
         def get_import_rules(values):
             """Yield rules from an @import at-rule.
@@ -232,7 +233,7 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
                     fname = os.path.join(os.path.dirname(filename), fname)
                     # avoid circular @import references
@@ -245,7 +246,7 @@ class StyleSheet:
                             s = cls.from_css(icss, fname, path, allow_import)
                             yield Condition("import", values, s)
                         else:
-                            self._imported_filenames.append(fname)
+                            imported_filenames.append(fname)
                             yield from get_rules(icss)
                     return
 
@@ -272,7 +273,9 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        sheet = cls(get_rules(css), filename)
+        sheet._imported_filenames = imported_filenames
+        return sheet
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From c926f0c3e5cfa6ad990ee73710c2faa2dce4466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 19/88] fix: read zero values and alpha percentages in CSS
 rgb() and rgba()

---
 parce/css.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index e9ce196..f576c64 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1282,7 +1282,7 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
         if r != -1: r = self.get_number_value(r, 255)
         g = next(values, -1)
@@ -1303,7 +1303,9 @@ class CssTransform(Transform):
         """
         n = value.number
         if value.unit == "%":
-            n = n * maximum // 100
+            n = n * maximum / 100
+        if maximum == 255:
+            n = int(n)
         if n < 0: n = 0
         if n > maximum: n = maximum
         return n
-- 
2.43.0


From 8924766e0543509a1048a7ec0c7fe9dd4d4b827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 20/88] fix: do not raise an exception for CSS rules without
 selectors or values

---
 parce/css.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index f576c64..8319cf4 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -403,7 +403,7 @@ class Style:
         for rule in self.rules:
             for key, value in rule.properties.items():
                 important = False
-                if value[-1] == '!important':
+                if value and value[-1] == '!important':
                     value = value[:-1]
                     important = True
                 if key not in result:
@@ -851,7 +851,7 @@ class CssTransform(Transform):
             if name == "prelude":
                 prelude = obj
             elif name == "rule":
-                result.append(Rule(prelude, obj))
+                result.append(Rule(prelude or [], obj))
                 prelude = None
             elif name == "atrule":
                 result.append(obj)
@@ -1386,7 +1386,7 @@ def calculate_specificity(prelude):
                 clss += total('attribute_selector', 'class_selector', 'pseudo_class')
                 elts += total('element_selector', 'pseudo_element')
         specificities.append((ids, clss, elts))
-    return max(specificities)
+    return max(specificities, default=(0, 0, 0))
 
 
 def color2hex(color):
-- 
2.43.0


From 29b943d9093e2c076c3f22c1a15171c683748813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 21/88] fix: let the first !important property in the cascade
 win

---
 parce/css.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 8319cf4..32581bb 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -406,11 +406,12 @@ class Style:
                 if value and value[-1] == '!important':
                     value = value[:-1]
                     important = True
-                if key not in result:
+                if important:
+                    if key not in important_properties:
+                        result[key] = value
+                        important_properties.add(key)
+                elif key not in result:
                     result[key] = value
-                elif important and key not in important_properties:
-                    result[key] = value
-                    important_properties.add(key)
         return result
 
 
@@ -937,7 +938,9 @@ class CssTransform(Transform):
         for name, obj in items.items():
             if obj and name == "declaration":
                 prop, values = obj
-                d[prop] = values
+                # an important value is not overridden by a normal value
+                if values[-1:] == ['!important'] or d.get(prop, [])[-1:] != ['!important']:
+                    d[prop] = values
         return d
 
     def declaration(self, items):
-- 
2.43.0


From 6296c97ecce97ec6552a0a5327152dbe6da59820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 22/88] fix: consider all ancestors and siblings when matching
 CSS combinators

---
 parce/css.py | 68 +++++++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 32581bb..544d61f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -566,45 +566,37 @@ class AbstractElement:
 
     def match_selectors(self, selectors):
         """Match with a list of selectors with operators in between."""
-        selectors = iter(reversed(selectors))
-        sel = next(selectors, None)
-        if not sel or not self.match_selector(sel):
+        if not selectors or not self.match_selector(selectors[-1]):
             return False
-        element = self
-        operator = next(selectors, None)
-        sel = next(selectors, None)
-        while operator and sel:
-            if operator == ">":
-                # parent should match
-                element = element.get_parent()
-                if element is None or not element.match_selector(sel):
-                    return False
-            elif operator == " ":
-                # an ancestor should match
-                element = element.get_parent()
-                while element is not None:
-                    if element.match_selector(sel):
-                        break
-                    element = element.get_parent()
-                else:
-                    return False
-            elif operator == "+":
-                # immediate sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                    return False
-                else:
-                    return False
-            else: # operator == "~":
-                # a sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                else:
-                    return False
-            operator = next(selectors, None)
-            sel = next(selectors, None)
+        # all elements that match the selectors handled so far; there can be
+        # more than one when a combinator matches any ancestor or sibling
+        elements = [self]
+        for i in range(len(selectors) - 2, 0, -2):
+            operator, sel = selectors[i], selectors[i-1]
+            result = []
+            for element in elements:
+                if operator in (" ", ">"):
+                    # an ancestor (or only the parent) should match
+                    parent = element.get_parent()
+                    while parent is not None:
+                        if parent.match_selector(sel):
+                            result.append(parent)
+                        if operator == ">":
+                            break
+                        parent = parent.get_parent()
+                else: # operator in ("+", "~")
+                    # a previous sibling (or only the adjacent) should match
+                    for sibling in element.previous_siblings():
+                        if sibling.match_selector(sel):
+                            result.append(sibling)
+                        if operator == "+":
+                            break
+            if not result:
+                return False
+            elements = []
+            for element in result:
+                if element not in elements:
+                    elements.append(element)
         return True
 
     def match_selector(self, selector):
-- 
2.43.0


From b921c85b29be41384e51ea8a3c8dbbe457da0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 23/88] fix: do not raise an exception on a CSS escape that is
 not a valid character

---
 parce/css.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 544d61f..f05d86f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -71,6 +71,7 @@ import functools
 import os
 import re
 import reprlib
+import sys
 
 from . import action as a
 from . import util
@@ -1188,7 +1189,9 @@ class CssTransform(Transform):
             codepoint = int(value, 16)
         except ValueError:
             return value
-        return chr(codepoint)
+        if 0 < codepoint <= sys.maxunicode:
+            return chr(codepoint)
+        return '\ufffd'    # not a valid character
 
     def get_string(self, items):
         """Yield the parts of a string.
-- 
2.43.0


From 584530cb15ae1bbe496c6b76eadba6dfc449c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 24/88] fix: match CSS attribute selectors with an empty value

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index f05d86f..a10be0d 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -623,7 +623,7 @@ class AbstractElement:
                 value = attributes[attrname]
             except KeyError:
                 return False
-            if operator and text:
+            if operator and text is not None:
                 if flag in ('i', 'I'):
                     text = text.lower()
                     value = value.lower()
@@ -637,13 +637,13 @@ class AbstractElement:
                     if text != value and not value.startswith(text + "-"):
                         return False
                 elif operator == "^=":
-                    if not value.startswith(text):
+                    if not text or not value.startswith(text):
                         return False
                 elif operator == "$=":
-                    if not value.endswith(text):
+                    if not text or not value.endswith(text):
                         return False
                 elif operator == "*=":
-                    if text not in value:
+                    if not text or text not in value:
                         return False
 
         # pseudo_class?
@@ -992,7 +992,7 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val:
+                if val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 87c7f429e9b89086a04b57694a4762204e70cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 25/88] fix: make selecting CSS rules for a lxml element work

---
 parce/css.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index a10be0d..2062e9e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -387,7 +387,6 @@ class Style:
             if element.match(rule.prelude):
                 yield rule
 
-    @style_query
     def select_lxml_element(self, element):
         """Select the rules that match with lxml.etree.Element."""
         return self.select_element(LxmlElement(element))
@@ -490,7 +489,7 @@ class AbstractElement:
         """Implement to yield our children."""
         yield from ()
 
-    def get_child_count():
+    def get_child_count(self):
         """Implement to return the number of children."""
         return 0
 
@@ -737,13 +736,21 @@ class LxmlElement(AbstractElement):
     def __init__(self, element):
         self.e = element
 
+    def __eq__(self, other):
+        return isinstance(other, LxmlElement) and self.e is other.e
+
+    def __ne__(self, other):
+        return not self == other
+
     def get_name(self):
         """Return the element's name."""
         return self.e.tag
 
     def get_parent(self):
         """Return the parent Element or None."""
-        return type(self)(self.e.getparent())
+        parent = self.e.getparent()
+        if parent is not None:
+            return type(self)(parent)
 
     def get_attributes(self):
         """Return a dictionary of attributes, keys and values are str."""
-- 
2.43.0


From 5f3129c5389ae6edc0b9b67403be7b2d2018bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 26/88] fix: do not lose precision in the alpha value in
 color2hex()

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 2062e9e..c07c65c 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1399,7 +1399,7 @@ def color2hex(color):
     r, g, b, a = color
     x = "#{:06x}".format(r*65536 + g*256 + b)
     if a < 1:
-        x += format(int(a * 255), '02x')
+        x += format(round(a * 255), '02x')
     return x
 
 
-- 
2.43.0


From 9ce382a903cb1ef1276257d78c5ed8ace8869e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 27/88] fix: skip delimiters and empty values when reading a
 TextFormat

---
 parce/theme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..f4dada3 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,7 +257,8 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            self._dispatch(prop, values)
+            # skip delimiters such as the comma
+            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
 
     def __bool__(self):
         """Return True if at least one property is set."""
@@ -461,8 +462,8 @@ class TextFormat:
 
     @_dispatch("font-style")
     def read_font_style(self, values):
-        v = values[0]
-        for n in values[1:] + [None]:
+        v = values[0] if values else None
+        for n in values[1:] + [None] if values else ():
             if v.text in ("normal", "italic"):
                 self.font_style = v.text
                 return
-- 
2.43.0


From f9990dff1b60da55a765e3765000adaab93437e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 28/88] fix: consult the fallback also when a registry is empty

---
 parce/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/registry.py b/parce/registry.py
index bfb7a75..1af689a 100644
--- a/parce/registry.py
+++ b/parce/registry.py
@@ -301,7 +301,7 @@ class Registry(dict):
             def lexicons(reg):
                 for qualname in reg.suggest(filename, mimetype, contents):
                     yield reg.lexicon(qualname)
-        while self:
+        while self is not None:
             for lexicon in lexicons(self):
                 return lexicon
             self = self.fallback
-- 
2.43.0


From a01c144f96006d6d29ae0e049911b4783b0a2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 29/88] fix: recognize the coding: variant when finding an
 encoding in a text

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index ef74c6e..f8ccb7d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -199,7 +199,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
         if m:
             return m.group(1)
 
-- 
2.43.0


From 405ca6842b3ec794637cfab13626d1648cac4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 30/88] fix: do not try to use an encoding that is not a text
 encoding

---
 parce/docio.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index f8ccb7d..783bfe9 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -39,7 +39,6 @@ see if an encoding is defined there, and use that for I/O operations.
 
 """
 
-import codecs
 import collections
 import io
 import os
@@ -335,8 +334,8 @@ def _validate_encoding(encoding):
     """
     if encoding:
         try:
-            codecs.lookup(encoding)
+            "".encode(encoding)
             return encoding
-        except LookupError:
-            pass
+        except (LookupError, UnicodeError):
+            pass    # unknown, or not a text encoding
 
-- 
2.43.0


From 7c594933ca00522a6c26b7671145605e2456ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:22 +0000
Subject: [PATCH 31/88] fix: recognize the current indent of blank lines

---
 parce/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..8516f6b 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,9 +302,9 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text)-len(text.lstrip())]
             else:
-                info.indent == ""
+                info.indent = ""
         return info
 
     def indent_events(self, block, prev_indents=()):
-- 
2.43.0


From 5730e576bb921e8e89dc03354f875ecad48ea154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:49 +0000
Subject: [PATCH 32/88] fix: remove the right node when deleting the last child
 of a context

---
 parce/tree.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parce/tree.py b/parce/tree.py
index 3ae23c2..0dec91b 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -312,8 +312,15 @@ class Node:
         Returns the first non-empty ancestor.
 
         """
-        for parent, index in self.ancestors_with_index():
-            del parent[index]
+        # find the topmost node to remove first; the position (and thus the
+        # parent index) of a context can't be determined when it is empty
+        node = self
+        parent = node.parent
+        while parent is not None and len(parent) == 1 and parent.parent is not None:
+            node = parent
+            parent = node.parent
+        if parent is not None:
+            del parent[node.parent_index()]
             if len(parent):
                 return parent
 
-- 
2.43.0


From 44a44c3acec425f52fd95c64db6e5385d67a5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 33/88] fix: do not reuse tail tokens that belong to a group
 when the new token does not

---
 parce/treebuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index c1d1d21..8d8a07d 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -319,7 +319,8 @@ class TreeBuilder(util.Observable):
                                 break
                         else:
                             tail = False
-                    if pos == tail_pos and tokens[0].equals(tail_token) and \
+                    if pos == tail_pos and tokens[0].group == tail_token.group and \
+                            tokens[0].equals(tail_token) and \
                             (context or not context.lexicon.consume) :
                         # we can reuse the tail from tail_pos
                         return BuildResult(tree, lowest_start, tail_pos, offset, None)
-- 
2.43.0


From 96e519ea83d7442adf8153a5748fc3974a6876de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:30 +0000
Subject: [PATCH 34/88] fix: avoid catastrophic backtracking in CSV on text
 without closing quote

---
 parce/lang/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/csv.py b/parce/lang/csv.py
index 002ccae..0e4d2be 100644
--- a/parce/lang/csv.py
+++ b/parce/lang/csv.py
@@ -44,7 +44,7 @@ class Csv(Language):
         """Split a record in escaped (string) and non-escaped fields."""
         yield r'$\n?', skip, -1
         yield r'[^,"\n]+(?=$|,|\n)', a.Name
-        yield r'[ \t]*((?:[^,"\s]+[ \t]*)+)?(")', bygroup(a.Invalid, a.String.Start), cls.string
+        yield r'[ \t]*([^,"\s](?:[^,"\s]|[ \t])*)?(")', bygroup(a.Invalid, a.String.Start), cls.string
         yield ',', a.Separator
 
     @lexicon(consume=True)
-- 
2.43.0


From b168c5a39f109f4c3ad874a9737df5a3e1d0b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 35/88] fix: avoid catastrophic backtracking finding email
 addresses in comments

---
 parce/language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/language.py b/parce/language.py
index f66fa9e..aa7e99e 100644
--- a/parce/language.py
+++ b/parce/language.py
@@ -52,7 +52,7 @@ class Language(metaclass=_LanguageType):
         languages use this method for their comment lexicons.
 
         """
-        yield r'\b\w+(?:[._%+-]\w+)*@\w+(?:[._-]\w+)*\b', a.Comment.Email
+        yield r'\b\w+(?:[.%+-]\w+)*@\w+(?:[.-]\w+)*\b', a.Comment.Email
         yield r'(?:(?:https?|ftp):/|\bwww\.)(?:[\w_~:/#-]+([.?=][\w_~:/#-]+)*|\([\w._~:?/#-]*\))+', a.Comment.Url
         yield r"\b(ALERT|BUG|FIXME|TEMP|TODO|XXX+)\b", a.Comment.Alert
         yield parce.default_action, a.Comment
-- 
2.43.0


From 26761c80741b32c76f3d8d210d53c7ffca20c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 36/88] fix: avoid catastrophic backtracking finding brace
 expansions in Bash

---
 parce/lang/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/bash.py b/parce/lang/bash.py
index 9eab492..a019f71 100644
--- a/parce/lang/bash.py
+++ b/parce/lang/bash.py
@@ -41,7 +41,7 @@ RE_BRACE = (
     r'(\{)'     # brace {
     r'(?:'
         r'(?:\w\.\.\w|\d+\.\.\d+)(?:\.\.\d+)?'   # sequence expr
-        r'''|[^|&;()<>\s"'`!{}]*(?:,[^|&;()<>\s"'`!{}]*)+'''  # comma-separated strings
+        r'''|[^,|&;()<>\s"'`!{}]*(?:,[^,|&;()<>\s"'`!{}]*)+'''  # comma-separated strings
     r')'       # expand expr
     r'(\})'     # brace }
     r'''([^|&;()<>\s"'`!{}]*)'''   # postscript
-- 
2.43.0


From 716586fcee7bfa11a98206a28b41c8afcf877f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:48 +0000
Subject: [PATCH 37/88] fix: avoid catastrophic backtracking in JavaScript
 identifiers

---
 parce/lang/javascript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/javascript.py b/parce/lang/javascript.py
index 11bec91..197d807 100644
--- a/parce/lang/javascript.py
+++ b/parce/lang/javascript.py
@@ -40,7 +40,7 @@ RE_JS_IDENT_STARTCHAR = r'$_' + ''.join(map(categories.get, ['Lu', 'Ll', 'Lt', '
 RE_JS_IDENT_CHAR = RE_JS_IDENT_STARTCHAR + '\u200c\u200d' + ''.join(map(categories.get, ['Mn', 'Mc', 'Nd', 'Pc']))
 RE_JS_ESCAPE_CHAR = r'\\u[0-9a-fA-F]{4}'
 RE_JS_IDENT_TOKEN = _I_ = fr'(?:[{RE_JS_IDENT_STARTCHAR}]|{RE_JS_ESCAPE_CHAR})' \
-                fr'(?:[{RE_JS_IDENT_CHAR}]+|{RE_JS_ESCAPE_CHAR})*'
+                fr'(?:[{RE_JS_IDENT_CHAR}]|{RE_JS_ESCAPE_CHAR})*'
 
 RE_JS_DECIMAL_NUMBER = r'\d+(?:_\d+)*n|(?:\.\d+(?:_\d+)*|\d+(?:_\d+)*(?:\.(?:\d+(?:_\d+)*)?)?)(?:[eE][-+]\d+(?:_\d+)*)?'
 RE_JS_REGEXP = r'/(?:\\.|[^\\\n/\[]|\[(?:\\.|[^\\\n\]])*\])+/[gimsuy]?'
-- 
2.43.0


From 293f73f6b9811252e59f0582ecff91f8ad279e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 38/88] fix: avoid catastrophic backtracking guessing (X)HTML
 from contents

---
 parce/lang/_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/_registry.py b/parce/lang/_registry.py
index 3072ec6..bc4cc76 100644
--- a/parce/lang/_registry.py
+++ b/parce/lang/_registry.py
@@ -131,7 +131,7 @@ register("parce.lang.html.Html.root",
         (r'(?i)<!DOCTYPE html', .9),
         (r'\bXHTML.*?\bTransitional/', .9),
         (r'(?i)<html\b', .9),
-        (r'<[^\W\d]\w*(\s+[^\W\d]\w*(\s*=\s*(".*?"|\S+))?)*\s*/?>', .1),
+        (r'<[^\W\d]\w*(\s+[^\W\d]\w*(\s*=\s*("[^"]*"|[^\s">]+))?)*\s*/?>', .1),
     ],
 )
 
@@ -250,7 +250,7 @@ register("parce.lang.html.XHtml.root",
         (r'(?i)<!DOCTYPE html', .8),
         (r'\bXHTML.*?\bStrict/', .9),
         (r'(?i)<html\b', .8),
-        (r'<[^\W\d]\w*(\s+[^\W\d]\w*(\s*=\s*(".*?"|\S+))?)*\s*/?>', .05),
+        (r'<[^\W\d]\w*(\s+[^\W\d]\w*(\s*=\s*("[^"]*"|[^\s">]+))?)*\s*/?>', .05),
     ],
 )
 
-- 
2.43.0


From 9c0b8bb42d55d4768fd55e84444dc72a3fbbfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:02 +0000
Subject: [PATCH 39/88] fix: report the right end of the updated range when
 changes arrive during a build

---
 parce/treebuilder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 8d8a07d..8da5825 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -161,6 +161,7 @@ class TreeBuilder(util.Observable):
     def __init__(self, root_lexicon=None):
         super().__init__()
         self._lock = threading.Lock()
+        self._text_length = 0   # length of the text of the most recent changes
         self.root = Context(root_lexicon, None)
         self.busy = False
         self.changes = []
@@ -526,6 +527,8 @@ class TreeBuilder(util.Observable):
         c = Changes()
         while self.changes:
             c.add(*self.changes.pop(0))
+        if c.has_changes():
+            self._text_length = len(c.text)
         return c
 
     def start_processing(self):
@@ -570,7 +573,10 @@ class TreeBuilder(util.Observable):
             self.emit("replace")
             r = self.replace_tree(result)
             start = r.start if start == -1 else min (start, r.start)
-            end = r.end if end == -1 else max(c.new_position(end), r.end)
+            # the text length is up-to-date, also with the changes that were
+            # handled while building
+            end = r.end if end == -1 else max(end + self._text_length - length, r.end)
+            length = self._text_length
             if r.lexicons is not None:
                 lexicons = r.lexicons
             self._lock.acquire()
-- 
2.43.0


From 97449eecaf964302c0ba266d018c79cacacb05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:22 +0000
Subject: [PATCH 40/88] fix: keep all tokens of untransformed contexts in
 transform_text()

---
 parce/transform.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 8e44537..ed73565 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,17 +214,18 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
-            Returns the tree and the next event (if any), with adapted pop
-            value.
+            The lexemes are the first in the last of the lexicons. Returns the
+            tree and the next event (if any), with adapted pop value.
 
             """
             tree = context = Context(lexicons[0], None)
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
@@ -280,7 +281,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
@@ -288,7 +289,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From 8d7c05e00484ae442c9e2c1dc45b494b5732ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:22 +0000
Subject: [PATCH 41/88] fix: also call get_root/get_transform callbacks when
 the document is empty

---
 parce/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 8c13c64..41e8af5 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -532,7 +532,7 @@ class WorkerDocumentMixin:
         selfref = weakref.ref(self)
         def cb(worker):
             self = selfref()
-            if self:
+            if self is not None:
                 callback(self)
         return cb
 
-- 
2.43.0


From f4e9d8675deff414954569e4dc6c3696018065a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:47 +0000
Subject: [PATCH 42/88] fix: make connecting and emitting once-only callbacks
 thread-safe

---
 parce/util.py | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 10932d4..6d03294 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -300,6 +300,7 @@ class Observable:
     """
     def __init__(self):
         self._callbacks = {}
+        self._callbacks_lock = threading.RLock()
 
     def connect(self, event, func, once=False, prepend_self=False, priority=0):
         """Register a function to be called when a certain event occurs.
@@ -315,23 +316,22 @@ class Observable:
 
         """
         observer = _Observer(func, once, prepend_self, priority)
-        slots = self._callbacks.setdefault(event, [])
-        if observer not in slots:
-            bisect.insort_right(slots, observer)
+        with self._callbacks_lock:
+            slots = self._callbacks.setdefault(event, [])
+            if observer not in slots:
+                bisect.insort_right(slots, observer)
 
     def disconnect(self, event, func):
         """Remove a previously registered callback function."""
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return
         observer = _Observer(func)
-        try:
-            slots.remove(observer)
-        except ValueError:
-            return
-        if not slots:
-            del self._callbacks[event]
+        with self._callbacks_lock:
+            try:
+                slots = self._callbacks[event]
+                slots.remove(observer)
+            except (KeyError, ValueError):
+                return
+            if not slots:
+                del self._callbacks[event]
 
     def disconnect_all(self, event=None):
         """Disconnect all functions (from the event).
@@ -379,17 +379,21 @@ class Observable:
         except KeyError:
             return s
         def disconnect(observer):
-            # callbacks may connect or disconnect functions themselves
-            for i, o in enumerate(slots):
-                if o is observer:
-                    del slots[i]
-                    break
-            if not slots and self._callbacks.get(event) is slots:
-                del self._callbacks[event]
+            """Remove the observer, return True if it was still connected."""
+            # callbacks may connect or disconnect functions themselves, and
+            # another thread may be emitting the same event
+            with self._callbacks_lock:
+                for i, o in enumerate(slots):
+                    if o is observer:
+                        del slots[i]
+                        if not slots and self._callbacks.get(event) is slots:
+                            del self._callbacks[event]
+                        return True
+            return False
 
         for observer in slots[:]:
-            if observer.once:
-                disconnect(observer)
+            if observer.once and not disconnect(observer):
+                continue
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
-- 
2.43.0


From 6940b030663f66a88da915e4deda93a052e4ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:38 +0000
Subject: [PATCH 43/88] fix: let token() find the last token of the text when
 it ends at the position

---
 parce/work.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index 41e8af5..6fdca52 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -510,17 +510,17 @@ class WorkerDocumentMixin:
         different block. Returns None if there are no tokens in the block.
 
         """
-        token = self.get_root(True).find_token(pos)
-        if token:
-            if token.pos <= pos:
-                return token
-            # token is to the right, see if left token touches pos
-            left_token = token.previous_token()
-            if left_token and left_token.end == pos:
-                return left_token
-            # see if token (to the right) is on the same line
-            if self.block_separator not in self[pos:token.pos]:
-                return token
+        root = self.get_root(True)
+        token = root.find_token(pos)
+        if token and token.pos <= pos:
+            return token
+        # token is to the right (or there is none), see if left token touches pos
+        left_token = token.previous_token() if token else root.last_token()
+        if left_token and left_token.end == pos:
+            return left_token
+        # see if token (to the right) is on the same line
+        if token and self.block_separator not in self[pos:token.pos]:
+            return token
 
     def _callback_to_self(self, callback):
         """Return a callable that calls callback with self as first argument.
-- 
2.43.0


From 4fb6300b79a0ce46548109ace40582d6cce7adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 44/88] fix: keep waiting for the transform result when the
 transformer is replaced while running

---
 parce/work.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 6fdca52..f2c308c 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -209,7 +209,8 @@ class Worker(util.Observable):
                         if state is not None:
                             with c:
                                 if is_current():
-                                    self._transform_state = state
+                                    # not done when the transformer was replaced
+                                    self._transform_state = state if t is self._transformer else BUILD
                     self._transform_lock.acquire()
                     # if the transformer was replaced while running, start again
                     t, old = self._transformer, t
-- 
2.43.0


From 83689773e2719acd80ad16937ba19240c3e66997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:46 +0000
Subject: [PATCH 45/88] fix: resolve nested @import relative to the importing
 file and avoid endless recursion

---
 parce/css.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index c07c65c..9289578 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -224,9 +224,8 @@ class StyleSheet:
 
         """
         filenames = {filename}
-        imported_filenames = []
 
-        def get_import_rules(values):
+        def get_import_rules(values, filename, imported_filenames):
             """Yield rules from an @import at-rule.
 
             If the @import rule has a media query after the filename/url,
@@ -244,14 +243,13 @@ class StyleSheet:
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls.from_css(icss, fname, path, allow_import)
-                            yield Condition("import", values, s)
+                            yield Condition("import", values, get_sheet(icss, fname))
                         else:
                             imported_filenames.append(fname)
-                            yield from get_rules(icss)
+                            yield from get_rules(icss, fname, imported_filenames)
                     return
 
-        def get_rules(css):
+        def get_rules(css, filename, imported_filenames):
             """Get all CSS rules from the CSS structure, either as Rule or
             as Condition.
 
@@ -266,17 +264,23 @@ class StyleSheet:
                     # @-rule
                     if rule.keyword == "import":
                         if allow_import:
-                            rules.extend(get_import_rules(rule.contents))
+                            rules.extend(get_import_rules(rule.contents, filename, imported_filenames))
                         continue
                     elif isinstance(rule.block, list):
                         # nested @-rule
-                        rule = Condition(rule.keyword, rule.contents, cls.from_css(rule.block))
+                        rule = Condition(rule.keyword, rule.contents,
+                            cls(get_rules(rule.block, filename, imported_filenames)))
                 rules.append(rule)
             return rules
 
-        sheet = cls(get_rules(css), filename)
-        sheet._imported_filenames = imported_filenames
-        return sheet
+        def get_sheet(css, filename):
+            """Return the StyleSheet for the CSS structure from filename."""
+            imported_filenames = []
+            sheet = cls(get_rules(css, filename, imported_filenames), filename)
+            sheet._imported_filenames = imported_filenames
+            return sheet
+
+        return get_sheet(css, filename)
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From da8254e667f8a486af2fc184b959b1a8c92a9d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 46/88] fix: read CSS attribute selectors with whitespace after
 the bracket

---
 parce/css.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 9289578..d0ed758 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1003,7 +1003,9 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val is not None:
+                if attr is None:
+                    attr = i.obj    # there was whitespace after the [
+                elif val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 6bbd25e2c71a39ade654d586147f7127298829ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:52 +0000
Subject: [PATCH 47/88] fix: recognize CSS numbers with an exponent without
 sign

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..105a412 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -46,7 +46,7 @@ RE_CSS_ESCAPE = r"\\(?:[0-9A-Fa-f]{1,6} ?|.)"
 RE_CSS_NUMBER = (
     r"[+-]?"               # sign
     r"(?:\d*\.)?\d+"       # mantisse
-    r"(?:[Ee][+-]\d+)?")   # exponent
+    r"(?:[Ee][+-]?\d+)?")  # exponent
 # match either 8, 6, 4 or 3 hex digits
 RE_HEX_COLOR = r"#[0-9a-fA-F]{3}(?:[0-9a-fA-F]{5}|[0-9a-fA-F]{3}|[0-9a-fA-F]?)"
 
-- 
2.43.0


From 13d31ff45b54db100e6833406ddb568d83f2c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:55 +0000
Subject: [PATCH 48/88] fix: do not raise an exception on huge numbers in CSS
 rgb()

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index d0ed758..ac405f5 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1315,10 +1315,10 @@ class CssTransform(Transform):
         n = value.number
         if value.unit == "%":
             n = n * maximum / 100
-        if maximum == 255:
-            n = int(n)
         if n < 0: n = 0
         if n > maximum: n = maximum
+        if maximum == 255:
+            n = int(n)
         return n
 
 
-- 
2.43.0


From 4089914b0f50365191a5f06f517ec706a2dfbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:58 +0000
Subject: [PATCH 49/88] fix: do not make whitespace around the URL part of it
 in CSS url()

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index ac405f5..cc25299 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1113,7 +1113,7 @@ class CssTransform(Transform):
                     if i.action is a.Escape:
                         yield self.get_escape(i.text)
                     elif i.action is a.Literal.Url:
-                        yield i.text
+                        yield i.text.strip()
                 elif i.name in ('dqstring', 'sqstring'):
                     yield i.obj
         return Value(url=''.join(gen()))
-- 
2.43.0


From dfb2fb2490a25fdacccb4133b456e82fc5a69f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:01 +0000
Subject: [PATCH 50/88] fix: do not raise an exception on a CSS charset that is
 not a valid name

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index cc25299..29caaba 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -165,7 +165,7 @@ class StyleSheet:
             encoding = m.group(1).decode('latin1') if m else "utf-8"
         try:
             text = data.decode(encoding)
-        except (LookupError, UnicodeError):
+        except (LookupError, ValueError):
             text = data.decode('utf-8', 'replace')
         return cls.load_from_text(text)
 
-- 
2.43.0


From 6fe9b2e257a02de564ab81c6854640baef92a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 51/88] fix: keep CSS values with a slash together

---
 parce/lang/css.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 105a412..cc95993 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -121,6 +121,7 @@ class Css(Language):
         yield r";", Delimiter, -1
         yield r"!important\b", Keyword, -1
         yield from cls.common()
+        yield r"/", Delimiter
         yield r"\s+", skip  # stay here on whitespace only
         yield default_target, -1
 
-- 
2.43.0


From 09f8c34624c340330559a82727da952b918c9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:29 +0000
Subject: [PATCH 52/88] fix: quote strings that start with a digit and escape
 newlines in quote_if_needed()

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 29caaba..140e797 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1411,8 +1411,8 @@ def color2hex(color):
 
 def quote_if_needed(s):
     """Double-quote the string for CSS if it is not a valid ident-token."""
-    if not re.fullmatch(r'[\w-]+', s):
-        s = re.sub(r'[\\"]', lambda m: escape(m.group()), s)
+    if not re.fullmatch(r'(?!-?\d)[\w-]+', s):
+        s = re.sub(r'[\\"\n]', lambda m: escape(m.group()), s)
         return '"' + s + '"'
     return s
 
-- 
2.43.0


From c105f89a20439a3305ec8c5a80834fab3c1e69ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:32 +0000
Subject: [PATCH 53/88] fix: recognize circular CSS imports when the path is
 written differently

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 140e797..6e49e2a 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -223,7 +223,7 @@ class StyleSheet:
         ``allow_import`` is False, the @import atrule is ignored.
 
         """
-        filenames = {filename}
+        filenames = {os.path.normpath(filename)}
 
         def get_import_rules(values, filename, imported_filenames):
             """Yield rules from an @import at-rule.
@@ -235,7 +235,7 @@ class StyleSheet:
             for n, v in enumerate(values):
                 if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
-                    fname = os.path.join(os.path.dirname(filename), fname)
+                    fname = os.path.normpath(os.path.join(os.path.dirname(filename), fname))
                     # avoid circular @import references
                     if fname not in filenames:
                         filenames.add(fname)
-- 
2.43.0


From d4e519c6ecbba3f4472bcededc78440642daf153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 54/88] fix: leave the at-rule after a nested CSS block

---
 parce/lang/css.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index cc95993..015b8e9 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -212,6 +212,7 @@ class Css(Language):
     def atrule_nested(cls):
         """An atrule that has nested toplevel contents (@media, etc.)"""
         yield r"\{", Bracket, cls.atrule_nested_block
+        yield r";", Delimiter, -2  # also leave the atrule context
         yield from cls.atrule_common()
 
     @lexicon
@@ -229,7 +230,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule context
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From 56b66e681db50c9abc9308d9ab5db32871afd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:25 +0000
Subject: [PATCH 55/88] fix: give the CSS color name transparent its color

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 6e49e2a..223360e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1093,7 +1093,7 @@ class CssTransform(Transform):
             funcargs = items[-1].obj
             return self.get_css_function_call(text, funcargs)
         from .lang.css_words import CSS3_NAMED_COLORS
-        if action is a.Literal.Color or text in CSS3_NAMED_COLORS:
+        if text == "transparent" or text in CSS3_NAMED_COLORS:
             color = self.get_named_color(text)
             return Value(color=color, text=text)
         return Value(text=text)
-- 
2.43.0


From ab8f79d35c50bfe29316681579c3a7b47cecee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:16 +0000
Subject: [PATCH 56/88] fix: do not take the line height in the CSS font
 property for the font size

---
 parce/theme.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index f4dada3..85ae541 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,8 +257,10 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            # skip delimiters such as the comma
-            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
+            # skip delimiters such as the comma, and a value after a slash
+            # (e.g. the line height in ``font``), which we do not support
+            self._dispatch(prop, [v for v, prev in zip(values, [None] + list(values))
+                if isinstance(v, css.Value) and prev != "/"])
 
     def __bool__(self):
         """Return True if at least one property is set."""
-- 
2.43.0


From 5824a4a02fe780208f259211a51d0501299d0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 57/88] fix: write the percent sign of a font-stretch
 percentage

---
 parce/theme.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 85ae541..0a1dcb8 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -349,7 +349,8 @@ class TextFormat:
         elif self.font_style:
             yield "font-style", self.font_style
         if self.font_stretch:
-            yield "font-stretch", format(self.font_stretch)
+            stretch = self.font_stretch
+            yield "font-stretch", stretch if isinstance(stretch, str) else "{}%".format(stretch)
         if self.font_kerning:
             yield "font-kerning", self.font_kerning
         if self.font_variant_caps:
-- 
2.43.0


From 4faf9cbada128b31abe43436786fbe40592050b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 58/88] fix: escape the base format in the style attribute of
 the full HTML

---
 parce/out/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index 8cf5993..ae183e1 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -82,7 +82,7 @@ class HtmlMixin:
         """
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
-            baseformat = self.baseformat() or "",
+            baseformat = attrescape(self.baseformat() or ""),
             html = self.html(cursor))
 
 
-- 
2.43.0


From 099521bbf72c131e58e0c7d86e4086155b588de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:24 +0000
Subject: [PATCH 59/88] fix: keep an empty first line in the full HTML

---
 parce/out/html.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index ae183e1..0f779c0 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -80,10 +80,13 @@ class HtmlMixin:
         when writing the HTML to an output device.
 
         """
+        html = self.html(cursor)
+        if html.startswith("\n"):
+            html = "\n" + html     # HTML ignores a newline right after <pre>
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
             baseformat = attrescape(self.baseformat() or ""),
-            html = self.html(cursor))
+            html = html)
 
 
 class HtmlFormatter(HtmlMixin, parce.formatter.Formatter):
-- 
2.43.0


From 5494f6d7ec35e895fbb8277b01bb7d9636caba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:25 +0000
Subject: [PATCH 60/88] fix: do not keep the unit or angle of another value
 when reading a TextFormat

---
 parce/theme.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/theme.py b/parce/theme.py
index 0a1dcb8..1ed561a 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -447,6 +447,7 @@ class TextFormat:
                           "large", "x-large", "xx-large", "xxx-large",
                           "larger", "smaller"):
                 self.font_size = v.text
+                self.font_size_unit = None
                 return
             elif v.number is not None:
                 self.font_size = v.number
@@ -472,6 +473,7 @@ class TextFormat:
                 return
             elif v.text == "oblique":
                 self.font_style = v.text
+                self.font_style_angle = self.font_style_angle_unit = None
                 if n and n.number is not None:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
-- 
2.43.0


From 7c4f7128dd1235a8ef7adec33ec6877210b0323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:38 +0000
Subject: [PATCH 61/88] fix: ignore an encoding declaration with a null
 character

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index 783bfe9..106d0f4 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -336,6 +336,6 @@ def _validate_encoding(encoding):
         try:
             "".encode(encoding)
             return encoding
-        except (LookupError, UnicodeError):
+        except (LookupError, ValueError):
             pass    # unknown, or not a text encoding
 
-- 
2.43.0


From 5e5ebe0e04412718add24f14adee56874038b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:41 +0000
Subject: [PATCH 62/88] fix: write a BOM again when saving a document that was
 loaded with an UTF-16 or UTF-32 BOM

---
 parce/docio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parce/docio.py b/parce/docio.py
index 106d0f4..1846e4a 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -301,6 +301,10 @@ def decode_data(
     # or determined via the BOM.
     if not encoding:
         encoding = doc_enc or read_enc
+        # with a BOM the byte order needs not to be specified; remember the
+        # encoding that writes the BOM, so the text can be read again
+        if read_enc and re.fullmatch(r'utf[-_]?(?:16|32)[-_]?[lb]e', encoding, re.IGNORECASE):
+            encoding = "utf_16" if "16" in encoding else "utf_32"
 
     # now let Python decode the text
     text = io.TextIOWrapper(io.BytesIO(data), actual_read_enc, errors, newline).read()
-- 
2.43.0


From f1b90f8fcc10911a5a5346ff41f4f0b486b56cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 63/88] fix: find the encoding in XML and HTML also in single
 quoted attributes

---
 parce/lang/html.py | 2 +-
 parce/lang/xml.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index 7e1e94c..ff9ed69 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -113,7 +113,7 @@ class XHtmlIO(XmlIO):
             for attr in attrs.query.children.action(Name.Attribute):
                 a = attr.text.lower()
                 v = ""
-                for value in attr.query.right_siblings(XHtml.dqstring)[0]:
+                for value in attr.query.right_siblings(XHtml.dqstring, XHtml.sqstring)[0]:
                     v = value.text
                     break
                 if a == "charset" and v:
diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index 8aaac73..e95a9a2 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -235,6 +235,6 @@ class XmlIO(docio.IO):
         tree = root(Xml.root, text)
         for enc in tree.query.children(Xml.processing_instruction) \
             .children.action(Name.Attribute)('encoding') \
-            .right_siblings(Xml.dqstring)[0]:
+            .right_siblings(Xml.dqstring, Xml.sqstring)[0]:
             return enc.text
 
-- 
2.43.0


From 3be598969af9c03a1fb4bd3fe7784ee778d52c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:57 +0000
Subject: [PATCH 64/88] fix: find the encoding also in an upper case HTML meta
 tag

---
 parce/lang/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index ff9ed69..390db6e 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -107,7 +107,7 @@ class XHtmlIO(XmlIO):
 
         tree = root(XHtml.root, text)
         tag_action = parce.ruleitem.evaluate(XHtml.tag_action(), {'text': 'meta'})
-        for attrs in tree.query.all.action(tag_action)('meta').right(XHtml.attrs):
+        for attrs in tree.query.all.action(tag_action).matching(re.compile('^meta$', re.IGNORECASE)).right(XHtml.attrs):
             http_equiv = False
             enc = None
             for attr in attrs.query.children.action(Name.Attribute):
-- 
2.43.0


From 1d7d76b3a2c932e3ca2b4e480ed64cd0921dc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 65/88] fix: guess TOML and CSS from a section header and a
 media rule

---
 parce/lang/_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/_registry.py b/parce/lang/_registry.py
index bc4cc76..b39f99e 100644
--- a/parce/lang/_registry.py
+++ b/parce/lang/_registry.py
@@ -62,7 +62,7 @@ register("parce.lang.css.Css.root",
     section = "Markup",
     filenames = [("*.css", 1)],
     mimetypes = [("text/css", 1)],
-    guesses = [(r'\b@media\b', 0.5), (r'\bdiv\b', 0.1), (r'\bbody\s*\{', 0.4)],
+    guesses = [(r'@media\b', 0.5), (r'\bdiv\b', 0.1), (r'\bbody\s*\{', 0.4)],
 )
 
 register("parce.lang.csv.Csv.root",
@@ -237,7 +237,7 @@ register("parce.lang.toml.Toml.root",
     section = "Other",
     filenames = [("*.toml", 1), ("*.tml", .5)],
     mimetypes = [("application/toml", 1)],
-    guesses = [(r'^\s*\[\\w+(\.(w+))*\]', 0.5), (r"^\s*#", 0.05)],
+    guesses = [(r'^\s*\[\w+(\.\w+)*\]', 0.5), (r"^\s*#", 0.05)],
 )
 
 register("parce.lang.html.XHtml.root",
-- 
2.43.0


From 8ec211bcf7022c46f9c204a644124b9f6b462b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:18 +0000
Subject: [PATCH 66/88] fix: keep the precision of large integers in
 JsonTransform

---
 parce/lang/json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index f916310..d9b2cd3 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -110,9 +110,12 @@ class JsonTransform(Transform):
         for i in items:
             if i.is_token:
                 if i.action is Number:
-                    n = float(i.text)
-                    if n.is_integer():
-                        n = int(n)
+                    try:
+                        n = int(i.text)
+                    except ValueError:
+                        n = float(i.text)
+                        if n.is_integer():
+                            n = int(n)
                     yield n
                 elif i.action is Name.Constant:
                     yield JSON_CONSTANTS[i.text]
-- 
2.43.0


From 352a3223704b638f36de7f881a6e1e8c19f43d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:39 +0000
Subject: [PATCH 67/88] fix: combine escaped surrogate pairs in JsonTransform

---
 parce/lang/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index d9b2cd3..733c97a 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -149,4 +149,7 @@ class JsonTransform(Transform):
                         yield JSON_ESCAPE_CHARS[t.text[1]]
                 else:
                     yield t.text
-        return ''.join(gen())
+        text = ''.join(gen())
+        # combine escaped surrogate pairs
+        return re.sub('[\ud800-\udbff][\udc00-\udfff]', lambda m:
+            m.group().encode('utf-16', 'surrogatepass').decode('utf-16'), text)
-- 
2.43.0


From 636db726ef60a838507f64aea142b6eabe7b45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:41 +0000
Subject: [PATCH 68/88] fix: IniTransform failed on a section name starting
 with a backslash

---
 parce/lang/ini.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 392b73c..7893805 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -124,17 +124,18 @@ class IniTransform(Transform):
         """Return a string, handling escaped characters, stripping spaces."""
         result = []
         if items:
-            # de-tokenize
-            items = [t.text for t in items]
-            # strip whitespace, but not from escapes
-            if not items[0].startswith('\\'):
-                items[0] = items[0].lstrip(' \t')
-            if not items[-1].startswith('\\'):
-                items[-1] = items[-1].rstrip(' \t')
-            # unescape
-            for t in items:
-                if t.startswith('\\'):
+            last = len(items) - 1
+            for i, token in enumerate(items):
+                t = token.text
+                if token.action is Escape:
+                    # unescape
                     t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else t[1]
+                else:
+                    # strip whitespace, but not from escapes
+                    if i == 0:
+                        t = t.lstrip(' \t')
+                    if i == last:
+                        t = t.rstrip(' \t')
                 result.append(t)
         return ''.join(result)
 
-- 
2.43.0


From a5c06b8cab60d12512fc528661a2d84043827be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:44 +0000
Subject: [PATCH 69/88] fix: IniTransform returned the letter for an escaped
 control character

---
 parce/lang/ini.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 7893805..43f9c8a 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -35,6 +35,16 @@ from parce.action import (
 from parce.transform import Transform
 
 
+INI_ESCAPE_CHARS = {
+    '0': '\0',  # 0x00 Null character
+    'a': '\a',  # 0x07 Bell
+    'b': '\b',  # 0x08 Backspace
+    't': '\t',  # 0x09 Tab
+    'r': '\r',  # 0x0d Carriage return
+    'n': '\n',  # 0x0a New line
+}
+
+
 class Ini(Language):
     @lexicon
     def root(cls):
@@ -129,7 +139,7 @@ class IniTransform(Transform):
                 t = token.text
                 if token.action is Escape:
                     # unescape
-                    t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else t[1]
+                    t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else INI_ESCAPE_CHARS.get(t[1], t[1])
                 else:
                     # strip whitespace, but not from escapes
                     if i == 0:
-- 
2.43.0


From 4c2cd09afc70dc2c7103c243e030493721b061c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:47 +0000
Subject: [PATCH 70/88] fix: value of more than one unknown digit in Scheme
 numbers

---
 parce/lang/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/scheme.py b/parce/lang/scheme.py
index 4325e19..0a6c04f 100644
--- a/parce/lang/scheme.py
+++ b/parce/lang/scheme.py
@@ -224,7 +224,7 @@ def scheme_number(tokens):
             if t.action is mantisse_action:
                 v = int(t.text, radix)
             elif t.action is Number.Special.UnknownDigit:
-                v *= radix * len(t.text)
+                v *= radix ** len(t.text)
                 return float(v) if not exact else v
             else:
                 raise ValueError("unknown token in radix {}: {}".format(radix, repr(t.text)))
-- 
2.43.0


From 7b51043ff8cdcea796b37cef0cbb51aa6f723ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:02 +0000
Subject: [PATCH 71/88] fix: French numbers 70-79 and 90-99

---
 parce/lang/numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 2ff9653..6e6975e 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -419,8 +419,8 @@ class Français(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
-        yield r'({})[\s-]*({})'.format(
-            words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
+        yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
+            words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
         # vingt, treize, quatorze, cinquante, soixante, quatre-vingt (+ 0-9)
         tens = cls._TENS[:5] + cls._TENS[6:7]
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
-- 
2.43.0


From baa5a451eced71d34f80423940ae79a82e5cfdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:05 +0000
Subject: [PATCH 72/88] fix: recognize the German plural Millionen

---
 parce/lang/numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 6e6975e..bcf7cba 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -353,7 +353,7 @@ class Deutsch(Numbers):
     """
     _TENS = DEUTSCH_TENS
     _TO19 = DEUTSCH_TO19
-    _HUNDRED, _THOUSAND, _MILLION = "hundert", "tausend", "million"
+    _HUNDRED, _THOUSAND, _MILLION = "hundert", "tausend", "million(?:en)?"
 
     @lexicon(re_flags=re.IGNORECASE)
     def n99(cls):
-- 
2.43.0


From 300d55afdbc4f198a35f038adf172ef322b83a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:16 +0000
Subject: [PATCH 73/88] fix: French quatre-vingts before a multiplier

---
 parce/lang/numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index bcf7cba..b26e09f 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -418,6 +418,7 @@ class Français(Numbers):
     def n99(cls):
         """Numerical value below 100."""
         yield _SKIP
+        yield words(('quatre-vingts', 'zero')), Number, -1
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
         yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
             words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
@@ -426,7 +427,6 @@ class Français(Numbers):
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
             words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
         yield words(cls._TO19), Number, -1
-        yield words(('quatre-vingts', 'zero')), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 639c09f770809cdace6dc8f1efc74c6c8c257378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:19 +0000
Subject: [PATCH 74/88] fix: Dutch and German tens like zeventig and vierzig

---
 parce/lang/numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index b26e09f..1e6c563 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -308,10 +308,10 @@ class Nederlands(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         yield words(cls._TO19[10:]), Number, -1
+        yield words(cls._TENS), Number, -1
         yield r'({})(?:\s*[eë]n\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(cls._TENS)), bygroup(Number, Number), -1
-        yield words(cls._TENS), Number, -1
         yield cls._TO19[0], Number, -1
         yield default_target, -1
 
@@ -361,10 +361,10 @@ class Deutsch(Numbers):
         yield _SKIP
         TENS = cls._TENS + ('dreissig',)
         yield words(cls._TO19[10:]), Number, -1
+        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
         yield r'({})(?:\s*und\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(TENS)), bygroup(Number, Number), -1
-        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 51e427ac6ef1fa7f962f3b7e8305b533acf3373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:39 +0000
Subject: [PATCH 75/88] fix: CsvTransform failed on a quoted string that is
 just opened

---
 parce/lang/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/csv.py b/parce/lang/csv.py
index 0e4d2be..1580ab8 100644
--- a/parce/lang/csv.py
+++ b/parce/lang/csv.py
@@ -93,7 +93,7 @@ class CsvTransform(Transform):
 
         """
         start, end = 0, len(items) - 1
-        while items[start].action in (a.Invalid, a.String.Start):
+        while start <= end and items[start].action in (a.Invalid, a.String.Start):
             start += 1
         while end >= start and items[end].action in (a.String.End, a.Invalid):
             end -= 1
-- 
2.43.0


From 2de60bdbc899d9b2257daad0a50babc80ba0dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:29 +0000
Subject: [PATCH 76/88] fix: Switch in a class forgot the state of its
 instances

---
 parce/util.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 6d03294..17fb861 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -448,6 +448,10 @@ class Switch:
     def __init__(self):
         self._value = 0
 
+    def __set_name__(self, owner, name):
+        # used as a class attribute, store the Switch objects per instance
+        self._value = weakref.WeakKeyDictionary()
+
     def __enter__(self):
         self._value += 1
 
@@ -458,15 +462,9 @@ class Switch:
         return bool(self._value)
 
     def __get__(self, instance, owner):
-        try:
-            return self._value[instance]
-        except TypeError:
-            # value still was 0, replace it with a weakref dict
-            self._value = weakref.WeakKeyDictionary()
-        except KeyError:
-            pass
-        s = self._value[instance] = type(self)()
-        return s
+        if instance is None:
+            return self
+        return self._value.setdefault(instance, type(self)())
 
 
 def object_locker():
-- 
2.43.0


From 7273eae3ec785b68df9fe42e70cb9ef0ff498259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:32 +0000
Subject: [PATCH 77/88] fix: file_cache failed on a file with mtime -1

---
 parce/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/util.py b/parce/util.py
index 17fb861..a94df87 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -626,7 +626,7 @@ def file_cache(func):
                 try:
                     mtime, value = super().__getitem__(key)
                 except KeyError:
-                    mtime = -1
+                    mtime = None
                 try:
                     new_mtime = os.path.getmtime(key)
                 except OSError:
-- 
2.43.0


From bb3bc97fdfa91c45378a3311463aeb2c89a8038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:11 +0000
Subject: [PATCH 78/88] fix: Observable.is_connected() while another thread
 disconnects

---
 parce/util.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index a94df87..258ce49 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -358,11 +358,9 @@ class Observable:
 
     def is_connected(self, event, func):
         """Return True if func is connected to event."""
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return False
-        return _Observer(func) in slots
+        observer = _Observer(func)
+        with self._callbacks_lock:
+            return observer in self._callbacks.get(event, ())
 
     def emit(self, event, *args, **kwargs):
         """Call all callbacks for the event.
-- 
2.43.0


From c9f16f06135dd140847cb909f126722e4ad211d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:08 +0000
Subject: [PATCH 79/88] fix: validator failed on an empty rule in the lexicon a
 default target leads to

---
 parce/validate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/validate.py b/parce/validate.py
index 3a33374..1d32854 100644
--- a/parce/validate.py
+++ b/parce/validate.py
@@ -166,8 +166,9 @@ class LexiconValidator:
                     # run away default states creating new contexts all the time
                     self.error("circular default target: {}".format(lexicons), lexicon)
                 return
-            for pattern, *target in lexicon.rules:
-                if pattern is parce.default_target:
+            for rule in lexicon.rules:
+                if rule and rule[0] is parce.default_target:
+                    target = rule[1:]
                     break
             else:
                 break
-- 
2.43.0


From b4890d8568bb586103ef7ff96ab30d7b534a1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 80/88] fix: endless loop when a zero-width rule pops in the
 root lexicon

---
 parce/lexer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..d683be8 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -154,6 +154,13 @@ class Lexer:
                         circular.clear()
                         pos += len(txt)
                     else:
+                        if not target.pop and not target.push:
+                            # the root lexicon can't be left, nothing changes
+                            if pos >= len(text):
+                                return
+                            pos += 1
+                            circular.clear()
+                            break
                         if target.pop:
                             del lexicons[target.pop:]
                         state = (pos, len(lexicons), len(target.push))
-- 
2.43.0


From a4932f6f314296fbce9f46cf80e661abf0d4d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 81/88] fix: dump() of a deeply nested tree exceeded the
 recursion limit

---
 parce/tree.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/parce/tree.py b/parce/tree.py
index 0dec91b..b222ac2 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -100,18 +100,20 @@ class Node:
         choose any style that's in the ``DUMP_STYLES`` dictionary.
 
         """
-        i = 2
         d = DUMP_STYLES[style or DUMP_STYLE_DEFAULT]
-        prefix = []
-        node = self
-        for _ in range(depth):
-            prefix.append(d[i + int(node.is_last())])
-            node = node.parent
-            i = 0
-        print("".join(reversed(prefix)) + repr(self), file=file)
-        if self.is_context:
-            for n in self:
-                n.dump(file, style, depth + 1)
+        stack = [(self, depth)]
+        while stack:
+            n, depth = stack.pop()
+            i = 2
+            prefix = []
+            node = n
+            for _ in range(depth):
+                prefix.append(d[i + int(node.is_last())])
+                node = node.parent
+                i = 0
+            print("".join(reversed(prefix)) + repr(n), file=file)
+            if n.is_context:
+                stack.extend((m, depth + 1) for m in reversed(n))
 
     @property
     def pwd(self):
-- 
2.43.0


From 66654e9ee63c616fb190a255c3cd8cb72bb714af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:24 +0000
Subject: [PATCH 82/88] fix: exponent sign is optional in Python and JavaScript
 numbers

---
 parce/lang/javascript.py | 2 +-
 parce/lang/python.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/javascript.py b/parce/lang/javascript.py
index 197d807..3f9008b 100644
--- a/parce/lang/javascript.py
+++ b/parce/lang/javascript.py
@@ -42,7 +42,7 @@ RE_JS_ESCAPE_CHAR = r'\\u[0-9a-fA-F]{4}'
 RE_JS_IDENT_TOKEN = _I_ = fr'(?:[{RE_JS_IDENT_STARTCHAR}]|{RE_JS_ESCAPE_CHAR})' \
                 fr'(?:[{RE_JS_IDENT_CHAR}]|{RE_JS_ESCAPE_CHAR})*'
 
-RE_JS_DECIMAL_NUMBER = r'\d+(?:_\d+)*n|(?:\.\d+(?:_\d+)*|\d+(?:_\d+)*(?:\.(?:\d+(?:_\d+)*)?)?)(?:[eE][-+]\d+(?:_\d+)*)?'
+RE_JS_DECIMAL_NUMBER = r'\d+(?:_\d+)*n|(?:\.\d+(?:_\d+)*|\d+(?:_\d+)*(?:\.(?:\d+(?:_\d+)*)?)?)(?:[eE][-+]?\d+(?:_\d+)*)?'
 RE_JS_REGEXP = r'/(?:\\.|[^\\\n/\[]|\[(?:\\.|[^\\\n\]])*\])+/[gimsuy]?'
 
 class JavaScript(Language):
diff --git a/parce/lang/python.py b/parce/lang/python.py
index 8c7afae..7cf6f64 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -79,7 +79,7 @@ class Python(Language):
         yield '0[oO](?:_?[0-7])+', Number.Octal
         yield '0[bB](?:_?[01])+', Number.Binary
         yield '0[xX](?:_?[0-9a-fA-F])+', Number.Hexadecimal
-        yield r'(?:\.\d(?:_?\d)*|\d(?:_?\d)*(?:\.(?:\d(?:_?\d)*)?)?)(?:[eE][-+]\d(?:_?\d)*)?[jJ]?', Number
+        yield r'(?:\.\d(?:_?\d)*|\d(?:_?\d)*(?:\.(?:\d(?:_?\d)*)?)?)(?:[eE][-+]?\d(?:_?\d)*)?[jJ]?', Number
 
         ## keywords, variables, functions
         yield words(python_words.keywords, prefix=r'\b', suffix=r'\b'), Keyword
-- 
2.43.0


From d1faf911d98cfe9f2948a52e2c944f34d70dcd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:27 +0000
Subject: [PATCH 83/88] fix: url in a comment does not swallow the end of a XML
 comment

---
 parce/language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/language.py b/parce/language.py
index aa7e99e..01aff26 100644
--- a/parce/language.py
+++ b/parce/language.py
@@ -53,7 +53,7 @@ class Language(metaclass=_LanguageType):
 
         """
         yield r'\b\w+(?:[.%+-]\w+)*@\w+(?:[.-]\w+)*\b', a.Comment.Email
-        yield r'(?:(?:https?|ftp):/|\bwww\.)(?:[\w_~:/#-]+([.?=][\w_~:/#-]+)*|\([\w._~:?/#-]*\))+', a.Comment.Url
+        yield r'(?:(?:https?|ftp):/|\bwww\.)(?:(?:[\w_~:/#]|-(?!->))+([.?=](?:[\w_~:/#]|-(?!->))+)*|\([\w._~:?/#-]*\))+', a.Comment.Url
         yield r"\b(ALERT|BUG|FIXME|TEMP|TODO|XXX+)\b", a.Comment.Alert
         yield parce.default_action, a.Comment
 
-- 
2.43.0


From c73927314aed619b73442951ecebe4c9ce868f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 84/88] fix: HTML script, style and void tags in upper case,
 also inside other tags

---
 parce/lang/html.py | 8 ++++----
 parce/lang/xml.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index 390db6e..1472a3a 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -30,7 +30,7 @@ import re
 
 from parce import Language, lexicon, default_target, root
 from parce.action import Delimiter, Name, Operator, String
-from parce.rule import ARG, MATCH, TEXT, bygroup, dselect, using, words
+from parce.rule import ARG, MATCH, TEXT, bygroup, call, dselect, using, words
 
 from parce.lang.xml import Xml, XmlIO
 from parce.lang.css import Css
@@ -49,7 +49,7 @@ class XHtml(Xml):
     @lexicon(re_flags=re.IGNORECASE)
     def root(cls):
         yield r'(<)(style|script)\b(>|/\s*>)?', bygroup(Delimiter, cls.tag_action(), Delimiter), \
-            dselect(MATCH[2], {
+            dselect(call(str.lower, MATCH[2]), {
                 "style": dselect(MATCH[3], {'>': cls.css_style_tag, None: cls.attrs("css")}),
                 "script": dselect(MATCH[3], {'>': cls.script_tag, None: cls.attrs("js")}),
             })  # by default a close tag, stay in the context.
@@ -69,13 +69,13 @@ class XHtml(Xml):
     @lexicon
     def script_tag(cls):
         """Stuff between <script> and </script>."""
-        yield r'(<\s*/)\s*(script)\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
+        yield r'(<\s*/)\s*((?i:script))\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
         yield from JavaScript.root
 
     @lexicon
     def css_style_tag(cls):
         """Stuff between <style> and </style>."""
-        yield r'(<\s*/)\s*(style)\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
+        yield r'(<\s*/)\s*((?i:style))\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
         yield from Css.root
 
     @lexicon
diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index e95a9a2..18bd80c 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -102,7 +102,7 @@ class Xml(_XmlBase):
         yield r'&\S*?;', Escape
         yield default_action, select(call(str.isspace, TEXT), Text, Whitespace)
 
-    @lexicon
+    @lexicon(re_flags=re.IGNORECASE)
     def tag(cls):
         yield from cls.root()
 
-- 
2.43.0


From 87d9890c64863a12f4fa05fa79c4e027f24d8c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:43 +0000
Subject: [PATCH 85/88] fix: Python == is a comparison, not two assignments

---
 parce/lang/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 7cf6f64..4023523 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -56,7 +56,7 @@ class Python(Language):
         yield fr'(def\b){_S_}*({_I_})', bygroup(Keyword,
             ifmember(MATCH[2], python_words.keywords, Invalid, Name.Function.Definition)), cls.funcdef
         yield fr':(?={_S_}*(?:$|#))', Delimiter.Indent
-        yield fr'({_I_})\s*(=)', bygroup(
+        yield fr'({_I_})\s*(=)(?!=)', bygroup(
             select(call(str.isupper, TEXT),
                    select(call(isclassname, TEXT), Name.Variable, Name.Class),
                    Name.Constant),
@@ -114,7 +114,7 @@ class Python(Language):
 
         ## delimiters, operators
         yield r'\.\.\.', Delimiter.Special.Ellipsis
-        yield r'(?:\*\*|//|<<|>>|[-+*/%@&|^:])?=', Operator.Assignment
+        yield r'(?:\*\*|//|<<|>>|[-+*/%@&|^:])?=(?!=)', Operator.Assignment
         yield r'\*\*|//|<<|>>|[<>=!]=|[-+*/%@&|^~<>]', Operator
         yield r'[.;,:]', Delimiter
 
-- 
2.43.0


From 8c199a59a1c85613a9088e783e0e0c0bd55c17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:46 +0000
Subject: [PATCH 86/88] fix: Python self[ and cls( are not one token

---
 parce/lang/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 4023523..41b4822 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -84,7 +84,8 @@ class Python(Language):
         ## keywords, variables, functions
         yield words(python_words.keywords, prefix=r'\b', suffix=r'\b'), Keyword
         yield words(python_words.constants, prefix=r'\b', suffix=r'\b'), Name.Constant
-        yield fr'\b(self|cls)\b(?:{_SN_}*([\[\(]))?', Name.Variable.Special, \
+        yield fr'\b(self|cls)\b(?:{_SN_}*([\[\(]))?', \
+            bygroup(Name.Variable.Special, Delimiter), \
             dselect(MATCH[2], {'(': cls.call, '[': cls.item})
         # method, class or attribute (keywords after a . are also caught)
         yield fr'(\.){_SN_}*\b({_I_})\b(?:{_SN_}*([\[\(]))?', \
-- 
2.43.0


From 9c96e919a74b12168adff5d75e0c30ed00a3d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:49 +0000
Subject: [PATCH 87/88] fix: end of Python raw long strings and continuation
 lines in short strings

---
 parce/lang/python.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 41b4822..cc347c4 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -262,7 +262,7 @@ class Python(Language):
     @classmethod
     def short_string_common(cls):
         yield arg(), String.End, -1
-        yield pattern(ifeq(ARG, "'", r"[^']*?$", r'[^"]*?$')), String.Invalid, -1
+        yield pattern(ifeq(ARG, "'", r"[^\\']*?$", r'[^\\"]*?$')), String.Invalid, -1
         yield default_action, String
 
     @classmethod
@@ -280,7 +280,7 @@ class Python(Language):
 
     @lexicon
     def long_string_raw(cls):
-        yield arg(prefix=r'\\'), String  # escape quote, but the \ remains
+        yield r'''\\[\\'"]''', String  # escape quote, but the \ remains
         yield from cls.long_string_common()
 
     @lexicon
@@ -291,7 +291,7 @@ class Python(Language):
 
     @lexicon
     def long_string_raw_format(cls):
-        yield arg(prefix=r'\\'), String  # escape quote, but the \ remains
+        yield r'''\\[\\'"]''', String  # escape quote, but the \ remains
         yield from cls.string_formatstring()
         yield from cls.long_string_common()
 
@@ -382,12 +382,13 @@ class Python(Language):
 
     @lexicon
     def long_bytes_raw(cls):
+        yield r'''\\[\\'"]''', Bytes  # escape quote, but the \ remains
         yield from cls.long_bytes_common()
 
     @classmethod
     def short_bytes_common(cls):
         yield arg(), Bytes.End, -1
-        yield pattern(ifeq(ARG, "'", r"[^']*?$", r'[^"]*?$')), Bytes.Invalid, -1
+        yield pattern(ifeq(ARG, "'", r"[^\\']*?$", r'[^\\"]*?$')), Bytes.Invalid, -1
         yield default_action, Bytes
 
     @classmethod
-- 
2.43.0


From 01b6c369e6183e4fca6261a9ad579ac01f9f4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:44 +0000
Subject: [PATCH 88/88] fix: Python format specs are no code: # ' " and
 brackets in it are literal

---
 parce/lang/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index cc347c4..274216f 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -324,7 +324,9 @@ class Python(Language):
     def string_format_spec(cls):
         yield r'\{', Delimiter, cls.string_format_spec_nested
         yield r'\}', Delimiter.Template, -2
-        yield from cls.common() # TODO maybe really parse format strings
+        # TODO maybe really parse format strings
+        yield r'\d+', Number
+        yield default_action, Character
 
     @lexicon
     def string_format_spec_nested(cls):
-- 
2.43.0

