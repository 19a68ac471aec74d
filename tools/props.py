# The properties; executed by mkdocs.py.
MON = "runtime monitoring: "
NOTE = ("Monitored executions of the real code on a seeded random, hostile and stress workload; "
        "says nothing about inputs and schedules that were not run. ")

prop("P01", "Tokens are faithful, ordered, non-overlapping pieces of the text",
     "For any language definition and any text, every token the lexer reports and every token in the tree has exactly the characters "
     "found at its position in the text, is not empty, and starts at or after the end of the previous token. No lexing event ever pops the root "
     "context or has an empty effect, each context in a tree holds at least one node and knows its parent, and lexing ends with any lexicon as root.",
     ["inputs", "programs"], "all language definitions (bundled and user written) and all texts",
     "the tests lex a handful of fixed texts in a few languages; the guarantee is over every text and every language definition",
     ["parce/lexer.py", "parce/lexicon.py", "parce/treebuilder.py", "parce/tree.py", "parce/lang/"],
     [("Lexer.events", "parce/lexer.py"), ("Lexicon.parse", "parce/lexicon.py"), ("build_tree", "parce/treebuilder.py")],
     MON + "online event-stream and tree monitors on bundled and generated languages", NOTE,
     ["parce.events()", "parce.root()", "Context.tokens()"])

prop("P02", "The lexer does exactly what the language definition says",
     "Lexing a text yields the same events, actions, targets and tree as interpreting the language definition naively: at each "
     "position the first matching rule of the current lexicon wins, text that no rule matches is skipped or given the default action or target, "
     "and flags, words and character rules, groups, included rules, derived lexicons, dynamic actions and targets, consume, delegation and pushes "
     "and pops act as documented.",
     ["inputs", "programs"], "all language definitions over the documented rule items, and all texts",
     "the tests have a few example languages; the optimisations (combined patterns, word lists, single-pattern shortcuts) depend on "
     "the combination of rules in a lexicon",
     ["parce/lexicon.py", "parce/lexer.py", "parce/rule.py", "parce/ruleitem.py", "parce/target.py", "parce/regex.py"],
     [("Lexicon.get_parse", "parce/lexicon.py"), ("Lexer", "parce/lexer.py"), ("TargetFactory", "parce/target.py"), ("rule items", "parce/rule.py")],
     MON + "differential oracle (naive reference lexer) on generated languages", NOTE + "Trusts the reference lexer in lib/langspec.py.",
     ["parce.events()", "parce.root()", "Lexer.lexicons"])

prop("P03", "Lexicons and standard actions are unique objects, also between threads",
     "Asking a language for a lexicon, asking a lexicon for its variant with a given argument, and building a standard action by name always gives the same "
     "object for the same request and different objects for different requests, however many threads ask at the same time. "
     "A derived lexicon equals the lexicon it derives from and keeps its argument; a subclass has its own lexicons, which use overriding definitions; "
     "membership, iteration and common-ancestor of actions follow their names.",
     ["schedules", "inputs", "histories"], "all requests in all orders from all threads",
     "the tests request each object once in one thread",
     ["parce/lexicon.py", "parce/standardaction.py", "parce/language.py", "parce/util.py"],
     [("Lexicon.__call__ / LexiconDescriptor.__get__ with locks", "parce/lexicon.py"), ("StandardAction instance cache", "parce/standardaction.py")],
     MON + "thread stress with identity monitor, and model-based operation histories", NOTE,
     ["Language.<lexicon>", "Lexicon.__call__", "StandardAction"])

prop("P04", "Navigating, searching and editing a tree agrees with its nodes",
     "Every navigation and position search on a tree (ancestors, siblings, forward and backward tokens, first and last, find by position, ranges and their "
     "slices, groups, common ancestors, paths) gives exactly the nodes that a plain left-to-right scan over all nodes gives. "
     "Copying a tree gives an equal, fully separate tree, and deleting a node removes precisely that node and the ancestors left without children. dump() draws exactly the tree.",
     ["inputs", "programs"], "all trees, all nodes in them and all text positions",
     "tests call a few methods on one or two small trees",
     ["parce/tree.py"],
     [("Node/Token/Context methods", "parce/tree.py"), ("Range", "parce/tree.py")],
     MON + "every navigation call compared with a linear scan oracle", NOTE, ["parce.tree.Node", "Context", "Token", "Range"])

prop("P05", "Tree queries select exactly the nodes their steps describe",
     "A chain of query steps (navigation, filters on text, action, lexicon, position, name and their negations) yields the same nodes in the same order as "
     "applying each documented step to the previous list of nodes. The end points (list, count, pick, dump-free listing, deletion) agree with that list.",
     ["inputs", "programs"], "all trees and all query chains",
     "tests run a few fixed chains on one tree",
     ["parce/query.py", "parce/tree.py"], [("Query generators", "parce/query.py"), ("Query.delete", "parce/query.py")],
     MON + "differential oracle (list-based query interpreter)", NOTE, ["parce.query.Query", "Node.query"])

prop("P06", "An updated tree equals a tree parsed from scratch",
     "After any edit history, updating the tree for the changed part gives the same tree (contexts, lexicons, tokens, positions, groups) and the same open "
     "lexicons as parsing the new text from scratch, and all nodes outside the reported updated range are what they were before the edit, shifted. "
     "Nodes that are reused keep valid links to their parents.",
     ["histories", "inputs", "programs"], "all histories of edits and root lexicon changes, on all languages whose rules depend on a bounded surrounding (the builder re-lexes from ten tokens back)",
     "the tests apply a few edits to one text; correctness depends on where the edit falls relative to contexts, groups and pops",
     ["parce/treebuilder.py", "parce/tree.py", "parce/lexer.py"],
     [("TreeBuilder.rebuild / build_new_tree / replace_tree", "parce/treebuilder.py")],
     MON + "edit histories with scratch-parse oracle after every edit", NOTE + "Edits whose effect reaches back beyond the documented look-back are outside the claim.",
     ["TreeBuilder.rebuild()", "TreeBuilder.root", "TreeBuilder.lexicons", "TreeBuilder.start/end"])

prop("P07", "Changes that arrive while the tree is being built are never lost",
     "However further text changes or a root lexicon change interleave with a tree build in progress, once the builder is idle the tree and open lexicons are "
     "those of the latest text and lexicon parsed from scratch, and the updated range reported by the builder covers everything that changed.",
     ["schedules", "histories"], "all interleavings of change requests with all points of the build",
     "the tests never change the text during a build",
     ["parce/treebuilder.py", "parce/work.py"], [("Changes.add", "parce/treebuilder.py"), ("TreeBuilder.process / restart", "parce/treebuilder.py")],
     MON + "change injection at every n-th call inside the builder, with scratch-parse oracle", NOTE, ["TreeBuilder.process()", "TreeBuilder events"])

prop("P08", "Editing a document does exactly the edits asked for",
     "For any sequence of document edits (item and slice assignment and deletion, insert, append, replace, regular-expression and translation substitution, trim), the "
     "text afterwards is what applying them to a plain string gives. Edits made inside an edit block all refer to the text before the block, take effect together "
     "when it ends, and are all dropped when the block raises or the edits overlap; reading and searching methods agree with those of a plain string. "
     "The revision number increases exactly when the text changes and the change notification describes a region outside which nothing changed, consistent with the new text.",
     ["histories", "inputs"], "all histories of edits, block structures and exceptions inside blocks",
     "the tests perform a few single edits",
     ["parce/document.py", "parce/mutablestring.py"],
     [("AbstractMutableString edit context", "parce/mutablestring.py"), ("Document._update_text", "parce/document.py")],
     MON + "operation histories against a plain-string model with event monitor", NOTE, ["parce.document.Document", "parce.mutablestring.MutableString"])

prop("P09", "Undo and redo restore the text, the modified flag and their events",
     "Undoing the last k edits restores the text and the modified state of k edits ago, and redoing them brings the later state back; a new edit discards what could be redone. "
     "The availability and modification notifications are sent exactly when the corresponding state changes, and undo or redo inside an edit block is refused.",
     ["histories"], "all histories of edits, undo, redo, saving and disabling undo",
     "the tests undo one or two edits",
     ["parce/document.py"], [("undo/redo stacks", "parce/document.py")],
     MON + "operation histories against a state-stack model with event monitor", NOTE, ["Document.undo()", "Document.redo()", "Document.modified", "document events"])

prop("P10", "Cursors keep their place and blocks are the lines of the text",
     "After any edit, each cursor's start and end are at the same text as before: changes before it shift it, an insert at its position leaves an insert-at-start position "
     "alone but moves the end, and removal of its text collapses it. Blocks obtained in any way (by position, number, range, next and previous) are exactly the lines of the text. "
     "Moving, selecting and stripping a cursor, comparing ranges, and asking a range for its tokens agrees with the text and the tree.",
     ["histories", "inputs"], "all edits with any number of changes, all cursors and positions",
     "the tests move two cursors over one edit",
     ["parce/document.py", "parce/mutablestring.py"], [("Document._update_cursors", "parce/document.py"), ("Block", "parce/document.py")],
     MON + "edit histories against per-change position model and line-splitting oracle", NOTE, ["parce.document.Cursor", "Block", "Document.blocks()"])

prop("P11", "Background tokenizing and transforming always deliver the current result",
     "With a background worker, whatever the timing of edits and root lexicon changes relative to the worker threads, a caller that waits for the tree or the transform result gets the one that "
     "belongs to the current text. Each callback registered for it runs exactly once and sees a finished result, notifications of start and finish are paired, and nothing deadlocks.",
     ["schedules", "histories"], "all thread schedules and all histories of edits and requests",
     "tests run no concurrent edits",
     ["parce/work.py", "parce/__init__.py", "parce/treebuilder.py", "parce/transform.py"],
     [("Worker run generations and locks", "parce/work.py"), ("TreeDocumentMixin", "parce/treedocument.py")],
     MON + "schedule stress with injected delays, exactly-once callback log and scratch oracle", NOTE, ["Document.get_root(True)", "Document.get_transform(True)", "Worker events"])

prop("P12", "Incremental transforming equals transforming from scratch",
     "After any edit history the transform result of the updated tree equals transforming a fresh tree of the same text, and transforming directly from text gives the same result as transforming the tree. "
     "Transform methods receive each token and sub-result once, in order, and cached results are never reused for changed contexts.",
     ["histories", "inputs", "programs"], "all languages with transforms, all texts and edit histories",
     "tests transform two or three fixed texts",
     ["parce/transform.py", "parce/work.py", "parce/treebuilder.py"],
     [("Transformer cache and invalidate_node", "parce/transform.py"), ("Transformer.transform_text", "parce/transform.py")],
     MON + "edit histories with scratch-transform oracle", NOTE, ["Transformer.transform_text()", "transform_tree()", "Transformer.result()"])

prop("P13", "Generated regular expressions match exactly the given words or characters",
     "The regular expression made from a list of words (with optional prefix and suffix) fully matches each of the words and nothing else, and prefers the longest word; the expression made from a set of "
     "characters matches exactly these characters, and the inverted one all others. Text that is turned into a literal from such an expression is matched by it.",
     ["inputs"], "all nonempty word lists and character sets, including special and non-BMP characters",
     "tests compare a few fixed outputs",
     ["parce/regex.py", "parce/unicharclass.py", "parce/rule.py"],
     [("words2regexp", "parce/regex.py"), ("make_charclass", "parce/regex.py"), ("to_string", "parce/regex.py")],
     MON + "generated word lists with exact-language oracle", NOTE, ["words2regexp()", "make_charclass()", "to_string()"])

prop("P14", "CSS selectors, cascade and values behave as CSS defines",
     "For any stylesheet, the rules selected for an element or class path are exactly those whose selectors match it, ordered by specificity and source order, with important declarations winning; "
     "imports, media conditions, escapes, strings and colours are read as written, and no stylesheet text makes reading fail.",
     ["inputs"], "all stylesheets over the supported selectors, all elements",
     "the tests have no stylesheet cascade coverage",
     ["parce/css.py", "parce/lang/css.py"],
     [("StyleSheet / filter chain", "parce/css.py"), ("calculate_specificity", "parce/css.py"), ("match selectors", "parce/css.py")],
     MON + "generated stylesheets against a reference selector matcher and cascade", NOTE, ["parce.css.StyleSheet", "css.Style", "css.Value"])

prop("P15", "Formatted ranges cover exactly the tokens of the requested range",
     "For any tree, theme combination and text range, the format ranges produced are in order, do not overlap, lie inside the requested range, and give each position the format the "
     "theme has for the token (or nested default) there; adjacent ranges are only merged when their formats are equal.",
     ["inputs", "configurations"], "all trees, themes, added language themes and ranges",
     "the tests have no range-exactness check",
     ["parce/formatter.py", "parce/theme.py"],
     [("AbstractFormatter.format_ranges / format_tokens", "parce/formatter.py"), ("Theme.textformat", "parce/theme.py")],
     MON + "per-position format oracle over generated trees and themes", NOTE, ["Formatter.format_ranges()", "Theme"])

prop("P16", "HTML output shows exactly the text, safely escaped",
     "For any text and theme, the HTML produced decodes back (tags removed, entities resolved) to exactly the text of the formatted range, its tags are balanced, and text content never "
     "becomes markup or an attribute; this holds for HtmlFormatter (html and full_html) and SimpleHtmlFormatter.",
     ["inputs", "configurations"], "all texts, languages, themes and output options",
     "the tests do not produce hostile HTML output",
     ["parce/out/html.py", "parce/formatter.py", "parce/util.py"],
     [("HtmlFormatter", "parce/out/html.py"), ("escape functions", "parce/out/html.py")],
     MON + "HTML output re-parsed with html.parser and compared with the text", NOTE, ["parce.out.html.HtmlFormatter"])

prop("P17", "Indenting changes only leading whitespace, predictably",
     "Auto-indenting, increasing and decreasing indent change nothing but the leading whitespace of the lines in the requested range; indenting again right away changes nothing, "
     "and decreasing after increasing restores the text. The indent chosen follows the language's indent and dedent events of the preceding lines.",
     ["inputs", "histories", "configurations"], "all texts, ranges and indent settings",
     "the tests indent one or two snippets",
     ["parce/indent.py", "parce/lang/"], [("AbstractIndenter.indent", "parce/indent.py"), ("Indent / Indenter", "parce/indent.py")],
     MON + "line-by-line differential and round-trip monitors", NOTE, ["Indenter.indent()", "increase_indent()", "decrease_indent()"])

prop("P18", "Loading and saving preserves text, encoding and existing files",
     "Text saved and loaded again is the same text, with the encoding taken from the byte order mark, the document's own declaration, the requested encoding or the default, in that order. "
     "Saving text that cannot be encoded, or with invalid arguments, fails and leaves an existing file as it was.",
     ["inputs", "configurations", "fault_sequences"], "all texts, encodings, newline settings and write faults",
     "tests never write files with other encodings or failing writes",
     ["parce/docio.py", "parce/util.py", "parce/lang/"], [("DocumentIO.load / save", "parce/docio.py"), ("DocInfo", "parce/docio.py")],
     MON + "file round trips in a scratch directory with independent byte-level oracle and fault injection", NOTE, ["Document.load()", "Document.save()"])

prop("P19", "The language registry finds the right language",
     "Every registered language is found by its name, file name patterns, MIME types and content patterns, with the best-matching criterion first (ties broken by registration), independent of registration order of unrelated entries; "
     "fallback and inherited entries behave as the registry's own, and guessing from any content never raises or hangs.",
     ["inputs", "histories", "configurations"], "all registries, lookups and contents",
     "tests look up a few names",
     ["parce/registry.py", "parce/lang/_registry.py"], [("Registry.suggest / find / register", "parce/registry.py")],
     MON + "generated registries against a reference lookup", NOTE, ["parce.registry.Registry", "parce.find()"])

prop("P20", "Data-language transforms read the data that was written",
     "For any data value, transforming its textual form in a supported data language gives back that value: JSON values, CSV records, INI sections with their keys and values (strings with all escapes), "
     "numbers written in words in English, Dutch, German and French, and Scheme numbers in every notation. Damaged text never makes a transform fail, and a faulty Scheme number raises only the documented errors.",
     ["inputs"], "all data values and all layouts of their text",
     "tests transform one example each",
     ["parce/lang/json.py", "parce/lang/csv.py", "parce/lang/ini.py", "parce/lang/numbers.py", "parce/lang/scheme.py", "parce/transform.py"],
     [("JsonTransform", "parce/lang/json.py"), ("CsvTransform", "parce/lang/csv.py"), ("NumbersTransform", "parce/lang/numbers.py"), ("scheme_number", "parce/lang/scheme.py")],
     MON + "round trip of generated values with standard-library oracles", NOTE, ["parce.transform.transform_text()", "parce.lang.scheme.scheme_number()"])

prop("P21", "Notification, caching and helper objects keep their contracts under threads",
     "Connected callbacks are called in order of priority and connection, exactly once per notification and with the right arguments, also when callbacks connect, disconnect or notify during it or other threads do; "
     "a once-callback is called once in total and a dead method never; contexts they return are left in reverse order. Dispatching by value reaches the method the class hierarchy defines, and a Switch tells per instance whether it is active. "
     "Caches compute each value once (file_cache once per modification time) and give every thread the same object, without keeping instances alive; object_locker lets one thread at a time in per object. "
     "The range, list, BOM and token helpers agree with a plain computation.",
     ["schedules", "histories", "inputs"], "all callback sets, histories and thread schedules",
     "tests connect one callback at a time",
     ["parce/util.py"], [("Observable.emit", "parce/util.py"), ("Dispatcher", "parce/util.py"), ("object_locker / caching", "parce/util.py")],
     MON + "operation histories against a model, thread stress", NOTE, ["parce.util.Observable", "Dispatcher", "util functions"])

prop("P22", "The language validator reports broken definitions and accepts sound ones",
     "The validator reports an error for each invalid regular expression, incomplete rule, invalid target (also inside dynamic rule items), conflicting default and default target that makes no progress or runs away, "
     "and a warning for each rule that is skipped, pattern that matches the empty string and handled circular default target, naming the lexicon; it reports nothing for a definition without mistakes and never raises itself. "
     "validate_transform() reports exactly the missing methods. The introspection functions list exactly the lexicons, actions and languages a definition uses.",
     ["programs"], "all language definitions", "tests validate the bundled languages only",
     ["parce/validate.py", "parce/introspect.py", "parce/ruleitem.py"], [("validate_language", "parce/validate.py"), ("lexicons / standardactions / decision_tree", "parce/introspect.py")],
     MON + "generated languages with planted mistakes", NOTE, ["parce.validate.validate_language()", "parce.validate.validate_transform()", "parce.introspect"])

prop("P23", "Deeply nested and very long input is handled without failure",
     "Text nested thousands of levels deep (beyond the interpreter's recursion limit), or very long, is lexed, parsed, updated, undone, navigated, queried, dumped, copied, transformed and formatted as HTML with the same result as small input would suggest, "
     "without recursion errors or crashes.",
     ["inputs"], "all nesting depths and lengths that fit memory", "tests use tiny texts",
     ["parce/tree.py", "parce/treebuilder.py", "parce/transform.py", "parce/query.py", "parce/formatter.py"],
     [("iterative traversal", "parce/tree.py")],
     MON + "depth and length stress with process-death and recursion monitors", NOTE, ["parce.root()", "Context methods"])

prop("P24", "Lexing and guessing always finish in reasonable time",
     "No text, however repetitive or unfinished, makes a bundled language or the language guesser take more than time roughly proportional to its length: texts of several hundred characters finish well within seconds.",
     ["inputs"], "all texts for all bundled languages", "tests never lex hostile text, and have no time monitor",
     ["parce/lang/", "parce/language.py", "parce/registry.py"], [("regular expressions of the language definitions", "parce/lang/*.py")],
     MON + "CPU-time sanitizer on pumped (repetitive, unfinished) inputs", NOTE, ["parce.root()", "parce.find()"])

prop("P25", "Bundled languages tell comments, strings, code and nesting apart",
     "In well-formed source text of a bundled language (Python, C, JavaScript, CSS, JSON, TOML, INI, CSV, Bash, Tcl, Scheme, LilyPond, LaTeX, Texinfo, Troff, XML, DTD, HTML and the languages derived from them), "
     "whatever the contents of comments and strings look like, exactly the text of a comment gets Comment actions and exactly the text of a string literal String actions (Bytes for Python bytes); number literals are Number, no text gets an Invalid action and all text other than white space is in a token, "
     "and for Python, C and JavaScript keywords, identifiers and operators are tokens of their own with a suitable action; "
     "a comment or string ends where the language says so, and the text after a closed bracket, tag or block is in the same context as the text before it. "
     "(For constructs the language definitions have rules for.  JSON keys are Names, and the text of here-documents, CDATA and raw text is not claimed.)",
     ["inputs"], "all well-formed texts", "tests compare a few small examples per language",
     ["parce/lang/", "parce/language.py"], [("language definitions", "parce/lang/*.py"), ("comment_common", "parce/language.py")],
     MON + "actions and contexts of the tokens against the writer of the text, or Python's tokenize module", NOTE, ["parce.root()", "Document"])
