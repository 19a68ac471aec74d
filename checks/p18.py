"""P18: loading and saving."""
import codecs
import io
import os
import stat

import parce
from parce import docio, util
from parce.docio import decode_data, encode_text
import common

PROPERTY = "P18"
RULE = ("bytes: data made of an optional byte order mark, a declaration of an encoding in the way of the language (or a decoy, an unknown encoding, or none) and random text in the encoding that has to win; decode_data(), from_bytes() and load() "
        "against that text and encoding.  roundtrip: documents of all bundled languages with hostile text, saved and loaded again (several times, with edits between, all newline modes), by file name and file: URL.  fail: saving text that "
        "cannot be encoded (or with bad arguments) over an existing file.  guess: arbitrary bytes as data: decoding with errors=replace never fails and equals what Python makes of it.  "
        "Non-trivial: the text has non-ASCII characters; distinct by (bytes, arguments).")
PLAN = {"quick": {"bytes": 6000, "roundtrip": 4000, "fail": 1500, "guess": 3000}, "thorough": {"bytes": 90000, "roundtrip": 70000, "fail": 20000, "guess": 60000}}
REQUIRED = {"bom": 300, "declared": 1000, "declared_xml": 100, "declared_html": 100, "declared_css": 100, "specified": 500, "default": 300, "unknown": 200, "failed_saves": 500, "files": 2000, "resaved": 500, "decoys": 200}
ASSUMPTIONS = ["a declared encoding is ASCII-compatible or comes with a byte order mark, and the declaration is within the first 5000 bytes",
               "text does not begin with U+FEFF (that is a byte order mark)", "writing the bytes to the opened file itself does not fail"]

BOMS = [("utf-8", codecs.BOM_UTF8), ("utf-16-le", codecs.BOM_UTF16_LE), ("utf-16-be", codecs.BOM_UTF16_BE), ("utf-32-le", codecs.BOM_UTF32_LE), ("utf-32-be", codecs.BOM_UTF32_BE)]
ASCII = ["latin1", "ISO-8859-1", "utf-8", "UTF-8", "cp1252", "iso8859-15", "koi8-r", "cp437", "shift_jis", "gb18030", "big5", "euc-jp", "utf8", "iso-8859-7", "mac-roman"]
UNKNOWN = ["nonsense-9", "utf-99", "x", "hex", "rot13", "base64", "latin-1000", "zlib", "undefined", "-", "_"]
SAMPLE = {"koi8-r": "Привет мир", "shift_jis": "日本語カナ", "gb18030": "中文字é€😀", "big5": "中文字", "euc-jp": "日本語", "iso-8859-7": "αβγδ", "cp437": "éñ█", "mac-roman": "é†∞"}


def sample_chars(enc):
    for k, v in SAMPLE.items():
        if codecs.lookup(k).name == codecs.lookup(enc).name:
            return v
    n = codecs.lookup(enc).name
    if n.startswith("utf"):
        return "é€ßﬀ中😀 \u2028\x85żя"
    if n == "iso8859-15":
        return "é€ß"
    return "éèüßñ¿"


def rand_text(r, enc, n=40):
    chars = sample_chars(enc)
    return ''.join(r.choice(chars) if r.random() < .5 else r.choice("abc xyz ; { } < > \" ' = : \t \n \n @ % # ( )".replace(" ", "") + "  ") for _ in range(r.randrange(0, n)))


def lexicons():
    from parce.lang.css import Css
    from parce.lang.html import Html, XHtml
    from parce.lang.xml import Xml
    from parce.lang.python import Python
    from parce.lang.lilypond import LilyPond
    from parce.lang.tex import Latex
    from parce.lang.bash import Bash
    return {"css": Css.root, "html": Html.root, "xhtml": XHtml.root, "xml": Xml.root, "python": Python.root, "lilypond": LilyPond.root, "latex": Latex.root, "bash": Bash.root, "none": None}


def declaration(r, lang, enc):
    """text that declares the encoding in a document of the language"""
    q = r.choice('"\'')
    far = r.random() < .15     # not at the start
    if lang == "css":
        return '@charset "{}";\n'.format(enc)
    if lang == "xml" or lang in ("html", "xhtml") and r.random() < .2:
        return '<?xml version={q}1.0{q} encoding={q}{e}{q}?>\n'.format(q=q, e=enc)
    if lang in ("html", "xhtml"):
        c = r.random()
        end = "/>" if lang == "xhtml" else r.choice([">", "/>"])
        head = r.choice(["", "<!DOCTYPE html>\n<html><head>", "<html><head><title>x</title>", "<!-- c -->"])
        if far:
            head += "<!-- pad -->\n" * r.randrange(1, 75)   # within 5000 bytes, in any encoding
        meta = r.choice(["meta", "meta", "META", "Meta"])
        if c < .5:
            return head + '<{m} {a}={q}{e}{q}{z}\n'.format(m=meta, a=r.choice(["charset", "charset", "CHARSET"]), q=q, e=enc, z=end)
        attrs = ['{}={q}Content-Type{q}'.format(r.choice(["http-equiv", "HTTP-EQUIV"]), q=q), 'content={q}text/html; {}={}{q}'.format(r.choice(["charset", "Charset"]), enc, q=q)]
        if r.random() < .4:
            attrs.reverse()
        return head + '<{m} {a}{z}\n'.format(m=meta, a=" ".join(attrs), z=end)
    c = {"python": "#", "bash": "#", "lilypond": "%", "latex": "%", "none": "#"}[lang]
    return (c + " pad\n") * (far and r.randrange(1, 150)) + r.choice([c + " -*- coding: {} -*-\n", c + " coding: {}\n", c + "coding:{}\n", c + ' encoding="{}"\n', c + " encoding: {}\n", c + ' coding = "{}"\n', "\n\n" + c + " -*- mode: x; coding:\t{}; -*-\n"]).format(enc)


def decoy(r, lang):
    """looks like a declaration, but is none"""
    if lang == "css":
        return r.choice(["/* charset \"latin1\" */\n", "/* coding: latin1 */\n", ""])
    if lang in ("xml",):
        return r.choice(["<!-- encoding='koi8-r' -->", "<a encoding=\"koi8-r\"/>", "<?xml version=\"1.0\"?>\n", "<!-- coding: koi8-r -->\n"])
    if lang in ("html", "xhtml"):
        return r.choice(["<meta name=\"x\" content=\"charset=koi8-r\"/>\n", "<!-- <meta charset=\"koi8-r\"> -->\n", "<p charset=\"koi8-r\"/>\n", "<meta name=\"coding\"/>\n"])
    return r.choice(["# encodings: koi8-r\n", "# coding koi8-r\n", "# decoding: koi8-r\n", "# xcoding: koi8-r\n", "# charset=koi8-r\n"])


def norm(enc):
    return None if enc is None else codecs.lookup(enc).name


def case_bytes(ctx):
    r = ctx.rng
    lexs = lexicons()
    lang = r.choice(list(lexs))
    lexicon = lexs[lang]
    declared = None
    head = ""
    c = r.random()
    if c < .5:
        declared = r.choice(ASCII)
        head = declaration(r, lang, declared)
        kind = {"xhtml": "html"}.get(lang, lang)
        ctx.count("declared_" + kind)
    elif c < .65:
        head = declaration(r, lang, r.choice(UNKNOWN))
        ctx.count("unknown")
    elif c < .8:
        head = decoy(r, lang)
        ctx.count("decoys")
    bom = r.choice(BOMS) if r.random() < .25 else None
    spec = r.choice(ASCII) if r.random() < .4 else None
    if bom and declared and r.random() < .4:
        # what a document with a BOM would declare
        declared = r.choice([bom[0], bom[0].replace("-le", "le").replace("-be", "be"), bom[0].upper(), bom[0][:6]])
        head = declaration(r, lang, declared)
    enc = bom[0] if bom else declared or spec or "utf-8"
    ctx.count("bom" if bom else "declared" if declared else "specified" if spec else "default")
    n = r.choice([30, 30, 300, 6000]) if r.random() < .2 else 40
    body = rand_text(r, enc, n)
    if lang in ("html", "xhtml", "xml"):
        body = body.replace("<", "[")
    text = head + body
    if text.startswith(("\ufeff", "\0")) or len(head) > 4000:    # (a NUL after an UTF-16 mark makes it an UTF-32 mark)
        return
    data = (bom[1] if bom else b"") + text.encode(enc)
    if not bom and any(data.startswith(b) for _, b in BOMS):
        return
    newline = r.choice([None, None, "", "\n"])
    if newline is None:
        text = text.replace("\r\n", "\n").replace("\r", "\n")
    want_enc = spec or declared or (bom[0] if bom else None)
    ctx.note(language=lang, data=data[:300], specified=spec, declared=declared, bom=bom and bom[0], newline=newline)
    args = dict(encoding=spec, newline=newline)
    if r.random() < .3:
        data_ = bytearray(data)
    else:
        data_ = data
    res = decode_data(data_, lexicon, **args)
    ctx.equal(res.text, text, "decoded text")
    ctx.check(res.root_lexicon is lexicon, "root lexicon")
    check_enc(ctx, res.encoding, want_enc, bom)
    ctx.check(bytes(data_) == data, "the data was changed")
    c = r.random()
    if c < .4:
        d = parce.Document.from_bytes(data, "some/where", lexicon, **args)
        url = "some/where"
    else:
        dir_ = ctx.scratch()
        fn = os.path.join(dir_, r.choice(["a.txt", "b ä#x.txt", "c?d%20.x", "x"]))
        with open(fn, "wb") as f:
            f.write(data)
        url = fn
        if r.random() < .3 and "?" not in fn:
            url = "file://" + fn
        d = parce.Document.load(url, lexicon, **args)
        ctx.count("files")
        with open(fn, "rb") as f:
            ctx.check(f.read() == data, "loading changed the file")
    ctx.equal(d.text(), text, "text of the document")
    ctx.equal(d.url, url, "url")
    check_enc(ctx, d.encoding, want_enc, bom)
    ctx.check(d.modified is False, "document is modified after loading")
    ctx.check(d.root_lexicon() is lexicon, "root lexicon of the document")
    ctx.equal(d.can_undo(), False, "can_undo() after loading")
    if any(ord(x) > 127 for x in text):
        ctx.distinct(data, spec, lang)
    # saving what was loaded and loading it again
    if url != "some/where" and (spec is None or declared is None or norm(spec) == norm(declared)) and newline is not None:
        try:
            text.encode(d.encoding or enc)
        except UnicodeError:
            return
        if not (spec and not declared and bom):
            d.append("x")
            d.save(newline=newline)
            ctx.check(d.modified is False, "document is modified after saving")
            e = parce.Document.load(url, lexicon, **args)
            ctx.equal(e.text(), text + "x", "text loaded, saved and loaded again", encoding=d.encoding)
            ctx.count("resaved")
    ctx.sample({"language": lang, "enc": enc, "data": repr(data[:60])})


def check_enc(ctx, got, want, bom):
    g, w = norm(got), norm(want)
    if bom and g and w and g.split("-")[:2] == w.split("-")[:2]:
        return      # with a BOM, the byte order is not important
    ctx.equal(g, w, "encoding")


def default_enc(ctx, lexicon, text):
    """encoding used to save the text when none is given"""
    h = docio.IO.get(lexicon)
    return None


def case_roundtrip(ctx):
    r = ctx.rng
    langs = common.languages()
    if r.random() < .5:
        lexs = lexicons()
        lang = r.choice(list(lexs))
        lexicon = lexs[lang]
        declared = r.choice(ASCII + ["utf-16", "utf-32", "utf-8-sig"]) if r.random() < .7 else None
        head = declaration(r, lang, declared) if declared else ""
        if declared in ("utf-16", "utf-32", "utf-8-sig"):
            ctx.count("declared_bom")
        text = head + rand_text(r, declared or "utf-8", 120)
        enc = None
        used = declared or "utf-8"
        if lang in ("html", "xhtml", "xml"):
            text = head + text[len(head):].replace("<", "[")
    else:
        q, lexicon = r.choice(langs)
        text = common.text_for(r, lexicon, 800)
        text = text.replace("coding", "cod1ng").replace("charset", "ch4rset").replace("CODING", "cod1ng").replace("CHARSET", "ch4rset")
        enc = used = r.choice([None, "utf-8", "utf-16", "utf-8-sig", "utf-32", "utf-7"])
        if used is None:
            used = "utf-8"
    if text.startswith(("\ufeff", "\0")):
        return
    try:
        text.encode(used)
    except UnicodeError:
        return
    dir_ = ctx.scratch()
    fn = os.path.join(dir_, r.choice(["doc", "doc.txt", "ü b.x", "no+1.txt"]))
    exists = r.random() < .5
    if exists:
        with open(fn, "wb") as f:
            f.write(os.urandom(r.randrange(5000)))
        os.chmod(fn, 0o600 | r.choice([0, 0o44, 0o100]))
        mode = os.stat(fn).st_mode
    newline = r.choice(["", "\n", "\r\n", None])
    if newline in ("\r\n", None):
        text = text.replace("\r\n", "\n").replace("\r", "\n")
    if enc == "utf-7" or used == "utf-7":
        pass
    ctx.note(text=text[:1000], encoding=enc, used=used, newline=newline)
    how = r.randrange(3)
    url = "file://" + fn.replace("+", "+") if r.random() < .2 else fn
    if how == 0:
        d = parce.Document(lexicon, text, url, enc)
        d.save(newline=newline)
    elif how == 1:
        d = parce.Document(lexicon, text)
        d.modified = True
        d.save(url, enc, newline)
    else:
        d = parce.Document(lexicon, "x" + text, "elsewhere/that/is/not")
        d[0] = ""
        ctx.check(d.modified, "modified")
        d.save(url, encoding=enc, newline=newline)
    ctx.count("files")
    ctx.check(d.modified is False, "document is modified after saving")
    ctx.equal(d.url, url, "url after saving")
    ctx.equal(d.encoding, enc, "encoding after saving")
    ctx.equal(d.text(), text, "text of the document after saving")
    if exists:
        ctx.equal(os.stat(fn).st_mode, mode, "permissions of the file")
    with open(fn, "rb") as f:
        data = f.read()
    conv = text.replace("\n", "\r\n") if newline == "\r\n" else text
    ctx.equal(data, conv.encode(used), "bytes written")
    ctx.equal(data, d.to_bytes(enc, newline), "to_bytes()")
    ctx.equal(data, encode_text(text, lexicon, enc, newline), "encode_text()")
    rn = "" if newline in ("", "\n") else None
    bom = data.startswith((codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE))
    if bom and not used.startswith(("utf-16", "utf-32", "utf-8-sig")):
        return
    e = parce.Document.load(url, lexicon, enc, newline=rn)
    ctx.equal(e.text(), text, "text loaded from the saved file")
    # edit, save, load again
    if r.random() < .6:
        e.insert(len(e), "zz")
        e.save(newline=newline)
        g = parce.Document.load(url, lexicon, e.encoding if r.random() < .5 else enc, newline=rn)
        ctx.equal(g.text(), text + "zz", "text saved and loaded twice", encoding=e.encoding)
        ctx.count("resaved")
    ctx.equal(sorted(os.listdir(dir_)), [os.path.basename(fn)], "files left behind")
    if any(ord(x) > 127 for x in text):
        ctx.distinct(text, enc, newline)


def case_fail(ctx):
    r = ctx.rng
    dir_ = ctx.scratch()
    fn = os.path.join(dir_, "file.txt")
    old = os.urandom(r.randrange(1, 3000))
    exists = r.random() < .85
    if exists:
        with open(fn, "wb") as f:
            f.write(old)
    c = r.random()
    text = rand_text(r, "utf-8", 60) + r.choice(["中", "😀", "\udc80", "я"]) + "x" * r.choice([0, 0, 20, 20000])
    if r.random() < .5:
        text = "y" * r.choice([100, 9000, 30000]) + text
    lexicon = lexicons()[r.choice(["none", "python", "css"])]
    ctx.note(text=text[-60:], length=len(text))
    if c < .4:
        enc = r.choice(["ascii", "latin1", "cp1252"])
        d = parce.Document(lexicon, text)
        args = dict(encoding=enc)
    elif c < .6:
        enc = r.choice(["ascii", "latin1", "cp1252"])
        d = parce.Document(lexicon, text, encoding=enc)
        args = {}
    elif c < .8:
        d = parce.Document(lexicons()["python"], "# coding: ascii\n" + text)
        args = {}
    elif c < .9:
        d = parce.Document(lexicon, text)
        args = dict(newline="bad", encoding="utf-8")
    else:
        d = parce.Document(lexicon, text)
        args = dict(encoding="no-such-encoding")
    d.append("q")
    before = d.text()
    ctx.check(d.modified, "modified")
    try:
        d.save(fn, **args)
    except (UnicodeError, LookupError, ValueError):
        pass
    else:
        ctx.fail("saving did not fail", args=args)
    ctx.count("failed_saves")
    if exists:
        with open(fn, "rb") as f:
            ctx.equal(f.read(), old, "failed saving changed the file")
    else:
        ctx.check(not os.path.exists(fn) or os.path.getsize(fn) == 0, "failed saving made a file")
    ctx.equal([x for x in os.listdir(dir_) if x != "file.txt"], [], "files left behind")
    ctx.check(d.modified, "document is not modified any more after a failed save")
    ctx.equal(d.text(), before, "text")
    # the document can still be saved
    if "\udc80" not in text:
        d.save(fn, "utf-8")
        with open(fn, "rb") as f:
            ctx.equal(f.read(), before.encode("utf-8"), "bytes saved after a failed save")
        ctx.check(d.modified is False, "modified")
    ctx.distinct(text, str(args))


def case_guess(ctx):
    r = ctx.rng
    if r.random() < .4:
        data = bytes(r.randrange(256) for _ in range(r.randrange(0, 60)))
    else:
        q, lexicon = r.choice(common.languages())
        t = common.text_for(r, lexicon, 500)
        data = t.encode(r.choice(["utf-8", "utf-16", "latin1", "utf-32"]), "replace")
        if r.random() < .5:
            k = r.randrange(len(data) + 1)
            data = data[:k] + r.choice([b"coding: \x00", b'encoding="\xff"', b"coding: utf-16", b"<meta charset=\"\x00\">", b"@charset \"x\x00\"", b"\xef\xbb\xbf", b"\xff\xfe", b"coding: idna"]) + data[k:]
    if any(x in data for x in (b"idna", b"punycode", b"utf-16", b"utf-32", b"utf_16", b"UTF-16")) and r.random() < .7:
        return
    name = r.choice([None, "x.css", "y.html", "z", "a.py", ".bashrc", "q.xml"])
    guess = r.choice([True, True, None, "css", "Html", "no such language"])
    ctx.note(data=data[:400], name=name, lexicon=guess)
    try:
        res = decode_data(data, guess, errors="replace", url=name, newline="")
    except UnicodeError:
        # codecs that do not support errors="replace"
        ctx.check(b"idna" in data or b"utf-16" in data or b"utf-32" in data or b"punycode" in data or b"undefined" in data, "decoding failed")
        return
    # what Python makes of it
    for b_enc, b in sorted(BOMS, key=lambda x: -len(x[1])):
        if data.startswith(b):
            want = io.TextIOWrapper(io.BytesIO(data[len(b):]), b_enc, "replace", "").read()
            ctx.equal(res.text, want, "decoded text with a byte order mark")
            ctx.count("guess_bom")
            break
    else:
        if res.encoding is None:
            ctx.equal(res.text, data.decode("utf-8", "replace"), "text decoded with the default encoding")
        else:
            ctx.equal(res.text, io.TextIOWrapper(io.BytesIO(data), res.encoding, "replace", "").read(), "decoded text", encoding=res.encoding)
    ctx.check(res.root_lexicon is None or hasattr(res.root_lexicon, "parse"), "root lexicon")
    if guess is None or guess == "no such language":
        ctx.check(res.root_lexicon is None, "root lexicon without guessing")
    if guess in ("css", "Html"):
        ctx.equal(repr(res.root_lexicon), guess.capitalize() + ".root", "root lexicon by name")
    # the same from a file, and by default the language is guessed
    if name and r.random() < .5:
        fn = os.path.join(ctx.scratch(), name)
        with open(fn, "wb") as f:
            f.write(data)
        try:
            res2 = decode_data(data, True, errors="replace", url=fn, newline="")
        except UnicodeError:
            return
        doc = parce.Document.load(fn, errors="replace", newline="")
        ctx.check(doc.text() == res2.text and doc.root_lexicon() is res2.root_lexicon and doc.encoding == res2.encoding, "load() with the default root lexicon",
                  lexicon=repr(doc.root_lexicon()))
        doc2 = parce.Document.from_bytes(data, fn, errors="replace", newline="")
        ctx.check(doc2.text() == res2.text and doc2.root_lexicon() is res2.root_lexicon, "from_bytes() with the default root lexicon")
        if name in ("x.css", "y.html", "a.py"):
            ctx.equal(repr(doc.root_lexicon()), {"x.css": "Css.root", "y.html": "Html.root", "a.py": "Python.root"}[name], "language found by the file name")
        ctx.count("load_guess")
    e, rest = util.get_bom_encoding(data)
    ctx.check((e is None and rest == data) or any(norm(e) == norm(n) and b + rest == data for n, b in BOMS), "get_bom_encoding()")
    ctx.distinct(data)
    ctx.raises(ValueError, docio.localfile, r.choice(["http://x/y", "ftp://a/b", "file://host/x", "//host/x"]))
