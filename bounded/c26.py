"""C26: the right reader, files and filing"""
import os, json, zipfile, datetime, posixpath, time
from bounded.core import Fail, expect
from bounded import mini

RULE = "random trees of files and archives: exactly the report files; random submission indexes: exactly the filing asked for"
EXT = [".xml", ".xsd", ".htm", ".html", ".xhtml"]
NOISE = [".txt", ".json", ".xml.bak", ".xsd~", ".pdf", ".css", ".xlsx", ".jpg", "", ".htmlx", ".xmlx", ".md", ".zip", ".hml"]


def tree(r, exts=EXT):
    """path -> content, including what is no report file"""
    dirs = [""]
    for _ in range(r.randint(0, 5)): dirs.append(posixpath.join(r.choice(dirs), r.choice(["a", "b", "sub", "x.xml", "META", ".d", "d.htm", "y.xsd", "1", "a b"])))
    f = {}
    for _ in range(r.randint(0, 12)):
        n = r.choice(["i", "t", "a", "xml", "htm", "xsd", "r-1.2", "xsd.txt", "ü", "A", ".h"]) + r.choice(exts + NOISE)
        p = posixpath.join(r.choice(dirs), n)
        if p in f or any(q.startswith(p + "/") for q in f) or any(p.startswith(q + "/") for q in f) or any((d + "/").startswith(p + "/") for d in dirs): continue
        f[p] = "content of %s %d" % (p, r.randint(0, 10 ** 9))
    return f, [d for d in dirs if d]


def put(base, f, dirs=()):
    os.makedirs(base, exist_ok=True)
    for d in dirs: os.makedirs(posixpath.join(base, d), exist_ok=True)
    for p, t in f.items():
        q = posixpath.join(base, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w", encoding="utf-8").write(t)


def loaded(path):
    from brel.parsers.path_loaders.factory import create_path_loader_resolver
    return create_path_loader_resolver().get_path_loader(path).load(path)


def folder(env):
    r = env.rng
    f, dirs = tree(r)
    base = posixpath.join(env.dir, r.choice(["r", "r.xml", "a b", "r.zip.d", "http"]))
    put(base, f, dirs)
    env.files = f
    want = sorted(p for p in f if p.endswith(tuple(EXT)))
    cwd = os.getcwd()
    try:
        m = r.random()
        if m < .4: got = [os.path.relpath(p, base) for p in loaded(base + r.choice(["", "/"]))]
        elif m < .7:
            os.chdir(env.dir)
            got = [os.path.relpath(p, os.path.basename(base)) for p in loaded(r.choice(["", "./"]) + os.path.basename(base))]
        else:
            os.chdir(base)
            got = [os.path.relpath(p, ".") for p in loaded(".")]
    finally: os.chdir(cwd)
    expect(sorted(got) == want, "folder", "the files loaded from a folder", "got %s\nwanted %s" % (sorted(got), want))


def archive(env):
    r = env.rng
    for k in range(r.randint(1, 3)):
        f, dirs = tree(r)
        base = posixpath.join(env.dir, "z%d" % k)
        os.makedirs(base)
        if r.random() < .4: put(posixpath.join(base, "r"), {"stale.xml": "no part of the archive"})
        z = posixpath.join(base, "r.zip")
        with zipfile.ZipFile(z, "w") as o:
            for p, t in f.items(): o.writestr(p, t)
        env.files = f
        before = sorted(os.listdir(base))
        got = loaded(z)
        want = {p: f[p] for p in f if p.endswith(tuple(EXT))}
        have = {}
        root = os.path.commonpath([os.path.dirname(p) for p in got]) if got else ""
        for p in got: have[p] = open(p, encoding="utf-8").read()
        expect(sorted(have.values()) == sorted(want.values()), "archive", "the files loaded from an archive", "got %s\nwanted %s" % (sorted(have), sorted(want)))
        for p, t in have.items():
            expect(any(want[w] == t and (os.path.normpath(p) + "/").endswith("/" + w + "/") for w in want), "archive-path", "%s is not where the archive has it" % p, sorted(want))
        expect(len(got) == len(set(got)), "archive-twice", "a file of the archive is loaded twice", got)


def single(env):
    r = env.rng
    f = {}
    n = r.choice(["i", "a.b", "xml", "a b", "ü"]) + r.choice([".xml", ".htm", ".html", ".xhtml"])
    put(env.dir, {n: "x"})
    p = posixpath.join(env.dir, n)
    expect(loaded(p) == [p] or [os.path.normpath(q) for q in loaded(p)] == [p], "single", "a single file", loaded(p))
    refused(lambda: loaded(posixpath.join(env.dir, "gone" + r.choice([".xml", ".txt", "", ".htm"]))), "a path that does not exist")
    put(env.dir, {"n.txt": "x", "n.json": "{}"})
    refused(lambda: loaded(posixpath.join(env.dir, r.choice(["n.txt", "n.json"]))), "a file of another type")
    u = r.choice(["http://", "https://"]) + "e.example/" + r.choice(["a", "b/c"]) + r.choice([".xml", ".htm", ".xhtml", ".html"])
    expect(loaded(u) == [u], "web", "a file on the web", u)


def refused(f, what):
    try: x = f()
    except ValueError: return
    except Exception as e: raise Fail("refusal", "%s: %s instead of a ValueError" % (what, type(e).__name__), str(e))
    raise Fail("refusal", "%s is not refused" % what, repr(x))


HTML = '<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" %s><head><title>t</title></head><body><ix:header><ix:references><link:schemaRef xlink:type="simple" xlink:href="%st.xsd"/></ix:references><ix:resources>%s</ix:resources></ix:header>%s</body></html>'


def reader(env):
    """which reader is used, by what it reads"""
    r = env.rng
    inline = r.random() < .5
    v = str(r.randint(1, 10 ** 6))
    sub = r.choice(["", "a/", "a/b/"])
    up = "../" * sub.count("/")
    f = {"t.xsd": mini.schema(mini.concept("A") + mini.concept("B"))}
    cu = mini.ctx("c1") + mini.unit("u1")
    ix = HTML % (mini.XB, up, cu, '<p><ix:nonFraction name="ex:A" contextRef="c1" unitRef="u1" decimals="0">%s</ix:nonFraction></p>' % v)
    xml = '<xbrli:xbrl %s><link:schemaRef xlink:type="simple" xlink:href="%st.xsd"/>%s%s</xbrli:xbrl>' % (mini.XB, up, cu, mini.fact("A", v))
    ext = r.choice([".htm", ".html", ".xhtml"]) if inline else ".xml"
    inst = sub + r.choice(["i", "a-2020", "x.y"]) + ext
    f[inst] = ix if inline else xml
    noise = {}
    for _ in range(r.randint(0, 4)): noise[r.choice(["", "a/", "q/"]) + r.choice("nmk") + r.choice([e for e in NOISE if e])] = "no report file"
    if r.random() < .3: f["lb.xml"] = '<link:linkbase %s/>' % mini.XB
    how = r.choice(["folder", "zip", "file", "factory"])
    base = posixpath.join(env.dir, "r")
    put(base, dict(f, **noise))
    env.files = dict(f, **noise)
    if how == "zip":
        z = posixpath.join(env.dir, "r.zip")
        with zipfile.ZipFile(z, "w") as o:
            for p, t in dict(f, **noise).items(): o.writestr(p, t)
        F = env.open(z)
    elif how == "factory":
        from brel.parsers.filing_parser_factory import FilingParserFactory
        from brel import Filing
        paths = [posixpath.join(base, p) for p in f]
        r.shuffle(paths)
        F = Filing(FilingParserFactory().create_parser(paths).parse())
    else: F = env.open(base if how == "folder" else posixpath.join(base, inst))
    fs = [(x.get_concept().get_name().local_name, x.get_value_as_str()) for x in F.get_all_facts()]
    expect(fs == [("A", v)], "reader", "the facts of %s opened as %s" % (inst, how), "%s instead of A=%s; %s" % (fs, v, [str(e) for e in F.get_all_errors()]))
    expect([x.get_name().local_name for x in F.get_all_concepts()] in (["A", "B"], ["B", "A"]), "reader2", "the concepts", "")
    # the reader leaves out what the other one would find
    if not inline: return
    if r.random() < .5:
        base = posixpath.join(env.dir, "s")
        g = dict(f); g["x.xml"] = xml.replace("%st.xsd" % up, "t.xsd").replace(">%s<" % v, ">%s<" % (v + "1"))
        put(base, g)
        env.files = g
        F = env.open(base)
        fs = [(x.get_concept().get_name().local_name, x.get_value_as_str()) for x in F.get_all_facts()]
        expect(("A", v) in fs, "inline", "an inline file among XML files is not read by the inline reader", fs)


def refusal(env):
    r = env.rng
    from brel.parsers.filing_parser_factory import FilingParserFactory
    refused(lambda: FilingParserFactory().create_parser([]), "no files")
    f = mini.files(mini.ctx("c1") + mini.unit("u1") + mini.fact("A", "1"))
    n = r.choice(["n.txt", "n.json", "n.zip", "n", "n.xml.bak", "n.xls"])
    put(env.dir, dict(f, **{n: "<a/>"}))
    ps = [posixpath.join(env.dir, p) for p in r.choice([["i.xml", n], [n], ["t.xsd", n], [n, "i.xml", "t.xsd"]])]
    refused(lambda: FilingParserFactory().create_parser(ps).parse(), "files among which is %s" % n)
    e = posixpath.join(env.dir, "empty")
    put(e, {} if r.random() < .5 else {n: "x"})
    refused(lambda: env.open(e), "a folder without report files")
    refused(lambda: env.open(posixpath.join(env.dir, "gone.xml")), "a file that does not exist")


class Resp:
    def __init__(self, code, data=None): self.status_code, self.data = code, data
    def json(self): return self.data


def edgar(env):
    import io, contextlib
    from brel.utils import edgar as E
    r = env.rng
    import shutil, requests, brel
    # a cache of its own for each history
    cache = os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")
    shutil.rmtree(cache, ignore_errors=True)
    os.makedirs(cache)
    web, pings, opened, gone = {}, [], [], set()

    def get(url, **k):
        if "/submissions/" in url:
            n = url.rsplit("/", 1)[1]
            return Resp(200, web[n]) if n in web else Resp(404)
        pings.append(url)
        return Resp(404 if url in gone else 200)

    def fopen(u):
        opened.append(u)
        return ("filing", u)

    old = requests.Session.get, requests.get, brel.Filing.__dict__["open"]
    requests.Session.get, requests.get, brel.Filing.open = (lambda self, url, **k: get(url, **k)), get, staticmethod(fopen)
    try:
        ciks = r.sample([str(r.randint(1, 10 ** 10 - 1)) for _ in range(2)] + ["1", "10", "0000000010" if r.random() < .2 else "100", "320193"], r.randint(1, 3))

        def index():
            n = r.choice([0, 1, 3, 8, 20])
            day = datetime.date(2024, 1, 1)
            rec = dict(form=[], isXBRL=[], reportDate=[], accessionNumber=[], primaryDocument=[], filingDate=[])
            for i in range(n):
                day -= datetime.timedelta(days=r.choice([1, 1, 30, 90, 365]))
                form = r.choice(["10-K", "10-Q", "8-K", "10-K/A", "4", "S-8", "10-KT"])
                rd = (day - datetime.timedelta(days=r.choice([0, 10, 40, 400 if form == "10-K" else 0]))).isoformat()
                if r.random() < .08: rd = ""
                x = 1 if form in ("10-K", "10-Q") and r.random() < .8 else r.choice([0, 0, 1])
                rec["form"].append(form); rec["isXBRL"].append(r.choice([x, str(x)])); rec["reportDate"].append(rd); rec["filingDate"].append(day.isoformat())
                rec["accessionNumber"].append("%010d-%02d-%06d" % (r.randint(0, 10 ** 9), r.randint(0, 99), r.randint(0, 10 ** 6)))
                rec["primaryDocument"].append(r.choice(["a-%s.htm" % day.strftime("%Y%m%d"), "d%d.htm" % i, "x%d.xml" % i, "a.htm-%d.htm" % i]))
            return rec

        for c in ciks: web["CIK%s.json" % c.zfill(10)] = dict(name="C" + c, filings=dict(recent=index()))
        for step in range(r.randint(1, 6)):
            c = r.choice(ciks)
            rec = web["CIK%s.json" % c.zfill(10)]["filings"]["recent"]
            if r.random() < .2:
                # new submissions, and the copy at hand is old
                p = next((posixpath.join(cache, x) for x in os.listdir(cache) if c.zfill(10) in x), None)
                if p:
                    web["CIK%s.json" % c.zfill(10)]["filings"]["recent"] = rec = index()
                    t = time.time() - 86400 * r.choice([3, 10, 400])
                    os.utime(p, (t, t))
            if r.random() < .15:
                what, args = r.choice([
                    ("a form that is not supported", (c, r.choice(["10-k", "4", "", "10-K/A", "S-1", "10-KT"]), None)),
                    ("a malformed date", (c, "10-K", r.choice(["2020", "2020-13-01", "01.02.2020", "2020-02-30", "", "2020-01-01 ", 20200101, "20200101", datetime.date(2020, 1, 1)]))),
                    ("a CIK that is too long", ("1" * 11, "10-K", None)), ("a CIK that is no string", (320193, "10-K", None)), ("an unknown CIK", ("999999999", "10-K", None))])
                quiet = io.StringIO()
                opened.clear()
                with contextlib.redirect_stdout(quiet): refused(lambda: E.open_edgar(*args), what)
                expect(not opened, "malformed", "%s: a filing is opened" % what, opened)
                continue
            form = r.choice(["10-K", "10-Q", "8-K"])
            date = None
            if r.random() < .4:
                ok = [d for d, f in zip(rec["reportDate"], rec["form"]) if d and (f == form or r.random() < .3)]
                date = r.choice(ok or ["2020-12-31"])
            fit = [i for i in range(len(rec["form"])) if rec["form"][i] == form and str(rec["isXBRL"][i]) == "1" and (date is None or rec["reportDate"][i] == date)]
            call = lambda: E.open_edgar(c, form, date) if date or r.random() < .5 else E.open_edgar(c, form)
            env.files["step%d" % step] = json.dumps([c, form, date, rec])
            opened.clear(); pings.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                if not fit:
                    refused(call, "%s %s %s, of which there is none" % (c, form, date))
                    continue
                best = max(rec["reportDate"][i] for i in fit)
                tops = [i for i in fit if rec["reportDate"][i] == best]
                def uri(i):
                    b = "https://www.sec.gov/Archives/edgar/data/%s/%s/" % (c.zfill(10), rec["accessionNumber"][i].replace("-", ""))
                    d = rec["primaryDocument"][i]
                    return b + (d[:-4] + "_htm.xml" if d.endswith(".htm") else d)
                top = uri(tops[0])
                if rec["primaryDocument"][tops[0]].endswith(".htm") and r.random() < .1:
                    gone.add(top)
                    refused(call, "a filing that is not available as XML")
                    gone.clear()
                    continue
                got = call()
            expect(got == ("filing", top) and opened == [top], "edgar", "the filing of %s %s %s" % (c, form, date), "opened %s returned %s, wanted %s" % (opened, got, top))
    finally: requests.Session.get, requests.get, brel.Filing.open = old


CASES = dict(folder=folder, archive=archive, single=single, reader=reader, refusal=refusal, edgar=edgar)
WEIGHTS = dict(reader=2)
