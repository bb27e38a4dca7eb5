"""C19: random reference graphs (local, remote over the loopback, rewritten), against their closure"""
import os, sys, threading, http.server, collections, posixpath, itertools
from bounded.core import Fail, expect, context
from bounded.common import codes
from bounded.mini import XB

RULE = "documents read = closure of the references; every document contributes its own content, once"
PAGES, HITS = {}, []
_srv = []
_n = itertools.count()
NOWHERE = "http://tax.example.invalid"


class H(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass

    def do_GET(self):
        HITS.append(self.path)
        b = PAGES.get(self.path)
        self.send_response(200 if b is not None else 404)
        b = b or b"<html/>"
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)


def server():
    if not _srv:
        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _srv.append(s)
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"): os.environ.pop(k, None)
    return "http://127.0.0.1:%d" % _srv[0].server_address[1]


OPENED = []
_on = [None]


def audit(ev, args):
    if ev == "open" and _on[0] and isinstance(args[0], (str, bytes)):
        p = args[0] if isinstance(args[0], str) else args[0].decode("utf-8", "replace")
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p.startswith(_on[0]): OPENED.append(p[len(_on[0]):].lstrip("/"))


sys.addaudithook(audit)


class Doc:
    def __init__(self, i, kind, place, path):
        self.i, self.kind, self.place, self.path, self.refs, self.exists = i, kind, place, path, [], True
        self.ns = None
        self.alias = None


class Graph:
    """place: "local" (below the folder) or "remote" (below /case on the server)"""
    def __init__(self, env, remote=False, rewrites=False, missing=False):
        r = self.r = env.rng
        self.env = env
        self.base = posixpath.join(env.dir, r.choice(["r", "r", "http-r", "https", "a b", "x#y", "q?z", "u;v", "ü", "100%25", "r.xml"]))
        self.remote = remote
        self.web = server() + "/case%s-%d-%d" % (r.choice(["", "www.", "a_b"]), os.getpid(), next(_n)) if remote else None
        dirs = ["", "", "a", "a/b", "a_b", "b", "b/a", "c/a/b", "a.b", "www.a", "http", "http:" if False else "httpx/a", "a-", "A"]
        names = ["t", "t", "u", "a", "b_t", "x.y", "i"]
        self.docs, used = [], set()
        n = r.randint(2, 9)
        for i in range(n):
            kind = r.choice(["schema", "schema", "linkbase"]) if i else "schema"
            for _ in range(50):
                p = posixpath.join(r.choice(dirs), r.choice(names) + (".xsd" if kind == "schema" else ".xml"))
                place = r.choice(["local", "remote"]) if remote else "local"
                if (place, p.lower()) not in used and not any(q.lower().startswith(p.lower() + "/") or p.lower().startswith(q.lower() + "/") for _, q in used): break
            else: continue
            if place == "remote" and r.random() < .15:      # documents told apart by their query only
                q = posixpath.join(posixpath.dirname(p), "q?" + posixpath.basename(p))
                if (place, q.lower()) not in used: p = q
            used.add((place, p.lower()))
            d = Doc(i, kind, place, p)
            d.ns = "http://ex.com/n%d" % r.randint(0, 1)
            self.docs.append(d)
        place = "remote" if remote and r.random() < .4 else "local"
        ip = posixpath.join(r.choice(["", "", "a", "inst"]), r.choice(["i.xml", "i.xml", "i.xhtml", "i.htm", "i.html"]))
        self.inst = Doc(len(self.docs), "instance", place, ip)
        self.docs = [d for d in self.docs if (d.place, d.path) != (place, ip)] + [self.inst]
        self.schemas = [d for d in self.docs if d.kind == "schema"]
        self.lbs = [d for d in self.docs if d.kind == "linkbase"]
        # rewrites: alias prefix -> place + folder
        self.rules = []
        if rewrites:
            for k in range(r.randint(1, 3)):
                self.rules.append((NOWHERE + r.choice(["/", "/t/", "/t/v1", "/t/v1/", "/x"]), r.choice(["local", "remote"]) if remote else "local", r.choice(["", "a/", "a/b/", "b/", "c/"])))
            seen = {}
            for p, pl, f in self.rules: seen.setdefault(p, (pl, f))
            self.rules = [(p, pl, f) for p, (pl, f) in seen.items()]
        if missing:
            for d in self.docs:
                if d.place == "remote" and d is not self.inst and r.random() < .35: d.exists = False
        for d in self.docs:
            if not d.exists: continue
            if d.kind == "schema":
                for t in r.sample(self.schemas, r.randint(0, min(3, len(self.schemas)))): self.ref(d, t, "import")
                for t in r.sample(self.lbs, r.randint(0, min(2, len(self.lbs)))): self.ref(d, t, "linkbaseRef")
            elif d.kind == "linkbase":
                ok = [s for s in self.schemas if s.exists]
                for t in r.sample(ok, r.randint(0, min(2, len(ok)))): self.ref(d, t, "loc")
                for t in r.sample(self.schemas, r.randint(0, min(1, len(self.schemas)))): self.ref(d, t, "gloc")
                for t in r.sample(self.schemas, r.randint(0, min(2, len(self.schemas)))): self.ref(d, t, r.choice(["roleRef", "arcroleRef", "xsi"]))
            else:
                for t in r.sample(self.schemas, r.randint(0, min(3, len(self.schemas)))): self.ref(d, t, r.choice(["schemaRef", "schemaRef", "xsi", "roleRef"]))
                for t in r.sample(self.lbs, r.randint(0, min(1, len(self.lbs)))): self.ref(d, t, "linkbaseRef")

    def physical(self, uri):
        """what a resolved uri denotes: (place, path), through the longest rewrite"""
        best = max((x for x in self.rules if uri.startswith(x[0])), key=lambda x: len(x[0]), default=None)
        if best:
            rest = uri[len(best[0]):]
            return best[1], posixpath.normpath(best[2] + rest) if best[2] + rest else ""
        return None

    def ref(self, d, t, how):
        r = self.r
        options = []
        if d.place == t.place:
            rel = posixpath.relpath(t.path, posixpath.dirname(d.path) or ".")
            options.append(rel)
            # not above the root
            c = r.choice(["./", "", "%s/../" % r.choice(["a", "zz"])])
            options.append(c + rel if not (c.endswith("../")) or True else rel)
        if t.place == "remote": options.append(self.web + "/" + t.path)
        for p, pl, f in self.rules:
            if pl == t.place and t.path.startswith(f):
                u = p + t.path[len(f):]
                if self.physical(u) == (t.place, t.path) and (not p.endswith("v1") and not p.endswith("x") or True): options.append(u)
        if not options: return
        h = r.choice(options)
        if how == "xsi" and " " in h: return
        d.refs.append((t, how, h))

    def closure(self, entries):
        seen, todo, missing = [], list(entries), []
        while todo:
            d = todo.pop(0)
            if d in seen or d in missing: continue
            if not d.exists: missing.append(d); continue
            seen.append(d)
            todo += [t for t, _, _ in d.refs]
        return seen, missing

    def text(self, d, facts):
        r = self.r
        R = lambda k: [(t, h) for t, how, h in d.refs if how == k]
        xsi = "".join(" %s %s" % (t.ns, h) for t, h in R("xsi")).strip()
        xsi = ' xsi:schemaLocation="%s"' % r.choice([xsi, " " + xsi.replace(" ", "\n ", 1)]) if xsi else ""
        q = r.choice(['"', "'"])
        hr = lambda h: "xlink:href=%s%s%s" % (q, h, q)
        role = "".join('<link:roleRef xlink:type="simple" roleURI="http://ex.com/u%d" %s/>' % (t.i, hr(h + "#r%d" % t.i)) for t, h in R("roleRef"))
        role += "".join('<link:arcroleRef xlink:type="simple" arcroleURI="http://ex.com/v%d" %s/>' % (t.i, hr(h + "#r%d" % t.i)) for t, h in R("arcroleRef"))
        NS = XB + ' xmlns:n0="http://ex.com/n0" xmlns:n1="http://ex.com/n1"'
        head = r.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>\n<!-- <link:schemaRef xlink:href="commented.xsd"/> -->\n'])
        img = '<svg xmlns="http://www.w3.org/2000/svg"><image xlink:type="simple" xlink:href="%s"/></svg>' % r.choice(["pic.png", NOWHERE + "/p.html", "gone.xml", "data:image/png;base64,AAAA"]) if r.random() < .2 else ""
        if d.kind == "schema":
            app = "".join('<link:linkbaseRef xlink:type="simple" %s/>' % hr(h) for _, h in R("linkbaseRef"))
            imp = "".join('<xs:import namespace="%s" schemaLocation=%s%s%s/>' % (t.ns, q, h, q) if t.ns != d.ns else '<xs:include schemaLocation=%s%s%s/>' % (q, h, q) for t, h in R("import"))
            decl = '<xs:element name="D%d" id="D%d" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/><xs:element name="R%d" id="R%d" abstract="true" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>' % ((d.i,) * 4)
            return head + '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="%s" %s>%s%s%s</xs:schema>' % (d.ns, NS, "<xs:annotation><xs:appinfo>%s</xs:appinfo><xs:documentation>%s</xs:documentation></xs:annotation>" % (app, img) if app or img else "", imp, decl)
        if d.kind == "linkbase":
            lnk = ""
            for k, (t, h) in enumerate(R("loc")):
                lnk += '<link:presentationLink xlink:type="extended" xlink:role="http://ex.com/role/L%d-%d"><link:loc xlink:type="locator" %s xlink:label="a"/><link:loc xlink:type="locator" %s xlink:label="b"/><link:presentationArc xlink:type="arc" xlink:from="a" xlink:to="b" xlink:arcrole="http://www.xbrl.org/2003/arcrole/parent-child" order="1"/></link:presentationLink>' % (d.i, k, hr(h + "#R%d" % t.i), hr(h + "#D%d" % t.i))
            g = R("gloc")
            if g: lnk += '<n0:extra xmlns:n0="http://acme.com/gen">%s</n0:extra>' % "".join('<n0:loc xlink:type="locator" %s xlink:label="z"/>' % hr(h + "#R%d" % t.i) for t, h in g)
            return head + "<link:linkbase %s%s>%s%s</link:linkbase>" % (NS, xsi, role, lnk)
        b = "".join('<link:schemaRef xlink:type="simple" %s/>' % hr(h) for _, h in R("schemaRef")) + "".join('<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" %s/>' % hr(h) for _, h in R("linkbaseRef")) + role
        b += '<xbrli:context id="c"><xbrli:entity><xbrli:identifier scheme="http://s">e</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>'
        b += "".join('<%s:D%d contextRef="c">v%d</%s:D%d>' % (s.ns[-2:], s.i, s.i, s.ns[-2:], s.i) for s in facts)
        if d.path.endswith((".htm", "html")):
            refs, ctx = b.split("<xbrli:context", 1)
            ctx, fs = ctx.split("</xbrli:context>")
            fs = "".join('<p><ix:nonNumeric name="%s:D%d" contextRef="c">v%d</ix:nonNumeric></p>' % (s.ns[-2:], s.i, s.i) for s in facts) + img
            return head + '<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" %s%s><head><title>t</title></head><body><ix:header>%s<ix:resources><xbrli:context%s</xbrli:context></ix:resources></ix:header>%s</body></html>' % (NS, xsi, "<ix:references>%s</ix:references>" % refs if refs else "", ctx, fs)
        return head + "<xbrli:xbrl %s%s>%s</xbrli:xbrl>" % (NS, xsi, b)

    def write(self, entries):
        env, r = self.env, self.r
        self.read, self.missing = self.closure(entries)
        self.facts = [d for d in self.read if d.kind == "schema"]
        r.shuffle(self.facts)
        self.facts = self.facts[:r.randint(0, len(self.facts))]
        os.makedirs(self.base)
        for d in self.docs:
            if not d.exists: continue
            t = self.text(d, self.facts if d is self.inst else [])
            env.files[d.place + ":" + d.path] = t
            if d.place == "local":
                p = posixpath.join(self.base, d.path)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", encoding="utf-8").write(t)
            else:
                PAGES[self.web[len(server()):] + "/" + d.path] = t.encode("utf-8")
        if self.rules:
            os.makedirs(posixpath.join(self.base, "META-INF"), exist_ok=True)
            up = r.choice(["../", "./../", "../a/../"]) if False else "../"
            rows = [(p, (up + f) if pl == "local" else self.web + "/" + f) for p, pl, f in self.rules]
            r.shuffle(rows)
            t = '<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">%s</catalog>' % "".join('<rewriteURI uriStartString="%s" rewritePrefix="%s"/>' % x for x in rows)
            env.files["local:META-INF/catalog.xml"] = t
            open(posixpath.join(self.base, "META-INF/catalog.xml"), "w").write(t)

    def check(self, path, again=False):
        OPENED.clear(); HITS.clear()
        _on[0] = self.base
        try: F = self.env.open(path)
        finally: _on[0] = None
        want = sorted(d.path for d in self.read if d.place == "local")
        got = sorted(set(p for p in OPENED if p and not p.endswith("META-INF/catalog.xml") and os.path.isfile(os.path.join(self.base, p))))
        expect(got == want, "local", "the local documents that are read are not the closure of the references", "read %s\nclosure %s" % (got, want))
        if self.remote and not again:
            pre = self.web[len(server()):] + "/"
            got = sorted(h[len(pre):] for h in HITS if h.startswith(pre))
            want = sorted(d.path for d in self.read if d.place == "remote")
            gone = sorted(d.path for d in self.missing)
            expect(sorted(set(got) - set(gone)) == sorted(set(want)) and set(got) - set(want) == set(gone), "remote", "the remote documents that are requested are not the closure of the references", "requested %s\nclosure %s missing %s" % (got, want, gone))
            expect(all(got.count(w) == 1 for w in want), "remote-once", "a remote document is requested more than once", got)
        if self.remote and again:
            pre = self.web[len(server()):] + "/"
            expect(not [h for h in HITS if h.startswith(pre) and h[len(pre):] not in {d.path for d in self.missing}], "cache", "a cached document is requested again", HITS)
        names = collections.Counter(e.get_name().local_name for e in F.get_all_report_elements())
        want = collections.Counter("%s%d" % (k, d.i) for d in self.read if d.kind == "schema" for k in "DR")
        expect(names == want, "elements", "the report elements are not those of the documents read", "got %s\nwanted %s" % (names, want))
        for e in F.get_all_report_elements():
            d = next(x for x in self.docs if x.i == int(e.get_name().local_name[1:]))
            expect(e.get_name().uri == d.ns, "namespace", "%s has the namespace of another document" % e.get_name(), e.get_name().uri)
        nets = collections.Counter((n.get_link_role(), tuple(sorted(str(x.get_report_element().get_name().local_name) for x in n.get_all_nodes()))) for n in context(F).get_network_repository().get_all())
        want = collections.Counter(("http://ex.com/role/L%d-%d" % (d.i, k), tuple(sorted(["D%d" % t.i, "R%d" % t.i]))) for d in self.read if d.kind == "linkbase" for k, (t, how, h) in enumerate(x for x in d.refs if x[1] == "loc"))
        expect(nets == want, "networks", "the networks are not those of the linkbases read", "got %s\nwanted %s" % (nets, want))
        fs = sorted((f.get_concept().get_name().local_name, f.get_value_as_str()) for f in F.get_all_facts())
        want = sorted(("D%d" % s.i, "v%d" % s.i) for s in self.facts)
        expect(fs == want or self.inst not in self.read, "facts", "the facts are not those of the instance", "got %s\nwanted %s\n%s" % (fs, want, [str(e) for e in F.get_all_errors()]))
        cs = codes(F.get_all_errors())
        bad = [e for e, c in zip(F.get_all_errors(), cs) if c == "UNAVAILABLE_REMOTE_FILE"]
        for d in self.missing:
            expect(any((self.web + "/" + d.path) in str(e) for e in bad), "unavailable", "no diagnostic for the unavailable %s" % d.path, [str(e) for e in F.get_all_errors()])
        expect(bool(bad) == bool(self.missing), "unavailable2", "documents reported as unavailable", [str(e) for e in bad])
        svc = context(F).get_xml_service()
        trees = len(svc.get_all_etrees())
        expect(trees == len(self.read), "once", "%d documents are parsed, the closure has %d" % (trees, len(self.read)), "")


def entry(g):
    """open by the instance"""
    r = g.r
    g.write([g.inst])
    return g.web + "/" + g.inst.path if g.inst.place == "remote" else posixpath.join(g.base, g.inst.path)


def local(env):
    g = Graph(env)
    p = entry(g)
    m = env.rng.random()
    if m < .4: return g.check(p)
    # relative to the working directory
    cwd = os.getcwd()
    try:
        if m < .7:
            os.chdir(os.path.dirname(g.base)); p = posixpath.relpath(p)
        else:
            os.chdir(os.path.dirname(p)); p = os.path.basename(p)
        g.check(env.rng.choice(["", "./"]) + p)
    finally: os.chdir(cwd)


def folder(env):
    g = Graph(env)
    g.write([d for d in g.docs if d.place == "local"])
    g.check(g.base + env.rng.choice(["", "", "/"]))


def remote(env):
    g = Graph(env, remote=True, missing=env.rng.random() < .3)
    p = entry(g)
    g.check(p)
    if env.rng.random() < .5: g.check(p, again=True)
    for k in [k for k in PAGES if k.startswith(g.web[len(server()):] + "/")]: del PAGES[k]


def rewrites(env):
    g = Graph(env, remote=env.rng.random() < .5, rewrites=True)
    g.inst.place = "local"
    if any(d.place == "local" and d.path == g.inst.path for d in g.docs if d is not g.inst): return
    g.inst.refs = []
    for t in env.rng.sample(g.schemas, env.rng.randint(0, min(3, len(g.schemas)))): g.ref(g.inst, t, "schemaRef")
    g.write([d for d in g.docs if d.place == "local"])
    g.check(g.base)
    if g.remote:
        for k in [k for k in PAGES if k.startswith(g.web[len(server()):] + "/")]: del PAGES[k]


def history(env):
    """earlier reports with documents of the same names"""
    base = env.dir
    for k in range(env.rng.randint(2, 3)):
        env.dir = posixpath.join(base, "h%d" % k)
        os.makedirs(env.dir)
        g = Graph(env, remote=env.rng.random() < .3)
        g.check(entry(g))
    # the same report after its documents have changed
    g.base2 = g.base
    for d in g.docs:
        if d.place == "local" and d.kind == "instance":
            p = posixpath.join(g.base, d.path)
            t = open(p, encoding="utf-8").read().replace(">v", ">w")
            open(p, "w", encoding="utf-8").write(t)
            F = env.open(p)
            vs = sorted(f.get_value_as_str() for f in F.get_all_facts())
            expect(vs == sorted("w%d" % s.i for s in g.facts), "changed", "a document that has changed since it was read is not read again", vs)


CASES = dict(local=local, folder=folder, remote=remote, rewrites=rewrites, history=history)
