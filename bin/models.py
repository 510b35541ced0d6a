"""The model configurations of spec/ that belong to each property, and how the behaviours TLC exports from them
become cases for the conformance driver (or runs of the tools)."""
import json
import re

import iffgen
import ifftools
from iffgen import hx, idx, Reg


def lines(out, tag):
    """Payloads of the lines `"TAG|..."` that a model printed, without repetitions, in a fixed order."""
    seen = set()
    for m in re.finditer(r'^"%s\|(.*)"\s*$' % tag, out, re.M):
        seen.add(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
    return sorted(seen)


def registry(out, num=1):
    """The registry a model was run with, as a driver registry; number 0 if it is the default one."""
    l = lines(out, "R")
    return reg_of(json.loads(l[0]), num) if l else iffgen.DEFAULT


def reg_of(r, num=1):
    nodes = lambda ns: [{bytes(e["id"]): e["slot"] for e in n} for n in ns]
    reg = Reg(num, r["kinds"], nodes(r["glob"]), {bytes(f["ty"]): nodes(f["nodes"]) for f in r["forms"]}, r["def"])
    if reg.kinds == iffgen.DEFAULT.kinds and not reg.forms:
        return iffgen.DEFAULT
    return reg


def stratified(items, key, rng, n):
    """At most n items, spread over the values of key."""
    if len(items) <= n:
        return list(items)
    groups = {}
    for x in items:
        groups.setdefault(key(x), []).append(x)
    for g in groups.values():
        rng.shuffle(g)
    out, keys = [], sorted(groups, key=str)
    while len(out) < n:
        for k in keys:
            if groups[k] and len(out) < n:
                out.append(groups[k].pop())
        keys = [k for k in keys if groups[k]]
    return out


# ---------------------------------------------------------------- reading
def reader_export(limit, per=20):
    """Streams the reader model was run on: the real reader gets the same bytes."""
    def export(out, rng):
        reg = registry(out)
        xs = []
        for l in lines(out, "X"):
            b, res = l.split("|")
            xs.append((bytes(json.loads(b)), res))
        xs = stratified(xs, lambda x: (x[1], len(x[0]), x[0][:4], x[0][4:8]), rng, limit)
        cases = []
        for i in range(0, len(xs), per):
            s = iffgen.Script()
            s.case("model-reader%d" % (i // per))
            if reg.num:
                s(reg.line())
            for b, res in xs[i:i + per]:
                h = s.new()
                s("read", h, reg.num, rng.choice(iffgen.READ_MODES) if rng.random() < 0.3 else "cookie", hx(b))
                if res == "ok":
                    s("check", h, reg.num)
                    s("write", h, reg.num, "cookie", "A")
                    s("free", h, reg.num)
                elif rng.random() < 0.5:
                    s("read", s.new(), reg.num, "cookie", hx(b + rng.choice([b"\0" * 9, b"FORM\0\0\0\4TEST", b"\xff" * 70])), "err=%d" % len(b), rng.choice(["", "unbuf", "chunk=1"]))
            s("end")
            cases += s.cases
        return cases
    return export


def reader(kind, tier, n):
    deep = tier == "thorough"
    return {"module": "MCReader.tla", "cfg": "MCReader%s%s.cfg" % (kind, "Deep" if deep else ""), "heap": "6g", "workers": 4, "export": reader_export(n * (8 if deep else 1))}


# ---------------------------------------------------------------- trees
KINDS = {"cat", "form", "list", "prop", "raw", "e1", "e2", "e3", "e4", "e5", "e6"}


def tree_of(j):
    """The tree the model printed, to be built or encoded."""
    n = iffgen.N(bytes(j["id"]), j["k"], bytes(j["ty"]), [tree_of(x) for x in j["props"]], [tree_of(x) for x in j["kids"]], bytes(j["data"]), [bytes(x) for x in j["ext"]])
    if n.k not in ("raw",) and n.real() != j["sz"]:
        n._sz = j["sz"]
    return n


def consistent(t):
    return all(n._sz is None or n.k not in iffgen.ADD for n, _ in t.walk())


def put(s, t, rng, reg):
    """A handle of tree t, read from memory or built by calls."""
    if consistent(t) and rng.random() < 0.6:
        h = s.new()
        s("read", h, reg.num, "mem", hx(t.encode()))
        return h
    return s.build(t)


def batches(name, xs, per, reg, fn, rng):
    """Cases of `per` items each; fn(script, item, rng, registry) appends the calls for one."""
    cases = []
    for i in range(0, len(xs), per):
        s = iffgen.Script()
        s.case("model-%s%d" % (name, i // per))
        if reg.num:
            s(reg.line())
        for x in xs[i:i + per]:
            fn(s, x, rng, reg)
        s("end")
        cases += s.cases
    return cases


def tree_export(name, fn, limit, key=lambda x: x[0], per=12, fields=2):
    """An export function for lines of `fields` parts, the last of which is a tree."""
    def export(out, rng):
        xs = [l.split("|", fields - 1) for l in lines(out, "X")]
        return batches(name, stratified(xs, key, rng, limit), per, registry(out), fn, rng)
    return export


def model(module, cfg, tier, export=None, deep=True, workers=4, heap="4g", **kw):
    d = {"module": "MC%s.tla" % module, "cfg": "MC%s%s%s.cfg" % (module, cfg, "Deep" if deep and tier == "thorough" else ""), "workers": 8 if tier == "thorough" else workers, "heap": "12g" if tier == "thorough" else heap}
    if export:
        d["export"] = export
    d.update(kw)
    return d


def amount(tier, n, k=8):
    return n * (k if tier == "thorough" else 1)


def do_check(s, x, rng, reg):
    t = tree_of(json.loads(x[1]))
    h = put(s, t, rng, reg)
    s("check", h, reg.num, "dump" if rng.random() < 0.1 else "")
    s("free", h, reg.num)


def do_write(s, x, rng, reg):
    t = tree_of(json.loads(x[2]))
    h = s.build(t)
    s("write", h, reg.num, "cookie", "B", "buf=%s" % x[1], "cap=%s" % x[0])
    if rng.random() < 0.5:
        s("write", h, reg.num, rng.choice(["path", "write"]), "B", "cap=%s" % x[0])
    s("write", h, reg.num, rng.choice(["cookie", "cookie", "path", "stdoutcookie"]), "A", rng.choice(["", "dump"]))
    s("free", h, reg.num)


def do_roundtrip(s, x, rng, reg):
    t = tree_of(json.loads(x[0]))
    h = s.build(t)
    s("check", h, reg.num)
    s("write", h, reg.num, rng.choice(iffgen.WRITE_MODES), "A")
    h2 = s.new()
    s("read", h2, reg.num, rng.choice(["cookie", "path", "mem", "pipe"]), "@A")
    s("check", h2, reg.num)
    s("cmp", h, h2, reg.num)
    s("write", h2, reg.num, "cookie", "B")
    s("free", h, reg.num)
    s("free", h2, reg.num)


def do_print(s, x, rng, reg):
    t = tree_of(json.loads(x[1]))
    h = put(s, t, rng, reg)
    s("print", h, reg.num, x[0])
    s("free", h, reg.num)


def do_cmp(s, x, rng, reg):
    a, b = tree_of(json.loads(x[1])), tree_of(json.loads(x[2]))
    h, k = put(s, a, rng, reg), put(s, b, rng, reg)
    s("cmp", h, k, reg.num)
    s("cmp", k, h, reg.num, "dump" if rng.random() < 0.1 else "")
    if rng.random() < 0.2:
        s("cmp", h, h, reg.num)
    s("free", h, reg.num)
    s("free", k, reg.num)


def numbered(t, h):
    """References of the chunks of t by identity: document order, PROPs first, from 1."""
    out = []
    def go(n, ref):
        out.append((n, ref))
        for i, c in enumerate(n.props):
            go(c, "%s.p%d" % (ref, i))
        for i, c in enumerate(n.kids):
            go(c, "%s.k%d" % (ref, i))
    go(t, str(h))
    return out


TEST, TYP2 = b"TEST", b"TYP2"


def do_search(s, x, rng, reg):
    t = tree_of(json.loads(x[1]))
    h = put(s, t, rng, reg)
    for tys in ([TEST], [TEST, TYP2], [TYP2]):
        s("search", h, len(tys), *map(idx, tys), "dump" if rng.random() < 0.05 else "")
    s("free", h, reg.num)


def do_lookup(s, x, rng, reg):
    t = tree_of(json.loads(x[1]))
    h = put(s, t, rng, reg)
    for n, ref in numbered(t, h):
        for id in (b"BODY", b"NAME"):
            if n.k == "form":
                s("get", ref, idx(id))
                s("getall", ref, idx(id))
                s("getdata", ref, idx(id))
            elif n.k == "prop":
                s("getp", ref, idx(id))
        if n.k == "list":
            s("getprop", ref, idx(TEST))
            s("getprop", ref, idx(TYP2))
    s("free", h, reg.num)


def do_session(s, hist, rng, reg, inspect=False):
    at, live, roots = {}, set(), {}
    for op in hist:
        if op[0] == "mk":
            h = at[op[2]] = s.new()
            roots[op[2]] = [op[2]]
            if op[1] == "createRawChunk":
                s("mk", h, op[1], idx(bytes(op[3])), hx(bytes(op[4])))
            elif op[1] in ("createEmptyCAT", "createEmptyList"):
                s("mk", h, op[1])
            else:
                s("mk", h, op[1], idx(bytes(op[3])))
        elif op[0] == "add":
            s("add", op[1], at[op[2]], at[op[3]])
            r = next(k for k in roots if op[2] in roots[k])
            roots[r] += roots.pop(op[3])
        elif op[0] == "move":
            s("detach", at[op[3]])
            s("add", op[1], at[op[2]], at[op[3]])
        elif op[0] == "poke":
            s("poke", at[op[1]], "sz", op[2])
        elif op[0] == "setraw":
            s("setraw", at[op[1]], hx(bytes(op[2])))
        elif op[0] == "update":
            s("update", at[op[1]])
        elif op[0] == "free":
            s("free", at[op[1]], reg.num)
            roots.pop(op[1])
    for r in list(roots):
        if inspect:
            for op in rng.sample(["check", "print", "search", "write", "cmp"], 3):
                a = {"check": ["check", at[r], 0], "print": ["print", at[r], 0, 0], "search": ["search", at[r], 1, idx(TEST)], "write": ["write", at[r], 0, "cookie", "A"], "cmp": ["cmp", at[r], at[r], 0]}[op]
                s(*a, "dump")
        elif rng.random() < 0.5:
            s("check", at[r], reg.num, "dump")
        s("free", at[r], reg.num)


def session_export(name, limit, inspect=False):
    def export(out, rng):
        xs = [json.loads(l) for l in lines(out, "X")]
        key = lambda h: tuple(sorted((o[0], o[1] if o[0] in ("mk", "add", "move") else "") for o in h))
        xs = stratified(xs, key, rng, limit)
        return batches(name, xs, 6, iffgen.DEFAULT, lambda s, x, r, g: do_session(s, x, r, g, inspect), rng)
    return export


def checker(cfg, t, n):
    return model("Checker", cfg, t, tree_export("check", do_check, amount(t, n), key=lambda x: (x[0], x[1][:60])))


def writer(cfg, t, n):
    return model("Writer", cfg, t, tree_export("write", do_write, amount(t, n), key=lambda x: (x[1], len(x[2]), x[0]), fields=3))


def roundtrip(t, n):
    return model("RoundTrip", "", t, tree_export("roundtrip", do_roundtrip, amount(t, n), key=lambda x: len(x[0]), fields=1))


def printer(t, n):
    return model("Printer", "", t, tree_export("print", do_print, amount(t, n), key=lambda x: (x[0], len(x[1]))))


def comparer(cfg, t, n):
    return model("Comparer", cfg, t, tree_export("compare", do_cmp, amount(t, n), key=lambda x: (x[0], len(x[1]), len(x[2])), fields=3))


def searcher(cfg, t, n, do):
    return model("Searcher", cfg, t, tree_export("search" if do is do_search else "lookup", do, amount(t, n), key=lambda x: (x[0], len(x[1]))))


def session(cfg, t, n, inspect=False):
    return model("Session", cfg, t, session_export("session" + cfg, amount(t, n), inspect))


# ---------------------------------------------------------------- tools
def a_file(f):
    return {"state": f["state"], "content": bytes(f["content"]).hex()}


def join_export(limit):
    def export(out, rng):
        xs = [json.loads(l) for l in lines(out, "X")]
        key = lambda x: (x["dest"], x["cap"], x["exit"], len(x["inputs"]), x["alias"] > 0)
        return [{"tool": "iffjoin", "inputs": [a_file(f) for f in x["inputs"]], "dest": "fullo" if x["dest"] == "full" and rng.random() < 0.5 else x["dest"], "cap": x["cap"],
                 "pre": x["before"] >= 0, "prelen": max(0, x["before"]), "long": rng.random() < 0.3, "alias": x["alias"] - 1} for x in stratified(xs, key, rng, limit)]
    return export


def pp_export(limit):
    def export(out, rng):
        xs = [json.loads(l) for l in lines(out, "X")]
        key = lambda x: (x["source"], x["nocheck"], x["exit"], len(x["input"]["content"]))
        return [{"tool": "iffpp", "input": a_file(x["input"]), "stdin": "no" if x["source"] == "name" else rng.choice(["file", "pipe"]), "nocheck": x["nocheck"], "long": rng.random() < 0.3} for x in stratified(xs, key, rng, limit)]
    return export


def command_export(limit):
    def export(out, rng):
        xs = [json.loads(l) for l in lines(out, "X")]
        key = lambda x: (x["tool"], x["end"], x["names"], x["output"], x["nocheck"])
        runs = []
        for x in stratified(xs, key, rng, limit):
            d = [["a", ifftools.typed(rng, "form", b"TEST")], ["b", ifftools.an_input(rng, rng.choice(["good", "good", "good", "bad"]))]] + ([["n", ifftools.typed(rng, "cat", b"TEST")]] if rng.random() < 0.6 else [])
            runs.append({"tool": x["tool"], "words": [bytes(w).decode() for w in x["words"]], "dir": d, "stdin": ifftools.typed(rng, "list", b"TEST")["content"]})
        return runs
    return export


def join(cfg, t, n):
    return model("Join", cfg, t, join_export(amount(t, n)))


# ---------------------------------------------------------------- identifiers and numbers
def ids_export(limit):
    def export(out, rng):
        xs = [bytes(json.loads(l)) for l in lines(out, "X")]
        def go(s, x, r, g):
            s("chkid", idx(x))
            s("chkft", idx(x))
        return batches("ids", stratified(xs, lambda x: x[:1], rng, limit), 60, iffgen.DEFAULT, go, rng)
    return export


def numbers_export(limit):
    def export(out, rng):
        xs = []
        for l in lines(out, "X"):
            fields, cut, total = map(json.loads, l.split("|"))
            xs.append((fields, cut, total))
        def go(s, x, r, g):
            fields, cut, total = x
            a = []
            for f in fields:
                n = 1 if f["ty"] == "ub" else 2 if f["ty"] in ("uw", "w") else 4
                v = f["v"][0] << 16 | f["v"][1] if isinstance(f["v"], list) else f["v"]
                a += [f["ty"], "%0*x" % (2 * n, v & ((1 << 8 * n) - 1))]
            s("seq", *a) if cut == total else s("seqcut", cut, *a)
        return batches("numbers", stratified(xs, lambda x: (tuple(f["ty"] for f in x[0]), x[1] == x[2]), rng, limit), 40, iffgen.DEFAULT, go, rng)
    return export


# ---------------------------------------------------------------- handlers
def do_handlers(s, t, rng, reg):
    h = s.build(t)
    s("check", h, reg.num)
    s("print", h, reg.num, 0)
    s("write", h, reg.num, "cookie", "A")
    x = s.new()
    s("read", x, reg.num, rng.choice(["mem", "cookie"]), "@A")
    s("cmp", h, x, reg.num)
    s("free", x, reg.num)
    b = t.encode()
    s("read", s.new(), reg.num, "cookie", hx(b[:rng.randrange(len(b))]))
    s("write", h, reg.num, "cookie", "B", "buf=0", "fail=%d" % rng.randrange(1, 12))
    s("free", h, reg.num)


def walker_export(limit):
    def export(out, rng):
        xs = [l.split("|", 1) for l in lines(out, "X")]
        xs = stratified(xs, lambda x: (x[0], len(x[1])), rng, limit)
        by = {}
        for r, t in xs:
            by.setdefault(r, []).append(tree_of(json.loads(t)))
        cases = []
        for r in sorted(by):
            cases += batches("walk%d-" % len(cases), by[r], 8, reg_of(json.loads(r)), do_handlers, rng)
        return cases
    return export


# ---------------------------------------------------------------- streams
def do_streams(s, l, rng, reg):
    x = json.loads(l)
    srcs = [bytes(b) for b in x["srcs"]]
    for i, b in enumerate(srcs):
        s("open", i + 1, rng.choice("rrfc"), hx(b))
    hs, order = [], x["hist"]
    # the last read of each source is the one that fails: there is no chunk then
    last = {k: max(i for i, t in enumerate(order) if t == k) for k in set(order)}
    for i, k in enumerate(order):
        h = s.new()
        s("readc", h, reg.num, k, idx(TEST))
        if last[k] != i:
            hs.append(h)
    if x["old"] and x["at"] == len(x["old"]) and rng.random() < 0.5:
        s("open", 3, "a", hx(bytes(x["old"])))
    elif x["old"] or rng.random() < 0.3:
        s("open", 3, "u", hx(bytes(x["old"])))
        s("seek", 3, x["at"])
    else:
        s("open", 3, rng.choice("wW"))
    for i in x["order"]:
        s("writec", hs[i - 1], reg.num, 3, idx(TEST))
    for h in hs:
        s("free", h, reg.num, "scope=" + idx(TEST))


def streams_export(limit):
    def export(out, rng):
        xs = stratified(lines(out, "X"), lambda l: (len(l), l[-30:]), rng, limit)
        return batches("streams", xs, 8, registry(out), do_streams, rng)
    return export


def streams(cfg, t, n):
    return model("Streams", cfg, t, streams_export(amount(t, n)))


# ---------------------------------------------------------------- sources and destinations
def do_source(s, x, rng, reg):
    b = bytes(x["content"])
    kind = "handle" if x["kind"] == "name" and x["errat"] >= 0 else x["kind"]
    opts = ["pat=" + ".".join(map(str, x["pattern"])), "unbuf" if x["cap"] == 1 else "rbuf=%d" % x["cap"]]
    if x["errat"] >= 0:
        opts.append("err=%d" % x["errat"])
    if kind in ("missing", "dir"):
        s("read", s.new(), 0, kind, "-")
        return
    h = s.new()
    s("read", h, 0, "mem", hx(b))
    k = s.new()
    s("read", k, 0, *({"name": [rng.choice(["path", "read", "path", "read", "fifo"]), hx(b)], "handle": ["cookie", hx(b)] + opts, "stdin": ["stdincookie", hx(b)] + opts}[kind]))
    if x["errat"] < 0 and x["ok"]:
        s("cmp", h, k, 0)
        s("free", h, 0)
        s("free", k, 0)


def sources_export(limit):
    def export(out, rng):
        xs = [json.loads(l) for l in lines(out, "X")]
        key = lambda x: (x["kind"], x["cap"], tuple(x["pattern"]), x["errat"] < 0, x["ok"])
        return batches("sources", stratified(xs, key, rng, limit), 12, iffgen.DEFAULT, do_source, rng)
    return export


def do_sink(s, x, rng, reg):
    h = s.build(tree_of(x["tree"]))
    s("write", h, 0, "cookie", "A")
    mode = {"name": rng.choice(["path", "write"]), "handle": "cookie", "stdout": "stdoutcookie", "nodir": "nodir"}[x["kind"]]
    opts = [] if x["room"] < 0 or mode == "nodir" else ["cap=%d" % x["room"]]
    if x["kind"] == "name":
        opts += ["pre=%d" % x["before"]] if x["before"] >= 0 else []
    elif mode != "nodir":
        opts.append("buf=%d" % x["cap"])
    s("write", h, 0, mode, "B", *opts)
    s("free", h, 0)


def sinks_export(limit):
    def export(out, rng):
        xs = [json.loads(l) for l in lines(out, "X")]
        key = lambda x: (x["kind"], x["before"], x["room"], x["cap"])
        return batches("sinks", stratified(xs, key, rng, limit), 12, iffgen.DEFAULT, do_sink, rng)
    return export


def do_scarce(s, x, rng, reg):
    b, taken = json.loads(x[0]), int(x[1])
    h = s.new()
    s("oom", taken + (x[2] == "ok"))
    s("read", h, reg.num, rng.choice(["cookie", "cookie", "mem", "path"]), hx(bytes(b)))
    s("free", h, reg.num)


def memory(t, n):
    def export(out, rng):
        xs = [l.split("|") for l in lines(out, "X")]
        return batches("scarce", stratified(xs, lambda x: (x[2], int(x[1]), x[0][:60]), rng, amount(t, n)), 20, registry(out), do_scarce, rng)
    return model("Memory", "", t, export)


def sources(t, n):
    return model("Sources", "", t, sources_export(amount(t, n)))


def sinks(t, n):
    return model("Sinks", "", t, sinks_export(amount(t, n)))


PLAN = {
    "C01": lambda t: [reader("Struct", t, 900), reader("Edge", t, 500)],
    "C02": lambda t: [reader("Struct", t, 700), reader("Edge", t, 900), reader("Ext", t, 400), {"module": "MCReader.tla", "cfg": "MCReaderStops.cfg", "heap": "6g"}, sources(t, 500), memory(t, 400)],
    "C03": lambda t: [roundtrip(t, 300), writer("Plain", t, 300)],
    "C04": lambda t: [roundtrip(t, 500)],
    "C05": lambda t: [writer("Plain", t, 500), writer("Ext", t, 300), model("Writer", "Ends", t, deep=False), sinks(t, 300)],
    "C06": lambda t: [checker("Struct", t, 900), checker("Name", t, 900)],
    "C07": lambda t: [model("Ids", "Id", t, ids_export(amount(t, 900))), model("Ids", "Type", t, ids_export(amount(t, 900)))],
    "C08": lambda t: [comparer("Mix", t, 600), comparer("Lists", t, 500)],
    "C09": lambda t: [searcher("Forms", t, 700, do_search)],
    "C10": lambda t: [searcher("Props", t, 400, do_lookup), searcher("Nested", t, 400, do_lookup)],
    "C11": lambda t: [session("Build", t, 700), session("Move", t, 400)],
    "C12": lambda t: [session("Sizes", t, 700), session("Move", t, 300)],
    "C13": lambda t: [session("Track", t, 600), session("Lists", t, 500)],
    "C14": lambda t: [reader("Ext", t, 400), model("Walker", "", t, walker_export(amount(t, 500)))],
    "C15": lambda t: [reader("Ext", t, 1000), writer("Ext", t, 300)],
    "C16": lambda t: [model("Numbers", "All", t, numbers_export(amount(t, 600)), deep=False), model("Numbers", "Edge", t, numbers_export(amount(t, 600)), deep=False), model("Numbers", "Seq", t, numbers_export(amount(t, 900)))],
    "C17": lambda t: [reader("Struct", t, 400), reader("Ext", t, 400), session("Build", t, 400), memory(t, 700)],
    "C18": lambda t: [reader("Struct", t, 500), reader("Edge", t, 600), checker("Name", t, 400)],
    "C19": lambda t: [printer(t, 700)],
    "C20": lambda t: [join("", t, 400), join("Many", t, 300), model("Join", "Ends", t, deep=False)],
    "C21": lambda t: [model("PP", "", t, pp_export(amount(t, 700)), deep=False), model("PP", "Ends", t, deep=False)],
    "C22": lambda t: [streams("One", t, 500), streams("Two", t, 500), reader("Edge", t, 400), reader("Ext", t, 400)],
    "C23": lambda t: [session("Build", t, 300, True), searcher("Forms", t, 200, do_search), searcher("Props", t, 200, do_lookup)],
    "C25": lambda t: [model("Command", "", t, command_export(amount(t, 900))), model("Command", "Long", t)],
    "C24": lambda t: [sources(t, 700), sinks(t, 500), model("Sources", "Ends", t, deep=False), model("Sinks", "Ends", t, deep=False)],
}


def models(prop, tier):
    return PLAN[prop](tier) if prop in PLAN else []
