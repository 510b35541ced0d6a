"""Input generators for the conformance driver: hierarchies, registries, files and call histories.

Nothing here decides anything: the scripts are executed by harness/driver.c and what they show is judged by
spec/IffTrace.tla.  Every choice comes from the random.Random that is passed in.
"""
import itertools, struct

FORM, CAT, LIST, PROP, JJJJ = b"FORM", b"CAT ", b"LIST", b"PROP", b"JJJJ"
GROUPK = {FORM: "form", CAT: "cat", LIST: "list", PROP: "prop"}
LAYOUT = {"e1": [1, 1, 2], "e2": [4, 4], "e3": [1, 2, 2, 4, 4, 4], "e4": [], "e5": [4, 1], "e6": [4, 2]}
ADD = {"form": "addToForm", "cat": "addToCAT", "list": "addToList", "prop": "addToProp"}


def hx(b):
    """Bytes as a script argument, long runs abbreviated."""
    if not b:
        return "-"
    if len(b) > 64 and b.count(b[:1]) == len(b):
        return "%02x*%d" % (b[0], len(b))
    out, i = [], 0
    while i < len(b):
        j = i
        while j < len(b) and b[j] == b[i]:
            j += 1
        if j - i > 24:
            out.append(".%02x*%d." % (b[i], j - i))
        else:
            out.append(b[i:j].hex())
        i = j
    return "".join(out).strip(".").replace("..", ".")


def idx(i):
    return i.hex()


class Reg:
    """A registry: kinds of the slots, chains of {identifier: slot}, default slot."""

    def __init__(self, num, kinds, glob, forms, default):
        self.num, self.kinds, self.glob, self.forms, self.default = num, kinds, glob, forms, default
        self.lib = False  # extends the default registry: its first five slots are the handlers of the library
        self.like = None  # another registry, whose slots and, where they are the same object, chains this one shares

    def find(self, scope, id):
        for n in self.forms.get(scope, []):
            if id in n:
                return n[id]
        for n in self.glob:
            if id in n:
                return n[id]
        return self.default

    def kind(self, scope, id):
        return self.kinds[self.find(scope, id) - 1]

    def line(self):
        def chain(ns, other):
            return "same" if other is ns else "%d %s" % (len(ns), " ".join("%d %s" % (len(n), " ".join("%s %d" % (idx(i), n[i]) for i in sorted(n))) for n in ns))
        other = self.like
        forms = " ".join("%s %s" % (idx(t), chain(self.forms[t], other and other.forms.get(t))) for t in sorted(self.forms))
        kinds = "like %d" % other.num if other else "%d %s" % (len(self.kinds), " ".join(self.kinds))
        if self.lib:
            return "reg %d %s def default glob default forms %d %s" % (self.num, kinds, len(self.forms), forms)
        return "reg %d %s def %d glob %s forms %d %s" % (self.num, kinds, self.default, chain(self.glob, other and other.glob), len(self.forms), forms)


DEFAULT = Reg(0, ["cat", "form", "list", "prop", "raw"], [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}], {}, 5)


class N:
    """A chunk to be built or encoded.  sz None: the right size."""

    def __init__(self, id, k, ty=b"\0\0\0\0", props=(), kids=(), data=b"", ext=(), sz=None, pad=0):
        self.id, self.k, self.ty, self.props, self.kids, self.data, self.ext, self._sz, self.pad = id, k, ty, list(props), list(kids), data, list(ext), sz, pad
        self.order = None  # order of PROPs and sub chunks in a LIST file, if mixed

    @property
    def sz(self):
        if self._sz is not None:
            return self._sz
        return self.real()

    def real(self):
        if self.k == "raw":
            return len(self.data)
        if self.k in ADD:
            return 4 + sum(space(c.sz) for c in self.props + self.kids)
        return sum(LAYOUT[self.k])

    def walk(self, depth=0):
        yield self, depth
        for c in self.props + self.kids:
            yield from c.walk(depth + 1)

    def copy(self):
        n = N(self.id, self.k, self.ty, [c.copy() for c in self.props], [c.copy() for c in self.kids], self.data, list(self.ext), self._sz, self.pad)
        n.order = self.order
        return n

    def encode(self):
        if self.k == "raw":
            body = self.data
        elif self.k in ADD:
            subs = self.props + self.kids
            if self.order:
                subs = [subs[i] for i in self.order if i < len(subs)]
            body = self.ty + b"".join(c.encode() for c in subs)
            if self.sz < 4:
                body = b"\0" * max(0, self.sz)
            elif len(body) < self.sz:
                body += b"\0" * min(self.sz - len(body), 600)  # beyond that the file is incomplete
        else:
            body, bp = b"", 0
            for f, v in zip(LAYOUT[self.k], self.ext):
                if bp + f > self.sz:
                    break
                body += v
                bp += f
            body += b"\0" * min(max(0, self.sz - len(body)), 600)
        return self.id + struct.pack(">i", self.sz) + body + (bytes([self.pad]) if self.sz % 2 else b"")


def space(sz):
    return 8 + sz + sz % 2


DATA_IDS = [b"BODY", b"CMAP", b"NAME", b"ab c", b"A~!z", b"ZZZZ", b"(c) ", b"BODX"]
ODD_IDS = [b"\xffABC", b"B\x80DY", b"\0\0\0\0", b" ABC", b"AB\x1fC", b"ABC\x7f", b"\xe9\xe9\xe9\xe9", b"\x7fELF", b"    "]
TYPES = [b"ILBM", b"8SVX", b"TEST", b"A-B1", b"ZZ9 "]
ODD_TYPES = [b"ilbm", b"AB.C", b"LIST", b"FORM", b"PROP", b"CAT ", b"LIS1", b"FOR9", b"CAT5", b" ABC", b"\xff\xff\xff\xff", b"\0\0\0\0", b"AB\x80C", b"a1BC", b"ABCd"]
NEAR_TYPES = [b"LIS0", b"FOR0", b"CAT0", b"LISA", b"FORN", b"CATS", b"JJJK", b"PRO1", b"LIS ", b"FOR:", b"CAT:", b"LIS/"]


# payloads that could be taken for something other than bytes
CONTENTS = [b"", b"\0", b"ab\0cd", b"\0abc", b"abc\0", b"abc\0\0", b"\0\0\0\0x", b"\n", b"a\r\nb", b"a\rb\n", b"%s%n%d", b"a\x1ab", b"\xff\xfea", b"\xef\xbb\xbfa", b"FORM\0\0\0\4TEST",
            b"  a ", b"a\tb\\n", b"\xc3\xa9\xe9", b"\xff", b"\xff\xff\xff\xff", b"\x80\0\x80\0", b"\x1b[0m", b"JJJJ", b"\7\x7f\x1f"]
NAMED_IDS = [b"TEXT", b"NAME", b"(c) ", b"AUTH", b"ANNO", b"CHRS", b"BODY", b"FVER"]


class Gen:
    def __init__(self, rng, reg=DEFAULT, ids=None, types=None, maxdata=12, bias_ext=0.5):
        self.r, self.reg, self.maxdata, self.bias_ext = rng, reg, maxdata, bias_ext
        self.ids = ids or DATA_IDS + [b"TEXT"]
        self.types = types or TYPES

    def payload(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 4, 5, r.randrange(0, self.maxdata + 1), r.randrange(0, self.maxdata + 1)])
        c = r.random()
        if c < 0.2:
            return bytes([r.choice([0, 255, 128, 10, 65])]) * n
        if c < 0.35:
            return r.choice(CONTENTS)
        return bytes(r.randrange(256) for _ in range(n))

    def data(self, scope, id=None):
        r = self.r
        if id is None:
            cand = self.ids
            if self.reg.num and r.random() < self.bias_ext:
                reg_ids = [i for ns in [self.reg.forms.get(scope, []), self.reg.glob] for n in ns for i in n if i not in GROUPK]
                cand = reg_ids or cand
            id = r.choice(cand)
        k = self.reg.kind(scope, id)
        if k == "raw":
            return N(id, k, data=self.payload())
        return self.ext(id, k)

    def ext(self, id, k, sz=None):
        r = self.r
        full = sum(LAYOUT[k])
        if sz is None:
            sz = full if r.random() < 0.5 else r.randrange(0, full + 7)
        bp, vals, stop = 0, [], False
        for f in LAYOUT[k]:
            stop = stop or bp + f > sz
            v = b"\0" * f if stop else r.choice([self.r.randbytes(f), b"\xff" * f, b"\x80" + b"\0" * (f - 1), b"\x7f" + b"\xff" * (f - 1), b"\0" * (f - 1) + b"\1"])
            if k == "e6" and not vals and r.random() < 0.8:
                v = bytes([v[0] & 127]) + v[1:]
            vals.append(v)
            bp += f
        return N(id, k, ext=vals, sz=sz)

    def form(self, ty, depth, width):
        r = self.r
        kids = []
        for _ in range(r.randrange(0, width + 1)):
            if depth > 0 and r.random() < 0.3:
                kids.append(self.group(depth - 1, width))
            else:
                kids.append(self.data(ty))
        return N(FORM, "form", ty, kids=kids)

    def prop(self, ty, width):
        return N(PROP, "prop", ty, kids=[self.data(ty) for _ in range(self.r.randrange(0, width + 1))])

    def group(self, depth, width, ty=None):
        """A conforming FORM, CAT or LIST; ty: what its type has to be."""
        r = self.r
        k = r.choice(["form", "form", "cat", "list"]) if depth > 0 else r.choice(["form", "form", "cat", "list", "form"])
        if k == "form":
            return self.form(ty if ty and ty != JJJJ else r.choice(self.types), depth, width)
        cty = ty or r.choice(self.types + [JJJJ])
        n = 0 if depth == 0 else r.randrange(0, width + 1)
        kids = []
        for _ in range(n):
            kids.append(self.group(depth - 1, width, None if cty == JJJJ else cty))
        if k == "cat":
            return N(CAT, "cat", cty, kids=kids)
        props = [self.prop(cty if cty != JJJJ and r.random() < 0.7 else r.choice(self.types), width) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return N(LIST, "list", cty, props, kids)

    def tree(self, depth=None, width=None):
        depth = self.r.choice([0, 1, 2, 2, 3]) if depth is None else depth
        return self.group(depth, self.r.choice([1, 2, 3, 4]) if width is None else width)

    def wide(self, p=0.5):
        """Conforming, with groups of every kind beside each other."""
        r = self.r

        def group(d, t):
            k = r.choice(["form", "cat", "list", "list"] if d else ["form"])
            if k == "form":
                f = self.form(t if t != JJJJ else r.choice(self.types), 0, r.choice([0, 1, 2]))
                if d and r.random() < p:
                    f.kids.insert(r.randrange(len(f.kids) + 1), group(d - 1, r.choice(self.types)))
                return f
            t = t if t != JJJJ else r.choice(self.types + [JJJJ] * 2)
            return N({"cat": CAT, "list": LIST}[k], k, t, [self.prop(x, 2) for x in r.sample(self.types, r.choice([0, 1, min(2, len(self.types))]))] if k == "list" else [],
                     [group(d - 1, t) for _ in range(r.choice([3, 4, 5] if d > 1 else [0, 1, 2, 3]))])
        t = group(2, JJJJ)
        return t if t.k != "form" else N(LIST, "list", t.ty, [], [t, group(1, t.ty), group(1, t.ty)])

    def wild(self, depth, width):
        """Any structure: what reading, writing and so on must cope with, conforming or not."""
        r = self.r

        def any_group(scope, d):
            id = r.choice([FORM, CAT, LIST, PROP])
            ty = r.choice(self.types + [JJJJ] + ODD_TYPES + NEAR_TYPES)
            kids, props = [], []
            for _ in range(r.randrange(0, width + 1)):
                if d > 0 and r.random() < 0.5:
                    c = any_group(ty, d - 1)
                else:
                    c = self.data(ty, r.choice(self.ids + ODD_IDS))
                (props if id == LIST and c.id == PROP else kids).append(c)
            return N(id, GROUPK[id], ty, props, kids)
        return any_group(b"\0\0\0\0", depth) if r.random() < 0.95 else self.data(b"\0\0\0\0")

    # ------------------------------------------------------------------ changes
    def retype(self, n, ty):
        """Another type, unless the handlers of that type would take the members for something they are not."""
        if any(self.reg.kind(ty, m.id) != m.k for m in n.props + n.kids):
            return False
        n.ty = ty
        return True

    def spoil(self, t):
        """Break one rule somewhere; returns a description."""
        r = self.r
        nodes = [n for n, _ in t.walk()]
        for _ in range(50):
            n = r.choice(nodes)
            c = r.randrange(9)
            if c == 0 and n.k in ("raw",) or c == 0 and n.k[0] == "e":
                n2 = r.choice(ODD_IDS)
                if self.reg.num == 0:
                    n.id = n2
                    return "id"
            elif c == 1 and n.k in ("form", "prop"):
                if self.retype(n, r.choice(ODD_TYPES)):
                    return "formtype"
            elif c == 2 and n.k in ("cat", "list"):
                if self.retype(n, r.choice([b" ABC", b"\xff\xff\xff\xff", b"AB\x80C", b"ABC\x1f", b"A\0BC"])):
                    return "contentstype"
            elif c == 3 and n.k == "form":
                n.kids.insert(r.randrange(len(n.kids) + 1), self.prop(r.choice(self.types), 2))
                return "prop in form"
            elif c == 4 and n.k == "prop":
                n.kids.insert(r.randrange(len(n.kids) + 1), r.choice([self.group(0, 1), self.prop(n.ty, 1)]))
                return "group in prop"
            elif c == 5 and n.k in ("cat", "list"):
                n.kids.insert(r.randrange(len(n.kids) + 1), self.prop(n.ty, 1) if n.k == "cat" and r.random() < 0.4 else self.data(n.ty))
                return "member"
            elif c == 6 and n.k in ("cat", "list") and n.kids:
                m = r.choice(n.kids)
                if m.k in ADD and self.retype(m, r.choice([x for x in self.types + NEAR_TYPES if x != m.ty])):
                    return "member type"
            elif c == 7 and n.k in ADD:
                n._sz = n.sz + r.choice([1, -1, 2, -2, 4, -4, 8, 256, 65536, -n.sz, -n.sz - 1 - r.randrange(100)])
                return "size"
            elif c == 8 and n is t:
                return "root"
        return "none"

    def differ(self, t):
        """Change exactly one thing somewhere; returns the changed copy."""
        r = self.r
        t = t.copy()
        nodes = [(n, p) for n, p in parents(t)]
        for _ in range(100):
            n, p = r.choice(nodes)
            c = r.randrange(9)
            if c == 0 and n.k == "raw" and n.data:
                i = r.choice([0, len(n.data) - 1, r.randrange(len(n.data))])
                n.data = n.data[:i] + bytes([n.data[i] ^ (1 << r.randrange(8))]) + n.data[i + 1:]
                return t
            if c == 1 and n.k == "raw":
                x = bytearray(n.id)
                x[r.randrange(4)] ^= 1 << r.randrange(8)
                x = bytes(x)
                scope = p.ty if p else b"\0\0\0\0"
                if x not in GROUPK and self.reg.kind(scope, x) == "raw":
                    n.id = x
                    return t
            if c == 2 and n.k in ADD and not any(m.k[0] == "e" for m, _ in n.walk()):
                x = bytearray(n.ty)
                x[r.randrange(4)] ^= 1 << r.randrange(8)
                if self.reg.num == 0:
                    n.ty = bytes(x)
                    return t
            if c in (3, 4) and (n.kids if c == 3 else n.props):
                if r.random() < 0.6:
                    n._sz = n.sz  # so that the number of chunks is all that differs
                l = n.kids if c == 3 else n.props
                l.pop(r.choice([0, len(l) - 1, len(l) - 1, r.randrange(len(l))]))
                return t
            if c == 5 and n.k in ADD and len(n.kids) > 1:
                i = r.randrange(len(n.kids) - 1)
                if n.kids[i].encode() != n.kids[i + 1].encode():
                    n.kids[i], n.kids[i + 1] = n.kids[i + 1], n.kids[i]
                    return t
            if c == 6 and n.k == "raw":
                n.data += b"\0"
                return t
            if c == 7 and n.k[0] == "e" and n.ext and n.sz >= sum(LAYOUT[n.k]):
                i = r.randrange(len(n.ext))
                v = bytearray(n.ext[i])
                v[r.randrange(len(v))] ^= 1 << r.randrange(7)
                n.ext[i] = bytes(v)
                return t
            if c == 8 and n.k in ADD or c == 8 and n.k[0] == "e":
                n._sz = n.sz + r.choice([1, 2, 256, 65536])
                return t
        return t


def changes(t, reg):
    """Every copy of t that differs from it in one place, with and without a difference in size."""
    for i, (n, _) in enumerate(list(t.walk())):
        def at(f, freeze=False):
            c = t.copy()
            m = list(c.walk())[i][0]
            if freeze:
                m._sz = m.sz
            f(m)
            return c
        if n.k == "raw":
            for j in sorted({0, 1, 2, 3, len(n.data) // 2, len(n.data) - 1}):
                if 0 <= j < len(n.data):
                    yield at(lambda m: setattr(m, "data", m.data[:j] + bytes([m.data[j] ^ (1 << (j + i) % 8)]) + m.data[j + 1:]))
            yield at(lambda m: setattr(m, "data", m.data + b"\0"))
            if n.data:
                yield at(lambda m: setattr(m, "data", m.data[:-1]))
            if reg.num == 0:
                for j in range(4):
                    x = n.id[:j] + bytes([n.id[j] ^ (1 << (j + i) % 8)]) + n.id[j + 1:]
                    if x not in GROUPK:
                        yield at(lambda m: setattr(m, "id", x))
        elif n.k in ADD:
            for d in (1, 256, 65536):
                yield at(lambda m: setattr(m, "_sz", m.sz + d))
            if reg.num == 0:
                for j in range(4):
                    yield at(lambda m: setattr(m, "ty", m.ty[:j] + bytes([m.ty[j] ^ (1 << (j + i) % 8)]) + m.ty[j + 1:]))
            for l in ("props", "kids"):
                for j in range(len(getattr(n, l))):
                    for freeze in (False, True):
                        yield at(lambda m: getattr(m, l).pop(j), freeze)
                    yield at(lambda m: getattr(m, l).insert(j, getattr(m, l)[j].copy()), True)
                    if j and getattr(n, l)[j].encode() != getattr(n, l)[j - 1].encode():
                        yield at(lambda m: getattr(m, l).insert(j - 1, getattr(m, l).pop(j)))
        else:
            yield at(lambda m: setattr(m, "_sz", m.sz + 1))
            bp = 0
            for j, f in enumerate(LAYOUT[n.k]):
                bp += f
                if bp > n.sz:
                    break
                for b in (0, f - 1):
                    yield at(lambda m: m.ext.__setitem__(j, m.ext[j][:b] + bytes([m.ext[j][b] ^ (1 << (i + j) % 7)]) + m.ext[j][b + 1:]))


def parents(t, p=None):
    yield t, p
    for c in t.props + t.kids:
        yield from parents(c, t)


def random_reg(rng, num, deep=False, ext_default=False, lib=None):
    """A registry in which groups keep their kinds and data chunks may be anything, depending on scope."""
    kinds = ["cat", "form", "list", "prop", "raw"]
    def slot(k):
        if len(kinds) >= 13:
            c = [i + 1 for i, x in enumerate(kinds) if x == k]
            if c:
                return rng.choice(c)
        kinds.append(k)
        return len(kinds)
    ids = DATA_IDS + [b"TEXT", b"\x80HI ", b"CMAQ"]
    def node(n):
        d = {}
        for _ in range(n):
            d[rng.choice(ids)] = slot(rng.choice(["raw", "e1", "e2", "e3", "e4", "e5", "e6", "e1", "e3"]))
        return d
    glob = [node(rng.choice([0, 1, 2, 4])) for _ in range(rng.choice([1, 1, 2, 3]))]
    for i, s in ((CAT, 1), (FORM, 2), (LIST, 3), (PROP, 4)):
        glob[rng.randrange(len(glob))][i] = s
    forms = {}
    for t in rng.sample(TYPES + [JJJJ, b"\xff\xfeZZ"], rng.choice([1, 2, 3])):
        ns = [node(rng.choice([0, 1, 2, 3])) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.4:
            i = rng.choice([CAT, FORM, LIST, PROP])
            ns[rng.randrange(len(ns))][i] = slot(GROUPK[i])
        forms[t] = ns
    if lib if lib is not None else not ext_default and rng.random() < 0.2:  # an extension of the default registry
        r = Reg(num, kinds, DEFAULT.glob, {t: [{i: x for i, x in nd.items() if x > 5} for nd in ch] for t, ch in forms.items()}, 5)
        r.lib = True
        return r
    default = slot(rng.choice(["e2", "e4", "e5"])) if ext_default else rng.choice([5, 5, slot("raw")])
    return Reg(num, kinds, glob, forms, default)


class Script:
    """Collects cases; each is a list of lines."""

    def __init__(self):
        self.cases = []

    def case(self, name):
        self.cur = []
        self.cases.append((name, self.cur))
        self.h = 0
        return self

    def __call__(self, *a):
        self.cur.append(" ".join(str(x) for x in a))

    def new(self):
        self.h += 1
        return self.h

    def build(self, t, track=False):
        """API calls that build t bottom-up; returns the handle."""
        h = self.new()
        if t.k == "raw":
            self("mk", h, "createRawChunk", idx(t.id), hx(t.data))
        elif t.k in ADD:
            if t.k in ("form", "prop"):
                self("mk", h, "createEmptyForm" if t.k == "form" else "createEmptyProp", idx(t.ty))
            elif track:
                self("mk", h, "createEmptyCAT" if t.k == "cat" else "createEmptyList")
            else:
                self("mk", h, "createEmptyCATWithContentsType" if t.k == "cat" else "createEmptyListWithContentsType", idx(t.ty))
            for c in t.props:
                x = self.build(c, track)
                self("add", "addPropToList", h, x)
            for c in t.kids:
                x = self.build(c, track)
                fn = ADD[t.k]
                if track and t.k in ("cat", "list"):
                    fn += "AndUpdateContentsType"
                self("add", fn, h, x)
            if t._sz is not None:
                self("poke", h, "sz", t._sz)
        else:
            self("mk", h, "ext" + t.k, idx(t.id), t.sz, *[hx(v) for v in t.ext])
        return h


READ_MODES = ["path", "read", "file", "mem", "cookie", "pipe", "stdinfile", "stdincookie", "stdinpipe", "fifo"]
NAMES = [b"-", b"--", b"-c", b" ", b"a b", b"%s%n%d", b"..x", b"./in", b"in\nput", b"\xff\xfe", b"stdin", b"stdout", b"con", b"a" * 200, b"in.iff", b"IN", b"*", b"~", b"$HOME", b"'\"`;&|", b"\\x", b"in.iff.gz", b"./sub/../in"]


def called(rng, p=0.25):
    """An option that gives the file, in the working directory, another name."""
    return "as=" + rng.choice(NAMES[:-1]).hex() if rng.random() < p else ""


WRITE_MODES = ["path", "write", "cookie", "file", "pipe", "stdoutcookie", "stdoutfile", "fifo"]


def variations(rng, t):
    """Make the stored form of t peculiar without changing what is in it."""
    for n, _ in list(t.walk()):
        if rng.random() < 0.15:
            n.pad = rng.randrange(1, 256)
        if n.k == "list" and n.props and n.kids and rng.random() < 0.4:
            n.order = list(range(len(n.props) + len(n.kids)))
            rng.shuffle(n.order)
    return t


def related_reg(rng, num, reg):
    """A registry that differs from reg in part and shares the rest with it."""
    raws = [i + 1 for i, k in enumerate(reg.kinds) if k not in ADD]
    def node(old=()):
        ids = [x for x in old if x not in GROUPK] + DATA_IDS
        return {x: rng.choice(raws) for x in rng.sample(ids, rng.choice([0, 1, 2, 4]))}
    forms = {}
    for t in list(reg.forms) + rng.sample(TYPES, 1):
        c = rng.random()
        if c < 0.35 and t in reg.forms:
            forms[t] = reg.forms[t]
        elif c < 0.8:
            forms[t] = [node(nd) for nd in reg.forms.get(t, [{}])]
    glob = reg.glob
    if rng.random() < 0.3:
        glob = [node() for _ in range(rng.choice([1, 2]))] + [{x: nd[x] for x in nd if x in GROUPK} for nd in reg.glob]
    r = Reg(num, reg.kinds, glob, forms, rng.choice(raws))
    r.like = reg
    return r


def scoped_reg(rng, num):
    """A registry in which groups have handlers of their own within several types."""
    kinds = ["cat", "form", "list", "prop", "raw"]
    forms = {}
    for t in rng.sample(TYPES + [JJJJ], 3):
        ids = rng.sample([CAT, FORM, LIST, PROP, PROP, b"BODY"], 3)
        d = {}
        for i in ids:
            if len(kinds) < 13:
                kinds.append(GROUPK.get(i, "raw"))
                d[i] = len(kinds)
        forms[t] = [d]
    return Reg(num, kinds, [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}], forms, 5)


def some_reg(rng, s, p=0.5, **kw):
    if rng.random() < p:
        reg = random_reg(rng, rng.randrange(1, 4), **kw)
        s(reg.line())
        return reg
    return DEFAULT


SIZES = [0, 1, 2, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537]


def big_trees(rng, tier):
    """Trees at the sizes where implementations like to fail."""
    out = []
    for n in SIZES if tier == "thorough" else [255, 256, 257, 4095, 4097, 65535, 65537]:
        out.append(("size%d" % n, N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=bytes([7]) * n), N(b"NAME", "raw", data=b"abc")])))
    for n in ([64, 127, 128, 129, 255, 256, 257, 300, 1000] if tier == "thorough" else [128, 300]):
        out.append(("wide%d" % n, N(FORM, "form", b"TEST", kids=[N(b"BODY" if i % 2 else b"NAME", "raw", data=bytes([i % 251]) * (i % 4)) for i in range(n)])))
    out.append(("widecat", N(CAT, "cat", JJJJ, kids=[N(FORM, "form", TYPES[i % 3], kids=[]) for i in range(70)])))
    out.append(("wideprop", N(LIST, "list", b"TEST", props=[N(PROP, "prop", TYPES[i % 5], kids=[N(b"NAME", "raw", data=bytes([i]))]) for i in range(40)], kids=[N(FORM, "form", b"TEST")])))
    for d in ([20, 64, 128, 200] if tier == "thorough" else [33]):
        t = N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=b"x")])
        for i in range(d):
            t = [lambda t: N(CAT, "cat", JJJJ, kids=[t]), lambda t: N(LIST, "list", JJJJ, kids=[t], props=[N(PROP, "prop", b"ILBM", kids=[N(b"CMAP", "raw", data=b"12")])]),
                 lambda t: N(FORM, "form", b"ILBM", kids=[N(b"NAME", "raw", data=b"y"), t])][i % 3](t)
        out.append(("deep%d" % d, t))
    return out


# ---------------------------------------------------------------------------------------------- families
# Each family appends cases to script s; n scales the number of random cases.

def tail(rng):
    """Something behind the main chunk."""
    return rng.choice([b"\0", b"\0\0", b"\0" * 9, b"x", b"\xff", b"\xff\xff", b"\xff\0", b"\n", b"\r\n", b"\x1a\0\0", b" " * 4, FORM, FORM + b"\0\0\0\4TEST", b"BODY\0\0\0\1a\0", rng.randbytes(9), bytes([rng.randrange(256)]) * rng.choice([1, 2, 3, 8])])


def fam_read(s, rng, n, tier):
    for i in range(n):
        s.case("read%d" % i)
        reg = some_reg(rng, s, 0.4)
        g = Gen(rng, reg)
        t = g.tree() if rng.random() < 0.5 else g.wild(rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5]))
        variations(rng, t)
        if rng.random() < 0.25:  # sizes that do not fit the contents
            for m, _ in list(t.walk()):
                if m.k in ADD and rng.random() < 0.4:
                    m._sz = max(0, m.real() + rng.choice([-1, -2, -3, -4, -5, -6, -8, -12, 1, 2, 8]))
        b = t.encode() + rng.choice([b"", b"", tail(rng)])
        opt = ""
        mode = rng.choice(READ_MODES)
        if "cookie" in mode:
            opt = rng.choice(["", "unbuf", "chunk=1", "chunk=3", "chunk=7 unbuf"])
        elif mode in ("file", "mem"):
            opt = rng.choice(["", "unbuf", "scope=%s" % idx(rng.choice(TYPES + [b"\0\0\0\0"]))])
        elif mode in ("path", "read"):
            opt = called(rng)
        s("read", 1, reg.num, mode, hx(b), opt)
        s("check", 1, reg.num)
        s("free", 1, reg.num)
        s("end")


def fam_tails(s, rng, n, tier):
    """Every byte directly behind a main chunk, alone and with others behind it."""
    for i in range(n):
        s.case("tails%d" % i)
        g = Gen(rng, DEFAULT, maxdata=3)
        for k in range(256):
            if k % n != i:
                continue
            for more in (b"", b"\0", rng.randbytes(rng.choice([1, 4, 12]))):
                t = g.tree(rng.choice([0, 1]), 1)
                mode, opt = rng.choice([("file", ""), ("mem", ""), ("cookie", "unbuf"), ("file", "unbuf"), ("cookie", "unbuf chunk=1")])
                s("read", 1, 0, mode, hx(t.encode() + bytes([k]) + more), opt)
                s("free", 1, 0)
        s("end")


def fam_read_big(s, rng, n, tier):
    for name, t in big_trees(rng, tier):
        s.case("big" + name)
        b = t.encode()
        s("read", 1, 0, rng.choice(["path", "cookie"]), hx(b))
        s("check", 1, 0)
        s("write", 1, 0, "cookie", "A")
        s("read", 2, 0, "pipe", "@A")
        s("cmp", 1, 2, 0)
        s("free", 1, 0)
        s("free", 2, 0)
        s("end")


# -- hierarchies and payloads beyond the sizes at which counters and buffers overflow

def raw(id, data):
    return N(id, "raw", data=data)


def ty(i):
    """Type number i."""
    return b"T%c%c%c" % (48 + i // 100 % 10, 48 + i // 10 % 10, 48 + i % 10)


def nested(kinds, t):
    """t within one group of every kind, the last outermost."""
    for k in kinds:
        p = [N(PROP, "prop", b"ILBM", kids=[raw(b"CMAP", b"12")])] if k == "list" else []
        t = N({"cat": CAT, "form": FORM, "list": LIST}[k], k, b"TEST" if k == "form" else JJJJ, p, [t])
    return t


def blocks(n, j=0):
    """n bytes that look different wherever they are cut into blocks."""
    return bytes((i * 7 + (i >> 8) * 13 + (i >> 16) + j) % 251 for i in range(n))


def large(rng, kind):
    w = rng.choice([257, 258, 280, 301])
    if kind == "chunks":
        return N(FORM, "form", b"TEST", kids=[raw(rng.choice([b"BODY", b"NAME"]), bytes([i % 251]) * rng.randrange(4)) for i in range(w)])
    if kind == "forms":
        return N(CAT, "cat", JJJJ, kids=[N(FORM, "form", rng.choice(TYPES[:3]), kids=[raw(b"NAME", b"ab")] * (i % 9 == 0)) for i in range(w)])
    if kind == "props":
        return N(LIST, "list", JJJJ, [N(PROP, "prop", ty(i), kids=[raw(b"NAME", bytes([i % 256]))]) for i in range(w)], [N(FORM, "form", ty(w - 1)), N(FORM, "form", ty(0))])
    if kind == "prop":
        return N(LIST, "list", b"TEST", [N(PROP, "prop", b"TEST", kids=[raw(b"N%c%c%c" % (48 + i // 100, 48 + i // 10 % 10, 48 + i % 10), bytes([i % 256])) for i in range(w)])], [N(FORM, "form", b"TEST")])
    if kind == "bigprops":
        return N(LIST, "list", b"TEST", [N(PROP, "prop", TYPES[j], kids=[raw(b"BODY", blocks(n, j))]) for j, n in enumerate([rng.choice([33000, 40001]), 33001])], [N(FORM, "form", b"TEST", kids=[raw(b"NAME", b"n")])])
    if kind == "bigkids":
        return N(CAT, "cat", b"TEST", kids=[N(FORM, "form", b"TEST", kids=[raw(b"BODY", blocks(n, j))]) for j, n in enumerate([rng.choice([33000, 40001]), 33001, 3])])
    if kind == "long":
        return N(FORM, "form", b"TEST", kids=[raw(b"BODY", blocks(rng.choice([65537, 70001]))), raw(b"CMAP", blocks(rng.choice([65535, 65536]), 5)), raw(b"NAME", b"end")])
    if kind == "blocks":  # around and at the sizes of buffers
        n = [k + d for k in (128, 256, 512, 1024, 2048) for d in (-1, 0, 1)] + rng.sample([4095, 4096, 4097, 8192, 12288, 16384, 3072], 4)
        rng.shuffle(n)
        return N(FORM, "form", b"TEST", kids=[raw(b"BODY", blocks(k, j)) for j, k in enumerate(n)])
    if kind == "deep":
        return nested([rng.choice(["cat", "form", "list"]) for _ in range(rng.choice([66, 70]))], N(FORM, "form", b"TEST", kids=[raw(b"NAME", b"in")]))
    if kind in ("deepforms", "deepcats", "deeplists"):  # by way of the same functions all the time
        return nested([kind[4:-1]] * rng.choice([66, 70]), N(FORM, "form", b"TEST", kids=[raw(b"NAME", b"in")]))


LARGE = ["chunks", "forms", "props", "prop", "bigprops", "bigkids", "long", "blocks", "deep", "deepforms", "deepcats", "deeplists"]


def some_large(rng, n, s, name, kinds=LARGE):
    """n cases, each with one large hierarchy."""
    kinds = list(kinds)
    rng.shuffle(kinds)
    for i in range(n):
        k = kinds[i % len(kinds)]
        s.case("%s%d-%s" % (name, i, k))
        yield k, large(rng, k)
        s("end")


def obtain(s, rng, t):
    """A handle of t, read: building it would record every step."""
    h = s.new()
    s("read", h, 0, rng.choice(["mem", "cookie", "path"]), hx(t.encode()))
    return h


def last_one(l, rng):
    return rng.choice([len(l) - 1, len(l) - 1, min(256, len(l) - 1), rng.randrange(len(l))])


def late(rng, t):
    """A chunk of t that is among the last ones."""
    nodes = [m for m, _ in t.walk()]
    return nodes[rng.choice([len(nodes) - 1, len(nodes) - 2, rng.randrange(len(nodes) * 9 // 10, len(nodes))])]


def fam_largeverdict(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largeverdict"):
        h = obtain(s, rng, t)
        s("check", h, 0, "dump" if rng.random() < 0.2 else "")
        for _ in range(4):
            m = late(rng, t) if rng.random() < 0.7 else t
            r = ref_of(t, m, h)
            if m.k in ADD:
                if rng.random() < 0.5:
                    s("poke", r, "sz", m.sz + rng.choice([65536, -65536, 256, -256, 1, 1 << 24]))
                    s("check", h, 0)
                    s("poke", r, "sz", m.sz)
                else:
                    s("poke", r, "ty", idx(rng.choice([b"ab.c", b"\xff\0\0\0", b"OTHR"])))
                    s("check", h, 0)
                    s("poke", r, "ty", idx(m.ty))
        m = late(rng, t)
        if m.k in ADD:
            x = s.build(raw(b"BODY", b"x") if m.k in ("cat", "list") else N(PROP, "prop", b"TEST"))
            s("add", ADD[m.k], ref_of(t, m, h), x)
            s("check", h, 0)
        s("free", h, 0)


def fam_largecmp(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largecmp"):
        a = obtain(s, rng, t)
        b = obtain(s, rng, t)
        s("cmp", a, b, 0)
        for i in range(3):
            u = t.copy()
            m = late(rng, u)
            if kind in ("long", "bigprops", "bigkids"):
                m = [m for m, _ in u.walk() if len(m.data) > 30000][i % 2]
            if m.k == "raw":
                j = [len(m.data) - 1, min(len(m.data) - 1, 65534), rng.randrange(len(m.data))][i] if m.data else 0
                if m.data and (i == 0 or rng.random() < 0.8):
                    m.data = m.data[:j] + bytes([m.data[j] ^ 1 << rng.randrange(8)]) + m.data[j + 1:]
                else:
                    m.id = bytes([m.id[0] ^ 1]) + m.id[1:]
            elif rng.random() < 0.5:
                m.ty = m.ty[:3] + bytes([m.ty[3] ^ 1])
            elif m.kids or m.props:
                l = m.props or m.kids
                l.pop(last_one(l, rng))
            c = obtain(s, rng, u)
            s("cmp", a, c, 0)
            s("cmp", c, b, 0)
            s("free", c, 0)
        s("free", a, 0)
        s("free", b, 0)


def fam_largesearch(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largesearch", ["forms", "forms", "props", "deep", "many"]):
        if kind == "many":  # mostly nested in one another
            t = N(LIST, "list", JJJJ, [N(PROP, "prop", b"ILBM")], [N(CAT, "cat", JJJJ, kids=[N(FORM, "form", TYPES[(i + j) % 4], kids=[N(FORM, "form", TYPES[i % 3]), raw(b"NAME", b"")]) for i in range(90)]) for j in range(3)])
        h = obtain(s, rng, t)
        tys = sorted({m.ty for m, _ in t.walk() if m.k == "form"})
        s("search", h, 1, idx(tys[-1]))
        s("search", h, len(tys), *[idx(x) for x in tys])
        many = [ty(i) for i in range(260)]
        s("search", h, 261, *[idx(x) for x in many + [tys[0]]], "dump")
        s("search", h, 261, *[idx(x) for x in [tys[-1]] + many])
        s("free", h, 0)


def fam_largelookup(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largelookup", ["deepforms", "props", "prop", "chunks", "deep", "deepcats"]):
        if kind.startswith("deep"):  # the property is far away
            t = N(LIST, "list", JJJJ, [N(PROP, "prop", b"TEST", kids=[raw(b"CMAP", b"far"), raw(b"NAME", b"n")])], [t])
        h = obtain(s, rng, t)
        nodes = [m for m, _ in t.walk()]
        for m in rng.sample(nodes, min(len(nodes), 12)) + [m for m in nodes if m.k in ("form", "list")][-6:]:
            r = ref_of(t, m, h)
            if m.k == "form":
                ids = [c.id for c in t.props[-1].kids] if t.props else [b"NAME"]
                for x in {ids[-1], ids[0], rng.choice(ids), b"CMAP", b"NONE"}:
                    s("get", r, idx(x))
                s("getdata", r, idx(rng.choice([b"NAME", b"BODY"])))
                s("getall", r, idx(b"NAME"))
                s("getall", r, idx(b"BODY"))
            elif m.k == "prop":
                for x in {c.id for c in (m.kids[-1:] + m.kids[256:257] + m.kids[:1])} | {b"NONE"}:
                    s("getp", r, idx(x))
            elif m.k == "list":
                for x in {c.ty for c in (m.props[-1:] + m.props[256:257] + m.props[:1])} | {b"NONE"}:
                    s("getprop", r, idx(x))
        s("free", h, 0)


def fam_largebuild(s, rng, n, tier):
    """Long histories of adding, with recalculations in between."""
    for i in range(n):
        s.case("largebuild%d" % i)
        k = ["list", "form", "cat", "prop"][i % 4]
        h = s.new()
        K = {"form": "Form", "cat": "CAT", "list": "List", "prop": "Prop"}[k]
        s("mk", h, "createEmpty" + K, *([idx(b"TEST")] if k in ("form", "prop") else []))
        big = rng.random() < 0.5
        w = rng.choice([257, 260, 300])
        track = rng.random() < 0.7
        odd = rng.choice([w - 1, w - 2, 256, w + 1])
        for j in range(w):
            if k in ("form", "prop"):
                c = raw(b"BODY", b"d" * (j % 3 if not big else 22000 if j > w - 5 else 0))
            else:
                c = N(FORM, "form", b"ILBM" if j == odd else b"TEST")
            x = s.build(c)
            s("add", ADD[k] + ("AndUpdateContentsType" if track and k in ("cat", "list") else ""), h, x)
            if k == "list":
                x = s.build(N(PROP, "prop", ty(j)))
                s("add", "addPropToList", h, x)
        s("check", h, 0)
        x = s.build(N(CAT if k in ("form", "cat", "list") else FORM, "cat" if k != "prop" else "form", JJJJ))
        s("add", ADD["cat" if k != "prop" else "form"], x, h)
        last = "%d.k%d" % (h, w - 1)
        if k in ("form", "prop"):
            s("setraw", last, hx(b"r" * rng.choice([65536, 70001])))
        else:
            s("poke", last, "sz", 70000)
        s("poke", h, "sz", 0)
        s("update", last)
        s("update", h)
        s("check", x, 0)
        s("free", x, 0)
        s("end")
    for i in range(max(1, n // 2)):  # deep: everything above has to follow
        s.case("largeup%d" % i)
        t = large(rng, rng.choice(["deep", "deepforms", "deepcats", "deeplists"]))
        h = obtain(s, rng, t)
        m = [m for m, _ in t.walk()][-1]
        r = ref_of(t, m, h)
        s("settext", r, hx(b"t" * rng.choice([300, 65535, 70001])))
        s("update", r)
        s("check", h, 0)
        s("free", h, 0)
        s("end")


def fam_largeprint(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largeprint", ["chunks", "props", "deep", "payload", "forms", "prop", "deepforms", "deepcats", "deeplists"]):
        if kind == "payload":
            t = raw(rng.choice([b"TEXT", b"BODY"]), rng.randbytes(rng.choice([2570, 4099, 9000])))
        h = obtain(s, rng, t)
        s("print", h, 0, rng.choice([0, 1, 130, 260]) if not kind.startswith("deep") else 1)
        s("free", h, 0)


def fam_largewrite(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largewrite"):
        h = obtain(s, rng, t)
        s("write", h, 0, "cookie", "A", rng.choice(["", "buf=0"]) if kind not in ("long", "bigprops", "bigkids") else "")
        s("write", h, 0, "path", "B")
        s("write", h, 0, rng.choice(WRITE_MODES), "B")
        size = len(t.encode())
        for _ in range(3):
            s("write", h, 0, rng.choice(["cookie", "path"]), "C", "cap=%d" % (size - rng.choice([1, 2, 8, 9, rng.randrange(1, size)])))
        x = s.new()
        s("read", x, 0, rng.choice(READ_MODES), "@A")
        s("cmp", h, x, 0)
        s("free", x, 0)
        s("free", h, 0)


def fam_largeread(s, rng, n, tier):
    for kind, t in some_large(rng, n, s, "largeread"):
        b = t.encode()
        for mode in ("path", rng.choice(READ_MODES)):
            s("read", 1, 0, mode, hx(b))
            s("check", 1, 0)
            s("free", 1, 0)
        for h in range(2, 5):
            s("read", h, 0, rng.choice(["path", "cookie"]), hx(b[:len(b) - rng.choice([1, 2, 3, 4, 9, 12, rng.randrange(1, len(b))])]))
        s("read", 5, 0, "cookie", hx(b), "err=%d" % rng.choice([len(b) - 1, len(b) - 2, rng.randrange(len(b))]))
        s("read", 6, 0, "cookie", hx(b + rng.randbytes(rng.choice([1, 300]))))
        s("free", 6, 0)


def fam_largeext(s, rng, n, tier):
    """Application-defined chunks whose declared size is far beyond their fields, and many of them."""
    for i in range(n):
        s.case("largeext%d" % i)
        k = sorted(LAYOUT)[i % len(LAYOUT)]
        reg = Reg(1, ["cat", "form", "list", "prop", "raw", k], [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}], {b"TEST": [{b"EXT1": 6}]}, 5)
        s(reg.line())
        g = Gen(rng, reg)
        full = sum(LAYOUT[k])
        e = g.ext(b"EXT1", k, rng.choice([full + 4096, 65535, 65536, 65536 + full, 65537, 70001]))
        t = N(FORM, "form", b"TEST", kids=[e, raw(b"NAME", b"abc")] + [g.ext(b"EXT1", k) for _ in range(rng.choice([0, 260]))])
        h = s.build(t)
        s("write", h, 1, "cookie", "A")
        s("read", s.new(), 1, rng.choice(["mem", "cookie", "pipe", "path"]), "@A")
        s("cmp", h, s.h, 1)
        s("free", s.h, 1)
        s("write", h, 1, "path", "B", "cap=%d" % (full + 20 + rng.choice([0, 1, 4000, 4096, 60000])))
        s("free", h, 1)
        s("end")


def fam_largestream(s, rng, n, tier):
    """Many chunks one after the other."""
    for i in range(n):
        s.case("largestream%d" % i)
        g = Gen(rng, DEFAULT)
        b = b""
        k = rng.choice([260, 300])
        for j in range(k):
            b += (variations(rng, g.tree(1, 2)) if j % 5 == 0 else g.data(b"\0\0\0\0")).encode()
        s("open", 1, "r", hx(b))
        for h in range(1, k + 1):
            s("readc", h, 0, 1, "00000000")
        s("open", 2, "w")
        for h in range(1, k + 1):
            s("writec", h, 0, 2, "00000000")
        for h in range(1, k + 1):
            s("free", h, 0)
        s("end")


def fam_largefind(s, rng, n, tier):
    """Registries with many types and many identifiers."""
    for i in range(n):
        s.case("largefind%d" % i)
        ids = [b"I" + ty(j)[1:] for j in range(300)] + [b"\xff" + ty(j)[1:] for j in range(20)]
        tys = [ty(j) for j in range(rng.choice([40, 260]))] + [b"\xff" + ty(j)[1:] for j in range(5)]
        kinds = ["cat", "form", "list", "prop", "raw", "e1", "e2", "raw"]
        def node(k):
            return {x: rng.randrange(5, 9) for x in rng.sample(ids, k)}
        chain = [node(rng.choice([1, 2, 200])) for _ in range(rng.choice([1, 3, 12]))]
        chain[-1].update({CAT: 1, FORM: 2, LIST: 3, PROP: 4})
        reg = Reg(1, kinds, chain, {t: [node(rng.choice([0, 1, 3]))] for t in tys}, 5)
        wide = rng.choice(tys)
        reg.forms[wide] = [node(260), node(2), node(30)]
        s(reg.line())
        for t in [wide, tys[0], tys[-1], b"NONE"] + rng.sample(tys, 6):
            for x in rng.sample(ids, 12) + [x for nd in reg.forms.get(t, []) for x in sorted(nd)[-1:] + sorted(nd)[:1]]:
                s("find", 1, idx(t), idx(x))
        s("end")


def fam_trunc(s, rng, n, tier):
    """Every truncation point and every position of a read error of small files."""
    for i in range(n):
        reg = None
        for _ in range(20):
            s.case("trunc%d" % i)
            reg = some_reg(rng, s, 0.5)
            g = Gen(rng, reg, maxdata=5)
            t = g.wild(2, 3) if rng.random() < 0.4 else g.tree(2, 2)
            b = variations(rng, t).encode()
            if 20 <= len(b) <= 110:
                break
            s.cases.pop()
        else:
            continue
        lines = list(s.cur)
        s.cases.pop()
        for part in range(0, len(b) + 1, 24):  # several cases, so that a crash costs little
            s.case("trunc%d-%d" % (i, part))
            s.cur.extend(lines)
            for k in range(part, min(part + 24, len(b) + 1)):
                s("read", 1, reg.num, rng.choice(READ_MODES) if rng.random() < 0.5 else "cookie", hx(b[:k]))
                if k == len(b):
                    s("free", 1, reg.num)
                else:
                    s("read", 2, reg.num, "cookie", hx(b), "err=%d" % k, rng.choice(["", "unbuf", "once", "chunk=2", "unbuf once"]))
            s("end")


EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 0x7fffffff, 0x7ffffffe, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0xfffffff8, 0xfffffff4, 0xfffffff0, 0x7ffffff7, 0x7ffffff8, 0x40000000, 0x10000, 0xffff]


def fam_hostile(s, rng, n, tier):
    for i in range(n):
        s.case("hostile%d" % i)
        reg = some_reg(rng, s, 0.4, ext_default=rng.random() < 0.3)
        g = Gen(rng, reg)
        b = bytearray((g.wild(rng.choice([0, 1, 2, 3]), 3) if rng.random() < 0.6 else g.tree()).encode())
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            c = rng.random()
            pos = [p for p in range(4, len(b) - 3, 2) if b[p - 4:p] in (FORM, CAT, LIST, PROP) or (b[p] == 0 and b[p + 1] == 0)]
            if c < 0.7 and pos:
                p = rng.choice(pos)
                b[p:p + 4] = struct.pack(">I", rng.choice(EDGE))
            elif c < 0.8 and b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif c < 0.9:
                del b[rng.randrange(len(b) + 1):]
            else:
                p = rng.randrange(len(b) + 1)
                b[p:p] = rng.randbytes(rng.randrange(1, 9))
        s("read", 1, reg.num, rng.choice(["path", "cookie", "mem", "pipe"]), hx(bytes(b)))
        s("check", 1, reg.num)
        s("print", 1, reg.num, 0)
        s("free", 1, reg.num)
        s("end")
    for i in range(n // 4):
        s.case("noise%d" % i)
        b = rng.choice([b"", FORM, CAT, LIST, PROP, b"BODY"]) + rng.randbytes(rng.randrange(0, 40))
        s("read", 1, 0, rng.choice(READ_MODES), hx(b))
        s("check", 1, 0)
        s("free", 1, 0)
        s("end")


def fam_write(s, rng, n, tier):
    """The same hierarchy to every kind of destination, read back and compared."""
    for i in range(n):
        s.case("write%d" % i)
        reg = some_reg(rng, s, 0.5)
        g = Gen(rng, reg, maxdata=rng.choice([6, 12, 300]))
        t = g.tree() if rng.random() < 0.6 else g.wild(2, 3)
        h = s.build(t)
        s("write", h, reg.num, "cookie", "A", "dump")
        modes = [m for m in WRITE_MODES if m != "cookie"]
        rng.shuffle(modes)
        for m in modes[:4]:
            s("write", h, reg.num, m, "B", rng.choice(["", "pre=%d" % rng.choice([0, 1, 7, 500, 5000])]) + " " + called(rng) if m in ("path", "write") else rng.choice(["", "buf=0"]), "dump")
        x = s.new()
        s("read", x, reg.num, rng.choice(READ_MODES), "@A")
        s("cmp", h, x, reg.num, "dump")
        s("cmp", x, h, reg.num)
        s("write", x, reg.num, rng.choice(WRITE_MODES), "C")
        s("free", x, reg.num)
        s("free", h, reg.num)
        s("end")


def fam_rewrite(s, rng, n, tier):
    """Conforming files read and written again."""
    for i in range(n):
        s.case("rewrite%d" % i)
        reg = some_reg(rng, s, 0.5)
        g = Gen(rng, reg, maxdata=20)
        b = g.tree().encode()
        s("read", 1, reg.num, rng.choice(READ_MODES), hx(b))
        s("write", 1, reg.num, rng.choice(WRITE_MODES), "A")
        s("read", 2, reg.num, rng.choice(READ_MODES), "@A")
        s("cmp", 1, 2, reg.num)
        s("free", 1, reg.num)
        s("free", 2, reg.num)
        s("end")


def fam_contents(s, rng, n, tier):
    """Every sort of contents under every customary identifier: built, written, read, compared and printed."""
    for i, id in enumerate(NAMED_IDS):
        if i % n != i:
            continue
        s.case("contents%d" % i)
        for kind in ("form", "prop", "list"):
            kids = [raw(id, c) for c in CONTENTS]
            if kind == "prop":
                t = N(PROP, "prop", b"TEST", kids=kids)
            else:
                t = N(FORM, "form", b"TEST", kids=kids)
            if kind == "list":
                t = N(LIST, "list", b"TEST", [N(PROP, "prop", b"TEST", kids=[raw(id, c)]) for c in CONTENTS], [])
            h = s.build(t)
            s("check", h, 0)
            s("write", h, 0, rng.choice(WRITE_MODES), "A", "dump")
            x = s.new()
            s("read", x, 0, rng.choice(READ_MODES), "@A")
            s("cmp", h, x, 0, "dump")
            s("cmp", x, h, 0)
            s("print", x, 0, rng.choice([0, 2]))
            s("write", x, 0, rng.choice(WRITE_MODES), "B")
            s("free", x, 0)
            s("free", h, 0)
        s("end")


def fam_contentscmp(s, rng, n, tier):
    """Chunks whose contents differ in one byte, or in how many there are."""
    for i, id in enumerate(NAMED_IDS):
        if i >= n:
            break
        for part in range(0, len(CONTENTS), 8):
            s.case("contentscmp%d-%d" % (i, part))
            for c in CONTENTS[part:part + 8]:
                a = s.build(raw(id, c))
                vs = {c, c + b"\0", c[:-1]}
                for j in range(len(c)):
                    vs |= {c[:j] + bytes([c[j] ^ x]) + c[j + 1:] for x in (1, 32, 128)[:3 if j in (0, len(c) - 1) else 1]}
                for v in sorted(vs):
                    b = s.build(raw(id, v))
                    s("cmp", a, b, 0)
                    s("cmp", b, a, 0)
                    s("free", b, 0)
                s("free", a, 0)
            s("end")


def fam_fault(s, rng, n, tier):
    """Output that fails at every operation and after every byte."""
    for i in range(n):
        while True:
            s.case("fault%d" % i)
            reg = some_reg(rng, s, 0.5)
            g = Gen(rng, reg, maxdata=5)
            t = g.tree(2, 2) if rng.random() < 0.7 else g.wild(2, 2)
            size = len(t.encode())
            if size <= 90:
                break
            s.cases.pop()
        h = s.build(t)
        s("write", h, reg.num, "cookie", "A", "dump")
        for k in range(1, size + 2):  # at most one operation per byte
            s("write", h, reg.num, rng.choice(["cookie", "stdoutcookie"]), "B", "buf=0", "fail=%d" % k, rng.choice(["", "once"]), "dump")
        for k in range(0, size + 2):
            c = rng.random()
            if c < 0.4:
                s("write", h, reg.num, "cookie", "B", "cap=%d" % k, "buf=%d" % rng.choice([0, 1, 3, 16, 4096]))
            elif c < 0.7:
                s("write", h, reg.num, rng.choice(["path", "write"]), "B", "cap=%d" % k)
            else:
                s("write", h, reg.num, "stdoutcookie", "B", "cap=%d" % k)
        for m in ("full", "closedpipe", "nodir"):
            s("write", h, reg.num, m, "B", "dump")
        s("write", h, reg.num, "cookie", "B", "dump")
        s("write", h, reg.num, "path", "B")
        s("free", h, reg.num)
        s("end")
    for size in (4095, 4096, 4097, 70000):
        s.case("faultbig%d" % size)
        t = N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=b"a" * size), N(b"NAME", "raw", data=b"abc")])
        h = s.build(t)
        s("write", h, 0, "cookie", "A")
        for cap in (0, 1, 11, 4095, 4096, 4097, size + 8, size + 20, size + 31, size + 32, size + 33, size + 60):
            s("write", h, 0, "path", "B", "cap=%d" % cap)
            s("write", h, 0, "cookie", "B", "cap=%d" % cap, rng.choice(["", "buf=4096"]))
        for k in (1, 2, 3):
            s("write", h, 0, "stdoutcookie", "B", "fail=%d" % k)
            s("write", h, 0, "cookie", "B", "fail=%d" % k, "once")
        s("write", h, 0, "full", "B")
        s("write", h, 0, "cookie", "B", "dump")
        s("free", h, 0)
        s("end")


def fam_verdict(s, rng, n, tier):
    for i in range(n):
        s.case("verdict%d" % i)
        reg = some_reg(rng, s, 0.25)
        g = Gen(rng, reg, types=TYPES + NEAR_TYPES[:3] if rng.random() < 0.2 else None, ids=DATA_IDS + [b"JJJJ", b"LIS1", b"body", b"a.b.", b"AB C"] if rng.random() < 0.3 else None)
        t = g.tree(rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2])):
            g.spoil(t)
        c = rng.random()
        if c < 0.06:
            t = rng.choice([g.prop(b"TEST", 2), g.data(b"\0\0\0\0")])
        if rng.random() < 0.5 and all(m._sz is None or m.k not in ADD for m, _ in t.walk()):
            h = s.new()
            s("read", h, reg.num, "cookie", hx(t.encode()))
        else:
            h = s.build(t)
        s("check", h, reg.num, "dump")
        s("checkc", h, reg.num, "00000000")
        s("free", h, reg.num)
        s("end")
    for name, t in big_trees(rng, "quick"):
        s.case("verdict" + name)
        h = s.build(t)
        s("check", h, 0, "dump")
        nodes = [m for m, _ in t.walk() if m.k in ADD]
        for _ in range(2):
            m = rng.choice(nodes)
            path = ref_of(t, m, h)
            s("poke", path, "ty", idx(rng.choice([b"ab.c", b"\xff\0\0\0"])))
            s("check", h, 0)
        s("free", h, 0)
        s("end")


def violations(g, t):
    """Every copy of t that breaks one rule in one place."""
    for i, (n, p) in enumerate(list(parents(t))):
        def at(f, up=0):
            c = t.copy()
            f(list(c.walk())[i][0])
            return c
        if n.k == "raw" and g.reg.num == 0:
            yield at(lambda m: setattr(m, "id", g.r.choice(ODD_IDS)))
        if n.k in ("form", "prop"):
            yield at(lambda m: setattr(m, "ty", g.r.choice(ODD_TYPES)))
        if n.k in ("cat", "list"):
            yield at(lambda m: setattr(m, "ty", g.r.choice([b" ABC", b"\xff\xff\xff\xff", b"AB\x80C", b"ABC\x1f", b"A\0BC"])))
            yield at(lambda m: m.kids.insert(g.r.randrange(len(m.kids) + 1), raw(b"BODY", b"a")))
            if n.ty != JJJJ and n.kids:
                yield at(lambda m: m.kids.insert(g.r.randrange(len(m.kids) + 1), N(*g.r.choice([(FORM, "form"), (CAT, "cat"), (LIST, "list")]), g.r.choice([x for x in TYPES if x != m.ty] + [JJJJ]))))
        if n.k in ("form", "cat"):
            yield at(lambda m: m.kids.insert(g.r.randrange(len(m.kids) + 1), N(PROP, "prop", b"TEST")))
        if n.k == "prop":
            yield at(lambda m: m.kids.insert(g.r.randrange(len(m.kids) + 1), N(*g.r.choice([(FORM, "form"), (CAT, "cat"), (LIST, "list"), (PROP, "prop")]), n.ty)))
        if n.k in ADD:
            for d in (1, -1, g.r.choice([2, -2, 4, -4, 256, 65536, -n.sz, -2 * n.sz])):
                yield at(lambda m: setattr(m, "_sz", m.sz + d))
        if p is not None and p.k in ("cat", "list") and n.k in ("form", "cat", "list") and p.ty != JJJJ:
            yield at(lambda m: setattr(m, "ty", g.r.choice([x for x in TYPES + NEAR_TYPES if x != p.ty])))


def fam_verdictall(s, rng, n, tier):
    """Each single violation at each place of a hierarchy."""
    for i in range(n):
        s.case("verdictall%d" % i)
        g = Gen(rng, types=rng.sample(TYPES, rng.choice([1, 2])), maxdata=2)
        t = g.wide()
        while not 6 <= len(list(t.walk())) <= 24:
            t = g.wide()
        h = s.build(t)
        s("check", h, 0)
        s("free", h, 0)
        for v in violations(g, t):
            if any(m.sz < 0 or m._sz is not None for m, _ in v.walk() if m.k in ADD):
                continue
            s("read", 1, 0, "mem", hx(v.encode()))
            s("check", 1, 0)
            s("free", 1, 0)
        h = obtain(s, rng, t)
        for m, _ in t.walk():
            if m.k in ADD:
                ref = ref_of(t, m, h)
                for d in (1, -1, rng.choice([2, -2, 4, -4, 256, 65536, -m.sz, -2 * m.sz])):
                    s("poke", ref, "sz", m.sz + d)
                    s("check", h, 0)
                s("poke", ref, "sz", m.sz)
        s("check", h, 0)
        s("free", h, 0)
        s("end")


def ref_of(t, m, h):
    """Reference to chunk m in the tree t that handle h holds."""
    def go(x, r):
        if x is m:
            return r
        for i, c in enumerate(x.props):
            y = go(c, r + ".p%d" % i)
            if y:
                return y
        for i, c in enumerate(x.kids):
            y = go(c, r + ".k%d" % i)
            if y:
                return y
        return None
    return go(t, str(h))


def fam_cmp(s, rng, n, tier):
    for i in range(n):
        s.case("cmp%d" % i)
        reg = some_reg(rng, s, 0.4)
        g = Gen(rng, reg)
        t = g.tree() if rng.random() < 0.6 else g.wild(2, 3)
        a = s.build(t)
        b = s.build(t.copy())
        c = s.build(g.differ(t))
        for x, y in ((a, b), (b, a), (a, c), (c, a), (a, a), (c, c)):
            s("cmp", x, y, reg.num, "dump" if rng.random() < 0.3 else "")
        # the same hierarchy with one chunk changed behind its back
        m = rng.choice([m for m, _ in t.walk()])
        r = ref_of(t, m, b)
        if m.k == "raw" and m.data:
            s("poke", r, "byte", rng.choice([0, len(m.data) - 1, rng.randrange(len(m.data))]), rng.randrange(256))
        elif m.k in ADD and reg.num == 0:
            s("poke", r, "ty", idx(rng.choice(TYPES)))
        elif m.k != "raw":
            s("poke", r, "sz", m.sz + rng.choice([1, 256, -1]))
        s("cmp", a, b, reg.num)
        s("cmp", b, a, reg.num)
        for x in (a, b, c):
            s("free", x, reg.num)
        s("end")


def fam_cmpall(s, rng, n, tier):
    """A hierarchy compared with everything that differs from it in one place."""
    for i in range(n):
        reg = random_reg(rng, 1) if rng.random() < 0.4 else DEFAULT
        g = Gen(rng, reg, maxdata=5)
        while True:
            t = g.tree(2, 3) if rng.random() < 0.7 else g.wild(2, 3)
            if rng.random() < 0.7 and t.k in ("form", "cat", "list"):
                t = N(LIST, "list", JJJJ, [g.prop(rng.choice(TYPES), 2) for _ in range(rng.choice([1, 2, 3]))], [t])
            if 4 <= sum(1 for _ in t.walk()) <= 11:
                break
        vs = list(changes(t, reg))
        for part in range(0, len(vs), 12):
            s.case("cmpall%d-%d" % (i, part))
            if reg.num:
                s(reg.line())
            a = s.build(t)
            for v in vs[part:part + 12]:
                b = s.build(v)
                s("cmp", a, b, reg.num)
                s("cmp", b, a, reg.num)
                s("free", b, reg.num)
            s("free", a, reg.num)
            s("end")


def fam_search(s, rng, n, tier):
    for i in range(n):
        s.case("search%d" % i)
        g = Gen(rng, types=rng.sample(TYPES, rng.choice([1, 2, 3])))
        t = g.wild(rng.choice([2, 3, 4]), rng.choice([2, 3, 4])) if rng.random() < 0.3 else g.wide() if rng.random() < 0.6 else g.tree(rng.choice([2, 3, 4]), rng.choice([2, 3, 4]))
        if rng.random() < 0.5:
            h = s.build(t)
        else:
            h = s.new()
            s("read", h, 0, "mem", hx(t.encode()))
        for _ in range(4):
            k = rng.choice([1, 1, 2, 3, 4])
            if rng.random() < 0.1:
                s("search", h, 0)
            s("search", h, k, *[idx(rng.choice(TYPES + [JJJJ, FORM])) for _ in range(k)], "dump" if rng.random() < 0.3 else "")
        m = rng.choice([m for m, _ in t.walk()])
        s("search", ref_of(t, m, h), 1, idx(rng.choice(g.types)))
        s("free", h, 0)
        s("end")
    for k in (100, 1000) if tier == "thorough" else (100,):
        s.case("searchwide%d" % k)
        t = N(CAT, "cat", JJJJ, kids=[N(FORM, "form", TYPES[j % 3], kids=[N(FORM, "form", TYPES[(j + 1) % 3])] if j % 4 == 0 else []) for j in range(k)])
        h = s.build(t)
        for ty in TYPES:
            s("search", h, 1, idx(ty))
        s("search", h, 2, idx(TYPES[0]), idx(TYPES[2]))
        s("free", h, 0)
        s("end")


def fam_searchshape(s, rng, n, tier):
    """Holders whose members have any numbers of sought forms."""
    counts = [c for k in (1, 2, 3, 4) for c in itertools.product((0, 1, 3) if k < 4 else (0, 3), repeat=k)]
    for i in range(n):
        s.case("searchshape%d" % i)
        for j, c in enumerate(counts):
            if j % n != i:
                continue
            k = rng.choice(["cat", "list", "form"])
            members = [N(*rng.choice([(CAT, "cat"), (LIST, "list"), (FORM, "form")]), b"ILBM", [], [N(FORM, "form", b"TEST") for _ in range(m)]) for m in c]
            for m in members:
                if rng.random() < 0.2 and len(m.kids) == 1:
                    members[members.index(m)] = m.kids[0]
            t = N({"cat": CAT, "list": LIST, "form": FORM}[k], k, b"ANIM" if k == "form" else JJJJ, [], members)
            s("read", 1, 0, "mem", hx(t.encode()))
            s("search", 1, 1, idx(b"TEST"), "dump" if rng.random() < 0.2 else "")
            s("search", 1, 2, idx(b"NONE"), idx(b"TEST"))
            s("free", 1, 0)
        s("end")


def fam_lookup(s, rng, n, tier):
    ids = [b"CMAP", b"NAME", b"BODY"]
    for i in range(n):
        s.case("lookup%d" % i)
        tys = TYPES[:rng.choice([1, 2, 2, 3])]
        g = Gen(rng, ids=ids, types=tys, maxdata=3)
        def lst(d):
            props = [N(PROP, "prop", rng.choice(tys), kids=[N(rng.choice(ids), "raw", data=rng.randbytes(rng.randrange(3))) for _ in range(rng.choice([0, 1, 1, 2, 3]))]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            kids = []
            for _ in range(rng.choice([1, 1, 2])):
                kids.append(lst(d - 1) if d > 0 and rng.random() < 0.6 else cont(d - 1))
            return N(LIST, "list", JJJJ, props, kids)
        def cont(d):
            c = rng.random()
            if d > 0 and c < 0.25:
                return N(CAT, "cat", JJJJ, kids=[lst(d - 1) if rng.random() < 0.5 else cont(d - 1) for _ in range(rng.choice([1, 2]))])
            f = N(FORM, "form", rng.choice(tys), kids=[N(rng.choice(ids), "raw", data=rng.randbytes(rng.randrange(3))) for _ in range(rng.choice([0, 0, 1, 2, 3]))])
            if d > 0 and c < 0.6:
                f.kids.insert(rng.randrange(len(f.kids) + 1), lst(d - 1) if rng.random() < 0.5 else cont(d - 1))
            return f
        t = lst(rng.choice([1, 2, 3]))
        if rng.random() < 0.5:
            h = s.build(t)
        else:
            h = s.new()
            s("read", h, 0, "mem", hx(t.encode()))
        for m, _ in t.walk():
            r = ref_of(t, m, h)
            if m.k == "form":
                for x in ids:
                    s("get", r, idx(x), "dump" if rng.random() < 0.05 else "")
                    s("getall", r, idx(x))
                s("getdata", r, idx(rng.choice(ids)))
            elif m.k == "prop":
                s("getp", r, idx(rng.choice(ids)))
            elif m.k == "list":
                s("getprop", r, idx(rng.choice(tys)))
        s("free", h, 0)
        s("end")


def fam_build(s, rng, n, tier):
    """Random histories of creating, adding, changing sizes and recalculating."""
    for i in range(n):
        s.case("build%d" % i)
        reg = DEFAULT
        if rng.random() < 0.4:  # kinds that do not depend on the scope, which changes all the time here
            reg = Reg(1, ["cat", "form", "list", "prop", "raw"] + sorted(LAYOUT), [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}, {b"EXT%d" % (j + 1): 6 + j for j in range(6)}], {}, 5)
            s(reg.line())
        g = Gen(rng, reg)
        roots, kind = [], {}
        def create():
            h = s.new()
            c = rng.random()
            if c < 0.35:
                d = g.data(rng.choice(TYPES))
                s.h -= 1
                h = s.build(d)
                kind[h] = d.k
            else:
                k = rng.choice(["form", "cat", "list", "prop"])
                K = {"form": "Form", "cat": "CAT", "list": "List", "prop": "Prop"}[k]
                c = rng.random()
                if k in ("cat", "list") and c < 0.5:
                    s("mk", h, "createEmpty" + K)
                elif c < 0.8:
                    s("mk", h, "createEmpty" + K + ("WithContentsType" if k in ("cat", "list") else ""), idx(rng.choice(TYPES)))
                elif c < 0.9:
                    s("mk", h, "create" + K, rng.choice([0, 4, 5, 12, 70000]), idx(rng.choice(TYPES)))
                else:
                    s("mk", h, "createEmptyGroup", idx({"form": FORM, "cat": CAT, "list": LIST, "prop": PROP}[k]) if k != "list" else idx(CAT), idx(rng.choice(TYPES)))
                    k = "cat" if k == "list" else k
                kind[h] = k
            roots.append(h)
        def groups():
            return [h for h in kind if kind[h] in ADD]
        parent = {}
        def root(h):
            while h in parent:
                h = parent[h]
            return h
        for _ in range(rng.choice([6, 10, 16, 24])):
            c = rng.random()
            gs = groups()
            if c < 0.35 or not gs:
                create()
            elif c < 0.75 and len(roots) > 1:
                p = rng.choice(gs)
                cand = [x for x in roots if x != root(p)]
                if cand:
                    x = rng.choice(cand)
                    k = kind[p]
                    if k == "list" and kind[x] == "prop" and rng.random() < 0.8:
                        fn = "addPropToList"
                    else:
                        fn = rng.choice([ADD[k], ADD[k]] + (["addToCATAndUpdateContentsType"] * 3 if k == "cat" else ["addToListAndUpdateContentsType"] * 3 if k == "list" else ["addToGroup"]))
                        if rng.random() < 0.05:
                            fn = "attachToGroup"
                    s("add", fn, p, x)
                    roots.remove(x)
                    parent[x] = p
            elif c < 0.85:
                s("poke", rng.choice([x for x in kind if kind[x] != "raw"] or gs), "sz", rng.choice([0, 1, 4, 5, 6, 100, 101, 65535, 1 << 20]))
            elif c < 0.95:
                s("update", rng.choice(list(kind)))
            else:
                s("update", rng.choice(list(kind)))
                raws = [x for x in kind if kind[x] == "raw"]
                if raws:
                    b = g.payload()
                    s(rng.choice(["setraw", "settext"]), rng.choice(raws), hx(b.replace(b"\0", b"a")))
        for h in list(roots):
            if rng.random() < 0.5:
                s("check", h, reg.num, "dump")
        for h in roots:
            s("free", h, reg.num)
        s("end")


def fam_bottomup(s, rng, n, tier):
    """Hierarchies built bottom-up: sizes must come out right; then sizes are spoilt and recalculated."""
    for i in range(n):
        s.case("bottomup%d" % i)
        g = Gen(rng, maxdata=9)
        t = g.tree(rng.choice([2, 3, 4]), 3)
        h = s.build(t, track=rng.random() < 0.5)
        s("check", h, 0)
        s("write", h, 0, "cookie", "A")
        nodes = [m for m, _ in t.walk() if m.k in ADD]
        spoilt = rng.sample(nodes, min(len(nodes), rng.choice([1, 2, 3])))
        for m in spoilt:
            s("poke", ref_of(t, m, h), "sz", rng.choice([0, 4, 7, 1000, m.sz + 1, m.sz - 1]))
        raws = [m for m, _ in t.walk() if m.k == "raw"]
        if raws:
            m = rng.choice(raws)
            s("setraw", ref_of(t, m, h), hx(g.payload()))
            s("update", ref_of(t, m, h))
        for m in spoilt:
            s("update", ref_of(t, m, h))
        s("check", h, 0)
        s("free", h, 0)
        s("end")


def fam_track(s, rng, n, tier):
    for i in range(n):
        s.case("track%d" % i)
        k = rng.choice(["CAT", "List"])
        h = s.new()
        s("mk", h, "createEmpty" + k)
        g = Gen(rng, types=rng.sample(TYPES + [JJJJ], rng.choice([1, 2, 3])), maxdata=3)
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            c = rng.random()
            m = g.group(1, 1, ty=JJJJ if c < 0.1 else None) if c < 0.85 else g.data(b"\0\0\0\0")
            x = s.build(m)
            s("add", "addTo%s%s" % (k, "AndUpdateContentsType" if rng.random() < 0.85 else ""), h, x)
            if k == "List" and rng.random() < 0.3:
                x = s.build(g.prop(rng.choice(g.types), 1))
                s("add", "addPropToList", h, x)
        s("check", h, 0)
        s("free", h, 0)
        s("end")


def fam_handlers(s, rng, n, tier):
    """Every operation with registries whose handlers record their calls."""
    for i in range(n):
        s.case("handlers%d" % i)
        reg = random_reg(rng, 1, ext_default=rng.random() < 0.2)
        s(reg.line())
        for _ in range(6):
            s("find", 1, idx(rng.choice(TYPES + [JJJJ, b"\xff\xfeZZ", b"\0\0\0\0", b"NONE"])), idx(rng.choice(DATA_IDS + [FORM, CAT, LIST, PROP, b"TEXT", b"\x80HI ", b"NONE", b"\xff\xff\xff\xff"])))
        g = Gen(rng, reg, types=[t for t in reg.forms if t != JJJJ and t in TYPES] + TYPES[:2], bias_ext=0.8)
        t = g.tree(rng.choice([1, 2, 3]), 3) if rng.random() < 0.7 else g.wild(2, 3)
        h = s.build(t)
        s("check", h, 1)
        s("print", h, 1, rng.choice([0, 1, 3]))
        s("write", h, 1, "cookie", "A", "buf=0" if rng.random() < 0.2 else "")
        s("write", h, 1, "cookie", "B", "buf=0", "fail=%d" % rng.randrange(1, 30))
        x, y = s.new(), s.new()
        b = t.encode()
        s("read", x, 1, "mem", "@A")
        s("cmp", h, x, 1)
        s("read", y, 1, "cookie", hx(b[:rng.randrange(len(b) + 1)]))
        s("free", x, 1)
        d = s.build(g.differ(t))
        s("cmp", h, d, 1)
        s("free", d, 1)
        s("free", h, 1)
        s("end")
    for i in range(n // 3):  # groups handled differently within several types
        s.case("scoped%d" % i)
        reg = scoped_reg(rng, 1)
        s(reg.line())
        g = Gen(rng, reg, types=[t for t in reg.forms if t != JJJJ] + rng.sample(TYPES, 1))
        t = g.tree(2, 3)
        if rng.random() < 0.6:
            t = N(LIST, "list", rng.choice(list(reg.forms)), [g.prop(rng.choice(g.types), 2) for _ in range(rng.choice([1, 2]))], [t] if rng.random() < 0.6 else [])
        h = s.build(t)
        s("check", h, 1)
        s("write", h, 1, "cookie", "A")
        s("print", h, 1, 0)
        x = s.new()
        s("read", x, 1, "mem", "@A")
        s("cmp", h, x, 1)
        s("free", x, 1)
        b = t.encode()
        for _ in range(2):
            s("read", s.new(), 1, "cookie", hx(b[:rng.randrange(len(b))]))
        s("free", h, 1)
        s("end")
    for i in range(max(3, n // 8)):  # several registries at a time, which share chains of handlers
        s.case("related%d" % i)
        regs = [random_reg(rng, 1, lib=False)]
        s(regs[0].line())
        for j in (2, 3):
            regs.append(related_reg(rng, j, rng.choice(regs)))
            s(regs[-1].line())
        tys = sorted({t for r in regs for t in r.forms}) + [b"NONE"]
        ids = sorted({x for r in regs for ch in [r.glob] + list(r.forms.values()) for nd in ch for x in nd}) + [b"NONE"]
        for _ in range(12):
            t, x = rng.choice(tys), rng.choice(ids)
            for r in rng.sample(regs, 3):
                s("find", r.num, idx(t), idx(x))
        gens = [Gen(rng, r, types=[t for t in r.forms if t in TYPES] + TYPES[:1], bias_ext=0.8) for r in regs]
        trees = [g.tree(2, 3) for g in gens]
        files = [t.encode() for t in trees]
        for j in rng.sample(range(3), 3):
            if rng.random() < 0.5:
                h = s.build(trees[j])
                s(rng.choice(["check", "free"]), h, regs[j].num)
            for r in rng.sample(regs, 3):
                h = s.new()
                s("read", h, r.num, "mem", hx(files[j]))
                for op in rng.sample(["check", "write", "print"], 2):
                    s(op, h, r.num, *{"write": ["cookie", "A"], "print": [0]}.get(op, []))
                s("free", h, r.num)
        s("end")
    for i in range(max(2, n // 20)):  # every identifier in every scope of larger registries
        s.case("find%d" % i)
        ids = [bytes([rng.randrange(65, 91) for _ in range(4)]) for _ in range(25)] + [b"\x80ABC", b"\xffABC", b"\x7fABC", b"\0ABC"]
        tys = [bytes([rng.randrange(65, 91) for _ in range(4)]) for _ in range(9)] + [b"\xf0ABC"]
        def node():
            return {x: rng.randrange(1, 9) for x in rng.sample(ids, rng.randrange(0, 12))}
        kinds = ["cat", "form", "list", "prop", "raw", "e1", "e2", "raw"]
        reg = Reg(1, kinds, [node() for _ in range(rng.choice([0, 1, 2, 4]))], {t: [node() for _ in range(rng.choice([0, 1, 2, 3]))] for t in rng.sample(tys, rng.randrange(0, 9))}, rng.randrange(1, 9))
        s(reg.line())
        for t in tys + [b"\0\0\0\0"]:
            for x in ids if tier == "thorough" else rng.sample(ids, 12):
                s("find", 1, idx(t), idx(x))
        for t in (b"\0\0\0\0", b"TEST"):
            for x in (FORM, CAT, LIST, PROP, b"BODY", b"FORN", b"\xff\xff\xff\xff"):
                s("find", 0, idx(t), idx(x))
        s("end")


def fam_ext(s, rng, n, tier):
    """Application-defined chunks of every declared size, followed by a sibling; values of all kinds."""
    for k in sorted(LAYOUT):
        full = sum(LAYOUT[k])
        for sz in range(0, full + 6):
            s.case("ext-%s-%d" % (k, sz))
            reg = Reg(1, ["cat", "form", "list", "prop", "raw", k], [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}], {b"TEST": [{b"EXT1": 6}]}, 5)
            s(reg.line())
            g = Gen(rng, reg)
            for rep in range(2):
                e = g.ext(b"EXT1", k, sz)
                t = N(FORM, "form", b"TEST", kids=[e, N(b"NAME", "raw", data=b"abc"), g.ext(b"EXT1", k)])
                b = bytearray(t.encode())
                for p in range(20, 20 + sz):  # all of the body, surplus included
                    b[p] = rng.randrange(256)
                s("read", 1, 1, rng.choice(["file", "mem"]), hx(bytes(b)))
                s("write", 1, 1, "cookie", "A")
                s("print", 1, 1, 0)
                s("read", 2, 1, "mem", "@A")
                s("cmp", 1, 2, 1)
                s("free", 1, 1)
                s("free", 2, 1)
                h = s.build(t)
                s("write", h, 1, rng.choice(["cookie", "pipe", "path"]), "B")
                # values beyond the declared size stay out of the file
                if LAYOUT[k]:
                    j = rng.randrange(len(LAYOUT[k]))
                    s("poke", "%d.k0" % h, "ext", j, hx(rng.randbytes(LAYOUT[k][j])))
                    s("write", h, 1, "cookie", "C")
                s("free", h, 1)
                x = s.new()
                cut = rng.randrange(20, 21 + sz)
                s("read", x, 1, "cookie", hx(bytes(b[:cut])))
            s("end")
    for i in range(n):
        s.case("extmix%d" % i)
        reg = random_reg(rng, 1, ext_default=rng.random() < 0.4)
        s(reg.line())
        g = Gen(rng, reg, bias_ext=0.95)
        t = variations(rng, g.tree(rng.choice([1, 2]), 4))
        b = t.encode()
        s("read", 1, 1, rng.choice(["file", "mem", "cookie"]), hx(b))
        s("write", 1, 1, "cookie", "A", "dump")
        h = s.build(t)
        s("write", h, 1, rng.choice(WRITE_MODES), "B")
        s("cmp", 1, h, 1)
        s("free", 1, 1)
        s("free", h, 1)
        s("end")
    for sz in (0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0x7ffffff8):  # sizes no file has
        for k in sorted(LAYOUT):
            s.case("exthuge-%s-%x" % (k, sz))
            reg = Reg(1, ["cat", "form", "list", "prop", "raw", k], [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}], {}, 6)
            s(reg.line())
            s("read", 1, 1, "cookie", (b"FORM" + struct.pack(">I", 24) + b"TESTEXT1" + struct.pack(">I", sz) + b"\1" * 12).hex())
            s("end")


def fam_values(s, rng, n, tier):
    for i in range(n * 4):  # streams that end within a number
        s.case("cut%d" % i)
        for _ in range(12):
            tys = [rng.choice(["ub", "uw", "w", "ul", "l", "id"]) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            ns = [1 if t == "ub" else 2 if t in ("uw", "w") else 4 for t in tys]
            a = []
            for t, k in zip(tys, ns):
                a += [t, rng.choice([rng.randbytes(k), b"\xff" * k, b"\0" * k]).hex()]
            s("seqcut", rng.choice([0, sum(ns) - 1, sum(ns), rng.randrange(sum(ns) + 2)]), *a)
        s("end")
    for ty in ("ub", "uw", "w"):
        count = 256 if ty == "ub" else 65536
        step = 256 if ty == "ub" else 4096
        for v in range(0, count, step):
            s.case("prim-%s-%x" % (ty, v))
            s("prim", ty, "%x" % v, step, 1)
            s("end")
    for ty in ("ul", "l", "id"):
        edges = [0, 0x80, 0x8000, 0x800000, 0x80000000, 0xff, 0xffff, 0xffffff, 0xffffffff, 0x7fffffff, 0x01020304, 0xfffefdfc, 0x7f80ff00]
        for e in edges:
            s.case("prim-%s-%x" % (ty, e))
            s("prim", ty, "%x" % ((e - 20) & 0xffffffff), 41, 1)
            s("end")
        for i in range(n):  # arithmetic progressions through all values
            s.case("prim-%s-p%d" % (ty, i))
            s("prim", ty, "%x" % rng.randrange(1 << 32), 500, "%x" % rng.randrange(1 << 32))
            s("end")
        for sh in (0, 8, 16, 24) if tier == "thorough" else (16,):  # each 16-bit half through all values
            if sh == 24:
                continue
            for v in range(0, 65536, 4096):
                s.case("prim-%s-h%d-%x" % (ty, sh, v))
                s("prim", ty, "%x" % ((v << sh) | 0x5a5a5a5a & ~(0xffff << sh)), 4096, "%x" % (1 << sh))
                s("end")


def fam_ids(s, rng, n, tier):
    bases = [b"LIST", b"FORM", b"PROP", b"CAT ", b"JJJJ", b"LIS1", b"FOR5", b"CAT9", b"ILBM", b"ab d", b"    ", b"~~~~", b"A.BC"]
    s.case("ids")
    for b in bases + ODD_TYPES + NEAR_TYPES + ODD_IDS + DATA_IDS:
        for pos in range(4):
            for c in [0, 31, 32, 33, 45, 46, 47, 48, 49, 57, 58, 64, 65, 90, 91, 96, 97, 122, 123, 126, 127, 128, 255] if tier == "quick" else range(256):
                x = idx(b[:pos] + bytes([c]) + b[pos + 1:])
                s("chkid", x)
                s("chkft", x)
    s("end")
    for i in range(n):
        s.case("idrand%d" % i)
        for _ in range(40):
            x = idx(bytes(rng.choice([rng.randrange(32, 127), rng.randrange(65, 91), rng.randrange(256)]) for _ in range(4)))
            s("chkid", x)
            s("chkft", x)
        s("end")


def fam_print(s, rng, n, tier):
    for i in range(n):
        s.case("print%d" % i)
        reg = some_reg(rng, s, 0.4)
        g = Gen(rng, reg, maxdata=rng.choice([5, 12, 35]), ids=DATA_IDS + [b"TEXT"] * 4)
        t = g.tree() if rng.random() < 0.5 else g.wild(rng.choice([1, 2, 3]), 3)
        if rng.random() < 0.3:
            for m, _ in list(t.walk()):
                if m.k in ADD and rng.random() < 0.4:
                    m._sz = rng.choice([0, -1, -2147483648, 2147483647, 9, 10, 99, 100, -100])
        h = s.build(t)
        s("print", h, reg.num, rng.choice([0, 0, 1, 2, 7]), "dump")
        m = rng.choice([m for m, _ in t.walk()])
        if reg.num == 0:
            s("print", ref_of(t, m, h), reg.num, rng.choice([0, 1, 40]))
        s("free", h, reg.num)
        s("end")
    for id in (b"TEXT", b"BODY"):
        s.case("printlen-%s" % id.decode())
        for k in list(range(0, 43)) + [99, 100, 101, 255, 256, 1000]:
            h = s.build(N(id, "raw", data=bytes((7 * j + k) % 256 for j in range(k))))
            s("print", h, 0, k % 3)
            s("free", h, 0)
        s("end")
    s.case("printbytes")
    h = s.build(N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=bytes(range(256))), N(b"TEXT", "raw", data=bytes(range(256)))]))
    s("print", h, 0, 1)
    s("free", h, 0)
    s("end")


def fam_stream(s, rng, n, tier):
    """Chunks one after the other on one stream."""
    for i in range(n):
        s.case("stream%d" % i)
        reg = some_reg(rng, s, 0.6)
        g = Gen(rng, reg)
        scope = rng.choice(list(reg.forms) + [b"\0\0\0\0"]) if reg.num else b"\0\0\0\0"
        b, k = b"", rng.choice([2, 3, 5])
        for _ in range(k):
            c = g.data(scope) if rng.random() < 0.6 else variations(rng, g.tree(1, 2) if rng.random() < 0.6 else g.wild(1, 3))
            if c.k in ADD and rng.random() < 0.3:
                c._sz = max(0, c.real() + rng.choice([-1, -2, -5, 1, 3]))
            b += c.encode()
        s("open", 1, rng.choice("rfc"), hx(b))
        for _ in range(k):
            s("readc", s.new(), reg.num, 1, idx(scope))
        destination(s, rng, 2)
        for h in range(1, k + 1):
            s("writec", h, reg.num, 2, idx(scope))
        for h in range(1, k + 1):
            s("free", h, reg.num, "scope=" + idx(scope))
        s("end")
    for i in range(n):
        s.case("streamw%d" % i)
        reg = some_reg(rng, s, 0.6)
        g = Gen(rng, reg)
        scope = rng.choice(list(reg.forms) + [b"\0\0\0\0"]) if reg.num else b"\0\0\0\0"
        hs = []
        for _ in range(rng.choice([2, 3])):
            hs.append(s.build(g.data(scope) if rng.random() < 0.6 else g.tree(1, 2)))
        destination(s, rng, 1)
        for h in hs:
            s("writec", h, reg.num, 1, idx(scope))
        for h in hs:
            s("free", h, reg.num, "scope=" + idx(scope))
        s("end")
    for i in range(n):
        s.case("streamat%d" % i)
        reg = some_reg(rng, s, 0.5)
        g = Gen(rng, reg)
        mixed_stream(s, rng, reg, g)
        s("end")


def destination(s, rng, k, size=60):
    """A stream to write to: empty, or holding something already."""
    kind = rng.choice("wWwau")
    pre = rng.randbytes(rng.randrange(size))
    s("open", k, kind, *([hx(pre)] if kind in "au" else []))
    if kind == "u":
        s("seek", k, rng.randrange(len(pre) + 1))
    return kind


def mixed_stream(s, rng, reg, g):
    """A stream in use: chunks and main chunks at any offset, going back, and writing into what is there."""
    zero = b"\0\0\0\0"
    front = rng.randbytes(rng.choice([0, 1, 2, 7, 20]))
    trees = [g.tree(1, 3) if rng.random() < 0.8 else g.wild(1, 3) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.5:
        trees = [variations(rng, t) for t in trees]
    b, at = front, []
    for t in trees:
        at.append(len(b))
        b += t.encode()
    b += rng.choice([b"", b"", b"\0", b"abc", b"FORM", rng.randbytes(9)])
    kind = rng.choice("rfuu" if front else "rfcuu")
    s("open", 1, kind, hx(b))
    if kind != "c":
        s("seek", 1, len(front))
    hs = []
    def read(o=None):
        if o is not None:
            s("seek", 1, o)
        h = s.new()
        if rng.random() < 0.4:
            s("readfd", h, reg.num, 1)
        else:
            s("readc", h, reg.num, 1, idx(zero))
        hs.append(h)
    for o in at:
        read(None if kind == "c" or o == at[0] else o)
    if kind != "c":
        # a chunk that starts like one of the main chunks is not always one: sub chunks, and again from the start
        inner = [o for o in range(len(b) - 8) if b[o:o + 4] in (b"FORM", b"LIST", b"CAT ")]
        for o in rng.sample(inner, min(len(inner), rng.choice([0, 1, 3]))):
            s("seek", 1, o)
            s("readc", s.new(), reg.num, 1, idx(zero))
    good = [h for h, t in zip(hs, trees)]
    if kind == "u":
        s("seek", 1, rng.choice(at + [len(b)]))
        for h in rng.sample(good, min(len(good), 2)):
            s(*(["writefd", h, reg.num, 1] if rng.random() < 0.5 else ["writec", h, reg.num, 1, idx(zero)]))
        s("seek", 1, rng.choice(at))
        s("readc", s.new(), reg.num, 1, idx(zero))
    destination(s, rng, 2)
    for h in good:
        s(*(["writefd", h, reg.num, 2] if rng.random() < 0.5 else ["writec", h, reg.num, 2, idx(zero)]))
    for h in good:
        s("free", h, reg.num)


def tinyok(b):
    """Whether b holds one complete chunk without sub chunks."""
    if len(b) < 8:
        return False
    k = b[7]
    return len(b) == 8 + k + k % 2 and (b[:4] not in GROUPK or k >= 4)


def fam_modes(s, rng, n, tier):
    """The same bytes from every kind of source, delivered in every way."""
    for i in range(n):
        s.case("modes%d" % i)
        reg = some_reg(rng, s, 0.4)
        g = Gen(rng, reg, maxdata=rng.choice([6, 6, 60, 600]))
        t = g.tree() if rng.random() < 0.5 else g.wild(2, 3)
        variations(rng, t)
        b = t.encode()
        c = rng.random()
        if c < 0.25:
            b = b[:rng.randrange(len(b) + 1)]
        elif c < 0.4:
            b += tail(rng)
        for m in READ_MODES:
            for opt in (["", "unbuf", "chunk=1", "chunk=5"] if m == "cookie" else ["", "chunk=2"] if m == "stdincookie" else [rng.choice(["", "unbuf"])] if m in ("file", "pipe") else ["", called(rng, 0.6)] if m in ("path", "read") else [""]):
                h = s.new()
                s("read", h, reg.num, m, hx(b), opt)
                if c >= 0.25:
                    s("free", h, reg.num)
        s("end")
    tiny = [b"", b"FORM", b"BODY\0\0\0", FORM + b"\0\0\0\0", FORM + b"\0\0\0\4TES", FORM + b"\0\0\0\4TEST", CAT + b"\0\0\0\4JJJJ", LIST + b"\0\0\0\4JJJJ", PROP + b"\0\0\0\4TEST"]
    tiny += [b"BODY\0\0\0" + bytes([k]) + b"abcdefg"[:k] + b"\0" * (k % 2) for k in range(7)] + [b"\0\0\0\0" + b"\0\0\0\0"]
    for part in range(0, len(tiny), 4):  # whatever is shorter than a header, a group and so on
        s.case("tiny%d" % part)
        for b in tiny[part:part + 4]:
            for m in READ_MODES:
                s("read", s.new(), 0, m, hx(b), rng.choice(["", "chunk=1"]) if "cookie" in m else "")
                s("free", s.h, 0) if tinyok(b) else None
        s("end")
    for size in (4095, 4096, 4097, 70000):
        s.case("modesbig%d" % size)
        b = N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=b"q" * size), N(b"NAME", "raw", data=b"abc")]).encode()
        for m in READ_MODES:
            h = s.new()
            s("read", h, 0, m, hx(b), "chunk=1000" if "cookie" in m else "")
            s("free", h, 0)
        h = s.new()
        s("read", h, 0, "mem", hx(b))
        for m in ["cookie"] + WRITE_MODES:
            s("write", h, 0, m, "A", "pre=%d" % (size * 2) if m in ("path", "write") else "")
        s("free", h, 0)
        s("end")
    s.case("names")
    b = N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=b"abc")]).encode()
    s("read", 1, 0, "mem", hx(b))
    for x in NAMES[:-1]:
        for m in ("path", "read"):
            s("read", s.new() + 1, 0, m, hx(b), "as=" + x.hex())
            s("free", s.h + 1, 0)
        s("write", 1, 0, "path", "A", "as=" + x.hex())
        s("write", 1, 0, "write", "A", "as=" + x.hex(), "pre=%d" % rng.choice([0, 5, 500]))
        s("read", 2, 0, "missing", "-", "as=" + x.hex())
    for x in (b"", b".", b"nodir/", b"no/such/x", b"/", b"a" * 300):
        s("read", 2, 0, "missing" if x != b"." and x != b"/" else "dir", "-", "as=" + (x.hex() or "-"))
        s("write", 1, 0, "nodir", "A", "as=" + (x.hex() or "-"))
    s("free", 1, 0)
    s("end")
    s.case("unavailable")
    s("read", 1, 0, "missing", "-")
    s("read", 1, 0, "dir", "-")
    s("errcb", "default")
    s("read", 1, 0, "missing", "-")
    s("read", 1, 0, "dir", "-")
    s("end")


def fam_diag(s, rng, n, tier):
    """Everything twice, with the capturing and the default callback."""
    for i in range(n):
        s.case("diag%d" % i)
        reg = some_reg(rng, s, 0.3)
        g = Gen(rng, reg)
        t = g.tree() if rng.random() < 0.4 else g.wild(2, 3)
        if rng.random() < 0.5:
            variations(rng, t)
        for _ in range(rng.choice([0, 0, 1])):
            g.spoil(t)
        if rng.random() < 0.3:
            for m, _ in list(t.walk()):
                if m.k in ADD and rng.random() < 0.4:
                    m._sz = max(0, m.real() + rng.choice([-1, -2, -5, -6, -8, 1, 2]))
        b = t.encode()
        c = rng.random()
        if c < 0.3:
            b = b[:rng.randrange(len(b) + 1)]
        elif c < 0.45:
            b += tail(rng)
        mode = rng.choice(["path", "cookie", "mem", "stdinfile"])
        first = rng.choice(["capture", "default"])
        for cb in (first, "default" if first == "capture" else "capture", first):
            s("errcb", cb)
            h = s.new()
            s("read", h, reg.num, mode, hx(b))
            if c >= 0.3:
                s("check", h, reg.num)
                s("check", h, reg.num)
                s("write", h, reg.num, "cookie", "A")
                s("write", h, reg.num, "cookie", "A", "buf=0", "fail=%d" % (3 + i % 9))
                s("free", h, reg.num)
        s("end")


def fam_inspect(s, rng, n, tier):
    for i in range(n):
        s.case("inspect%d" % i)
        reg = some_reg(rng, s, 0.4)
        g = Gen(rng, reg)
        t = g.tree(rng.choice([1, 2, 3]), 3) if rng.random() < 0.6 else g.wild(2, 3)
        if rng.random() < 0.35:  # a LIST whose PROPs are looked up
            tys = rng.sample(TYPES, 3)
            g = Gen(rng, reg, types=tys, ids=DATA_IDS[:3], bias_ext=0.1)
            t = N(LIST, "list", JJJJ, [g.prop(ty, 3) for ty in tys], [t] + [g.form(rng.choice(tys), 1, 3) for _ in range(2)])
        if rng.random() < 0.3:  # a wide group with much in it
            w = rng.choice([4, 5, 6, 8])
            kids = [g.group(rng.choice([0, 1]), 3) if rng.random() < 0.5 else g.data(b"TEST") for _ in range(w)]
            t = rng.choice([lambda: N(FORM, "form", b"TEST", kids=kids), lambda: N(FORM, "form", b"TEST", kids=kids), lambda: N(CAT, "cat", JJJJ, kids=[c for c in kids if c.k in ADD] + [t]),
                            lambda: N(LIST, "list", JJJJ, [g.prop(rng.choice(TYPES), 3) for _ in range(3)], [c for c in kids if c.k in ADD] + [t])])()
        if rng.random() < 0.3:
            g.spoil(t)
        if rng.random() < 0.4:  # sizes that are not right
            for m, _ in list(t.walk()):
                if m.k in ADD and rng.random() < 0.5:
                    m._sz = max(0, m.real() + rng.choice([-1, -2, 1, 2, 5, 100]))
        h = s.build(t)
        h2 = s.build(t)
        forms = [m for m, _ in t.walk() if m.k == "form"]
        lists = [m for m, _ in t.walk() if m.k == "list" and m.props]
        for _ in range(12):
            c = rng.randrange(10)
            if c >= 8 and lists:
                m = rng.choice(lists)
                if c == 8:
                    s("getprop", ref_of(t, m, h), idx(rng.choice(m.props).ty), "dump")
                else:
                    j = rng.randrange(len(m.props))
                    s("getp", ref_of(t, m.props[j], h), idx(rng.choice(DATA_IDS[:3])), "dump")
                continue
            if c == 0:
                s("check", h, reg.num, "dump")
            elif c == 1:
                s("cmp", h, h2, reg.num, "dump")
            elif c == 2:
                m = rng.choice([m for m, _ in t.walk()])
                s("search", rng.choice([str(h), ref_of(t, m, h)]), 2, idx(rng.choice(TYPES)), idx(rng.choice(TYPES)), "dump")
            elif c == 3:
                s("print", h, reg.num, rng.choice([0, 2]), "dump")
            elif c == 4:
                s("write", h, reg.num, rng.choice(WRITE_MODES + ["full", "closedpipe"]), "A", "dump")
            elif c == 5:
                s("write", h, reg.num, "cookie", "B", "buf=0", "fail=%d" % rng.randrange(1, 12), "dump")
            elif forms:
                m = rng.choice(forms)
                s(rng.choice(["get", "getall", "getdata"]), ref_of(t, m, h), idx(rng.choice(DATA_IDS)), "dump")
        s("cmp", h, h2, reg.num)
        s("free", h, reg.num)
        s("free", h2, reg.num)
        s("end")


def fam_evolve(s, rng, n, tier):
    """A hierarchy that changes all the time, and is inspected in between; a twin changes mostly in the same way."""
    for i in range(n):
        s.case("evolve%d" % i)
        reg = DEFAULT
        if rng.random() < 0.3:  # kinds that do not depend on the scope
            reg = Reg(1, ["cat", "form", "list", "prop", "raw"] + sorted(LAYOUT), [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}, {b"EXT%d" % (j + 1): 6 + j for j in range(6)}], {}, 5)
            s(reg.line())
        tys = rng.sample(TYPES, 2)
        ids = DATA_IDS[:3] + ([b"EXT1", b"EXT3", b"EXT5"] if reg.num else [])
        g = Gen(rng, reg, types=tys, ids=ids, maxdata=5, bias_ext=0.1)
        t = rng.choice([lambda: N(LIST, "list", JJJJ, [g.prop(rng.choice(tys), 2)], [g.form(rng.choice(tys), 1, 2)]), lambda: g.tree(2, 3), lambda: N(FORM, "form", tys[0])])()
        if t.k not in ADD:
            continue
        trees = [t, t.copy()]
        hs = [s.build(x) for x in trees]
        both = [0, 1]
        def at(j, path):
            m = trees[j]
            for l, k in path:
                m = getattr(m, l)[k]
            return m
        def paths(m, p=()):
            yield p, m
            for l in ("props", "kids"):
                for k, c in enumerate(getattr(m, l)):
                    yield from paths(c, p + ((l, k),))
        def ref(j, path):
            return str(hs[j]) + "".join(".%s%d" % (l[0], k) for l, k in path)
        for _ in range(rng.choice([6, 10, 14])):
            # a change
            js = both if rng.random() < 0.7 else [rng.randrange(2)]
            ps = list(paths(trees[js[0]]))
            gs = [(p, m) for p, m in ps if m.k in ADD]
            c = rng.random()
            p, m = rng.choice(gs)
            if trees[0].encode() != trees[1].encode() or [x[0] for x in ps] != [x[0] for x in paths(trees[1])]:
                js = js[:1]  # the twins differ: each by itself
            if c < 0.35:
                sub = g.prop(rng.choice(tys), 2) if m.k == "list" and rng.random() < 0.5 else g.data(m.ty) if m.k in ("form", "prop") and rng.random() < 0.7 else g.group(0, 2)
                for j in js:
                    x = s.build(sub)
                    s("add", "addPropToList" if m.k == "list" and sub.k == "prop" else ADD[m.k], ref(j, p), x)
                    o = at(j, p)
                    (o.props if o.k == "list" and sub.k == "prop" else o.kids).append(sub.copy())
                    if o._sz is not None:
                        o._sz += space(sub.sz)
            elif c < 0.5:
                x = rng.choice(tys + [b"ab.c", JJJJ])
                for j in js:
                    s("poke", ref(j, p), "ty", idx(x))
                    at(j, p).ty = x
            elif c < 0.6:
                d = rng.choice([1, -1, 2, 256])
                for j in js:
                    o = at(j, p)
                    o._sz = max(0, o.sz + d)
                    s("poke", ref(j, p), "sz", o._sz)
            elif c < 0.75:
                raws = [(p, m) for p, m in ps if m.k == "raw"]
                if raws:
                    p, m = rng.choice(raws)
                    same = rng.random() < 0.5 and m.data
                    b = bytes([m.data[0] ^ 1]) + m.data[1:] if same else g.payload()
                    for j in js:
                        if same:
                            s("poke", ref(j, p), "byte", 0, b[0])
                        else:
                            s("setraw", ref(j, p), hx(b))
                        at(j, p).data = b
            elif c < 0.85:
                for j in js:
                    s("update", ref(j, p))
                    for k in range(len(p) + 1):
                        at(j, p[:len(p) - k])._sz = None
            elif gs:  # a chunk moves to another group
                cand = [(p, m) for p, m in ps if p]
                if cand:
                    p, m = rng.choice(cand)
                    to = [(q, o) for q, o in gs if q[:len(p)] != p and not (m.k == "prop" and o.k not in ("list", "form"))]
                    q, o = rng.choice(to)
                    prop = o.k == "list" and m.k == "prop"
                    for j in js:
                        x, tmp = ref(j, p), s.new()
                        s("hold", tmp, x)
                        s("hold", s.new(), ref(j, q))
                        s("detach", tmp)
                        s("add", "addPropToList" if prop else ADD[o.k], s.h, tmp)
                        mm, oo, pp = at(j, p), at(j, q), at(j, p[:-1])
                        if pp._sz is None:
                            pp._sz = pp.sz
                        if oo._sz is not None:
                            oo._sz += space(mm.sz)
                        getattr(pp, p[-1][0]).pop(p[-1][1])
                        (oo.props if prop else oo.kids).append(mm)
            # what is to be seen of it
            for _ in range(rng.choice([1, 2, 3])):
                j = rng.randrange(2)
                p, m = rng.choice(list(paths(trees[j])))
                c = rng.randrange(12)
                if c < 2:
                    s("check", hs[j], reg.num)
                elif c < 4:
                    s("cmp", hs[j], hs[1 - j], reg.num)
                elif c < 5:
                    s("search", hs[j], 1, idx(rng.choice(tys)))
                elif c < 6:
                    s("print", hs[j], reg.num, 0)
                elif c < 7 and all(o.sz < 700 for o, _ in trees[j].walk()):
                    s("write", hs[j], reg.num, "cookie", "A")
                fs = [(p, m) for p, m in paths(trees[j]) if m.k in ("form", "prop", "list")]
                for p, m in rng.sample(fs, min(len(fs), 2)):
                    if m.k == "form":
                        for fn in rng.sample(["get", "getall", "getdata"], 2):
                            s(fn, ref(j, p), idx(rng.choice(ids[:3])))
                    elif m.k == "prop":
                        s("getp", ref(j, p), idx(rng.choice(ids[:3])))
                    else:
                        s("getprop", ref(j, p), idx(rng.choice(tys)))
        for h in hs:
            s("free", h, reg.num)
        s("end")


def fam_memory(s, rng, n, tier):
    """Histories in which much fails; at the end everything must be released."""
    for i in range(n):
        s.case("memory%d" % i)
        reg = some_reg(rng, s, 0.6)
        g = Gen(rng, reg)
        t = g.tree(rng.choice([1, 2, 3]), 3) if rng.random() < 0.6 else g.wild(2, 3)
        b = t.encode()
        h = s.new()
        s("read", h, reg.num, "cookie", hx(b))
        for _ in range(4):
            x = s.new()
            c = rng.random()
            if c < 0.5:
                s("read", x, reg.num, rng.choice(["cookie", "path", "pipe"]), hx(b[:rng.randrange(len(b))]))
            elif c < 0.7:
                bb = bytearray(b)
                p = rng.randrange(4, max(5, len(b) - 3))
                bb[p:p + 4] = struct.pack(">I", rng.choice([0x00ffffff, 0x7fffffff, 0x100000]))
                s("read", x, reg.num, "cookie", hx(bytes(bb)))
                pass
            else:
                s("read", x, reg.num, "cookie", hx(b), "err=%d" % rng.randrange(len(b)))
            if c >= 0.5 and c < 0.7:
                break  # may have succeeded: released below only if it exists
        s("check", h, reg.num)
        s("write", h, reg.num, "cookie", "A", "buf=0", "fail=%d" % rng.randrange(1, 40))
        s("print", h, reg.num, 0)
        s("search", h, 1, idx(rng.choice(TYPES)))
        s("cmp", h, h, reg.num)
        for m, _ in t.walk():
            if m.k == "form":
                s("getall", ref_of(t, m, h), idx(rng.choice(DATA_IDS)))
                s("get", ref_of(t, m, h), idx(rng.choice(DATA_IDS)))
        k = s.build(g.tree(1, 2))
        s("free", k, reg.num)
        s("free", h, reg.num)
        s("end")


def fam_scarce(s, rng, n, tier):
    """Every allocation for a chunk failing in turn; files that cannot be closed."""
    for i in range(n):
        s.case("scarce%d" % i)
        reg = random_reg(rng, 1, ext_default=rng.random() < 0.3, lib=False)
        s(reg.line())
        g = Gen(rng, reg, maxdata=rng.choice([6, 600]), bias_ext=0.6)
        t = g.tree(rng.choice([1, 2, 3]), 3) if rng.random() < 0.6 else g.wild(2, 3)
        if t.k in ADD and rng.random() < 0.5:  # whose declared size is beyond its fields
            t.kids.append(g.ext(b"ZZZZ", "e1", rng.choice([3, 40, 4001])) if reg.kind(t.ty, b"ZZZZ") == "e1" else raw(b"BODX", b"") if reg.kind(t.ty, b"BODX") == "raw" else t.kids[0].copy() if t.kids else raw(b"qqqq", b"x") if reg.kind(t.ty, b"qqqq") == "raw" else t.copy())
        b = t.encode()
        need = sum(1 if m.k in ADD else 2 for m, _ in t.walk())
        for k in sorted(set(range(1, 9)) | {need - 1, need, need + 1, rng.randrange(1, need + 1)}):
            x = s.new()
            s("oom", k)
            s("read", x, 1, rng.choice(["cookie", "mem", "path", "pipe"]), hx(b))
            s("free", x, 1)
        x = s.new()
        s("read", x, 1, "mem", hx(b))
        for k in (1, 2, 3):
            s("oom", k)
            s("write", x, 1, rng.choice(["cookie", "path"]), "A")
        s("write", x, 1, rng.choice(["path", "write"]), "B", "noclose")
        s("write", x, 1, "path", "B")
        for k in (1, 2):
            for m in (raw(b"BODY", b"abc" * rng.choice([0, 1, 300])), g.data(t.ty)):
                s("oom", k)
                h = s.build(m)
                s("free", h, 1)
            for fn in ("createForm", "createCAT", "createList", "createProp", "createEmptyForm", "createEmptyProp", "createEmptyCATWithContentsType", "createEmptyListWithContentsType", "createEmptyCAT", "createEmptyList"):
                h = s.new()
                s("oom", k)
                s("mk", h, fn, *([4] if "Empty" not in fn else []), *([idx(b"TEST")] if fn not in ("createEmptyCAT", "createEmptyList") else []))
                s("free", h, 0)
        s("free", x, 1)
        s("end")
    for sz in (0, 1, 5, 4096, 70001):  # filler bytes
        s.case("scarcefill%d" % sz)
        reg = Reg(1, ["cat", "form", "list", "prop", "raw", "e1"], [{CAT: 1, FORM: 2, LIST: 3, PROP: 4}], {b"TEST": [{b"EXT1": 6}]}, 5)
        s(reg.line())
        g = Gen(rng, reg)
        t = N(FORM, "form", b"TEST", kids=[g.ext(b"EXT1", "e1", sum(LAYOUT["e1"]) + sz), raw(b"NAME", b"n")])
        h = s.build(t)
        for k in (1, 2):
            s("oom", k)
            s("write", h, 1, "cookie", "A")
        s("write", h, 1, "path", "A")
        s("free", h, 1)
        s("end")


FAMILIES = {k[4:]: v for k, v in list(globals().items()) if k.startswith("fam_")}
