"""Runs of iffjoin and iffpp: generation and execution.  What a run shows is judged by spec/IffTools.tla."""
import os, resource, shutil, signal, subprocess, threading
from iffgen import *


def generate(prop, rng, n, tier):
    return {"C20": join_runs, "C21": pp_runs, "C25": command_runs}[prop](rng, n, tier)


def an_input(rng, quality=None):
    """One input file: state and content."""
    g = Gen(rng, types=rng.sample(TYPES, rng.choice([1, 2, 3])), maxdata=rng.choice([4, 12, 40]), ids=DATA_IDS + [b"TEXT"] * 2)
    q = quality or rng.choice(["good"] * 8 + ["missing", "dir", "short", "bad", "bad", "trail", "pad", "empty", "notgroup", "hostile"])
    if q in ("missing", "dir"):
        return {"state": q, "content": ""}
    t = g.tree(rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 2, 3]))
    if q == "bad":
        for _ in range(rng.choice([1, 1, 2])):
            g.spoil(t)
    if q == "notgroup":
        t = rng.choice([g.prop(b"TEST", 2), g.data(b"\0\0\0\0")])
    if q == "pad":
        variations(rng, t)
    b = t.encode()
    if q == "short":
        b = b[:rng.randrange(len(b))]
    if q == "trail":
        b += rng.randbytes(rng.choice([1, 3]))
    if q == "empty":
        b = b""
    if q == "hostile":
        p = rng.choice([4] + [p for p in range(4, len(b) - 3) if b[p - 4:p] in (FORM, CAT, LIST)])
        b = b[:p] + struct.pack(">I", rng.choice([x for x in EDGE if x < 0x80000000])) + b[p + 4:]
    return {"state": "file", "content": b.hex()}


def via(rng, inputs):
    """Some of the files are not ordinary files in the directory."""
    for j, x in enumerate(inputs):
        if x["state"] == "file" and rng.random() < 0.6:
            inputs[j] = dict(x, via=rng.choice(["fifo", "fifo", "symbolic"]))


def typed(rng, k, ty):
    g = Gen(rng, types=[ty] if ty != JJJJ else TYPES, maxdata=5)
    if k == "form":
        return {"state": "file", "content": g.form(ty if ty != JJJJ else b"TEST", 1, 2).encode().hex()}
    n = rng.choice([0, 1, 2])
    kids = [g.group(0, 1, None if ty == JJJJ else ty) for _ in range(n)]
    props = [g.prop(g.types[0], 2) for _ in range(rng.choice([0, 1]))] if k == "list" else []
    return {"state": "file", "content": N({"cat": CAT, "list": LIST}[k], k, ty, props, kids).encode().hex()}


PECULIAR = ["-", "--", "-x", "-o", "-h", "--help", "--version", " ", "a b", ".hidden", "a.b.c", "stdin", "stdout", "/dev/../{d}/abs", "./y", "sub/../up", "{d}/./x", "%s%n", "*", "~", "$HOME", "\n", "\u00e9", "n" * 200, "a=b", "0", "CON", "x;y", "'q'", "a\\b", "&", "FORM", "out.iff"]


def join_runs(rng, n, tier):
    for i in range(n):
        k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
        c = rng.random()
        if c < 0.35:
            tys = rng.choice([TYPES[:1], TYPES[:2], TYPES[:1] + [JJJJ], TYPES[:3]])
            inputs = [typed(rng, rng.choice(["form", "cat", "list"]), rng.choice(tys)) for _ in range(k)]
        elif c < 0.75:
            inputs = [an_input(rng, "good") for _ in range(k)]
            if inputs and rng.random() < 0.45:
                inputs[rng.randrange(k)] = an_input(rng)
        else:
            inputs = [an_input(rng) for _ in range(k)]
        dest = rng.choice(["stdout", "stdout", "file", "file", "file", "file", "full", "fullo", "nodir", "capped"])
        size = sum(len(x["content"]) // 2 for x in inputs) + 12
        run = {"tool": "iffjoin", "inputs": inputs, "dest": dest, "cap": rng.choice([0, 1, 8, 12, size - 1, size, size + 1, size // 2]) if dest == "capped" else -1,
               "pre": rng.random() < 0.6, "prelen": rng.choice([0, 1, 11, 13, 100, 5000]), "long": rng.random() < 0.3, "alias": -1}
        run["cap"] = max(run["cap"], 0) if dest == "capped" else -1
        files = [j for j, x in enumerate(inputs) if x["state"] == "file"]
        if dest == "file" and files and rng.random() < 0.2:
            run["alias"] = rng.choice(files)
        if len(inputs) > 1 and rng.random() < 0.15:  # two files with the same contents
            run["inputs"][-1] = dict(run["inputs"][0])
        if rng.random() < 0.35:  # by names that may look like something else
            run["names"] = rng.sample(PECULIAR, k + 1)
            if "-" not in run["names"] and rng.random() < 0.6:
                run["names"][rng.choice([-1, -1, 0])] = "-"
        if len(inputs) > 1 and rng.random() < 0.25:  # one file, named several times
            same = []
            for j in range(k):
                same.append(rng.choice(same) if same and rng.random() < 0.6 else j)
            run["same"] = same
            run["inputs"] = [run["inputs"][run["same"][j]] for j in range(k)]
        if "names" not in run and "same" not in run and run["alias"] < 0 and rng.random() < 0.2:
            via(rng, run["inputs"])
        if run["alias"] >= 0 and rng.random() < 0.6:  # one of the inputs, by another name
            run["link"] = rng.choice(["hard", "symbolic"])
        if dest in ("file", "stdout") and rng.random() < 0.15:
            run["closed"] = rng.choice([[0], [1], [0, 1]])
            if dest == "stdout" and 1 in run["closed"]:
                run["dest"] = "closed"
        yield run
    for size in ([4096, 70000] if tier == "quick" else [1000, 4084, 4095, 4096, 4097, 70000, 300000]):
        big = N(FORM, "form", b"TEST", kids=[N(b"BODY", "raw", data=b"b" * size)]).encode().hex()
        for dest, cap in (("stdout", -1), ("file", -1), ("fullo", -1), ("full", -1), ("capped", size), ("capped", size + 100)):
            yield {"tool": "iffjoin", "inputs": [typed(rng, "form", b"TEST"), {"state": "file", "content": big}], "dest": dest, "cap": cap, "pre": True, "prelen": 2 * size, "long": False, "alias": -1}
    for k, odd in ((300, -1), (257, 256), (300, 290)) + (((1000, 999), (700, 699)) if tier != "quick" else ()):
        form = [{"state": "file", "content": N(FORM, "form", t).encode().hex()} for t in TYPES[:2]]
        for bad in (False, True):
            inputs = [form[j == odd] for j in range(k)]
            if bad:
                inputs[k - 1] = rng.choice([{"state": "missing", "content": ""}, {"state": "file", "content": N(FORM, "form", b"TE.T").encode().hex()}])
            yield {"tool": "iffjoin", "inputs": inputs, "dest": rng.choice(["file", "stdout"]), "cap": -1, "pre": True, "prelen": 9, "long": True, "alias": -1}
    yield {"tool": "iffjoin", "inputs": [typed(rng, "form", TYPES[j % 2]) for j in range(40)], "dest": "file", "cap": -1, "pre": False, "prelen": 0, "long": True, "alias": -1}


def pp_runs(rng, n, tier):
    for i in range(n):
        run = {"tool": "iffpp", "input": an_input(rng, rng.choice([None, None, "good", "bad"])), "stdin": rng.choice(["no", "no", "file", "pipe", "offset"]), "nocheck": rng.random() < 0.4, "long": rng.random() < 0.3, "name": rng.choice(["in"] * 3 + ["-"] * 3 + PECULIAR)}
        if run["stdin"] == "no" and run["name"] == "in":
            one = [run["input"]]
            via(rng, one)
            run["input"] = one[0]
        if rng.random() < 0.1:
            run["closed"] = rng.choice([[0], [2], [0, 2]]) if run["stdin"] == "no" else [2]
        yield run
    for _, t in big_trees(rng, tier):
        if len(t.encode()) < 20000:
            yield {"tool": "iffpp", "input": {"state": "file", "content": t.encode().hex()}, "stdin": rng.choice(["no", "file", "pipe"]), "nocheck": False, "long": False}
    for kind in ("chunks", "forms", "props", "prop", "deep"):
        yield {"tool": "iffpp", "input": {"state": "file", "content": large(rng, kind).encode().hex()}, "stdin": rng.choice(["no", "file", "pipe"]), "nocheck": rng.random() < 0.3, "long": False}


NAMES = ["-", "a", "b", "n", "x", "sub", "long name", "-c", "--", "no/such", "z" * 40, "-o", "=", "--help", "h.iff"]
LONGS = {"iffjoin": ["output-file", "help", "version"], "iffpp": ["disable-check", "help", "version"]}


def a_directory(rng):
    """Files by name, as [name, input]."""
    d = [["a", typed(rng, "form", b"TEST")], ["b", typed(rng, rng.choice(["form", "cat", "list"]), rng.choice(TYPES))], ["x", an_input(rng, rng.choice(["bad", "short", "notgroup"]))]]
    if rng.random() < 0.5:
        d.append(["sub", {"state": "dir", "content": ""}])
    for name in rng.sample(["n", "-", "long name", "z" * 40, "-c", "--", "-o", "=", "--help", "h.iff"], rng.choice([0, 1, 3])):
        d.append([name, an_input(rng, "good")])
    return d


def some_words(rng, tool, d):
    there = [name for name, _ in d]
    words = []
    for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5])):
        name = rng.choice(there + ["a", "b"] * 3) if rng.random() < 0.85 else rng.choice(NAMES)
        c = rng.random()
        if c < 0.5:
            words.append(name)
        elif c < 0.85 and tool == "iffjoin":
            out = rng.choice(["n", "n", "n", "-", "a", "b", "x", "sub", "no/such", "-c", "--", "q"])
            l = "--" + "output-file"[:rng.choice([1, 3, 6, 11, 11, 11])]
            words += rng.choice([["-o", out], ["-o" + out], [l, out], [l + "=" + out]])
        elif c < 0.85:
            words.append(rng.choice(["-c", "-c", "-cc", "--disable-check", "--dis", "-ch", "-cv"]))
        elif c < 0.9:
            words.append("--")
        else:
            words.append(rng.choice(["-h", "--help", "-v", "--version", "--ver", "-z", "--nothing", "-oa" if tool == "iffpp" else "-c", "--help=x", "-o", "--output-file", "--=a", "-hz", "-zh", "--helper"]))
    return words


def command_runs(rng, n, tier):
    for i in range(n):
        tool = rng.choice(["iffjoin", "iffpp"])
        d = a_directory(rng)
        yield {"tool": tool, "words": some_words(rng, tool, d), "dir": d, "stdin": an_input(rng, rng.choice(["good", "good", "bad"]))["content"]}


def describe(run):
    r = {k: v for k, v in run.items() if k not in ("bin",)}
    if "words" in run:
        return {"tool": run["tool"], "words": run["words"], "files": [name for name, _ in run["dir"]]}
    for x in r.get("inputs", [r.get("input")]):
        if x and len(x["content"]) > 300:
            return {"tool": r["tool"], "large": True, "dest": r.get("dest")}
    return r


def execute(run, work, tag):
    d = os.path.join(work, "tool-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        return (exec_command if "words" in run else exec_join if run["tool"] == "iffjoin" else exec_pp)(run, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Feeder(threading.Thread):
    """The other end of a named pipe; released if nobody opens it."""
    def __init__(self, path, data):
        super().__init__(daemon=True)
        os.mkfifo(path)
        self.path, self.data = path, data
        self.start()

    def run(self):
        try:
            with open(self.path, "wb", buffering=0) as f:
                k = 0
                while k < len(self.data):
                    k += f.write(self.data[k:k + (5 if k < 40 else 4096)])
        except OSError:
            pass

    def release(self):
        while self.is_alive():
            fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
            try:
                while os.read(fd, 65536):
                    pass
            except BlockingIOError:
                pass
            os.close(fd)
            self.join(0.005)


def place(inp, path):
    how = inp.get("via")
    if how == "fifo":
        return [Feeder(path, bytes.fromhex(inp["content"]))]
    if how == "symbolic":
        os.symlink(path + ".target", path)
        path += ".target"
    if inp["state"] == "file":
        with open(path, "wb") as f:
            f.write(bytes.fromhex(inp["content"]))
    elif inp["state"] == "dir":
        os.makedirs(path)
    return []


def spawn(args, stdin, stdout, cap, cwd=None, closed=()):
    def pre():
        for fd in closed:
            os.close(fd)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if cap >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
    env = dict(os.environ, ASAN_OPTIONS="allocator_may_return_null=1,max_allocation_size_mb=64,detect_leaks=0,exitcode=99,log_path=/dev/null")
    env.pop("POSIXLY_CORRECT", None)
    p = subprocess.Popen(args, stdin=stdin, stdout=stdout, stderr=subprocess.DEVNULL, preexec_fn=pre, env=env, cwd=cwd)
    return p


def finish(p, data=None):
    try:
        out, _ = p.communicate(data, timeout=30)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return -99, b""
    return p.returncode, out or b""


def ints(b):
    return list(b)


def event_input(i):
    return {"state": i["state"], "content": ints(bytes.fromhex(i["content"]))}


def exec_join(run, d):
    os.makedirs(os.path.join(d, "sub"))
    names = [x.replace("{d}", d) for x in run["names"]] if "names" in run else [os.path.join(d, "in%d" % j) for j in range(len(run["inputs"]))] + [os.path.join(d, "out")]
    same = run.get("same", list(range(len(run["inputs"]))))
    names = [names[same[j]] for j in range(len(same))] + names[-1:]
    paths = [os.path.join(d, x) for x in names]
    feeders = []
    for j, i in enumerate(run["inputs"]):
        if same[j] == j:
            feeders += place(i, paths[j])
    out, outname = paths.pop(), names.pop()
    dest = run["dest"]
    pre = {"there": False, "bytes": []}
    if run["alias"] >= 0:
        if "link" in run:
            (os.link if run["link"] == "hard" else os.symlink)(paths[run["alias"]], out)
        else:
            out, outname = paths[run["alias"]], names[run["alias"]]
        pre = {"there": True, "bytes": ints(bytes.fromhex(run["inputs"][run["alias"]]["content"]))}
    elif run["pre"]:
        with open(out, "wb") as f:
            f.write(b"\xab" * run["prelen"])
        pre = {"there": True, "bytes": [0xab] * run["prelen"]}
    target = {"file": outname, "capped": outname, "fullo": "/dev/full", "nodir": os.path.join(d, "nodir", "out")}.get(dest)
    opt = [] if target is None else ["--output-file=" + target] if run["long"] else ["-o", target]
    stdout = open("/dev/full", "wb") if dest == "full" else subprocess.PIPE
    code, got = finish(spawn([run["bin"]] + opt + (["--"] if "names" in run else []) + names, subprocess.DEVNULL, stdout, run["cap"] if dest == "capped" else -1, d, run.get("closed", ())))
    for f in feeders:
        f.release()
    if dest == "full":
        stdout.close()
    post = {"there": os.path.exists(out), "bytes": []}
    if post["there"]:
        with open(out, "rb") as f:
            post["bytes"] = ints(f.read())
    return {"op": "iffjoin", "inputs": [event_input(i) for i in run["inputs"]], "dest": "full" if dest == "fullo" else dest, "cap": run["cap"], "pre": pre,
            "exit": code, "out": ints(got), "post": post}


def exec_pp(run, d):
    os.makedirs(os.path.join(d, "sub"))
    name = run.get("name", "in").replace("{d}", d)
    p = os.path.join(d, name)
    i = run["input"]
    feeders = place(i, p)
    opt = (["--disable-check"] if run["long"] else ["-c"]) if run["nocheck"] else []
    data, stdin = None, subprocess.DEVNULL
    if run["stdin"] == "no" or i["state"] != "file":
        opt += ["--", name]
    elif run["stdin"] == "file":
        stdin = open(p, "rb")
    elif run["stdin"] == "offset":  # what is before the position is not for the tool
        with open(p + ".stdin", "wb") as f:
            f.write(b"FORM\0\0\0\4TEST" + b"x" * 9 + bytes.fromhex(i["content"]))
        stdin = open(p + ".stdin", "rb", buffering=0)
        stdin.seek(21)
    else:
        stdin, data = subprocess.PIPE, bytes.fromhex(i["content"])
    code, got = finish(spawn([run["bin"]] + opt, stdin, subprocess.PIPE, -1, d, run.get("closed", ())), data)
    for f in feeders:
        f.release()
    if run["stdin"] in ("file", "offset") and i["state"] == "file":
        stdin.close()
    return {"op": "iffpp", "input": event_input(i), "stdin": run["stdin"], "nocheck": run["nocheck"], "exit": code, "out": ints(got)}


def listing(d):
    r = []
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name)
        if os.path.isdir(p):
            r.append({"name": ints(name.encode()), "state": "dir", "content": []})
            for inner in os.listdir(p):
                r.append({"name": ints((name + "/" + inner).encode()), "state": "file", "content": []})
        else:
            with open(p, "rb") as f:
                r.append({"name": ints(name.encode()), "state": "file", "content": ints(f.read())})
    return r


def exec_command(run, d):
    for name, i in run["dir"]:
        place(i, os.path.join(d, name))
    before = listing(d)
    code, got = finish(spawn([run["bin"]] + run["words"], subprocess.PIPE, subprocess.PIPE, -1, d), bytes.fromhex(run["stdin"]))
    return {"op": "command", "tool": run["tool"], "args": [ints(w.encode()) for w in run["words"]], "before": before, "after": listing(d),
            "stdin": ints(bytes.fromhex(run["stdin"])), "exit": code, "out": ints(got)}
