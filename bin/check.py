#!/usr/bin/env python3
"""Decides one property of libiff: check.py PROPERTY

 1. builds the conformance driver, the tools and the sweep from the working tree of /repo,
 2. model-checks the specification modules that belong to the property (spec/MC*.tla, TLC),
 3. replays behaviours exported from those models and generated call histories into the real code,
 4. lets TLC judge everything that was recorded (spec/IffTrace.tla) for this property,
 5. runs every rejected case again by itself before reporting it, and
 6. writes evidence/PROPERTY.json.

Exit 0: held on everything explored.  1: VIOLATION line.  Anything else: the check itself failed.
Environment: VERIF_SEED, VERIF_TIER (quick or thorough), VERIF_REPO (default /repo).
"""
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
sys.dont_write_bytecode = True
import iffgen
import ifftools
import plan

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class Broken(Exception):
    """The check could not do its work."""


def sh(args, timeout, **kw):
    return subprocess.run(args, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


class Check:
    def __init__(self, prop, work):
        self.prop, self.work, self.t0 = prop, work, time.time()
        self.rejects, self.samples, self.models, self.families, self.unrepro, self.known = [], [], [], {}, [], []
        self.cases = self.events = self.judgements = self.crashes = self.exported = self.toolruns = self.stalls = 0
        self.lock = threading.Lock()

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ---------------------------------------------------------------- building
    def build(self):
        src = os.path.join(REPO, "src")
        with open(os.path.join(src, "libiff", "ifftypes.h.in")) as f:
            h = f.read().replace("@IFF_BIG_ENDIAN@", "0")
        os.makedirs(self.path("inc"))
        with open(self.path("inc", "ifftypes.h"), "w") as f:
            f.write(h)
        lib = sorted(os.path.join(src, "libiff", x) for x in os.listdir(os.path.join(src, "libiff")) if x.endswith(".c"))
        inc = ["-I" + self.path("inc"), "-I" + os.path.join(src, "libiff")]
        asan = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]
        tool = ["-DHAVE_GETOPT_H=1", '-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="9.87"']
        need = plan.needs(self.prop)
        jobs = {}
        if "driver" in need:
            jobs["driver"] = ["gcc"] + asan + inc + ["-o", self.path("driver"), os.path.join(HERE, "harness", "driver.c")] + lib + ["-lpthread"] + ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "fclose")]
        if "sweep" in need:
            jobs["sweep"] = ["gcc", "-O2", "-w"] + inc + ["-o", self.path("sweep"), os.path.join(HERE, "harness", "sweep.c")] + lib
        if "wide" in need:
            jobs["wide"] = ["gcc", "-O1", "-g", "-w", "-D_GNU_SOURCE"] + inc + ["-o", self.path("wide"), os.path.join(HERE, "harness", "wide.c")] + lib
        if "deep" in need:
            jobs["deep"] = ["gcc", "-O1", "-g", "-w"] + inc + ["-o", self.path("deep"), os.path.join(HERE, "harness", "deep.c")] + lib
        for t in ("iffjoin", "iffpp"):
            if t in need:
                d = os.path.join(src, t)
                jobs[t] = ["gcc"] + asan + inc + tool + ["-I" + d, "-o", self.path(t)] + sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith(".c")) + lib
        def one(j):
            r = sh(j[1], 300)
            if r.returncode:
                raise Broken("building %s failed:\n%s" % (j[0], r.stdout.decode(errors="replace")[-3000:]))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs.items()))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env, heap, workers, timeout, extra=()):
        gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
        limit = time.time() + timeout
        for attempt in range(3):
            meta = tempfile.mkdtemp(dir=self.work)
            cmd = ["java"] + gc + ["-Xss512m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg, module]
            rc, out = self.watched(cmd, dict(os.environ, **env), os.path.join(meta, "out"), limit)
            shutil.rmtree(meta, ignore_errors=True)
            if rc != "stalled":
                break
            self.stalls += 1
        return rc, out

    def watched(self, cmd, env, log, limit):
        """TLC's exit code and output; "stalled" if it stopped computing, as it was once seen to do: its threads then wait for each other."""
        with open(log, "wb") as f:
            p = subprocess.Popen(cmd, cwd=os.path.join(HERE, "spec"), env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)
        rc, cpu, since = None, -1.0, time.time()
        try:
            while rc is None:
                try:
                    rc = p.wait(1)
                except subprocess.TimeoutExpired:
                    pass
                if rc is None:
                    now, used = time.time(), cpu_seconds(p.pid)
                    if used > cpu + 0.02 * (now - since) + 0.5:
                        cpu, since = used, now
                    if now > limit:
                        rc = -1
                    elif now > since + 40:
                        rc = "stalled"
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        with open(log, "rb") as f:
            out = f.read().decode("latin1")
        return rc, out + ("\nTIMEOUT" if rc in (-1, "stalled") else "")

    def judge(self, log, tag):
        """Rejections and judgement counts of one log; None if TLC could not judge it."""
        cfg = self.path("judge-%s.cfg" % tag)
        with open(cfg, "w") as f:
            f.write('SPECIFICATION Spec\nCONSTANT Focus = {"%s"}\nPOSTCONDITION Complete\nCHECK_DEADLOCK FALSE\n' % self.prop)
        rc, out = self.tlc("IffTrace.tla", cfg, {"IFF_LOG": log}, "3g", 1, 800)
        rej = [tuple(m.group(1).split("|")) for m in re.finditer(r'"REJECT\|([^"\n]*)"', out)]
        m = re.search(r'"JUDGED\|(\d+)\|(\d+)\|(\d+)"', out)
        if rc != 0 or not m or m.group(1) != m.group(2):
            self.lasterr = out[-3000:]
            return rej, None
        return rej, (int(m.group(1)), int(m.group(3)))

    # ---------------------------------------------------------------- driver
    def drive(self, cases, tag, limit=15):
        """Executes cases; returns the log and what crashed."""
        d = self.path("run-" + tag)
        os.makedirs(os.path.join(d, "scratch"))
        script, log, status = os.path.join(d, "script"), os.path.join(d, "log"), os.path.join(d, "status")
        write_script(script, cases)
        lines = open(script).read().split("\n")
        open(log, "w").close()
        first, crashes, hangs = 0, [], 0
        env = dict(os.environ, ASAN_OPTIONS="allocator_may_return_null=1,max_allocation_size_mb=64,detect_leaks=0,symbolize=0,log_path=" + os.path.join(d, "asan") + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if tag[-1] in "37" else ""))  # some runs: released memory is used again at once
        while True:
            r = subprocess.run([self.path("driver"), script, log, status, os.path.join(d, "scratch"), str(first)], env=env, timeout=600, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            with open(status, "rb") as f:
                st = [int.from_bytes(f.read(4), "little", signed=True) for _ in range(3)]
            if r.returncode == 0 and st[2] == 1:
                break
            if r.returncode == 3:
                raise Broken("driver: " + r.stderr.decode(errors="replace")[-500:])
            what = lines[st[1] - 1].split(" ")[0]
            hang = r.returncode == -signal.SIGALRM
            with open(log, "a") as f:
                f.write('{"op":"crash","what":"%s"}\n' % what)
            crashes.append((st[0], what, "hang" if hang else "crash"))
            hangs += hang
            first = st[0] + 1
            if len(crashes) >= limit or hangs >= 2 or first >= len(cases):
                break
        return log, crashes

    def run_shard(self, cases, tag):
        log, crashes = self.drive(cases, tag)
        rej, counts = self.judge(log, tag)
        return cases, tag, log, crashes, rej, counts

    def run_cases(self, cases):
        """Replays the cases into the code and judges them."""
        if not cases:
            return
        shards = [[] for _ in range(min(JOBS, max(1, len(cases) // 4)))]
        load = [0] * len(shards)
        for c in cases:
            k = load.index(min(load))
            shards[k].append(c)
            load[k] += 200 + sum(len(x) + 60 for x in c[1])
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda a: self.run_shard(a[1], str(a[0])), enumerate(shards)))
        broken = 0
        for shard, tag, log, crashes, rej, counts in res:
            self.crashes += len(crashes)
            if counts:
                self.events += counts[0]
                self.judgements += counts[1]
            else:
                broken += 1
            seen = set()
            names = {c[0]: c for c in shard}
            for r in rej:
                if r[1] in names and r[1] not in seen:
                    seen.add(r[1])
                    self.rejects.append(("driver", r, names[r[1]], shard))
        self.cases += len(cases)
        self.broken = broken
        for c in random.Random(SEED).sample(cases, min(2, len(cases))):
            self.samples.append({"case": c[0], "script": [x[:300] for x in c[1][:12]]})

    # ---------------------------------------------------------------- tools
    def run_tools(self, runs):
        logs = []
        def one(a):
            k, rs = a
            log = self.path("tools-%d.log" % k)
            with open(log, "w") as f:
                for r in rs:
                    f.write(json.dumps(ifftools.execute(r, self.work, "%d" % k)) + "\n")
            return rs, log, self.judge(log, "tools%d" % k)
        shards = [x for x in (runs[k::JOBS] for k in range(JOBS)) if x]
        with ThreadPoolExecutor(JOBS) as ex:
            for rs, log, (rej, counts) in ex.map(one, enumerate(shards)):
                if counts:
                    self.events += counts[0]
                    self.judgements += counts[1]
                else:
                    self.broken += 1
                for r in rej:
                    self.rejects.append(("tool", r, rs[int(r[2]) - 1], None))
        self.toolruns += len(runs)
        for r in random.Random(SEED).sample(runs, min(2, len(runs))):
            self.samples.append({"run": ifftools.describe(r)})

    # ---------------------------------------------------------------- sweep of all identifiers; groups with many members
    def run_sweep(self, what):
        log = self.path(what + ".log")
        r = sh([self.path(what), log], 800)
        if r.returncode:
            raise Broken(what + " failed")
        rej, counts = self.judge(log, what)
        if not counts:
            raise Broken(what + " not judged:\n" + self.lasterr)
        self.events += counts[0]
        self.judgements += counts[1]
        for r in rej:
            self.rejects.append((what, r, None, None))
        if what == "sweep":
            self.swept = 2 ** 33
            self.samples.append({"sweep": "all 2^32 identifiers through IFF_checkId and IFF_checkFormType"})
        else:
            self.samples.append({"wide": "each kind of group with 65545 members"})

    # ---------------------------------------------------------------- confirming
    def confirm(self):
        """Runs rejected cases again; the path of the first that is rejected again."""
        out = os.path.join(HERE, "replays")
        os.makedirs(out, exist_ok=True)
        order = sorted(self.rejects, key=lambda r: len(r[2][1]) if r[0] == "driver" else 0)
        for n, (kind, r, case, shard) in enumerate(order[:6]):
            name = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s" % (self.prop, r[1] or r[3]))
            if kind in ("sweep", "wide"):
                dst = os.path.join(out, name + ".log")
                shutil.copy(self.path(kind + ".log"), dst)
                return dst, r
            if kind == "tool":
                log = self.path("again-%d.log" % n)
                with open(log, "w") as f:
                    f.write(json.dumps(ifftools.execute(case, self.work, "again%d" % n)) + "\n")
                rej, _ = self.judge(log, "again%d" % n)
                if rej:
                    dst = os.path.join(out, name + "-%s.json" % r[2])
                    with open(dst, "w") as f:
                        json.dump(case, f)
                    return dst, rej[0]
                continue
            for k, cases in ((0, [case]), (1, [case]), (3, [case]), (4, shard), (7, shard)):
                _, _, _, _, rej, _ = self.run_shard(cases, "again%d-%d" % (n, k))
                rej = [x for x in rej if x[1] == case[0]]
                if rej:
                    dst = os.path.join(out, name + ".script")
                    write_script(dst, cases)
                    return dst, rej[0]
            self.unrepro.append("|".join(r))
        return None, None


def cpu_seconds(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def write_script(path, cases):
    with open(path, "w") as f:
        for name, lines in cases:
            f.write("case %s\n" % name)
            f.write("".join(x.rstrip() + "\n" for x in lines))


def main():
    prop = sys.argv[1]
    work = tempfile.mkdtemp(prefix="iffcheck-")
    c = Check(prop, work)
    try:
        code = run(c)
    except Broken as e:
        print("BROKEN: " + str(e))
        code = 2
    except subprocess.TimeoutExpired as e:
        print("BROKEN: timeout: " + str(e)[:500])
        code = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(c):
    prop = c.prop
    c.broken, c.swept = 0, 0
    models = plan.models(prop, TIER)
    pool = ThreadPoolExecutor(4)
    futures = [pool.submit(run_model, c, m) for m in models]
    c.build()
    p = plan.conformance(prop, TIER)
    cases = []
    for fam, n in p.get("families", []):
        s = iffgen.Script()
        iffgen.FAMILIES[fam](s, random.Random("%d/%s/%s" % (SEED, prop, fam)), n, TIER)
        c.families[fam] = len(s.cases)
        cases += s.cases
    runs = list(ifftools.generate(prop, random.Random("%d/%s" % (SEED, prop)), p["tools"], TIER)) if p.get("tools") else []
    for f in futures:
        export = f.result()
        cases += [x for x in export if isinstance(x, tuple)]
        runs += [x for x in export if isinstance(x, dict)]
    for i, (name, lines) in enumerate(cases):  # names must be unique
        cases[i] = ("%s_%d" % (name, i), lines)
    c.run_cases(cases)
    if runs:
        for i, r in enumerate(runs):
            r["bin"] = c.path(r["tool"])
        c.run_tools(runs)
    for what in ("sweep", "wide"):
        if what in plan.needs(prop):
            c.run_sweep(what)
    if "deep" in plan.needs(prop):
        deep(c)
    replay = None
    if c.rejects:
        replay, r = c.confirm()
    c.families["tool runs"] = c.toolruns
    evidence(c, bool(replay))
    for k in c.known:
        print(k)
    if replay:
        print("rejected: " + " | ".join(r))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if c.broken:
        raise Broken("%d logs could not be judged:\n%s" % (c.broken, c.lasterr))
    for u in c.unrepro:
        print("not reproduced: " + u)
    print("%s held: %d cases, %d tool runs, %d events, %d judgements, %d model states, %.1f s" % (prop, c.cases, c.toolruns, c.events, c.judgements, sum(m["states"] for m in c.models), time.time() - c.t0))
    return 0


def run_model(c, m):
    """Model-checks one configuration; returns the behaviours it exports, as cases or tool runs."""
    t0 = time.time()
    rc, out = c.tlc(m["module"], m["cfg"], m.get("env", {}), m.get("heap", "4g"), m.get("workers", 4), m.get("timeout", 800), m.get("extra", ()))
    s = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if rc != 0 or not s:
        raise Broken("model %s %s: %s" % (m["module"], m["cfg"], out[-3000:]))
    with c.lock:
        c.models.append({"module": m["module"], "config": m["cfg"], "states": int(s.group(2)), "transitions": int(s.group(1)), "seconds": round(time.time() - t0, 1), "complete": s.group(3) == "0"})
    export = m["export"](out, random.Random(SEED)) if m.get("export") else []
    with c.lock:
        c.exported += len(export)
    return export


def deep(c):
    """The finding recorded for unbounded recursion: a FORM nested a million times exhausts the stack."""
    f = c.path("deep.iff")
    n = 1000000
    with open(f, "wb") as o:
        for k in range(n):
            o.write(b"FORM" + (4 + 12 * (n - 1 - k)).to_bytes(4, "big") + b"TEST")
    r = subprocess.run([c.path("deep"), f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1])), timeout=120)
    with open(os.path.join(HERE, "known-findings.json")) as k:
        listed = [x for x in json.load(k)["findings"] if x["id"] == "F11"]
    if r.returncode < 0 and listed:
        c.known.append("KNOWN-FINDING: property=C02 " + listed[0]["what"])


def evidence(c, violated):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"states": sum(m["states"] for m in c.models), "transitions": sum(m["transitions"] for m in c.models),
           "traces_validated_against_impl": c.cases + c.toolruns + (2 if c.swept else 0),
           "samples": c.samples[:6] or ["none"], "models": c.models, "exported_behaviours": c.exported,
           "events_judged": c.events, "judgements": c.judgements, "cases_per_family": c.families, "crashes": c.crashes, "restarts_of_tlc": c.stalls}
    if c.swept:
        cov["identifiers_swept"] = c.swept
    e = {"property": c.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking", "coverage": cov,
         "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - c.t0, 1), "violations": 1 if violated else 0}
    with open(os.path.join(HERE, "evidence", c.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    main()
