"""Shared machinery: build harnesses from /repo's working tree, run TLC, drive the
harness with scripts, validate what it recorded against the TLA+ trace specs."""
import hashlib, json, os, random, re, subprocess, sys, threading, time, shutil, tempfile, queue
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NBDL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4

FLAGS = ["-std=c++26", "-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL", "-ftemplate-backtrace-limit=0",
         "-DBOOST_ASIO_NO_TYPEID", "-I" + REPO + "/include", "-I/usr/include/jsoncpp",
         "-include", "cstdint", "-include", "string", "-include", "algorithm",
         "-g1", "-O0", "-w"]
LINK = ["-ljsoncpp", "-lpthread"]


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


# ------------------------------------------------------------------ building

def _tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read())
            continue
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


# what browser code is built with, and run in (see harness/browser)
PAGE = ["-DEMSCRIPTEN=1", "-I" + os.path.join(VERIF, "harness", "browser"), "-fms-extensions", "-no-pie", "-rdynamic", "-ldl"]
PAGE_ENV = {"PAGE_HOST": os.path.join(VERIF, "harness", "browser", "host.js")}
ASAN_OPTIONS = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1"


def build(src, extra=(), asan=False, gen=None):
    """Compile harness/<src>.cpp (or generated text `gen`) against the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    hdir = os.path.join(VERIF, "harness")
    flags = FLAGS + ["-I" + hdir] + list(extra)
    if asan:
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if gen is None:
        path = os.path.join(hdir, src + ".cpp")
    else:
        gh = hashlib.sha256(gen.encode()).hexdigest()[:12]
        path = os.path.join(BUILD, "%s-%s.cpp" % (src, gh))
        with open(path + ".tmp%d" % os.getpid(), "w") as f:
            f.write(gen)
        os.replace(path + ".tmp%d" % os.getpid(), path)
    key = hashlib.sha256((_tree_hash([REPO + "/include", REPO + "/example", os.path.join(hdir, "browser"), path]) + "".join(
        open(os.path.join(hdir, f)).read() for f in sorted(os.listdir(hdir)) if f.endswith(".hpp"))
        + " ".join(flags)).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "%s-%s" % (src, key))
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    t = time.time()
    p = subprocess.run(["clang++-18"] + flags + [path, "-o", tmp] + LINK, capture_output=True, text=True)
    if p.returncode != 0:
        errs = [l for l in p.stderr.splitlines() if "error" in l][:10]
        raise CheckError("harness %s does not compile against %s:\n%s" % (
            src, REPO, "\n".join(e[:300] for e in errs)))
    os.replace(tmp, exe)
    log("built %s in %.1fs" % (src, time.time() - t))
    return exe


# ------------------------------------------------------------------ TLC

class TlcResult:
    pass


def tlc(module, cfg=None, env=None, timeout=800, args=(), defines=None, heap="2g"):
    """Run TLC on spec/<module>.tla. `defines` are appended to the config as constants."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=_scratch())
    cfgpath = os.path.join(SPEC, cfg or (module + ".cfg"))
    if defines:
        text = open(cfgpath).read() + "\nCONSTANTS\n" + "".join(
            "  %s = %s\n" % (k, v) for k, v in defines.items())
        cfgpath = os.path.join(meta, "gen.cfg")
        open(cfgpath, "w").write(text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Xss64m", "-Xmx" + heap, "-cp", TLAJAR, "tlc2.TLC", "-metadir", meta,
           "-workers", "1", "-noGenerateSpecTE", "-config", cfgpath] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise CheckError("TLC timed out on %s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out, r.rc, r.wall = p.stdout + p.stderr, p.returncode, time.time() - t
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    r.finished = bool(m)
    return r


_scr = None


def _scratch():
    global _scr
    if _scr is None:
        _scr = tempfile.mkdtemp(prefix="nbdlv-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scr, ignore_errors=True))
    return _scr


_EDGE = re.compile(r'^<<"EDGE", ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*")>>$', re.M)
_CASE = re.compile(r'^<<"CASE", ("(?:[^"\\]|\\.)*")>>$', re.M)


def model(module, cfg=None, timeout=800, defines=None, heap="4g", env=None):
    """Exhaustive model check of a design spec; any failure is an error of the spec."""
    r = tlc(module, cfg, timeout=timeout, defines=defines, heap=heap, env=env)
    if r.rc != 0 or not r.finished:
        raise CheckError("design check of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-4000:]))
    edges = []
    seen = set()
    for m in _EDGE.finditer(r.out):
        key = m.groups()
        if key in seen:
            continue
        seen.add(key)
        canon = lambda x: json.dumps(json.loads(json.loads(x)), sort_keys=True, separators=(",", ":"))
        edges.append((canon(key[0]), json.loads(json.loads(key[1])), canon(key[2])))
    r.edges = edges
    r.cases = [json.loads(json.loads(m.group(1))) for m in _CASE.finditer(r.out)]
    log("TLC %s: %d distinct states, %d transitions, %d edges, %d cases, %.1fs" % (
        module, r.distinct, r.generated, len(edges), len(r.cases), r.wall))
    return r


def edge_walks(edges, init, rng, maxlen=40):
    """Walks from `init` that together cross every edge of the state graph."""
    from collections import deque
    out = {}
    for s, op, t in edges:
        out.setdefault(s, []).append((op, t))
    # shortest way from init to every state
    prev, dq = {init: None}, deque([init])
    while dq:
        u = dq.popleft()
        for op, v in out.get(u, ()):
            if v not in prev:
                prev[v] = (u, op)
                dq.append(v)
    todo = {s: list(range(len(v))) for s, v in out.items() if s in prev}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in out.values())
    starts = [s for s in todo]
    rng.shuffle(starts)
    walks = []
    while starts:
        cur = starts[-1]
        if not todo[cur]:
            starts.pop()
            continue
        walk, u = [], cur
        while prev[u] is not None:
            walk.append(prev[u][1])
            u = prev[u][0]
        walk.reverse()
        while True:
            if todo.get(cur):
                i = todo[cur].pop()
                left -= 1
                op, cur = out[cur][i]
                walk.append(op)
            else:
                # a short way to a state with an uncovered edge
                pv, dq, goal = {cur: None}, deque([cur]), None
                while dq and len(pv) < 60:
                    u = dq.popleft()
                    if todo.get(u):
                        goal = u
                        break
                    for op, v in out.get(u, ()):
                        if v not in pv:
                            pv[v] = (u, op)
                            dq.append(v)
                if goal is None:
                    break
                path, u = [], goal
                while pv[u] is not None:
                    path.append(pv[u][1])
                    u = pv[u][0]
                path.reverse()
                if len(walk) + len(path) >= maxlen:
                    break
                walk += path
                cur = goal
            if len(walk) >= maxlen:
                break
        walks.append(walk)
    return walks, left


# ------------------------------------------------------------------ running the harness

def _run_once(exe, lines, args, idle, env):
    """Feed lines, collect stdout; returns (events list, rc or 'hang', stderr tail)."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN_OPTIONS
    e.update(env or {})
    inp = tempfile.TemporaryFile(dir=_scratch())
    inp.write(("\n".join(lines) + "\n").encode())
    inp.seek(0)
    err = tempfile.TemporaryFile(dir=_scratch())
    outp = tempfile.NamedTemporaryFile(dir=_scratch(), delete=False)
    p = subprocess.Popen([exe] + list(args), stdin=inp, stdout=outp, stderr=err, env=e, cwd=_scratch())
    last, size, rc = time.time(), -1, None
    delay = 0.005
    while True:
        try:
            rc = p.wait(timeout=delay)
            break
        except subprocess.TimeoutExpired:
            pass
        delay = min(delay * 1.5, 0.2)
        s = os.fstat(outp.fileno()).st_size
        now = time.time()
        if s != size:
            size, last = s, now
        elif now - last > idle:
            p.kill(); p.wait(); rc = "hang"
            break
        if s > 150 * 1024 * 1024:
            p.kill(); p.wait(); rc = "flood"
            break
    outp.close()
    data = open(outp.name, "rb").read()
    os.unlink(outp.name)
    err.seek(0)
    etxt = err.read().decode("utf8", "replace")
    return data, rc, etxt


def run_harness(exe, episodes, args=(), idle=25, env=None, max_crash=4):
    """Run every episode; returns list of (episode, events). A process that ends
    abnormally leaves a 'crash' event in the episode it was executing."""
    res = []
    i = 0
    crashes = 0
    while i < len(episodes):
        lines = [json.dumps(ep, separators=(",", ":")) for ep in episodes[i:]]
        data, rc, err = _run_once(exe, lines, args, idle, env)
        groups, cur, closed = [], None, False
        for raw in data.split(b"\n"):
            if not raw.startswith(b"{"):
                continue
            try:
                ev = json.loads(raw)
            except ValueError:
                continue  # a torn last line of a crashed run
            if ev.get("ev") == "reset":
                cur = [ev]
                groups.append(cur)
                closed = False
            elif cur is not None:
                cur.append(ev)
        if rc == 0 and len(groups) == len(lines):
            res += list(zip(episodes[i:], groups))
            return res
        if rc == 0 and len(groups) != len(lines):
            rc = "stopped early"
        if not groups:
            raise CheckError("harness %s produced nothing (rc %s): %s" % (exe, rc, err[-2000:]))
        what = "crash"
        m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
        if m:
            what = m.group(2)
        elif rc == "hang" or rc == "flood":
            what = rc
        elif rc == 78:
            what = "flood"
        del groups[-1][3000:]       # refused anyway
        groups[-1].append({"ev": "crash", "what": what, "rc": str(rc)})
        sys.stderr.write(err[-1500:] + "\n")
        res += list(zip(episodes[i:i + len(groups)], groups))
        i += len(groups)
        crashes += 1
        if crashes >= max_crash:
            break
    return res


# ------------------------------------------------------------------ trace validation

def _validate_chunk(module, chunk, cfg, defines, timeout, heap="3g"):
    """chunk: list of event lists. Returns None if accepted, else index of rejected event."""
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=_scratch(), delete=False)
    n = 0
    for evs in chunk:
        for ev in evs:
            f.write(json.dumps(ev, separators=(",", ":")) + "\n")
            n += 1
    f.close()
    if n == 0:
        return None, 0
    r = tlc(module, cfg, env={"TRACE": f.name}, timeout=timeout, args=["-deadlock"], defines=defines, heap=heap)
    os.unlink(f.name)
    m = re.search(r'<<"ACCEPTED", (\d+)>>', r.out)
    if m and r.rc == 0 and int(m.group(1)) == n:
        return None, n
    m = re.search(r'<<"REJECTED", (\d+), (\d+)>>', r.out)
    if m and int(m.group(2)) == n:
        return int(m.group(1)), n
    at = max(r.out.find("Error:"), 0)
    raise CheckError("TLC could not evaluate trace with %s:\n%s" % (module, r.out[at:at + 1500] + r.out[-1500:]))


def validate(module, groups, cfg=None, defines=None, timeout=800, par=None, chunk_events=6000):
    """Validate recorded episodes in parallel. Returns list of (episode index, event index)
    of the first rejection in every chunk that is rejected (empty = all accepted)."""
    par = par or NPROC
    total = sum(len(g) for g in groups)
    nchunks = max(1, min(par * 8, (total + chunk_events - 1) // chunk_events, len(groups)))
    if total > 1500:
        nchunks = max(nchunks, min(par, (total + 1499) // 1500, len(groups)))
    target = total / nchunks
    chunks, cur, size = [], [], 0
    for idx, g in enumerate(groups):
        cur.append(idx)
        size += len(g)
        if size >= target:
            chunks.append(cur)
            cur, size = [], 0
    if cur:
        chunks.append(cur)

    def one(ch):
        bad, n = _validate_chunk(module, [groups[i] for i in ch], cfg, defines, timeout)
        if bad is None:
            return None
        # `bad` = number of events matched; the next one was rejected
        pos = bad
        for i in ch:
            if pos < len(groups[i]):
                return (i, pos)
            pos -= len(groups[i])
        return (ch[-1], len(groups[ch[-1]]) - 1)

    with ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(one, chunks))
    return [r for r in rs if r is not None]


# ------------------------------------------------------------------ check context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.quick = tier != "thorough"
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.together = False       # run episodes in one process (replay)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, module, cfg=None, **kw):
        r = model(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts["model:" + (cfg or module)] = {"distinct_states": r.distinct, "transitions": r.generated}
        return r

    def conform(self, name, exe, module, episodes, cfg=None, defines=None, args=(), idle=25, env=None, par=None,
                norm=None):
        """Run episodes on the real code and validate the recording against `module`."""
        t = time.time()
        todo = list(episodes)
        found = lambda: sum(not v.get("known") for v in self.violations)
        if not todo:
            return
        if found() and time.time() - T0 > 120:
            log("%s: left out, violations were found already" % name)
            return
        # run the harness in parallel slices
        slices = 1 if self.together else max(1, min(NPROC, len(todo) // 20))
        parts = [todo[k::slices] for k in range(slices)]
        with ThreadPoolExecutor(slices) as ex:
            rr = list(ex.map(lambda ps: run_harness(exe, ps, args, idle, env), parts))
        runs = [x for r in rr for x in r]
        groups = [norm(ep, g) if norm else g for ep, g in runs]
        t2 = time.time()
        if len(runs) < len(todo):
            self.parts.setdefault("skipped_after_crashes", 0)
            self.parts["skipped_after_crashes"] += len(todo) - len(runs)
        for _round in range(12):
            bad = validate(module, groups, cfg, defines, par=par)
            if not bad:
                break
            drop = set()

            def again(eps):
                """whether eps, run anew in one process, are rejected"""
                for _ in range(2):
                    g1 = [norm(e, g) if norm else g for e, g in run_harness(exe, eps, args, idle, env)]
                    b1 = validate(module, g1, cfg, defines, par=1)
                    if b1:
                        return g1, b1
                return None, None
            alone = 0
            for i, pos in bad:
                if found() and time.time() - t2 > 60 or found() >= 8:
                    break
                ep = runs[i][0]
                log("rejected: %s episode %d event %d: %s" % (name, i, pos, json.dumps(groups[i][pos])[:400]))
                g1, b1 = again([ep])
                if not b1:
                    continue
                alone += 1
                self.violate(name, ep, g1[0], b1[0][1])
                drop.add(i)
            if not alone:       # it may take the episodes before, in the same process
                ep = runs[bad[0][0]][0]
                part = next(p for p in parts if any(x is ep for x in p))
                part = part[:next(k for k, x in enumerate(part) if x is ep) + 1]
                g1, b1 = again(part)
                if not b1:
                    raise CheckError("rejection of %s did not repeat: %s" % (name, json.dumps(ep)[:500]))
                k = b1[0][0]
                self.violate(name, part[k], g1[k], b1[0][1], before=part[:k])
                break
            if any(not v.get("known") for v in self.violations):
                break
            runs = [r for i, r in enumerate(runs) if i not in drop]
            groups = [g for i, g in enumerate(groups) if i not in drop]
        ne = sum(len(g) for g in groups)
        self.traces += len(groups)
        self.events += ne
        self.parts[name] = {"episodes": len(groups), "events": ne, "spec": module}
        for ep, g in runs[:1] + runs[len(runs) // 2:len(runs) // 2 + 1]:
            if len(self.samples) < 6:
                s = json.dumps({"episode": ep, "recorded": g[:12]})
                self.samples.append(s[:1500])
        log("%s: %d episodes, %d events (run %.1fs, validate %.1fs)%s" % (
            name, len(groups), ne, t2 - t, time.time() - t2, " REJECTED" if self.violations else ""))

    def violate(self, name, ep, events, pos, before=()):
        os.makedirs(OUT, exist_ok=True)
        h = hashlib.sha256(json.dumps([name, ep]).encode()).hexdigest()[:10]
        path = os.path.join(OUT, "%s-%s.json" % (self.prop, h))
        json.dump({"property": self.prop, "part": name, "before": list(before), "episode": ep, "recorded": events,
                   "rejected_event": events[pos] if pos < len(events) else None,
                   "rejected_index": pos}, open(path, "w"), indent=1)
        k = match_known(self.prop, name, ep, events[pos] if pos < len(events) else {})
        self.violations.append({"path": path, "part": name, "known": k,
                                "event": events[pos] if pos < len(events) else None})


def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                res.append(json.loads(line))
    return res


def match_known(prop, part, ep, ev):
    for k in load_known():
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if k["part"] == part and k["episode"] == ep:
            return k
    return None
