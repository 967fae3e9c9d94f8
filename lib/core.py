"""Building the driver, running scenarios on the real code, and judging the recorded traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO_ENV = {"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off"}


class Broken(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


def env(**extra):
    e = dict(os.environ)
    e.update(GO_ENV)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(extra)
    return e


def build_driver(workdir, race=False):
    """Compiles the driver against the current working tree of the repository."""
    src = os.path.join(workdir, "driver-src")
    if not os.path.isdir(src):
        shutil.copytree(DRIVER, src)
        mod = os.path.join(src, "go.mod")
        text = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(text)
    out = os.path.join(workdir, "jdriver-race" if race else "jdriver")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=src, env=env(**({"CGO_ENABLED": "1"} if race else {})), capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("the driver does not build against the repository:\n" + p.stdout + p.stderr)
    return out


def build_cli(workdir):
    out = os.path.join(workdir, "json-dom")
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("the command line tool does not build:\n" + p.stdout + p.stderr)
    return out


# ---------------------------------------------------------------- scenarios

def groups_of(lines):
    groups = []
    for e in lines:
        if e["op"] == "reset":
            groups.append([])
        groups[-1].append(e)
    return groups


def norm(x):
    """Empty objects are written as TLA+ writes the empty function."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return ["m", []] if x == ["m", {}] else [norm(v) for v in x]
    return x


NOT_OPS = ("exec", "log", "runstart")


def drive(binary, groups, workdir, tag, mode="run", timeout=600, extra_env=None):
    """Performs the groups of operations on the real code; returns the events. An operation that kills the process, or
    never comes back, is turned into an event of its own."""
    events = []
    todo = list(groups)
    part = 0
    restarts = 0
    while todo:
        part += 1
        scen = os.path.join(workdir, "%s.%d.scen" % (tag, part))
        out = os.path.join(workdir, "%s.%d.out" % (tag, part))
        with open(scen, "w") as f:
            for g in todo:
                for e in g:
                    f.write(json.dumps(norm(e), ensure_ascii=False) + "\n")
        e = env(GOTRACEBACK="single", **(extra_env or {}))
        p = None
        try:
            p = subprocess.run([binary, mode, scen, out], env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = 97, "timeout"
        got = []
        if os.path.exists(out):
            with open(out, encoding="utf-8", errors="replace") as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
        os.unlink(scen)
        if os.path.exists(out):
            os.unlink(out)
        if mode == "conc":
            events += got
            return events, rc, err
        events += got
        if rc == 0:
            return events, 0, ""
        # which operation was it?
        restarts += 1
        if restarts > 12:
            return events, 0, ""
        done = sum(1 for e in got if e["op"] not in NOT_OPS)
        flat = [(gi, norm(e)) for gi, g in enumerate(todo) for e in g]
        if done >= len(flat):
            raise Broken("the driver ended with %s after its last operation: %s" % (rc, err[-2000:]))
        gi, culprit = flat[done]
        if culprit["op"] == "reset":
            raise Broken("the driver failed to set up a group (%s): %s" % (rc, err[-2000:]))
        ev = dict(culprit)
        if ev["op"] == "run":
            if not (got and got[-1]["op"] in NOT_OPS):
                events.append({"op": "runstart", "h": ev["h"]})
            ev["op"] = "runend"
        ev["r"] = {"c": "hang" if rc == 97 else "crash", "code": 0, "v": [], "p": [], "nil": False, "outlen": 0, "ms": 0,
                   "text": err[:300]}
        ev["same"] = True
        events.append(ev)
        todo = todo[gi + 1:]
    return events, 0, ""


# ---------------------------------------------------------------------- TLC

LOCK = threading.Lock()


def tlc_dir(workdir):
    d = os.path.join(workdir, "spec")
    with LOCK:
        if not os.path.isdir(d):
            shutil.copytree(SPEC, d)
    return d


def tlc(workdir, module, config=None, extra_env=None, workers=1, heap="2g", args=(), timeout=850, name=None):
    d = tlc_dir(workdir)
    meta = tempfile.mkdtemp(prefix="meta-", dir=workdir)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
           "-cp", TLA_JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (config or module + ".cfg")] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=env(**(extra_env or {})), capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        raise Broken("TLC took too long on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats_of(text):
    m = None
    for m in STATS.finditer(text):
        pass
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)        # simulation
    if m:
        return int(m.group(1)), int(m.group(1))
    return 0, 0


BAD = re.compile(r'"@@BAD (.*)"$')


def judge(events, workdir, tag, jobs=8, chunk=4000):
    """Lets TLC judge the events. Returns (divergences, states, transitions); a divergence is
    (event index, aspect, expected)."""
    chunks, cur, start = [], [], 0
    n = 0
    per = max(400, min(chunk, len(events) // jobs + 1))
    for i, e in enumerate(events):
        if e["op"] == "reset" and len(cur) >= per:
            chunks.append((start, cur))
            cur, start = [], i
        cur.append(e)
    if cur:
        chunks.append((start, cur))

    def one(item):
        k, (start, evs) = item
        path = os.path.join(workdir, "%s.%d.trace" % (tag, k))
        with open(path, "w") as f:
            for e in evs:
                f.write(json.dumps(e, ensure_ascii=False) + "\n")
        rc, text = tlc(workdir, "JTrace", extra_env={"TRACE": path})
        if rc != 0:
            keep = os.path.join(tempfile.gettempdir(), "jtrace-broken.trace")
            shutil.copy(path, keep)
            raise Broken("TLC could not judge a trace (%s, kept as %s):\n%s" % (rc, keep, "\n".join(text[text.find("Error:"):].splitlines()[:12]) + "\n...\n" + text[-1500:]))
        os.unlink(path)
        found = []
        for line in text.splitlines():
            m = BAD.match(line)
            if m:
                b = json.loads(json.loads('"' + m.group(1) + '"'))
                found.append((start + b["line"] - 1, b["aspect"], b["expected"]))
        gen, _ = stats_of(text)
        return found, gen

    tlc_dir(workdir)
    with ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(one, enumerate(chunks)))
    bad = [b for r in results for b in r[0]]
    states = sum(r[1] for r in results)
    return bad, states, states - len(results)
