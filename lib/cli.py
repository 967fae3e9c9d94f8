"""Runs the command line tool in scratch directories and turns what it prints into events."""
import json, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import core
from gen import plain, text_of

from gen import BADTEXTS as BAD


def text(v, e, r):
    return json.dumps(plain(v), ensure_ascii=False) if e["style"] < 3 else text_of(v, r)


def call(binary, e, workdir):
    r = random.Random(e["seed"])
    d = tempfile.mkdtemp(prefix="cli-", dir=workdir)
    try:
        args = [e["sub"]] if e["sub"] else []
        flags = []
        names = []
        for i, (kind, v) in enumerate(e["files"]):
            same = [names[j] for j in range(i) if e["files"][j] == [kind, v]]
            if same and r.random() < .5:        # the same file again
                names.append(r.choice(same))
                continue
            name = os.path.join(d, "in%s%d.json" % (r.choice("abz"), i))
            names.append(name)
            if kind == "missing":
                if r.random() < .3: os.mkdir(name)
            else:
                with open(name, "w", encoding="utf-8") as f:
                    f.write(r.choice(BAD) if kind == "bad" else text(v, e, r))
        if names: flags.append(["-files", ",".join(names)])
        if e["input"][0] != "none": flags.append(["-input", r.choice(BAD) if e["input"][0] == "bad" else text(e["input"][1], e, r)])
        if e["verbose"]: flags.append(["-verbose"])
        if e["sub"] == "markup":
            if e["pairs"]: flags.append(["-path-scripts", ",".join(p if bare else p + ":" + s for p, s, bare in e["pairs"])])
            if e["lang"] != "js" or e["style"] == 1: flags.append(["-language", e["lang"]])
            if e["eval"]: flags.append(["-eval"])
            if e["strip"]: flags.append(["-strip"])
        if e["junk"]: flags.append([r.choice(["-nope", "--file=x", "-verbose=maybe", "-" + e["sub"] + "x"])])
        r.shuffle(flags)
        for f in flags:
            c = r.random()
            if c < .2: f = ["-" + f[0]] + f[1:]
            if len(f) == 2 and r.random() < .3: f = [f[0] + "=" + f[1]]
            args += f
        try:
            p = subprocess.run([binary] + args, cwd=d, env=core.env(), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60, errors="replace")
        except subprocess.TimeoutExpired:
            return {"c": "hang", "code": 0, "v": [], "text": "no end", "args": args}
        if "goroutine " in p.stderr and p.returncode == 2:
            return {"c": "crash", "code": 2, "v": [], "text": p.stderr[:300], "args": args}
        return {"c": "exit", "code": p.returncode, "docs": split(p.stdout, e["verbose"]), "told": told(e, names), "text": p.stdout[:300] if p.returncode else "", "args": args}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def told(e, names):
    """Whether the documents can be told apart from what is printed around them."""
    if not e["verbose"]: return True
    every = json.dumps([e["files"], e["pairs"]])
    return bool(names) and not any(s in every for s in ("\\n{", "\\n[", "\\n}", "\\n]", "\\r", "\\u2028", "\\u2029", "\\u0085"))


def split(out, verbose):
    """The documents that were printed, up to the first line which does not belong to one (which is passed over if there is more printed)."""
    docs, cur = [], None
    for line in out.split("\n"):
        if cur is None:
            if not line or line[0] not in "{[":
                if verbose: continue
                break
            cur = []
        cur.append(line)
        first, last = cur[0], line
        if len(cur) == 1 and (line[-1] in "}]" and len(line) > 1):
            docs.append(line); cur = None
        elif len(cur) > 1 and line and line[0] in "}]":
            docs.append("\n".join(cur)); cur = None
    if cur: docs.append("\n".join(cur))
    return docs


def drive(binary, driver, groups, workdir):
    events = []
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda g: [call(binary, e, workdir) for e in g[1:]], groups))
    # one helper call reads all the printed documents
    texts = [t for rs in results for r in rs for t in r.get("docs", [])]
    values = decode(driver, texts, workdir)
    at = 0
    for g, rs in zip(groups, results):
        events.append(core.norm(g[0]))
        for e, r in zip(g[1:], rs):
            n = len(r.get("docs", []))
            r["v"] = values[at:at + n]
            at += n
            r.pop("docs", None)
            r.update(loose=False, ms=0, p=[])
            events.append(core.norm(dict(e, r=r, same=True)))
    return events


def decode(driver, texts, workdir):
    a, b = os.path.join(workdir, "texts.in"), os.path.join(workdir, "texts.out")
    with open(a, "w") as f:
        for t in texts: f.write(json.dumps(t) + "\n")
    p = subprocess.run([driver, "hjson", a, b], env=core.env(), capture_output=True, text=True, timeout=120)
    if p.returncode != 0: raise core.Broken("the helper failed: " + p.stderr[-500:])
    out = [json.loads(l) for l in open(b, encoding="utf-8")]
    if len(out) != len(texts): raise core.Broken("the helper lost documents")
    return out
