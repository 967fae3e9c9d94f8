#!/usr/bin/env python3
"""Decides one property: check.py C01 (VERIF_TIER=quick|thorough, VERIF_SEED=n), or replays what it reported:
check.py C01 --replay FILE."""
import json, os, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, cli, models, scenarios
from core import Broken
from props import BY_ID

TIMED = {"early", "late", "hang", "leak"}        # have to show again before they are reported


def known(prop):
    path = os.path.join(core.VERIF, "known-findings.json")
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop] if os.path.exists(path) else []


class Check:
    def __init__(self, prop, tier, seed):
        self.p, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="jv-%s-" % prop.id)
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples, self.found = [], []
        self.confirmed = set()
        self.models = []
        self.ops = {}

    # ------------------------------------------------------ the real code
    def perform(self, groups, tag):
        """The events of groups of operations, performed on the real code."""
        kind = self.p.special
        if kind == "cli":
            return cli.drive(self.cli, self.driver, groups, self.work)
        if kind == "parallel" or self.p.id == "C33":
            # the groups mostly wait
            n = min(8, len(groups))
            with ThreadPoolExecutor(n) as ex:
                parts = list(ex.map(lambda i: core.drive(self.driver, groups[i::n], self.work, "%s-%d" % (tag, i))[0], range(n)))
            return [e for part in parts for e in part]
        return core.drive(self.driver, groups, self.work, tag)[0]

    def race(self, rounds, tag):
        events = []
        for i, groups in enumerate(rounds):
            got, rc, err = core.drive(self.driver, groups, self.work, "%s-%d" % (tag, i), mode="conc", timeout=300, extra_env={"GORACE": "halt_on_error=0 exitcode=0"})
            if "DATA RACE" in err:
                at = err.index("WARNING: DATA RACE")
                self.report(None, "race", "no data race", groups, {"race": err[at:at + 2500]})
            if rc != 0:
                if "concurrent map" in err or "DATA RACE" in err or "panic" in err or rc == 97:
                    self.report(None, "hang" if rc == 97 else "crash", "an answer", groups, {"rc": rc, "err": err[-1500:]})
                else: raise Broken("the concurrent driver ended with %s: %s" % (rc, err[-1500:]))
            events += got
        return events

    # ---------------------------------------------------------- judging
    def judge(self, events, tag, source, groups=None):
        bad, states, trans = core.judge(events, self.work, tag)
        self.states += states
        self.transitions += trans
        self.events += sum(1 for e in events if e["op"] != "reset")
        for e in events:
            k = e["op"] + (" failing" if e.get("r", {}).get("c", "ok") not in ("ok", "exit") or e.get("r", {}).get("code") and e["op"] == "cli" else "")
            self.ops[k] = self.ops.get(k, 0) + 1
        self.traces += sum(1 for e in events if e["op"] == "reset")
        seen = set()
        for i, aspect, expected in bad:
            if aspect == "event": raise Broken("an event that the specification does not know: %s" % events[i])
            if aspect not in self.p.aspects: continue
            j = i
            while events[j]["op"] != "reset": j -= 1
            if j in seen: continue        # the first divergence of a history
            seen.add(j)
            k = i
            while k < len(events) and k < i + 200 and events[k]["op"] in core.NOT_OPS: k += 1
            if k >= len(events): k = len(events) - 1
            ops = [to_op(e) for e in events[j:k + 1] if e["op"] not in core.NOT_OPS]
            extra = {"before": events[j]["docs"]} if self.p.special != "race" else {}
            f = {"aspect": aspect, "event": events[i], "groups": [ops], **extra}
            if (aspect in TIMED or self.p.special == "parallel") and groups is not None and not any(k["aspect"] == aspect and matches(k["match"], f) for k in known(self.p.id)):
                if aspect in self.confirmed or not self.again(ops, aspect): continue
                self.confirmed.add(aspect)
            self.report(events[i], aspect, expected, [ops], extra)

    def again(self, ops, aspect):
        for n in range(1 if aspect == "hang" else 2):
            events = self.perform([ops], "again")
            bad, _, _ = core.judge(events, self.work, "again")
            if not any(a == aspect for _, a, _ in bad): return False
        return True

    def report(self, event, aspect, expected, groups, extra):
        self.found.append({"property": self.p.id, "aspect": aspect, "event": event, "expected": expected, "groups": groups, **extra})

    # ------------------------------------------------------------- all
    def build(self):
        self.driver = core.build_driver(self.work, race=self.p.special == "race")
        if self.p.special == "cli": self.cli = core.build_cli(self.work)

    def run(self):
        ex = ThreadPoolExecutor(2)
        building = ex.submit(self.build)
        core.tlc_dir(self.work)
        # the specification on its own, which also yields scenarios
        groups, self.models = models.check(self.p, self.work, self.tier, self.seed)
        if self.p.special != "race": groups = [without_cr(t) for t in groups]
        for m in self.models:
            self.states += m["distinct"]
            self.transitions += m["generated"]
        building.result()
        if groups and self.p.special == "race":
            for k in range(0, len(groups), 8): self.judge(self.race(groups[k:k + 8], "model%d" % k), "model%d" % k, "model")
        elif groups:
            self.judge(self.perform(groups, "model"), "model", "model", groups)
        for n, (fn, args, quick, thorough) in enumerate(self.p.gens):
            size = quick if self.tier == "quick" else thorough
            todo = fn(self.seed * 7919 + n * 101 + int(self.p.id[1:]), size, **args)
            if fn is not scenarios.carriage_returns and self.p.special != "race": todo = [without_cr(t) for t in todo]
            if self.p.special == "race":
                for k in range(0, len(todo), 8):
                    events = self.race(todo[k:k + 8], "race%d-%d" % (n, k))
                    self.judge(events, "race%d-%d" % (n, k), "random")
                    self.sample(events)
                continue
            step = 4000
            for k in range(0, len(todo), step):
                events = self.perform(todo[k:k + step], "random%d-%d" % (n, k))
                self.judge(events, "random%d-%d" % (n, k), "random", todo)
                self.sample(events)

    def sample(self, events):
        if len(self.samples) >= 4: return
        for i, e in enumerate(events):
            if e["op"] == "reset" and i + 1 < len(events) and len(json.dumps(events[i])) < 1500:
                j = i + 1
                while j < len(events) and events[j]["op"] != "reset" and j < i + 4: j += 1
                self.samples.append({"documents": e.get("docs"), "events": [brief(x) for x in events[i + 1:j]]})
                return


def without_cr(group):
    """Hjson text with carriage returns is a finding of its own (scenarios.carriage_returns)."""
    if "\\r" not in json.dumps(group): return group
    return [o for o in group if o["op"] != "string"]


def brief(e):
    return {k: v for k, v in e.items() if k not in ("docs", "same")}


def to_op(e):
    """The operation that an event came from."""
    o = {k: v for k, v in e.items() if k not in ("r", "same")}
    if e["op"] == "runend": o["op"] = "run"
    if e["op"] != "reset": o.pop("docs", None)
    return o


def verdict(check, started):
    p = check.p
    listed = known(p.id)
    fresh = []
    for f in check.found:
        k = next((k for k in listed if k["aspect"] == f["aspect"] and matches(k["match"], f)), None)
        if k: k["hit"] = True
        else: fresh.append(f)
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (p.id, k["what"]))
    out = os.path.join(core.VERIF, "evidence")
    os.makedirs(out, exist_ok=True)
    json.dump({"property": p.id, "tier": check.tier, "seed": check.seed, "level": "model_checking",
               "coverage": {"states": check.states, "transitions": check.transitions, "traces_validated_against_impl": check.traces,
                            "operations_performed_on_the_code": check.events, "operations": check.ops, "models": check.models, "samples": check.samples},
               "assumptions": ["the driver reports faithfully what the library returns and holds", "TLC evaluates the specification correctly"],
               "wall_s": round(time.time() - started, 1), "violations": len(fresh)},
              open(os.path.join(out, p.id + ".json"), "w"), indent=1, ensure_ascii=False)
    if not fresh:
        print("OK property=%s tier=%s seed=%s: %d states, %d histories and %d operations of the real code agree with the specification (%.0f s)"
              % (p.id, check.tier, check.seed, check.states, check.traces, check.events, time.time() - started))
        return 0
    name = os.path.join(out, "%s-violation.json" % p.id)
    json.dump(fresh[0], open(name, "w"), indent=1, ensure_ascii=False)
    f = fresh[0]
    print("%d divergences from the specification; the first: aspect %s in %s" % (len(fresh), f["aspect"], json.dumps(brief(f["event"]) if f["event"] else {k: f[k] for k in ("race", "err") if k in f}, ensure_ascii=False)[:1500]))
    print("expected: %s" % str(f["expected"])[:1500])
    print("VIOLATION property=%s replay=%s" % (p.id, name))
    return 1


def matches(m, f):
    text = json.dumps(f, ensure_ascii=False)
    return all(part in text for part in m)


def replay(check, name):
    f = json.load(open(name))
    check.build()
    if check.p.special == "race":
        check.judge(check.race([f["groups"]], "replay"), "replay", "replay")
    else:
        check.judge(check.perform(f["groups"], "replay"), "replay", "replay")
    for x in check.found:
        print(json.dumps({"aspect": x["aspect"], "event": x["event"] and brief(x["event"]), "expected": x["expected"]}, ensure_ascii=False))
    print("the divergence shows again" if check.found else "no divergence")
    return 1 if check.found else 0


def main():
    started = time.time()
    prop = BY_ID[sys.argv[1]]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    check = Check(prop, tier, seed)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(check, sys.argv[3])
        check.run()
        return verdict(check, started)
    except Broken as e:
        print("BROKEN: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(check.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
