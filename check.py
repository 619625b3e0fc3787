#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [--replay FILE]

Runs the implementation on families of inputs and lets TLC check what it did against the
specification in spec/.  See DESIGN.md."""
import hashlib, json, multiprocessing, os, random, shutil, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vt
from vt import VERIF, WORK, ToolError
import plans

SHARDS = 8
sys.setrecursionlimit(100000)


class Shard:
    def __init__(self, prop, shard, seed, tier, cwd, deadline):
        self.prop, self.shard, self.seed, self.tier, self.cwd, self.deadline = prop, shard, seed, tier, cwd, deadline
        self.impl = vt.Impl()
        self.binding = vt.Impl(program=vt.RTN)
        self.lines, self.cases, self.size = [], [], 0
        self.bad, self.generated, self.distinct, self.judged, self.bytes, self.skipped = [], 0, 0, 0, 0, 0
        self.families, self.samples, self.seen = {}, {}, set()
        self.failures = 0       # answers that did not come

    # one request to the implementation; None when a view ended in a panic or not at all, which is
    # then itself a record
    def ask(self, case, req):
        req = dict(req, id=0)
        line, why = self.impl.ask(req)
        if line is not None and '{"panic":' not in line:
            return line
        self.failures += 1
        outs = []
        ok, nerrs = False, 0
        if line is None:
            outs = [{"view": "+".join(req["want"]), "out": why}]
        else:
            a = json.loads(line)
            for v in req["want"]:
                x = a[v]
                outs.append({"view": v, "out": "panic: " + x["panic"] if isinstance(x, dict) and "panic" in x
                             else "rejected" if x == "rejected" else "value"})
            p = a.get("parse")
            if isinstance(p, dict) and "ok" in p:
                ok, nerrs = p["ok"], len(p["errs"])
            else:
                ok = any(o["view"] in plans.NEED_MODULE and o["out"] != "rejected" for o in outs)
        self.record(case, '{"id":%d,"ops":["outcomes"],"accepted":%s,"nerrs":%d,"inside":true,"outcomes":%s}' % (
            len(self.cases), "true" if ok else "false", 1, json.dumps(outs)))
        return None

    def record(self, case, line):
        if len(line) > 4000 and vt.depth(line) > vt.LIMIT:
            line = json.dumps(vt.flat(json.loads(line)))
            if vt.depth(line) > vt.LIMIT:
                self.skipped += 1
                return
        self.lines.append(line)
        self.cases.append(case)
        self.size += len(line)

    def run(self, case):
        for line in plans.records(self, case):
            if isinstance(line, dict):
                self.failures += 1
                self.bad.append((case, ["no answers: " + line["died"]]))
                continue
            # the identity of a record is its place
            self.record(case, '{"id":%d,%s' % (len(self.cases), line[1:]))
        f = case["family"]
        self.families[f] = self.families.get(f, 0) + 1
        if f not in self.samples or self.families[f] == 7:
            self.samples[f] = {k: v for k, v in case.items()}
        self.bytes += sum(len(s) for s in plans.texts(case))

    def flush(self):
        if not self.lines:
            return
        left = self.deadline - time.monotonic()
        bad, g, d = (vt.replay if self.prop == "C16" else vt.judge)(self.lines, self.cwd, timeout=max(120, left + 240))
        self.generated += g
        self.distinct += d
        self.judged += len(self.lines)
        for i, why in bad:
            self.bad.append((self.cases[i], why))
        self.lines, self.cases, self.size = [], [], 0

    def go(self):
        limit = 12 << 20 if self.tier == "quick" else 24 << 20
        try:
            for case in plans.cases(self.prop, self.shard, SHARDS, self.seed, self.tier, self.deadline, self.cwd):
                key = json.dumps(case, sort_keys=True)
                h = hashlib.md5(key.encode("utf-8", "surrogatepass")).digest()
                if h in self.seen:
                    continue
                self.seen.add(h)
                self.run(case)
                if self.failures >= 3:
                    break
                if self.size > limit:
                    self.flush()
                    if self.bad or time.monotonic() > self.deadline:
                        break
            self.flush()
        finally:
            self.impl.stop()
            self.binding.stop()
        return {"bad": self.bad, "generated": self.generated, "distinct": self.distinct, "judged": self.judged,
                "bytes": self.bytes, "skipped": self.skipped, "families": self.families, "samples": self.samples}


def worker(args):
    prop, shard, seed, tier, cwd, deadline = args
    os.makedirs(cwd, exist_ok=True)
    try:
        return Shard(prop, shard, seed, tier, cwd, deadline).go()
    except ToolError as e:
        return {"error": str(e)}
    except Exception:
        return {"error": traceback.format_exc()}


def known(prop):
    """the listed findings of a property: identified by the case that fails"""
    found = []
    for line in open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8"):
        if line.startswith("known: property=%s " % prop):
            rest = line.split(" ", 2)[2]
            case, _, what = rest.partition(" -- ")
            found.append((json.loads(case), what.strip()))
    return found


def matches(case, finding):
    return all(case.get(k) == v for k, v in finding.items())


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    start = time.monotonic()
    work = os.path.join(WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    vt.build()
    if prop == "C18":
        vt.build("binding")
    listed = known(prop)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
        s = Shard(prop, 0, seed, tier, work, start + 600)
        s.run(replay["case"])
        s.flush()
        s.impl.stop()
        s.binding.stop()
        for case, why in s.bad:
            print("\n".join(why))
        if s.bad:
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
        sys.exit(1 if s.bad else 0)
    # what the specification itself has to satisfy for this property
    models = [m(os.path.join(work, "model")) for m in plans.models(prop, tier, seed)]
    deadline = start + (200 if tier == "quick" else 660)
    pool = multiprocessing.Pool(SHARDS)
    jobs = pool.map_async(worker, [(prop, i, seed, tier, os.path.join(work, "s%d" % i), deadline) for i in range(SHARDS)], 1)
    results = jobs.get()
    pool.close()
    errors = [r["error"] for r in results if "error" in r]
    results = [r for r in results if "error" not in r]
    bad = [b for r in results for b in r["bad"]]
    reported = []
    for case, why in bad:
        hit = [w for f, w in listed if matches(case, f)]
        if hit:
            for w in set(hit):
                print("KNOWN-FINDING: property=%s %s" % (prop, w))
        else:
            reported.append((case, why))
    families, samples = {}, {}
    for r in results:
        for k, v in r["families"].items():
            families[k] = families.get(k, 0) + v
        for k, v in r["samples"].items():
            samples.setdefault(k, v)
    picked = [{"family": k, "case": json.loads(json.dumps(v))} for k, v in sorted(samples.items())]
    def short(v):
        if isinstance(v, str):
            return v if len(v) <= 300 else v[:300] + "..."
        if isinstance(v, list):
            return [short(x) for x in v[:12]] + (["... %d more" % (len(v) - 12)] if len(v) > 12 else [])
        return v
    for p in picked:
        p["case"] = {k: short(v) for k, v in p["case"].items()}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["distinct"] for r in results) + sum(m["distinct"] for m in models),
            "transitions": sum(r["generated"] for r in results) + sum(m["generated"] for m in models),
            "traces_validated_against_impl": sum(r["judged"] for r in results),
            "too_deep_to_judge": sum(r["skipped"] for r in results),
            "bytes_of_source": sum(r["bytes"] for r in results),
            "cases_per_family": families,
            "models": models,
            "samples": picked,
        },
        "wall_s": round(time.monotonic() - start, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if reported:
        reported.sort(key=lambda b: len(json.dumps(b[0])))
        for i, (case, why) in enumerate(reported[:5]):
            os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
            path = os.path.join(WORK, "replay", "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "case": case, "why": why}, f, indent=1)
            print("%s: %s\n  %s" % (case["family"], json.dumps(plans.texts(case))[:500], "\n  ".join(w[:600] for w in why[:4])))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        print("\n".join(errors)[-6000:], file=sys.stderr)
        sys.exit(2)
    c = evidence["coverage"]
    print("%s: %d records held, %d states, %.0f s" % (prop, c["traces_validated_against_impl"], c["states"], evidence["wall_s"]))


if __name__ == "__main__":
    try:
        main()
    except ToolError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
