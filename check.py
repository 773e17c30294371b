#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on the working tree of /repo.

Exit 0: it held on everything explored. Exit 1, with a VIOLATION line: it does not. Anything else: no answer."""
import json, os, sys, time, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
import parts

SCHEMA_KEYS = {"model_checking": ("states", "transitions", "traces_validated_against_impl", "samples"),
               "exploration": ("evaluations", "distinct_nontrivial", "rule", "samples"),
               "fault_enumeration": ("evaluations", "distinct_nontrivial", "rule", "samples")}


def known_findings(prop):
    ret = []
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                ident, _, text = l[len("known: property=%s " % prop):].partition(" ")
                ret.append((ident, text))
    return ret


def evidence(ctx, level, ps, violations):
    cov = {"exhaustive": all(p.coverage.get("exhaustive", False) for p in ps), "parts": {}}
    samples = []
    for p in ps:
        c = dict(p.coverage)
        samples += c.pop("samples", None) or []
        c["wall_s"] = round(p.wall, 3)
        cov["parts"][p.name] = c
    cov["samples"] = samples[:30] or ["(no case was run: %s)" % "; ".join(ctx.notes)[:500]]

    def total(*keys):
        return int(sum(p.coverage.get(k, 0) for p in ps for k in keys))
    if level == "model_checking":
        cov["states"] = total("states")
        cov["transitions"] = total("transitions")
        cov["traces_validated_against_impl"] = total("traces")
    cov["evaluations"] = total("calls", "cases")
    best = 0
    for p in ps:
        for ph in p.coverage.get("phases") or []:
            best = max(best, max([ph.get(k, 0) for k in parts.DISTINCT] or [0]))
    cov["distinct_nontrivial"] = int(best)
    cov["rule"] = ("evaluations: executions of the code under test, counted. distinct_nontrivial: the largest single enumeration of this run, "
                   "counted; its cases are pairwise distinct because it enumerates without repetition, and each has a definite expected "
                   "outcome. Each phase's alphabet and bound is given under parts.")
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": parts.ASSUMPTIONS.get(ctx.prop, parts.ASSUMPTIONS["*"]),
          "wall_s": round(time.time() - ctx.start, 3), "violations": violations}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return parts.setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    level, fns = parts.CHECKS[prop]
    ctx = core.Ctx(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        ps = []
        for fn in fns:
            p = fn(ctx)
            ps += p if isinstance(p, list) else [p]
            if any(q.found for q in ps):
                break  # one violation is enough
        found = [(p, f) for p in ps for f in p.found]
        fresh = []
        known = known_findings(prop)
        for p, f in found:
            ident = f.get("kind", "") + ":" + f.get("data_hex", "")
            hit = [t for i, t in known if i == ident]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
            else:
                fresh.append((p, f))
        evidence(ctx, level, ps, len(fresh))
        for n in ctx.notes:
            print("note:", n)
        for p in ps:
            print("part %s: %s, %.1f s" % (p.name, "complete" if p.coverage.get("exhaustive") else "NOT complete", p.wall))
        if fresh:
            os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
            for i, (p, f) in enumerate(fresh[:3]):
                path = os.path.join(core.VERIF, "replays", "%s-%d.json" % (prop, i))
                with open(path, "w") as fh:
                    json.dump(dict(f, property=prop, part=p.name), fh, indent=1)
                if f.get("go_test"):
                    with open(path[:-5] + "_test.go.txt", "w") as fh:
                        fh.write(f["go_test"])
                print("found by %s: %s: %.1500s" % (p.name, f.get("kind"), f.get("message")))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("property %s held on everything explored (%.1f s)" % (prop, time.time() - ctx.start))
        return 0
    except core.Broken as e:
        print("the check gives no answer:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
