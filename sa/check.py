"""Decides one property: extracts the configurations it needs from /repo's
working tree, discharges its obligations, writes the evidence file."""
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import get_context

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from sa import terms as T, cells, roots, interp, extract, registry, llvmir  # noqa: E402


class CellTimeout(BaseException):
    pass


PROGS = {}
CELLS = []
ROOTS = None
LIMIT = 20


def work_chunk(ix):
    return [work(i) for i in ix]


def _alarm(*_):
    raise CellTimeout()


def work(i):
    c = CELLS[i]
    P = PROGS[c.cfg]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(LIMIT, c.limit))
    try:
        r = registry.decide(P, c, ROOTS, c.cfg, SEED)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return (i, r.status, r.detail, r.construct, r.witness, time.time() - t0, r.blocks, tuple(r.fns))
    except CellTimeout:
        return (i, "UNDECIDED", "time limit", "", None, time.time() - t0, 0, ())
    except RecursionError:
        return (i, "UNDECIDED", "recursion limit", "", None, time.time() - t0, 0, ())
    except MemoryError:
        return (i, "UNDECIDED", "memory", "", None, time.time() - t0, 0, ())
    except Exception:
        return (i, "UNDECIDED", "analyser: " + traceback.format_exc()[-400:], "", None, time.time() - t0, 0, ())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


SEED = 1


def load_known(prop):
    """known_findings.json: entries with the exact key of each recorded finding."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {e["key"]: e for e in json.load(open(p))["findings"] if e["property"] == prop and e["status"] == "open"}


def finding_key(v):
    return v["key"]


def run(prop, tier):
    global ROOTS, LIMIT, SEED, CELLS
    t0 = time.time()
    seed = SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    spec = registry.PROPS[prop]
    LIMIT = 20 if tier == "quick" else 90
    budget = float(os.environ.get("SA_BUDGET", "600" if tier == "quick" else "780"))
    ws = tempfile.mkdtemp(prefix="ethnum-sa-")
    violations = []
    notes = []
    try:
        mirx = extract.build_mirx(ws)
        cfgs = spec.configs(tier)
        ROOTS = roots.build()
        texts = {}
        for c in cfgs:
            R = registry.roots_for(c)
            texts[c] = R
        with ThreadPoolExecutor(8) as ex:
            xs = list(ex.map(lambda c: extract.extract(ws, mirx, c, {k: v[2] for k, v in texts[c].items.items()}, texts[c].raw, texts[c].prelude()), cfgs))
        counts = Counter()
        und = Counter()
        fns = set()
        blocks = 0
        per_root = {}
        secs = []
        samples = []
        for x in xs:
            if x.error is not None:
                violations.append({"key": "build/%s" % x.cfg, "what": "%s: %s" % (x.error.what, x.error.log[-1500:]), "construct": "build", "witness": None})
                continue
            PROGS[x.cfg] = interp.Program(x.json)
            PROGS[x.cfg].ir = llvmir.contracts(x.ir) if x.ir is not None else None
        missing = {}
        for x in xs:
            for n, e in x.missing.items():
                missing.setdefault(n, e)
        # obligations
        allcells = []
        seen_roots = set()
        for x in xs:
            if x.error is not None:
                continue
            R = texts[x.cfg]
            cs = spec.cells(R, x.cfg, extract.OVF[x.cfg], tier)
            for c in cs:
                if c.root in x.missing:
                    if c.root not in seen_roots and not c.root.startswith("in_"):
                        violations.append({"key": "anchor/%s" % c.root, "what": "the public entry point %s no longer type-checks as specified: %s" % (c.root, x.missing[c.root]), "construct": c.root, "witness": None})
                    seen_roots.add(c.root)
                    counts["MISSING"] += 1
                    continue
                allcells.append(c)
        extra = []
        for x in xs:
            if x.error is None:
                extra += spec.classical(PROGS[x.cfg], x, ws, tier)
        for v in extra:
            if v["status"] == "VIOLATED":
                violations.append({"key": v["key"], "what": v["what"], "construct": v["construct"], "witness": None})
            counts[v["status"]] += 1
        # the engine must refute a wrong result and accept a right one
        CELLS = registry.selftest(xs[0].cfg if xs and xs[0].error is None else None) + allcells
        nself = len(CELLS) - len(allcells)
        ROOTS = texts
        ctx = get_context("fork")
        order = list(range(len(CELLS)))
        done = 0
        deadline = t0 + budget
        import random
        random.Random(seed).shuffle(order)
        order.sort(key=lambda i: 0 if i < nself else 1)
        selfok = True
        results = {}
        known = load_known(prop)
        found = False
        if CELLS:
            with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=400) as pool:
                chunks = [order[k:k + 4] for k in range(0, len(order), 4)]
                it = pool.imap_unordered(work_chunk, chunks)
                while done < len(order):
                    try:
                        r = it.next(timeout=max(0.1, deadline - time.time()))
                    except StopIteration:
                        break
                    except Exception as e:
                        if e.__class__.__name__ == "TimeoutError":
                            notes.append(("stopped early, violation found, with" if found else "time budget reached with") + " %d of %d obligations not attempted" % (len(order) - done, len(order)))
                            pool.terminate()
                            break
                        raise
                    done += len(r)
                    for q in r:
                        results[q[0]] = q
                        if q[1] == "VIOLATED" and q[0] >= nself and not found:
                            c = CELLS[q[0]]
                            if "%s/%s" % (c.root, c.label) + ("" if c.case is None else "#%s" % c.case) not in known:
                                found = True
                                after = time.time() + (30 if tier == "quick" else 120)
                                if after < deadline:
                                    deadline = after
        for i in range(nself):
            r = results.get(i)
            want = CELLS[i].label.split(":")[1]
            if r is None or r[1] != want:
                print("engine self-test failed: %s expected %s got %s" % (CELLS[i].name(), want, r and r[1:3]), file=sys.stderr)
                selfok = False
        covered = {}
        for i in range(nself, len(CELLS)):
            c = CELLS[i]
            r = results.get(i)
            if r is None:
                counts["UNDECIDED"] += 1
                und["not attempted"] += 1
                continue
            _, status, detail, construct, wit, sec, nb, fs = r
            counts[status] += 1
            blocks += nb
            fns.update((c.cfg, f) for f in fs)
            secs.append((sec, c.name()))
            pr = per_root.setdefault(c.root, Counter())
            pr[status] += 1
            if c.case is not None:
                k = (c.cfg, c.root, c.label, str(c.doms))
                covered[k] = covered.get(k, False) or status != "EMPTY"
            if status == "UNDECIDED":
                und[detail.split("\n")[-1][:80]] += 1
                if os.environ.get("SA_VERBOSE"):
                    print("UNDECIDED", c.name(), detail[-300:], construct)
            elif status == "VIOLATED":
                violations.append({"key": "%s/%s" % (c.root, c.label) + ("" if c.case is None else "#%s" % c.case), "cfg": c.cfg, "what": detail, "construct": construct.replace(ws + "/", ""), "witness": wit, "cell": c.name()})
            elif status == "PROVED" and len(samples) < 6 and i % 7 == 0:
                samples.append("%s: %s" % (c.name(), detail))
        bare = sum(not v for v in covered.values())
        if bare:
            counts["UNDECIDED"] += bare
            und["no case of the specification applies to the region"] += bare
        fresh = []
        shown = set()
        for v in violations:
            k = known.get(v["key"])
            if k is None:
                fresh.append(v)
            elif v["key"] not in shown:
                shown.add(v["key"])
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["key"], k["what"]))
        replay = None
        if fresh:
            os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
            replay = "/verif/evidence/replay/%s.json" % prop
            replay = os.path.join(VERIF, "evidence/replay/%s.json" % prop)
            json.dump({"property": prop, "violations": [dict(v, witness={k: str(x) for k, x in v["witness"].items()} if v.get("witness") else None) for v in fresh[:200]]}, open(replay, "w"), indent=1)
            for v in fresh[:5]:
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                print("  at %s: %s" % (v.get("cell") or v["key"], v["what"][:600]))
                print("  construct: %s" % v["construct"])
                if v.get("witness"):
                    print("  input: %s" % ", ".join("%s=%s" % (k, T.cshow(x) if isinstance(x, int) else x) for k, x in sorted(v["witness"].items()))[:500])
        secs.sort(reverse=True)
        obligations = sum(counts[k] for k in ("PROVED", "UNDECIDED", "VIOLATED", "MISSING"))
        full = sum(1 for c in per_root.values() if c["PROVED"] and not c["UNDECIDED"] and not c["VIOLATED"])
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.level,
            "coverage": {
                "explanation": spec.explanation,
                "obligations": obligations,
                "discharged": counts["PROVED"],
                "undecided": counts["UNDECIDED"],
                "empty_regions": counts["EMPTY"],
                "regions_no_case_applies_to": [sum(not v for v in covered.values()), sorted("%s/%s[%s]" % k[:3] for k, v in covered.items() if not v)[:10]],
                "violated": counts["VIOLATED"],
                "undecided_reasons": dict(und.most_common(12)),
                "entry_points": len(per_root),
                "entry_points_fully_discharged": full,
                "entry_points_with_undecided_regions": sorted(r for r, c in per_root.items() if c["UNDECIDED"])[:60],
                "configurations": {c: extract.CONFIGS[c][4] for c in cfgs},
                "functions_analysed": len({f for _, f in fns}),
                "crate_functions_analysed": sorted({f for _, f in fns if "ethnum" in f and "root_" not in f})[:200],
                "basic_blocks_interpreted": blocks,
                "slowest": [[round(a, 2), b] for a, b in secs[:3]],
                "samples": samples or [v["key"] for v in extra[:6]] or ["none"],
                "checker_cmd": "python3 /verif/sa/check.py %s --tier %s" % (prop, tier),
                "trusted_base": spec.trusted,
                "notes": notes,
                "known_findings_seen": sorted(shown),
            },
            "assumptions": spec.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
        }
        if extra:
            ev["coverage"]["rule_instances"] = dict(Counter("%s:%s" % (v["rule"], v["status"]) for v in extra))
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
        print("%s: %d obligations, %d proved, %d undecided, %d empty, %d violated; %d entry points (%d fully decided); %.1fs" % (
            prop, obligations, counts["PROVED"], counts["UNDECIDED"], counts["EMPTY"], counts["VIOLATED"], len(per_root), full, time.time() - t0))
        if fresh:
            return 1
        if not selfok:
            return 3
        if obligations == 0 or counts["PROVED"] + counts["OK"] < spec.floor(tier):
            if counts["PROVED"] == 0 and counts["OK"] == 0:
                print("VIOLATION property=%s replay=%s" % (prop, VERIF + "/evidence/%s.json" % prop))
                print("  no obligation of this property could be discharged: the analysis lost its anchors")
                return 1
        return 0
    finally:
        shutil.rmtree(ws, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(run(prop, tier))


if __name__ == "__main__":
    main()
