"""Command line: one property -> verdict, report, evidence."""
import ast
import json
import os
import resource
import sys
import time
import traceback

from . import theory
from .program import Program, Broken, REPO

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "sa/: the abstract interpreter, its value-graph normalisation and its linear-inequality/congruence domain",
    "specs/: the reference model the package is compared with",
    "numbers are exact rationals (float rounding error is not modelled), NaN and infinities excluded",
    "distinct access paths to the elements of one registry denote distinct objects",
]


def known_findings(prop):
    """[(rule, construct, text)] listed for the property"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known: property=" + prop + " "):
                continue
            fields = dict(x.split("=", 1) for x in line.split(" | ")[0].split()[1:])
            out.append((fields["rule"], fields["construct"], line.split(" | ", 1)[1] if " | " in line else ""))
    return out


def main(argv):
    args = [a for a in argv if not a.startswith("--")]
    if len(args) != 1:
        print("usage: check.py <property> [--thorough] [--verbose]")
        return 2
    prop = args[0]
    deep = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    verbose = "--verbose" in argv
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        return run(prop, deep, verbose, t0)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc(limit=-8)
        print("ANALYSIS-ERROR property=%s" % prop)
        return 2


def run(prop, deep, verbose, t0):
    from . import spec, lints
    name = prop.lower()
    path = os.path.join(ROOT, "specs", name + ".py")
    extra = [("specs." + name, path)] if os.path.exists(path) else []
    prog = Program(extra=extra)
    known = known_findings(prop)
    seen_known = []
    findings = []           # (rule, where, lines)
    obls = []
    visited, call_sites, loops, checks = {}, 0, 0, 0
    if extra:
        for F in spec.obligations(prog, "specs." + name):
            left = (780.0 if deep else 500.0) - (time.time() - t0)
            try:
                r = spec.run_obligation(prog, F, deep, budget=max(5.0, left))
            except Broken:
                raise
            except Exception as e:
                if verbose:
                    traceback.print_exc(limit=-8)
                r = spec.Result(F.name)
                r.status, r.mode, r.reason = "undecided", "", "analyser: %s %s" % (type(e).__name__, e)
            visited.update(r.visited)
            call_sites += r.call_sites
            loops += r.loops
            checks += r.reached
            st = r.status
            if st == "violated":
                kf = [k for k in known if k[0] == r.name and all(construct_of(f) == k[1] for f in r.failures)]
                if kf:
                    seen_known.append(kf[0])
                    st = "known finding"
                else:
                    findings += [(r.name, f, r) for f in r.failures]
            obls.append({"obligation": r.name, "verdict": st, "scope": r.mode, "checks": r.reached,
                         "seconds": round(r.time, 2), **({"note": r.reason[:300]} if r.reason else {})})
            print("%-11s %s (%s; %d comparisons; %.2fs)%s" % (st, r.name, r.mode, r.reached, r.time,
                                                            " " + r.reason[:200] if r.reason and (verbose or st == "undecided") else ""))
    lint_count = 0
    for rule in lints.RULES.get(prop, []):
        sites, bad = rule(prog)
        lint_count += sites
        obls.append({"obligation": "rule " + rule.__name__, "verdict": "violated" if bad else "discharged",
                     "scope": "%d sites" % sites, "checks": sites})
        print("%-11s rule %s (%d sites)" % ("violated" if bad else "discharged", rule.__name__, sites))
        for where, msg in bad:
            findings.append((rule.__name__, (msg, where, [], None, None), None))
    if not obls:
        raise Broken("nothing to decide for %s" % prop)
    decided = [o for o in obls if o["verdict"] in ("discharged", "bounded", "violated", "known finding")]
    if not decided:
        raise Broken("no obligation of %s could be decided" % prop)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    ev = {
        "property": prop, "tier": "thorough" if deep else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "abstract interpretation of the source of /repo/estrade into gated value graphs, compared with "
                           "the reference model of the property; each obligation is decided for all inputs ('all sizes'), "
                           "or with collections of bounded size where a loop could not be summarised ('n sizes')",
            "obligations": len(obls),
            "discharged": sum(1 for o in obls if o["verdict"] == "discharged"),
            "bounded": sum(1 for o in obls if o["verdict"] == "bounded"),
            "undecided": sum(1 for o in obls if o["verdict"] == "undecided"),
            "violated": sum(1 for o in obls if o["verdict"] == "violated"),
            "known_findings": len(seen_known),
            "comparisons": checks, "lint_sites": lint_count,
            "functions_analysed": sorted("%s:%d" % (q, F.node.lineno) for q, F in visited.items()),
            "call_sites_resolved": call_sites, "loops_summarised": loops,
            "feasibility_queries": theory.STATS["consistent"],
            "details": obls,
        },
        "assumptions": TRUSTED, "wall_s": round(time.time() - t0, 3), "violations": len(findings),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    if findings:
        rp = os.path.join(ROOT, "evidence", prop + ".violation.txt")
        text = report(prop, findings)
        with open(rp, "w", encoding="utf-8") as f:
            f.write(text)
        print(text)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s: %d obligations, %d discharged, %d bounded, %d undecided (%.1fs)" % (
        prop, len(obls), ev["coverage"]["discharged"], ev["coverage"]["bounded"], ev["coverage"]["undecided"], time.time() - t0))
    return 0


def construct_of(f):
    return f[0].replace(" ", "_")


def report(prop, findings):
    out = []
    for rule, f, r in findings[:12]:
        msg, loc, lits, got, want = f
        out.append("property %s, rule %s: %s" % (prop, rule, msg))
        out.append("  stated at %s%s" % (loc, " [%s]" % r.mode if r is not None else ""))
        if lits:
            out.append("  on the path where")
            out += ["    " + l for l in lits]
        if got is not None:
            out.append("  the code gives     %s" % got)
            out.append("  the model requires %s" % want)
        if r is not None:
            fs = sorted("%s:%d" % (q, F.node.lineno) for q, F in r.visited.items())
            out.append("  functions on the analysed call paths: " + ", ".join(fs[:40]))
    return "\n".join(out)
