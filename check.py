#!/usr/bin/env python3
"""Decide one property from the current source of /repo.

    python3 check.py C01 [--tier quick|thorough]

Exit 0: every obligation of the property holds on the analysed source.
Exit 1: a line "VIOLATION property=<id> replay=<path>"; the file lists each
construct (file, function, rule, what changed).
"""
from __future__ import annotations

import argparse
import fnmatch
import json
import os
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)

from sa import conform, rules, rules_flow  # noqa: E402
from sa.props import PROPS  # noqa: E402

IGNORED_CONSTS = ("_logger", "_LOGGER", "defaultStreamHandler", "__all__")
BUDGET = float(os.environ.get("SA_BUDGET", "600"))


class Context:
    """What the rules share: both trees and the lazily extracted models."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.conf = conform.make(os.environ.get("SA_REPO", "/repo"))
        self.ix = self.conf.new
        self._parsers = {}

    def left(self):
        return BUDGET - (time.time() - self.t0)

    def parser(self, v, ref=False):
        from sa import salad
        k = (v, ref)
        if k not in self._parsers:
            self._parsers[k] = salad.Parser(self.conf.ref if ref else self.ix, v)
        return self._parsers[k]


def matches(name, pats):
    return any(fnmatch.fnmatchcase(name, p) for p in pats)


def anchors(ctx, spec):
    c = ctx.conf
    ex = spec.get("exclude", [])
    names = set(c.rf) | set(c.nf)
    return sorted(q for q in names if matches(q, spec.get("anchors", [])) and not matches(q, ex))


def run_conformance(ctx, spec, out, cov):
    c = ctx.conf
    qs = anchors(ctx, spec)
    if not spec.get("anchors"):
        return
    st = dict(functions=0, identical_text=0, compared=0, facts=0, moved_or_new=0, not_analysable=0)
    skipped = []
    for q in qs:
        if q not in c.rf or q not in c.nf:
            st["moved_or_new"] += 1
            continue
        if ctx.left() < 0:
            skipped.append(q)
            continue
        st["functions"] += 1
        try:
            if c.same_text(q) and not c.extra_names(q):
                st["identical_text"] += 1
                if ctx.tier == "thorough":
                    a, b = c.xr.facts(c.rf[q]), c.xn.facts(c.nf[q])
                    st["facts"] += len(b.f)
                    st["compared"] += 1
                    if a.unknown or b.unknown:
                        st["not_analysable"] += 1
                    elif c.compare_facts(q, a, b):
                        out += [finding_of(d) for d in c.compare_facts(q, a, b)]
                continue
            st["compared"] += 1
            b = c.xn.facts(c.nf[q]) if q not in c.changed_sig else None
            st["facts"] += len(b.f) if b else 0
            for d in c.function(q):
                out.append(finding_of(d))
            if q in c.abstained:
                st["not_judged"] = st.get("not_judged", 0) + 1
                cov.setdefault("not_judged", []).append(f"{q}: {c.abstained[q]}")
        except (RecursionError, Exception) as e:  # noqa: BLE001 - not judged, and said so
            st["not_analysable"] += 1
            cov.setdefault("not_judged", []).append(f"{q}: {type(e).__name__} {str(e)[:100]}")
    for pat in spec.get("consts", []):
        pass
    mods = sorted({m for m in c.ref.all_module_names() if any(fnmatch.fnmatchcase(m, p.rsplit(".", k)[0]) for p in spec.get("consts", []) for k in (1, 2) if p.count(".") >= k)})
    n = 0
    for m in mods:
        try:
            ds = c.constants(m)
        except Exception as e:  # noqa: BLE001
            cov.setdefault("not_judged", []).append(f"constants of {m}: {type(e).__name__} {str(e)[:100]}")
            continue
        n += len(c.ref.module(m).consts)
        for d in ds:
            if d.func.rsplit(".", 1)[-1] in IGNORED_CONSTS:
                continue
            if matches(d.func, spec["consts"]):
                out.append(finding_of(d))
    # the defaults of an anchor's parameters belong to the anchor
    done = set()
    for q in qs:
        m = c.rf[q].module.name if q in c.rf else None
        if m and m not in done:
            done.add(m)
            try:
                for d in c.constants(m):
                    if d.key[0] == "default" and d.func in qs:
                        out.append(finding_of(d))
            except Exception:  # noqa: BLE001
                pass
    st["module_values"] = n
    if skipped:
        cov["not_judged_in_time"] = skipped[:50]
    cov["conformance"] = st
    cov["anchor_functions"] = qs[:400]
    # a reference form that no longer has any counterpart is reported in the evidence
    cov["reference_functions_without_counterpart"] = [q for q in qs if q in c.rf and q not in c.nf][:50]


CLASS_METHODS = ("__init__", "fromDoc", "save", "__eq__", "__hash__")


def judged(ctx, findings, cov):
    """The findings about code that was not rewritten as a whole (see sa/edit.py)."""
    c = ctx.conf
    out = []
    memo: dict = {}
    for f in findings:
        q = f["construct"]
        if f["rule"].startswith("behaviour-") or not isinstance(q, str):
            out.append(f)
            continue
        if q not in memo:
            qs = [q] if q in c.rf and q in c.nf else [x for x in (f"{q}.{m}" for m in CLASS_METHODS) if x in c.rf and x in c.nf]
            why = None
            for x in qs:
                if not c.same_text(x) and (why := c.rewritten(x)):
                    why = f"{x}: {why}"
                    break
            memo[q] = why
        if memo[q]:
            cov.setdefault("not_judged", []).append(f"[{f['rule']}] {memo[q]}")
        else:
            out.append(f)
    return out


def finding_of(d):
    return dict(rule="behaviour-" + d.kind, construct=d.func, where=list(d.where)[:5], what=d.text, detail=d.detail)


def known():
    p = HERE / "known_findings.json"
    return json.loads(p.read_text()) if p.is_file() else {"findings": [], "fixed": []}


def is_known(f, pid, entries):
    for e in entries:
        if e["property"] == pid and e["rule"] == f["rule"] and e["construct"] == f["construct"] and e.get("what", "") in f["what"]:
            return e
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    spec = PROPS[pid]
    t0 = time.time()
    out: list = []
    cov: dict = {}
    ctx = Context(pid, tier)
    run_conformance(ctx, spec, out, cov)
    results = {}
    for r in spec.get("rules", []):
        t = time.time()
        try:
            res = (getattr(rules, "rule_" + r, None) or getattr(rules_flow, "rule_" + r))(ctx)
        except (RecursionError, Exception) as e:  # noqa: BLE001 - a rule that cannot analyse says so
            results[r] = dict(not_judged=f"{type(e).__name__}: {str(e)[:200]}", trace=traceback.format_exc()[-1500:])
            continue
        out += judged(ctx, res.findings, cov)
        results[r] = dict(rule=res.text, obligations=res.n, discharged=res.n - len(res.findings), samples=res.samples[:5], wall_s=round(time.time() - t, 2), **res.extra)
    cov["rules"] = results
    seen, uniq = set(), []
    for f in out:
        k = (f["rule"], f["construct"], f["what"], f.get("detail", ""))
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    kn = known()["findings"]
    viol = []
    for f in uniq:
        e = is_known(f, pid, kn)
        if e is not None:
            print(f"KNOWN-FINDING: property={pid} {f['construct']} [{f['rule']}] {e['text']}")
        else:
            viol.append(f)
    conf = cov.get("conformance", {})
    n_obl = conf.get("functions", 0) + sum(r.get("obligations", 0) for r in results.values())
    cov["obligations"] = n_obl
    cov["discharged"] = n_obl - len({f["construct"] for f in viol})
    cov["explanation"] = explanation(spec, conf, results)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="other", coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    d = HERE / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} {tier}: {conf.get('functions', 0)} functions ({conf.get('compared', 0)} with changed text compared), "
          + ", ".join(f"{k} {v.get('obligations', v.get('not_judged'))}" for k, v in results.items()) + f"; {len(viol)} violation(s), {time.time() - t0:.1f}s")
    if viol:
        rep = d / f"{pid}.report.txt"
        lines = []
        for f in viol:
            lines.append(f"[{f['rule']}] {f['construct']} at {', '.join(map(str, f['where']))}\n    {f['what']}\n    {f.get('detail', '')}")
        rep.write_text("\n".join(lines) + "\n")
        print("\n".join(lines[:12])[:4000])
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0


ASSUME = [
    "The source under /repo/src/cwl_utils is what runs; third-party libraries behave as documented.",
    "Attributes and functions are not replaced at run time from outside the package.",
    "Where a function uses constructs the analysis does not model, it is listed under not_judged and not decided.",
]


def explanation(spec, conf, results):
    s = []
    if conf:
        s.append(f"{conf['functions']} anchor functions were checked against their reviewed reference behaviour: {conf['identical_text']} have the reference text "
                 f"(with the same name bindings), {conf['compared']} were compared by extracted effects (calls, stores, returns and raises, each with its path condition).")
    for k, v in results.items():
        if "not_judged" in v:
            s.append(f"Rule {k} could not be applied: {v['not_judged']}.")
        else:
            s.append(f"Rule {k}: {v['rule']} ({v['obligations']} obligations).")
    return " ".join(s)


if __name__ == "__main__":
    sys.exit(main())
