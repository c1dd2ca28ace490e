#!/usr/bin/env python3
"""Decides a property of the assembler.

    check.py C01 ...              check properties; exit 0, 1 (violation), 2 (trouble)
    check.py --replay FILE        compare one recorded case once more
    check.py --setup              check that the specification can be read

VERIF_SEED and VERIF_TIER (quick or thorough) are taken from the environment.
"""

import collections
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import common
import gen
import profiles
from common import Case, Trouble, VERIF

# Which disagreements between the assembler and the specification break a
# property.  Others concern other properties, and are for their checks to report.
RESULT = {"exit status", "output written", "no output", "format", "image", "overlap"}
VALUES = RESULT | {"messages", "symbols", "no symbols", "other source differs", "runs differ"}
RELEVANT = {p: VALUES for p in profiles.PROFILES}
RELEVANT.update({
    "C11": RESULT | {"messages", "exec"},
    "C12": {"exit status", "messages", "output written"},
    "C14": {"listing", "no listing", "image"},
    "C15": {"exit status", "messages", "exports", "no exports", "symbols", "no symbols", "other source differs"},
    "C16": {"exit status", "messages", "no message", "output written", "no output"},
    "C17": VALUES | {"exec"},
    "C18": VALUES | {"exec", "no message", "no listing", "no exports"},
    "C19": VALUES | {"exec", "listing", "no listing", "exports", "no exports"},
})


def relevant(prop, case, v):
    """What is wrong with a case as far as the property is concerned."""
    per = [set(b) & RELEVANT[prop] for b in v["bads"]]
    if prop == "C14":
        # one of the listing and the code is as specified and the other is not
        per = [set() if len(b & {"listing", "image"}) == 2 else b for b in per]
        if not any("lst" in r.outputs() for r in case.runs):
            per = []
        per = [b - {"image"} if "lst" not in r.outputs() else b for b, r in zip(per, case.runs)]
    if prop in ("C11", "C19") and per:
        # wrong in the same way whatever the format or other options: not for this property
        outs = [(b, r.outputs()) for b, r in zip(per, case.runs)]
        for what, kind in (("image", "out"), ("listing", "lst"), ("symbols", "sym"), ("exports", "exp"),
                           ("exit status", None), ("messages", None)):
            if what == "messages" and prop == "C11":
                continue
            those = [b for b, o in outs if kind is None or kind in o]
            if len(those) > 1 and all(what in b for b in those):
                per = [b - {what} for b in per]
    return set().union(*per) | (set(v["bad"]) & RELEVANT[prop])


def stages(prop, seed, work):
    """The property's cases: plain ones, and those made from the results of others."""
    g = gen.G(seed * 1000 + int(prop[1:]))
    plain, later = [], []
    for x in profiles.PROFILES[prop](g, work):
        if isinstance(x, tuple):
            later.append(x)
            plain += [c for c in x[1:] if isinstance(c, Case) and not (x[0] == "pair" and c is x[1])]
        else:
            plain.append(x)
    return plain, later


def derive(later, obs):
    """obs: by case id.  ("pair", a, b): a's plain binary is to equal b's.
    ("then", c..., f): f makes cases from what was observed of c..."""
    out = []
    for x in later:
        if x[0] == "pair":
            o = obs[x[2].id][-1]
            x[1].ref = o.get("out") if o["rc"] == 0 else None
            out.append(x[1])
        else:
            out += x[-1](*[obs[c.id] for c in x[1:-1]])
    return out


def known_findings():
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                if l.startswith("known: "):
                    d = dict(w.split("=", 1) for w in l[7:].split()[:3])
                    res.append((d["property"], d["case"], d["sha"], l.split(None, 4)[4].strip()))
    return res


def digest(case):
    d = case.dump()
    d.pop("id")
    d.pop("note")
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


def sample(case, o, v):
    return {"case": case.id, "source": {n: common.latin(s)[:600] for n, s in list(case.files.items())[:3]},
            "command": " ".join(case.runs[-1].argv), "runs": len(case.runs), "exit_status": [x["rc"] for x in o],
            "accepted": v["accepted"], "passes": v["passes"], "steps": v["steps"]}


def check(prop, tier, seed, scratch):
    t0 = time.time()
    work = profiles.WORK[prop] * (1 if tier == "quick" else 8)
    exe = common.build(scratch)
    plain, later = stages(prop, seed, work)
    ids = [c.id for c in plain]
    if len(set(ids)) != len(ids):
        raise Trouble("duplicate case ids: %s" % [i for i, n in collections.Counter(ids).items() if n > 1][:3])
    again = prop in profiles.AGAIN
    stats = {"states": 0, "transitions": 0, "undecided": []}
    todo = [(plain, common.execute_all(exe, plain, scratch))]
    if later:
        more = derive(later, {c.id: o for c, o in zip(*todo[0])})
        todo.append((more, common.execute_all(exe, more, scratch)))
    if prop in profiles.MEMORY:
        for cs, os_ in todo:
            common.memory_errors(scratch, cs, os_)
    cases = [c for cs, _ in todo for c in cs]
    obs = [o for _, os_ in todo for o in os_]
    for c in cases:
        c.again = c.again or again
    limit = 600 if tier == "quick" else 6000
    verdicts = common.conform(cases, obs, scratch, stats, quick=tier == "quick", timeout=limit)
    by = {c.id: (c, o) for c, o in zip(cases, obs)}
    broken, wrong = [], []
    for c in cases:
        v = verdicts.get(c.id)
        if v is None:
            continue
        oops = [x for b in v["bads"] + [v["bad"]] for x in b if x.startswith(("HARNESS", "SPEC"))]
        if oops:
            wrong.append((c.id, oops))
        elif relevant(prop, c, v):
            broken.append(c)
    # what is reported has to happen again
    confirmed = []
    if broken:
        some = sorted(broken, key=lambda c: sum(len(s) for s in c.files.values()))[:8]
        o2 = common.execute_all(exe, some, scratch)
        if prop in profiles.MEMORY:
            common.memory_errors(scratch, some, o2)
        v2 = common.conform(some, o2, scratch, {})
        for c, o in zip(some, o2):
            if c.id in v2 and relevant(prop, c, v2[c.id]):
                confirmed.append((c, o, v2[c.id], sorted(relevant(prop, c, v2[c.id]))))
    known = {(p, i, s): txt for p, i, s, txt in known_findings()}
    new = []
    for c, o, v, what in confirmed:
        k = (prop, c.id, digest(c))
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
        else:
            new.append((c, o, v, what))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        c, o, v, what = new[0]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, c.id))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": what, "case": c.dump(), "verdict": v,
                       "observed": [{"rc": x["rc"], "stderr": x["err"], "listing": common.latin(x.get("lst", b""))[:4000],
                                     "output": common.latin(x.get("out", b""))[:2000]} for x in o]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        print("  %s: %s (%d of %d cases)" % (c.id, ", ".join(what), len(broken), len(cases)))
    vs = [(by[i][0], by[i][1], v) for i, v in verdicts.items() if not v["skip"]]
    tags = collections.Counter(t for _, _, v in vs for t in v["tags"])
    good = [x for x in vs if x[2]["accepted"]]
    pick = sorted(good, key=lambda x: x[0].id)[::max(1, len(good) // 3)][:3] \
        + sorted((x for x in vs if not x[2]["accepted"]), key=lambda x: x[0].id)[:1]
    cov = {"states": stats["states"], "transitions": stats["transitions"],
           "traces_validated_against_impl": len(vs),
           "executions": sum(len(c.runs) for c in cases), "cases": len(cases),
           "accepted_programs": len(good), "source_lines_in_last_passes": sum(v["lines"] for _, _, v in vs),
           "bytes_generated": sum(v["nbytes"] for _, _, v in vs),
           "passes": dict(collections.Counter(str(v["passes"]) for _, _, v in vs)),
           "cases_with_transition_kind": dict(sorted(tags.items())),
           "outside_domain_of_specification": len(verdicts) - len(vs),
           "undecided": len(cases) - len(verdicts),
           "also_checked_to_be_fixed_points": len(good) if again else 0,
           "disagreements_about_other_properties": sum(1 for c, _, v in vs
                                                       if any(v["bads"]) and not relevant(prop, c, v)),
           "samples": [sample(*x) for x in pick]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["programs are drawn from the generators in harness/profiles.py (seeded); the state graph of the "
                          "specification for each is explored completely and compared with the recorded run",
                          "the specification leaves out values it cannot represent exactly (counted above)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        return 1
    if wrong:
        print("TROUBLE: %s: %s" % (prop, wrong[:3]))
        return 2
    if len(cases) != len(verdicts):
        print("TROUBLE: %s: %d of %d cases could not be decided" % (prop, len(cases) - len(verdicts), len(cases)))
        for e in stats["undecided"][:2]:
            print("  %s (%s): %s" % (e[0], e[1], e[2][-800:]))
        return 2
    print("OK property=%s: %d programs (%d accepted), %d runs, %d states, %.0f s" % (
        prop, len(cases), len(good), cov["executions"], cov["states"], time.time() - t0))
    return 0


def replay(path, scratch):
    with open(path) as f:
        d = json.load(f)
    c = Case.load(d["case"])
    exe = common.build(scratch)
    o = common.execute_all(exe, [c], scratch)
    if d["property"] in profiles.MEMORY:
        common.memory_errors(scratch, [c], o)
    v = common.conform([c], o, scratch)[c.id]
    for n, s in c.files.items():
        print("--- %s\n%s" % (n, common.latin(s)))
    for r, x, b in zip(c.runs, o[0], v["bads"]):
        print("asm6809 %s\n  exit status %d; disagreement: %s" % (" ".join(r.argv), x["rc"], ", ".join(b) or "none"))
        print("  " + x["err"].replace("\n", "\n  "))
        if b:
            print(common.latin(x.get("lst", b"")))
    print("specified:", json.dumps(v["want"], indent=1)[:6000])
    what = relevant(d["property"], c, v)
    print(", ".join(sorted(what)) or "agrees")
    return 1 if what else 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="asm6809-check-")
    try:
        if argv[:1] == ["--setup"]:
            for m in sorted(f for f in os.listdir(common.SPEC) if f.endswith(".tla")):
                r = common.sany(m, scratch)
                if r:
                    print(r)
                    return 2
            return 0
        if argv[:1] == ["--replay"]:
            return replay(argv[1], scratch)
        worst = 0
        for p in argv:
            rc = check(p, tier, seed, scratch)
            worst = 1 if 1 in (rc, worst) else max(rc, worst)
        return worst
    except Trouble as e:
        print("TROUBLE:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
