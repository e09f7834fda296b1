#!/usr/bin/env python3
"""
The single source of properties.jsonl, plan.json and MANIFEST.json:  python3 tools/spec.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_ICAL = ["pycalendar.icalendar (all components, properties, recurrence)", "pycalendar (date-time, period, duration, time zone, parser, serialisers)"]
COMMON = ["the simulated process is one Jython 2.7 JVM per worker; library globals are reset between runs, and every reported "
          "violation is replayed alone in a fresh process before it counts",
          "a clean batch is evidence over the seeds explored, not proof"]
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, runs, rule, measure, technique, note,
         real=None, stub=None, state=None, assumptions=None, deadline=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  observe=observe, runs=runs, rule=rule, measure=measure, technique=technique, note=note,
                  real=real or REAL_ICAL, stub=stub or [], state=state or [], assumptions=(assumptions or []) + COMMON,
                  deadline=deadline, hook=hook))


NA = []


def na(id, title, statement, over, quant, why, files, mechanism, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  observe=[], state=[], hook=None))
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    P.sort(key=lambda p: p["id"])
    nas = {n["property"] for n in NA}
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                             "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": p["hook"]}}
            f.write(json.dumps(d) + "\n")
    plan = {}
    checks = []
    for p in P:
        if p["id"] in nas:
            continue
        plan[p["id"]] = {"runs": {"quick": p["runs"][0], "thorough": p["runs"][1]}, "rule": p["rule"], "measure": p["measure"],
                         "real": p["real"], "stub": p["stub"], "assumptions": p["assumptions"]}
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py run %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py run %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "plan.json"), "w") as f:
        json.dump(plan, f, indent=1, sort_keys=True)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py setup",
                   "hooks": {"guard": "none", "enable": "no hooks: every seam is an argument, a module global or a class attribute the "
                             "library already has; checks import /repo/src directly under Jython", "source_commits": []},
                   "checks": checks, "not_applicable": NA,
                   "notes": "Deterministic simulation with fault injection; see DESIGN.md. check.py replay FILE re-executes a recorded violation."},
                  f, indent=1)


main()


def design():
    """ the generated parts of DESIGN.md """
    path = os.path.join(HERE, "DESIGN.md")
    d = open(path).read()

    def put(tag, text):
        nonlocal d
        a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
        d = d[:d.index(a) + len(a)] + "\n" + text + d[d.index(b):]

    text = ""
    nas = {n["property"]: n["reason"] for n in NA}
    for p in P:
        text += "### %s %s\n\n" % (p["id"], p["title"])
        if p["id"] in nas:
            text += "Not applicable: %s\n\n" % nas[p["id"]]
            continue
        text += "- Decided by: %s. %s\n" % (p["technique"], p["rule"])
        text += "- Why tests cannot: %s\n" % p["why"]
        text += "- Stubs: %s. Coverage measure: %s.\n" % ("; ".join(p["stub"]) or "none", p["measure"])
        text += "- Limits: %s Cost: %d runs quick, %d thorough.\n\n" % (p["note"], p["runs"][0], p["runs"][1])
    put("props", text)
    rows = ""
    sd = os.path.join(HERE, "seeded")
    res = {}
    rp = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        rows += "- `%s` (%s): %s. Needs: %s. **%s**\n" % (n, m["property"], m["what_it_breaks"], m["needs"], res.get(n, "not yet run"))
    put("seeded", rows)
    open(path, "w").write(d)


design()
