"""
P05: a duplicate says what the original says and then lives on its own: no edit of one object is visible in any other.
"""
import copy
import json
from vsim import core, docs, tzmodel, world
from vsim.lib import LibScenario


class P05(LibScenario):
    prop = "P05"

    def generate(self, rnd, tier):
        tz = None
        ops = []
        starts = []
        for _i in range(rnd.between(1, 2)):
            if rnd.chance(25):
                starts.append(docs.gen_card(rnd))
            else:
                zones = [tzmodel.gen_zone(rnd, "Sim/A")] if rnd.chance(40) else []
                tz = "Sim/A" if zones else tz
                starts.append(docs.gen_calendar(rnd, maxcomps=3, zones=zones))
        for _i in range(rnd.between(4, 14)):
            k = rnd.weighted([("dup", 5), ("edit", 14), ("dupcomp", 3), ("copyprop", 2), ("finalise", 2), ("poke", 3)])
            op = {"slot": rnd.below(100), "x": rnd.below(1000), "y": rnd.below(1000)}
            if k == "edit":
                op.update(world.gen_edit(rnd, tz))
                op["e"] = True
            else:
                op["op"] = k
            ops.append(op)
        return {"starts": starts, "ops": ops}

    def simplify(self, case):
        for i in range(len(case["starts"])):
            if len(case["starts"]) > 1:
                c = copy.deepcopy(case)
                del c["starts"][i]
                yield c
            d = case["starts"][i]
            for j in range(len(d.get("c") or [])):
                c = copy.deepcopy(case)
                del c["starts"][i]["c"][j]
                yield c
            for j in range(len(d["p"])):
                if d["p"][j]["n"] not in world.SINGLE:
                    c = copy.deepcopy(case)
                    del c["starts"][i]["p"][j]
                    yield c
            for m in range(len(d.get("c") or [])):
                for j in range(len(d["c"][m]["p"])):
                    if d["c"][m]["p"][j]["n"] not in world.SINGLE:
                        c = copy.deepcopy(case)
                        del c["starts"][i]["c"][m]["p"][j]
                        yield c

    def execute(self, case, ctx):
        slots = []
        for d in case["starts"]:
            slots.append({"root": world.pair(world.parse(d), d, "the object read"), "clean": True, "from": None})
        self.views = [world.view(s["root"].lib) for s in slots]
        kinds = []
        for op in case["ops"]:
            i = op["slot"] % len(slots)
            s = slots[i]
            root = s["root"]
            what = op["op"]
            changed = [i]
            if op.get("e"):
                if not world.apply_edit(root, op, ctx):
                    continue
                s["clean"] = False
            elif what == "dup" or what == "dupcomp":
                if len(slots) >= 6:
                    continue
                nodes = root.nodes()
                node = nodes[op["x"] % len(nodes)] if what == "dupcomp" else root
                lib = node.lib.duplicate()
                new = world.pair(lib, node.doc(), "a duplicate of %s" % node.n)
                if not (lib == node.lib and node.lib == lib) or lib != node.lib:
                    ctx.fail("duplicate", "a duplicate of a %s is not equal to it\n%s" % (node.n, world.text_of(lib)))
                a, b = world.view(node.lib, s["clean"]), world.view(lib, s["clean"])
                if what == "dupcomp" and a[2] is not None:
                    # recurrence overrides are found through the parent, which a lone copy does not have
                    a, b = a[:2], b[:2]
                if a != b:
                    ctx.fail("duplicate", "a duplicate of a %s differs from it: %s" % (node.n, world.view_diff(a, b)))
                slots.append({"root": new, "clean": s["clean"]})
                self.views.append(None)
                changed = [len(slots) - 1]
                ctx.fault("object_duplicated")
            elif what == "copyprop":
                # the same property in another object, by way of a copy
                nodes = root.nodes()
                node = nodes[op["x"] % len(nodes)]
                can = [p for p in node.props if p[0]["n"] not in world.SINGLE]
                j = op["y"] % len(slots)
                if not can or (slots[j]["root"].n == "VCARD") != (root.n == "VCARD"):
                    continue
                p = can[op["y"] % len(can)]
                to = slots[j]["root"].nodes()
                to = to[op["y"] % len(to)]
                if to.n in ("VTIMEZONE", "STANDARD", "DAYLIGHT"):
                    continue
                lib = p[1].duplicate()
                if not lib == p[1] or hash(lib) != hash(p[1]):
                    ctx.fail("duplicate", "a duplicate of a property is not equal to it: %r" % (docs.prop_line(p[0]),))
                to.lib.addProperty(lib)
                to.props.append([copy.deepcopy(p[0]), lib])
                slots[j]["clean"] = False
                changed = [j]
            elif what == "finalise":
                world.finalise(root.lib) if root.n != "VCARD" else root.lib.finalise()
                s["clean"] = True
            elif what == "poke":
                # asking changes nothing anywhere
                changed = []
                world.view(root.lib)
            ctx.ev(what, i, tuple(changed))
            kinds.append(what)
            # everyone else sees what they saw before
            for j, t in enumerate(slots):
                now = world.view(t["root"].lib)
                if j not in changed and now != self.views[j]:
                    ctx.fail("isolation", "after '%s' on object %d (%s), object %d (%s) has changed: %s" % (
                        what, i, root.n, j, t["root"].n, world.view_diff(self.views[j], now)))
                self.views[j] = now
            for j in changed:
                t = slots[j]["root"]
                want, got = docs.meaning(t.doc()), docs.observe(t.lib)
                if want != got:
                    ctx.fail("content", "after '%s' object %d (%s) does not hold what it should: %s" % (what, j, t.n, "; ".join(docs.diff(want, got))))
                ctx.ev("view", j, repr(got)[:200])
            ctx.fp(tuple(kinds[-4:]), tuple([x["root"].n for x in slots]), slots[changed[0]]["clean"] if changed else None)


SCENARIO = P05()
