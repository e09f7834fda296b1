"""
P13: what is written, as text or JSON, is read again as the same thing, whatever edits came before; equality means same content.
"""
import copy
import json
from vsim import docs, streams, tzmodel, world
from vsim.lib import LibScenario
from pycalendar.icalendar.calendar import Calendar
from pycalendar.parameter import Parameter
from pycalendar.vcard.card import Card


def merged(doc):
    """ a parameter given twice is the same as one with both values; the library keeps them as they come, so give one """
    for p in doc["p"]:
        have = {}
        out = []
        for n, vs in p.get("a") or []:
            if n.upper() in have:
                have[n.upper()][1].extend(vs)
            else:
                have[n.upper()] = [n, list(vs)]
                out.append(have[n.upper()])
        if "a" in p:
            p["a"] = out
    for c in doc.get("c") or []:
        merged(c)
    return doc


class P13(LibScenario):
    prop = "P13"

    def generate(self, rnd, tier):
        tz = None
        if rnd.chance(25):
            doc = docs.gen_card(rnd)
        else:
            zones = [tzmodel.gen_zone(rnd, "Sim/A")] if rnd.chance(40) else []
            tz = "Sim/A" if zones else None
            doc = docs.gen_calendar(rnd, maxcomps=3, zones=zones)
        ops = []
        for _i in range(rnd.between(4, 14)):
            k = rnd.weighted([("edit", 12), ("text", 4), ("json", 4), ("chain", 3), ("keep", 3), ("swap", 3), ("shuffle", 3), ("finalise", 2), ("abort", 3)])
            op = {"x": rnd.below(1000), "y": rnd.below(1000)}
            if k == "edit":
                op.update(world.gen_edit(rnd, tz))
                op["e"] = True
                merged({"p": [op[i] for i in ("p", "cp") if i in op], "c": [op[i] for i in ("c", "alarm") if i in op]})
                if op["op"] == "param" and op["how"] == "add":
                    op["how"] = "replace"
            else:
                op["op"] = k
                op["pos"] = rnd.below(1000000)
                op["err"] = rnd.choice(streams.FAULTS)
            ops.append(op)
        pv = "".join([rnd.choice(["a", "b", " ", ",", ";", ":", "\\", "^", "'", "\"", "\n", "=", "\t", "\xc3\xa9", "^n", "^'"]) for _i in range(rnd.between(0, 6))])
        return {"doc": merged(doc), "ops": ops, "pv": {"v": pv, "x": rnd.below(1000)} if rnd.chance(40) else None}

    def simplify(self, case):
        d = case["doc"]
        for j in range(len(d.get("c") or [])):
            c = copy.deepcopy(case)
            del c["doc"]["c"][j]
            yield c
        for m in [None] + list(range(len(d.get("c") or []))):
            ps = d["p"] if m is None else d["c"][m]["p"]
            for j in range(len(ps)):
                if ps[j]["n"] not in world.SINGLE:
                    c = copy.deepcopy(case)
                    del (c["doc"]["p"] if m is None else c["doc"]["c"][m]["p"])[j]
                    yield c

    def parameter(self, ctx, root, card, v, x):
        # any value of a parameter
        ctx.ev("parameter", v)
        nodes = root.nodes()
        node = nodes[x % len(nodes)].lib
        cls = type(root.lib).sPropertyType
        prop = cls(name="X-SIM-PV", value="text")
        prop.addParameter(Parameter("X-SIM", v))
        node.addProperty(prop)
        for fmt in ("text", "json"):
            text = prop.getText() if fmt == "text" else None
            error = None
            try:
                if fmt == "text":
                    new = cls.parseText(text[:-2].replace("\r\n ", ""))
                else:
                    j = []
                    prop.writeJSON(j)
                    new = cls.parseJSON(json.loads(json.dumps(j[0])))
                got = new.getParameters()["X-SIM"][0].getValues()
            except Exception as e:
                error = e
            if error is not None or got != [v]:
                quoted = [c for c in v if c in ",;:"] or v[:1] == " "
                odd = (len(v) - len(v.rstrip("\\"))) % 2
                ctx.fail("parameter-backslash" if fmt == "text" and quoted and odd else "parameter", "a parameter whose value is %r is written as %s %r, which %s" % (
                    v, fmt, text, "gives %r" % (got,) if error is None else "is refused: %s" % (error,)))
        node.removeProperty(prop)
        ctx.fp("parameter", bool([c for c in v if c in ",;:"]), "^" in v, "\n" in v, '"' in v, v[:1], v[-1:])

    def read(self, card, text, fmt):
        cls = Card if card else Calendar
        return cls.parseData(text, format=cls.sFormatJSON if fmt == "json" else cls.sFormatText)

    def again(self, ctx, lib, card, fmt, want, what):
        text = world.text_of(lib) if fmt == "text" else world.json_of(lib)
        try:
            new = self.read(card, text, fmt)
        except Exception as e:
            ctx.fail("refused", "%s: what was written as %s is refused when read: %s: %s\n%s" % (what, fmt, type(e).__name__, e, text))
        if new is None:
            ctx.fail("refused", "%s: what was written as %s is refused when read\n%s" % (what, fmt, text))
        got = docs.observe(new)
        if got != want:
            ctx.fail("content", "%s: written as %s and read again it says something else: %s" % (what, fmt, "; ".join(docs.diff(want, got))))
        # (what is derived from a property, such as the place of an alarm, follows edits at the next finalise)
        if not self.clean:
            text = world.text_of(new) if fmt == "text" else world.json_of(new)
            new = self.read(card, text, fmt)
        text2 = world.text_of(new) if fmt == "text" else world.json_of(new)
        if text2 != text:
            ctx.fail("not-stable", "%s: written as %s, read and written again it is other text: %s" % (what, fmt, world.view_diff((text, "", 0), (text2, "", 0))))
        return new

    def execute(self, case, ctx):
        card = case["doc"]["n"] == "VCARD"
        root = world.pair(world.parse(case["doc"]), copy.deepcopy(case["doc"]), "the object read")
        kept = []
        self.clean = True
        kinds = []
        for op in case["ops"]:
            k = op["op"]
            if op.get("e"):
                if world.apply_edit(root, op, ctx):
                    kinds.append("edit")
                    self.clean = False
                continue
            kinds.append(k)
            doc = root.doc()
            want = docs.meaning(doc)
            got = docs.observe(root.lib)
            if got != want:
                ctx.fail("mirror", "after edits the object does not hold what it should: %s" % ("; ".join(docs.diff(want, got))))
            if k in ("text", "json"):
                new = self.again(ctx, root.lib, card, k, want, "after %s" % (kinds,))
                self.same(ctx, root.lib, new, "read again from its %s" % (k,))
            elif k == "chain":
                # through the other format and back
                a = self.again(ctx, root.lib, card, "json", want, "after %s" % (kinds,))
                b = self.again(ctx, a, card, "text", want, "read from JSON")
                if self.clean and world.text_of(b) != world.text_of(root.lib):
                    ctx.fail("not-stable", "text, JSON and text again gives other text: %s" % (world.view_diff((world.text_of(root.lib), "", 0), (world.text_of(b), "", 0)),))
            elif k == "abort":
                # a write and a read that both fail: reported, and nobody is the worse for it
                text = world.text_of(root.lib)
                at = op["pos"] * len(text) // 1000000
                out = streams.SimOutput(at, op["err"])
                src = streams.SimInput(text, at, op["err"])
                for what, call in (("write", lambda: root.lib.generate(out, **({} if card else {"includeTimezones": world.NO_TZ}))), ("read", lambda: self.read(card, src, "text"))):
                    try:
                        call()
                    except Exception:
                        pass
                    else:
                        if out.failed if what == "write" else src.failed:
                            ctx.fail("swallowed", "a %s failed (%s at byte %d of %d) but the call returned as if it had not" % (what, op["err"], at, len(text)))
                    ctx.fault("%s_error_%s" % (what, op["err"]))
                got = docs.observe(root.lib)
                if got != want:
                    ctx.fail("changed", "a failed write or read changed the object: %s" % ("; ".join(docs.diff(want, got))))
            elif k == "keep":
                kept.append((want, root.lib.duplicate()))
            elif k == "swap":
                fmt = "json" if op["x"] % 2 else "text"
                new = self.again(ctx, root.lib, card, fmt, want, "after %s" % (kinds,))
                root = world.pair(new, doc, "the object read from its own %s" % (fmt,))
                self.clean = True
            elif k == "shuffle":
                # order of properties of different names, of parameters and of components says nothing
                new = world.parse(self.shuffled(doc, op["x"]))
                self.same(ctx, root.lib, new, "written in another order")
            elif k == "finalise":
                if not self.clean:
                    world.finalise(root.lib) if not card else root.lib.finalise()
                    self.clean = True
                before = (world.text_of(root.lib), world.json_of(root.lib))
                world.finalise(root.lib) if not card else root.lib.finalise()
                now = (world.text_of(root.lib), world.json_of(root.lib))
                if before != now:
                    ctx.fail("changed", "finalise() changed what is written: %s" % (world.view_diff(before, now),))
            for m, lib in kept:
                eq = lib == root.lib
                if eq != (not lib != root.lib) or eq != (root.lib == lib):
                    ctx.fail("equality", "== and != or both directions disagree")
                if m == want and not eq:
                    ctx.fail("equality", "two objects with the same content are not equal\n%s\n%s" % (world.text_of(lib), world.text_of(root.lib)))
                if m != want and eq:
                    ctx.fail("equality", "two objects with different content are equal: %s" % ("; ".join(docs.diff(m, want))))
            ctx.ev(k, len(kept), repr(got))
            ctx.fp(tuple(kinds[-5:]), card, len(doc.get("c") or []), min(5, len(kept)))
        if case.get("pv"):
            self.parameter(ctx, root, card, case["pv"]["v"], case["pv"]["x"])

    def same(self, ctx, a, b, what):
        if not (a == b and b == a) or a != b:
            ctx.fail("equality", "an object %s is not equal to it\n%s\n%s" % (what, world.text_of(a), world.text_of(b)))

    def shuffled(self, doc, x):
        from vsim import core
        rnd = core.Rnd("shuffle%d" % x)
        # names keep their own order
        names = {}
        for p in doc["p"]:
            names.setdefault(p["n"], []).append(p)
        slots = [p["n"] for p in doc["p"]]
        rnd.shuffle(slots)
        ps = []
        for n in slots:
            p = names[n].pop(0)
            a = list(p.get("a") or [])
            rnd.shuffle(a)
            ps.append(dict(p, a=a))
        cs = [self.shuffled(c, x + i + 1) for i, c in enumerate(doc.get("c") or [])]
        z = [c for c in cs if c["n"] == "VTIMEZONE"]
        r = [c for c in cs if c["n"] != "VTIMEZONE"]
        rnd.shuffle(r)
        return {"n": doc["n"], "p": ps, "c": z + r}


SCENARIO = P13()
