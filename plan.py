"""What each check does: see check.py"""
import json


def calls(s):
    """drop the last node of all outcomes"""
    n = 0
    for c in s.get("calls", []):
        for o in c["outs"]:
            if not o["pan"] and not o["err"] and o["ids"] and c["d"]:
                o["ids"] = o["ids"][:-1]
                o.pop("segs", None)
                n += 1
    return s if n > 5 else None


def parse(s):
    """put a bracket too many behind the first plain text that is accepted"""
    for c in s.get("calls", []):
        for o in c["outs"]:
            if not o["err"] and not o["pan"]:
                t = s["texts"][c["t"] - 1]
                if all(32 <= x < 127 and x != 92 for x in t):
                    t.append(93)
                    return s
    return None


def hist(s):
    """change what an event of a history observed"""
    for e in s.get("ev", []):
        if e["pan"]:
            return None
        if e["o"] == "look" and e["r"]:
            e["r"] = e["r"][:-1]
            return s
        if e["o"] == "deliver":
            e["r"] = e["r"] + e["r"][-1:]
            return s
        if e["o"] == "find" and len(e["ids"]) > 1:
            e["ids"] = e["ids"][1:]
            return s if any(x["o"] == "find" and x["h"] == e["h"] and x["d"] == e["d"] and x is not e for x in s["ev"]) else None
    return None


def total(s):
    """turn the first outcome into a panic"""
    for c in s.get("calls", []):
        for o in c["outs"]:
            if not o["pan"]:
                o["pan"] = True
                return s
    return None


def conversation(s):
    """change the first size or list of names that was told"""
    for e in s.get("ev", []):
        if e["pan"]:
            return None
        if e["o"] == "len":
            e["n"] += 1
            return s
        if e["o"] == "keys":
            e["ks"] = e["ks"] + e["ks"][-1:] if e["ks"] else [[97]]
            return s
    return None


FALSIFY = dict(calls=calls, parse=parse, hist=hist, total=total, conversation=conversation)


def txt(cps):
    return "".join(map(chr, cps))


def event(e):
    f = {k: (txt(v) if k == "nm" else v) for k, v in e.items() if k not in ("o", "pan", "msg", "how") and v != ""}
    return e["o"] + " " + json.dumps(f)[:300] + (" panic: " + e.get("msg", "") if e["pan"] else "")


def describe(s, call, o, why):
    if s.get("ev"):
        before = [event(e) for e in s["ev"][max(0, call - 4):call]]
        what = "texts %s, event %d: %s: the specification wants %s" % (
            [txt(t) for t in s["texts"]], call, "; ".join(before)[-700:], why[:300])
        e = s["ev"][call - 1]
        return None, what, json.dumps([e["o"], e["pan"], why[:40]])
    return None, "session %d, event %d: the specification wants %s" % (s["id"], call, why), "%s" % why


def model(module, quick, deep, kind="calls", **kw):
    """TLC explores the module for the environments quick, or quick and deep"""
    return dict(do="model", name="model " + module, module=module, runs=(quick, quick + deep), replay=kind, **kw)


def search(focus, quick="1", deep=("2",), **kw):
    live = [dict(do="model", name="liveness", module="MCSearch", cfg="MCSearchLive.cfg",
                 runs=([], [dict(FOCUS=focus, SIZE="1")]), replay=False)]
    return [model("MCSearch", [dict(FOCUS=focus, SIZE=quick)], [dict(FOCUS=focus, SIZE=x) for x in deep], **kw)] + live


def expressions(focus):
    return [model("MCEval", [dict(FOCUS=focus, SIZE="1")], [dict(FOCUS=focus, SIZE="2")])]


def refuted(module, variant, invariant, **env):
    """the variant of the model must break the invariant"""
    return dict(do="broken", name="variant " + variant, module=module, cfg=variant + ".cfg", env=env, broken=invariant)


def random(n, **kw):
    return dict(do="random", name="random " + kw.get("gen", ""), n=n, **kw)


def traces(n=(1500, 60000), sys=True, **kw):
    return ([dict(do="sys", **kw)] if sys else []) + ([dict(do="random", n=n, **kw)] if n else [])


PLAN = {}


def plan(prop, rule, phases, **kw):
    PLAN[prop] = dict(rule=rule, phases=phases, **kw)


RULE = ("a behaviour is one path and document of the model, replayed through Search and Find on three document models; "
        "a session is a group of recorded calls; telling: calls that select something or are refused")
HIST = dict(trace="TraceHist", falsify="hist")
AGREE = "C08 C09 C11 C13 C22"  # where also what the specification leaves open is compared, see spec/Agree.tla
for p in "C01 C02 C03 C04 C05 C06 C07 C14 C22".split():
    plan(p, RULE, search(p) + traces(agree=p in AGREE))
for p in "C08 C09 C10 C11 C12 C13".split():
    plan(p, RULE, expressions(p) + traces(agree=p in AGREE))
plan("C15", "a behaviour is a list of operations on document paths, and searches that report such paths, with all the paths they make; "
     "an event is an operation on document paths, or a report of a search",
     [model("MCDocPaths", [dict(SIZE="1")], [dict(SIZE="2")], kind="docpaths"),
      refuted("MCDocPaths", "MCDocPathsShared", "Kept", SIZE="1"),
      random((700, 30000), **HIST)])
plan("C16", RULE, search("C16", mode="contract") + traces(mode="contract", agree=True))
plan("C17", "a behaviour is one text with its verdict, parsed by the library; a session is a group of derivations of the grammar and of "
     "damaged ones; telling: texts that are refused",
     [model("MCText", [dict(SIZE="1")], [dict(SIZE="2")], kind="texts")] + traces(n=(1500, 60000), falsify="parse"))
plan("C18", "a behaviour is a text, or a path and document, of the models; a session is a group of calls on any texts, paths, documents and "
     "document models that must return",
     [model("MCText", [dict(SIZE="1")], [], kind="texts"),
      model("MCSearch", [dict(FOCUS="C02", SIZE="1")], [dict(FOCUS="C06", SIZE="1"), dict(FOCUS="C07", SIZE="1"), dict(FOCUS="C16", SIZE="1")]),
      dict(do="model", name="liveness", module="MCSearch", cfg="MCSearchLive.cfg",
           runs=([dict(FOCUS="C16", SIZE="1")], [dict(FOCUS="C02", SIZE="1"), dict(FOCUS="C06", SIZE="1"), dict(FOCUS="C04", SIZE="1")]), replay=False),
      dict(do="sys", mode="total", falsify="total"),
      random((2000, 60000), mode="total", falsify="total"),
      random((600, 20000), gen="C18build", **HIST)])
plan("C19", "a behaviour is a list of names; the library's own quoting of them must lead to the named member", [
    model("MCKeys", [dict(SIZE="1")], [dict(SIZE="2")], kind="keys")] + traces())
plan("C20", RULE, [model("MCString", [dict(SIZE="1")], [dict(SIZE="2")])] + traces())
plan("C21", RULE, [model("MCNumber", [dict(SIZE="1")], [dict(SIZE="2")])] + traces(agree=True))
plan("C23", "a behaviour is a list of uses of the path builders, and the meaning of every path built; an event is a use of a path builder, "
     "or of a built path",
     [model("MCBuild", [dict(POOL=x, SIZE="1") for x in ("few", "all", "texts")],
            [dict(POOL=x, SIZE="2") for x in ("few", "all", "texts")] + [dict(POOL="few", SIZE="3")], kind="builders"),
      refuted("MCBuild", "MCBuildShared", "Kept", POOL="few", SIZE="1"),
      random((1500, 60000), **HIST)])
plan("C24", "a behaviour is a schedule of searches that share compiled paths and documents, replayed with coroutines; an event is a step of "
     "one of several searches; a session of the race detector is a group of calls in several goroutines",
     [model("MCUse", [dict(GRAIN="fine", SIZE="2", PROCS="2", FOCUS="C24"), dict(GRAIN="fine", SIZE="1", PROCS="3", FOCUS="C24")], [], kind=None),
      model("MCUse", [dict(GRAIN="coarse", SIZE="2", PROCS="2", FOCUS="C24")], [dict(GRAIN="coarse", SIZE="1", PROCS="3", FOCUS="C24")], kind="weave"),
      refuted("MCUse", "MCUseShared", "Alone", GRAIN="fine", SIZE="1", PROCS="2", FOCUS="C24"),
      random((500, 15000), gen="C24weave", **HIST),
      random((200, 4000), gen="C24paths", **HIST),
      random((250, 6000), gen="C24race", race=True, mode="contract")])
plan("C25", RULE, [model("MCGroup", [dict(DEPTH="1", SIZE="1"), dict(DEPTH="2", SIZE="1"), dict(DEPTH="3", SIZE="1")],
                         [dict(DEPTH="3", SIZE="2")]),
                   model("MCParens", [dict(DEPTH="2", SIZE="1"), dict(DEPTH="3", SIZE="1")], [dict(DEPTH="3", SIZE="2")])] + traces(agree=True))
plan("C26", "a behaviour is a conversation with the map model of a decoded document; an event is a question to the map model and its answer",
     [model("MCModel", [dict(SIZE="1")], [dict(SIZE="2")], kind="model"),
      refuted("MCModel", "MCModelLossy", "Faithful", SIZE="1"),
      random((1500, 60000), trace="TraceModel", falsify="conversation", batch=1500)])

NOTE = ("Bounded: the model is explored exhaustively within small constants; the binding to the code covers the "
        "behaviours and recorded executions of the run (model behaviours, systematic small scope and seeded random), each "
        "decided by TLC against the complete reference semantics in spec/. Trusts TLC and the harness's recording.")
