#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of gojsonpath with the TLA+ specification in spec/:

 1. model    TLC explores the model of the property exhaustively, within the
             bounds of the tier, and checks its invariants;
 2. replay   the behaviours of the model are replayed on the real library,
             whose answers must be the ones the specification prescribes;
 3. traces   systematic and random executions of the real library are
             recorded, and TLC decides which are behaviours of the
             specification.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else is an error of the check.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plan import PLAN  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
JARS = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
HANG = 30       # seconds for one call of the library


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, replay, what):
        super().__init__(what)
        self.replay = replay


def goenv():
    env = dict(os.environ)
    env.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOSUMDB="off",
               GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOWORK="off")
    env["PATH"] = "/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    return env


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.plan = PLAN[prop]
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.start = time.time()
        self.deadline = self.start + (780 if tier == "thorough" else 240)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        behaviours_replayed=0, outcomes_accepted=0, outcomes_open=0,
                        calls_telling=0, models=[], samples=[], phases=[])
        self.known = []
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)
        self.replaydir = os.path.join(self.evdir, "replay")
        self.findings = load_findings(prop)

    def quick(self):
        return self.tier == "quick"

    def note(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.start), *a, flush=True)

    def left(self):
        return self.deadline - time.time()

    # ---------------------------------------------------------- tools

    def build(self, race=False):
        self.bin = os.path.join(self.tmp, "harness-race" if race else "harness")
        if os.path.exists(self.bin):
            return
        # the harness module is built from a copy, so that go never edits /verif
        src = os.path.join(self.tmp, "src")
        if not os.path.exists(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", self.bin, "."]
        r = subprocess.run(cmd, cwd=src, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stdout + r.stderr)

    def harness(self, *args):
        """returns the exit status: 0, 42 (hang), 43 (memory), 2 (crash), 66 (race)"""
        return self.harnesses([args])[0]

    def harnesses(self, many):
        """runs several commands at the same time"""
        env = goenv()
        env["GOMEMLIMIT"] = "3GiB"
        env["GOTRACEBACK"] = "single"
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        files = [open(os.path.join(self.tmp, "err%d" % i), "w+", errors="replace") for i in range(len(many))]
        ps = [subprocess.Popen([self.bin] + list(map(str, a)), env=env, stdout=subprocess.DEVNULL, stderr=f)
              for a, f in zip(many, files)]
        end = time.time() + max(60, self.left() + 60)
        try:
            for p in ps:
                p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            raise ToolError("harness took too long: " + " ".join(map(str, many[0])))
        finally:
            for p in ps:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        self.errs = []
        for f in files:
            f.seek(0)
            self.errs.append(f.read()[-8000:])
            f.close()
        self.lasterr = self.errs[0]
        for p, a, e in zip(ps, many, self.errs):
            if p.returncode not in (0, 2, 42, 43, 66):
                raise ToolError("harness %s: exit %d\n%s" % (a, p.returncode, e[-3000:]))
        return [p.returncode for p in ps]

    def tlc(self, module, cfg, env=None, out=None, workers=8, broken=None):
        """runs TLC to the end, returns its output file and (states generated, distinct).
        broken: the property that TLC has to find violated"""
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        out = out or os.path.join(self.tmp, module + ".out")
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg, module + ".tla"]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=max(120, self.left() + 100))
            except subprocess.TimeoutExpired:
                raise ToolError("TLC took too long on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        done = gen = dis = None
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith("Model checking completed. No error"):
                    done = True
                m = re.match(r"(\d+) states generated, (\d+) distinct", l)
                if m:
                    gen, dis = int(m.group(1)), int(m.group(2))
        if broken is not None:
            with open(out, errors="replace") as f:
                if r.returncode == 0 or not re.search(r"(Invariant|property) %s (is|was) violated" % broken, f.read()):
                    raise ToolError("TLC did not find that %s is violated in %s" % (broken, cfg))
            return out, gen, dis
        if r.returncode != 0 or not done or gen is None:
            tail = subprocess.run(["grep", "-vE", "^[\"<]|^Parsing|^Semantic|^Linting", out], capture_output=True, text=True,
                                  errors="replace").stdout
            k = tail.find("\nError:")
            tail = tail[k:k + 1500] + "\n...\n" + tail[-2500:] if k >= 0 else tail[-4000:]
            raise ToolError("TLC failed on %s (%s):\n%s" % (module, cfg, tail))
        self.cov["states"] += dis
        self.cov["transitions"] += gen
        return out, gen, dis

    # ---------------------------------------------------------- phases

    def run(self):
        self.build()
        self.note("harness built")
        for phase in self.plan["phases"]:
            t = time.time()
            self.build(phase.get("race", False))
            getattr(self, "phase_" + phase["do"])(phase)
            self.cov["phases"].append(dict(phase=phase.get("name", phase["do"]), seconds=round(time.time() - t, 1)))

    def size(self, phase, key):
        v = phase.get(key)
        if isinstance(v, (tuple, list)):
            return v[0] if self.quick() else v[1]
        return v

    def phase_model(self, ph):
        """TLC explores a model; its behaviours are replayed"""
        runs = self.size(ph, "runs")
        for i, env in enumerate(runs):
            if not self.quick() and self.left() < 60:
                self.note("no time for further models")
                break
            out, gen, dis = self.tlc(ph["module"], ph.get("cfg", ph["module"] + ".cfg"), env,
                                     out=os.path.join(self.tmp, "%s-%d.out" % (ph["module"], i)))
            n = self.replay(ph, out)
            self.note("model %s %s: %d states, %d behaviours replayed" % (ph["module"], env, dis, n))
            self.cov["models"].append(dict(module=ph["module"], constants=env, states=dis,
                                           transitions=gen, behaviours_replayed=n))
            if n == 0 and ph.get("replay", True):
                raise ToolError("model %s has no behaviours" % ph["module"])
            os.remove(out)

    def phase_broken(self, ph):
        """a variant of a model in which the invariant must fail: it is not empty"""
        out, _, _ = self.tlc(ph["module"], ph["cfg"], ph["env"], broken=ph["broken"])
        os.remove(out)
        self.note("model %s: %s fails, as it must" % (ph["cfg"], ph["broken"]))
        self.cov.setdefault("variants_refuted", []).append(ph["cfg"])

    def replay(self, ph, out):
        kind = ph.get("replay", "calls")
        if not kind:
            return 0
        res = os.path.join(self.tmp, "replay.ndjson")
        now = os.path.join(self.tmp, "now")
        extra = ["-contract"] if ph.get("mode") == "contract" else []
        st = self.harness("replay", "-kind", kind, "-in", out, "-out", res, "-now", now, "-hang", HANG,
                          "-seed", self.seed, *extra)
        last = None
        bad = []
        with open(res, errors="replace") as f:
            for l in f:
                if not l.endswith("\n"):
                    break
                d = json.loads(l)
                if "total" in d:
                    last = d
                else:
                    bad.append(d)
        if st != 0:
            self.crashed(st, ph, now, behaviours=out, kind=kind)
        if last is None:
            raise ToolError("replay did not finish")
        self.cov["behaviours_replayed"] += last["total"]
        self.cov["traces_validated_against_impl"] += last["total"]
        for s in last.get("samples", []):
            self.sample(s)
        for b in bad[:50]:
            self.report("replay", dict(kind=kind, behaviour=b["behaviour"]), b["what"], b.get("key", b["what"]))
        return last["total"]

    def phase_sys(self, ph):
        """systematic executions, recorded and judged by TLC"""
        out = os.path.join(self.tmp, "sys.ndjson")
        now = os.path.join(self.tmp, "now")
        args = ["sys", "-prop", ph.get("gen", self.prop), "-out", out, "-now", now, "-hang", HANG, "-seed", self.seed]
        if not self.quick():
            args.append("-deep")
        st = self.harness(*args)
        if st != 0:
            self.crashed(st, ph, now, args=args)
        self.judge(ph, out, "systematic")

    def phase_random(self, ph):
        """random executions, recorded and judged by TLC"""
        n = self.size(ph, "n")
        batch = ph.get("batch", 2500)
        cmd = ph.get("cmd", "run")
        at = 0
        while at < n:
            if at > 0 and self.left() < (30 if self.quick() else 90):
                self.note("no time for further batches")
                break
            to = min(n, at + batch)
            out = os.path.join(self.tmp, "rand.ndjson")
            k = min(8, to - at)
            cuts = [at + (to - at) * i // k for i in range(k + 1)]
            many = []
            for a, b in zip(cuts, cuts[1:]):
                args = [cmd, "-prop", ph.get("gen", self.prop), "-seed", self.seed, "-from", a + 1, "-to", b,
                        "-out", "%s.%d" % (out, a), "-now", "%s.now.%d" % (out, a), "-hang", HANG]
                if not self.quick():
                    args.append("-deep")
                many.append(args)
            sts = self.harnesses(many)
            with open(out, "wb") as f:
                for a, st, e, args in zip(cuts, sts, self.errs, many):
                    if st != 0:
                        self.lasterr = e
                        self.crashed(st, ph, "%s.now.%d" % (out, a), args=args)
                    with open("%s.%d" % (out, a), "rb") as g:
                        shutil.copyfileobj(g, f)
                    os.remove("%s.%d" % (out, a))
            self.judge(ph, out, "random %d-%d" % (at + 1, to))
            at = to

    def judge(self, ph, file, name):
        """TLC decides which recorded sessions are behaviours of the specification"""
        module = ph.get("trace", "Trace")
        sessions = index(file)
        if not sessions:
            raise ToolError("no sessions were recorded (%s)" % name)
        # the canary: a recorded session with a falsified outcome must be rejected
        canary = falsify(file, sessions, ph.get("falsify", "calls"))
        if canary is None:
            raise ToolError("no session that could be falsified (%s)" % name)
        with open(file, "a") as f:
            f.write(json.dumps(canary) + "\n")
            if ph.get("agree"):
                f.write(json.dumps(DISAGREE) + "\n")
        out, gen, dis = self.tlc(module, module + ".cfg", dict(TRACE=file, MODE=ph.get("mode", "all"), AGREE="1" if ph.get("agree") else "0"))
        verdicts, rejected, caught = {}, [], set()
        with open(out, errors="replace") as f:
            for l in f:
                if not l.startswith('"['):
                    continue
                x = json.loads(json.loads(l))
                if x[0] == "S":
                    verdicts[x[1]] = x[2:]
                elif x[0] == "R":
                    if x[1] < 0:
                        caught.add(x[1])
                    else:
                        rejected.append((x[1], x[2], x[3], x[4] if isinstance(x[4], str) else json.dumps(x[4])))
        missing = [i for i in sessions if i not in verdicts]
        if missing or -1 not in verdicts:
            raise ToolError("no verdict on %d sessions (%s)" % (len(missing) + (-1 not in verdicts), name))
        if len(caught) < (2 if ph.get("agree") else 1):
            raise ToolError("a falsified session was accepted (%s)" % name)
        acc = sum(v[0] for i, v in verdicts.items() if i > 0)
        opn = sum(v[1] for i, v in verdicts.items() if i > 0)
        tell = sum(v[3] for i, v in verdicts.items() if i > 0)
        self.cov["outcomes_accepted"] += acc
        self.cov["outcomes_open"] += opn
        self.cov["calls_telling"] += tell
        self.cov["traces_validated_against_impl"] += len(sessions)
        self.note("%s: %d sessions, %d outcomes accepted, %d open, %d rejected" % (name, len(sessions), acc, opn, len(rejected)))
        if acc == 0:
            raise ToolError("nothing was decided (%s)" % name)
        want = {r[0] for r in rejected[:40]}
        pick = {}
        with open(file) as f:
            for k, l in enumerate(f):
                s = None
                if k in (0, len(sessions) // 2):
                    s = json.loads(l)
                    self.sample(s)
                m = re.match(r'\{"id":(-?\d+),', l)
                if m and int(m.group(1)) in want:
                    pick[int(m.group(1))] = json.loads(l)
        os.remove(file)
        for (sid, call, o, why) in rejected[:200]:
            s = pick.get(sid)
            if s is None:
                continue
            one, what, key = single(s, call, o, why)
            if why.startswith("the same"):
                one = None  # takes the other calls of the session
            self.report("trace", dict(session=s, call=call, outcome=o, single=one, module=module,
                                      expected=why, recorded_by=ph["do"], seed=self.seed), what, key)

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(shorten(s))

    def crashed(self, st, ph, now, args=None, behaviours=None, kind=None):
        """the real code hung, crashed fatally, ate all memory or raced: confirm by running again"""
        what = {42: "a call did not return", 43: "a call used all memory", 2: "the library crashed the process",
                66: "data race"}[st]
        err = self.lasterr[-3000:]
        if st == 2 and "fatal error" not in err and "panic" not in err and "goroutine" not in err:
            raise ToolError("harness failed:\n" + err)
        cur = None
        try:
            cur = int(open(now).read().split()[0])
        except (OSError, ValueError, IndexError):
            pass
        again = st if st == 66 else None     # the race detector does not err
        if again is None and args is not None and cur is not None:
            a = list(args)
            if "-from" in a:
                a[a.index("-from") + 1] = cur
                a[a.index("-to") + 1] = cur
            else:
                a += ["-from", cur, "-to", cur]
            if st == 42:
                a[a.index("-hang") + 1] = 2 * HANG
            for _ in range(3):
                again = self.harness(*a)
                if again != 0:
                    break
            if again == 0:
                again = self.harness(*args)
        elif again is None and behaviours is not None:
            again = self.harness("replay", "-kind", kind, "-in", behaviours, "-out", os.path.join(self.tmp, "again"),
                                 "-now", now, "-hang", 2 * HANG, "-seed", self.seed)
        if again != st and not {again, st} <= {42, 43}:     # a hang may eat memory
            raise ToolError("%s, but not again (%s)\n%s" % (what, again, err))
        keep = None
        if behaviours is not None:
            keep = os.path.join(self.replaydir, "%s-behaviours.txt" % self.prop)
            os.makedirs(self.replaydir, exist_ok=True)
            shutil.copy(behaviours, keep)
        self.report("crash", dict(args=[str(x) for x in (args or ["replay", "-kind", kind, "-in", keep])],
                                  session=cur, stderr=err), "%s (session %s): %s" % (what, cur, err.strip().split("\n")[0]),
                    what)
        raise Stop()

    def report(self, kind, data, what, key):
        for f in self.findings:
            if f["key"] == key:
                if f not in self.known:
                    self.known.append(f)
                return
        os.makedirs(self.replaydir, exist_ok=True)
        h = hashlib.sha1(json.dumps([kind, key], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(self.replaydir, "%s-%s.json" % (self.prop, h))
        data.update(property=self.prop, how=kind, what=what, key=key, tier=self.tier, seed=self.seed)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((path, what))
        if len(self.violations) >= 5:
            raise Stop()

    # ---------------------------------------------------------- main

    def main(self):
        self.violations = []
        code = 0
        try:
            try:
                self.run()
            except Stop:
                pass
            for path, what in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + what)
            for f in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
            code = 1 if self.violations else 0
        except ToolError as x:
            if self.violations:
                for path, what in self.violations:
                    print("VIOLATION property=%s replay=%s" % (self.prop, path))
                    print("  " + what)
                code = 1
            else:
                print("CHECK ERROR:", x)
                code = 2
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.cov["rule"] = self.plan["rule"]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=self.cov, assumptions=self.plan.get("assumptions", ASSUME),
                  wall_s=round(time.time() - self.start, 1), violations=len(self.violations))
        with open(os.path.join(self.evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        self.note("exit", code)
        return code


class Stop(Exception):
    pass


ASSUME = ["TLC evaluates the specification correctly",
          "the harness's document models present the recorded documents (C26 checks MapModel itself)",
          "64-bit int; results that depend on rounding of decimals are left open"]


def load_findings(prop):
    """lines 'finding: property=<id> key=<json string> <what fails>'; 'fixed:' lines suppress nothing"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(\"(?:[^\"\\]|\\.)*\") (.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(key=json.loads(m.group(2)), what=m.group(3)))
    return out


def index(file):
    ids = []
    with open(file) as f:
        for l in f:
            m = re.match(r'\{"id":(-?\d+),', l)
            if not m:
                raise ToolError("bad session line " + l[:100])
            ids.append(int(m.group(1)))
    return ids


def falsify(file, sessions, how):
    """a session with its first telling outcome changed"""
    import plan
    with open(file) as f:
        for l in f:
            s = plan.FALSIFY[how](json.loads(l))
            if s is not None:
                s["id"] = -1
                return s
    return None


def text(cps):
    return "".join(map(chr, cps))


def docjson(nodes, i=1):
    n = nodes[i - 1]
    k = n["k"]
    if k == "obj":
        return {text(a): docjson(nodes, c) for a, c in zip(n["ks"], n["cs"])}
    if k == "arr":
        return [docjson(nodes, c) for c in n["cs"]]
    if k == "str":
        return text(n["s"])
    if k == "num":
        d = ("-" if n["neg"] else "") + ("".join(map(str, n["ds"])) or "0")
        return int(d) * 10 ** n["e"] if n["int"] and 0 <= n["e"] < 30 else float(d + "e" + str(n["e"]))
    return n.get("b")


def disagree():
    """an open comparison that has another outcome with its operands exchanged"""
    num = [dict(k="num", int=True, neg=False, ds=[int(x) for x in "9007199254740993"], e=0)]
    texts = ["$[?(@ == 9007199254740992.0)]", "$[?((9007199254740992.0 == @))]"]
    o = dict(err=False, pan=False, bag=False, broke="", how="made", n=1)
    return dict(id=-2, docs=[[dict(id=1, k="arr", cs=[2]), dict(num[0], id=2)]], texts=[[ord(c) for c in t] for t in texts],
                calls=[dict(t=1, d=1, outs=[dict(o, ids=[2])]), dict(t=2, d=1, outs=[dict(o, ids=[])])])


DISAGREE = disagree()


def single(s, call, o, why):
    """the rejected call alone, a description, and a key that identifies it"""
    import plan
    if s.get("ev") or "calls" not in s:
        return plan.describe(s, call, o, why)
    c = s["calls"][call - 1]
    out = c["outs"][o - 1]
    doc = s["docs"][c["d"] - 1] if c["d"] else None
    t = text(s["texts"][c["t"] - 1])
    one = dict(id=1, docs=[doc] if doc else [], texts=[s["texts"][c["t"] - 1]],
               calls=[dict(t=1, d=1 if c["d"] else 0, outs=[])], plan=s.get("plan", ""))
    d = docjson(doc) if doc else None
    got = "panic: " + out.get("msg", "") if out["pan"] else "error: " + out.get("msg", "") if out["err"] else \
        "contract broken: " + out["broke"] if why == "contract" else "nodes %s" % out["ids"]
    what = "path %s on %s (%s): got %s, the specification wants %s" % (
        json.dumps(t), json.dumps(d)[:300], out["how"], got[:200], why[:200])
    return one, what, json.dumps([t, d], sort_keys=True)


def shorten(s):
    if "texts" in s and "calls" in s and s.get("docs") is not None:
        r = []
        for c in s["calls"][:2]:
            r.append(dict(path=text(s["texts"][c["t"] - 1]),
                          document=json.dumps(docjson(s["docs"][c["d"] - 1]))[:400] if c["d"] else None,
                          outcomes=[{k: o[k] for k in ("err", "pan", "ids", "how", "n")} for o in c["outs"][:2]]))
        return dict(session=s["id"], calls=r)
    j = json.dumps(s)
    return s if len(j) < 1500 else j[:1500]


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(prop, tier).main())
