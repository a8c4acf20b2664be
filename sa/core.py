"""Check driver: obligations, evidence, known findings, exit codes."""
import json, os, pickle, select, sys, time, traceback, importlib
import prog
from prog import AnalysisBroken, rel, VERIF
import ai

sys.setrecursionlimit(20000)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []            # (rule, instance, status, where, detail)
        self.notes = []
        self.functions = set()
        self.units = []
        self.stats = {"paths": 0, "cut_paths": 0, "call_sites": 0}
        self.unsupported = {}
        self._p = {}
        self.rules = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- programs
    def lib(self, files=None):
        files = files or prog.LIB_FILES
        return self.load([os.path.join(prog.REPO, f) for f in files])

    def driver(self, *names):
        return self.load([os.path.join(prog.HERE, "drivers", n + ".cpp") for n in names])

    def load(self, units, std="c++11", extra=()):
        key = (tuple(units), std, tuple(extra))
        if key not in self._p:
            self._p[key] = prog.Prog().load(units, std, extra)
            self.units += [rel(u) if u.startswith(prog.REPO) else os.path.relpath(u, VERIF) for u in units]
        return self._p[key]

    # ---- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst, where="", detail=""):
        self.obs.append((rule, inst, "held", where, detail))

    def bad(self, rule, inst, where, detail):
        self.obs.append((rule, inst, "violated", where, detail))

    def undecided(self, rule, inst, where="", detail=""):
        self.obs.append((rule, inst, "undecided", where, detail))

    def check(self, cond, rule, inst, where, detail):
        if cond is None:
            self.undecided(rule, inst, where, detail)
        elif cond:
            self.ok(rule, inst, where)
        else:
            self.bad(rule, inst, where, detail)
        return cond

    def need(self, n, what, found):
        """Minimum number of instances; below it the analysis is broken (never a verdict)."""
        if found < n:
            raise AnalysisBroken("%s: %d instances found, at least %d expected" % (what, found, n))

    def sub(self, name, fn, *args):
        """One group of rules; what it cannot decide (an anchor that is gone) is recorded as undecided, never as a verdict."""
        try:
            fn(*args)
        except AnalysisBroken as e:
            self.undecided("anchors", name, "", str(e))
        except Exception as e:
            traceback.print_exc()
            self.undecided("anchors", name, "", "internal: %r" % (e,))

    def fan(self, jobs, workers=6):
        """Groups of rules [(name, fn, args)], each in a process of its own; results are merged in the given order."""
        jobs, res, running = list(jobs), {}, {}
        todo = list(range(len(jobs)))
        sys.stdout.flush()
        while todo or running:
            while todo and len(running) < workers:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        self.obs, self.notes, self.functions, self.units = [], [], set(), []
                        self.stats = {k: 0 for k in self.stats}
                        self.unsupported = {}
                        self.sub(jobs[i][0], jobs[i][1], *jobs[i][2])
                        with os.fdopen(w, "wb") as f:
                            pickle.dump((self.obs, self.notes, self.functions, self.units, self.stats, self.unsupported), f)
                    finally:
                        os._exit(0)
                os.close(w)
                running[r] = (i, pid, [])
            for r in select.select(list(running), [], [])[0]:
                b = os.read(r, 1 << 20)
                if b:
                    running[r][2].append(b)
                    continue
                i, pid, parts = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                res[i] = b"".join(parts)
        for i, job in enumerate(jobs):
            try:
                obs, notes, functions, units, stats, uns = pickle.loads(res[i])
            except Exception as e:
                self.undecided("anchors", job[0], "", "analysis process ended early: %r" % (e,))
                continue
            self.obs += obs
            self.notes += notes
            self.functions |= functions
            self.units += units
            for k, v in stats.items():
                self.stats[k] = self.stats.get(k, 0) + v
            for k, v in uns.items():
                self.unsupported[k] = self.unsupported.get(k, 0) + v

    def used(self, interp):
        self.stats["paths"] += interp.npaths
        self.stats["cut_paths"] += interp.cut_paths
        interp.npaths = interp.cut_paths = 0
        for k in interp.inlined:
            d = interp.P.defs.get(k)
            if d:
                self.functions.add((d.fn, rel(d.file), d.line))
        for k, v in interp.unsupported.items():
            kk = "%s in %s:%s" % k
            self.unsupported[kk] = self.unsupported.get(kk, 0) + v

    def interp(self, P, cfg=None):
        if self.thorough and cfg is not None and not getattr(cfg, "deepened", False):
            cfg.deepened = True
            cfg.unroll += 1
            cfg.max_paths *= 4
            cfg.depth += 4
        return ai.Interp(P, cfg)


def where(fun):
    return "%s:%d (%s)" % (rel(fun.file), fun.line, fun.fn)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> key=<rule|instance> :: description
                head, _, desc = l[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                out.append((d.get("property"), d.get("key"), desc.strip()))
    return out


def run(pid, tier, seed):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module("rules." + pid.lower())
    ctx.sub(pid, mod.run, ctx)
    viol = [o for o in ctx.obs if o[2] == "violated"]
    und = [o for o in ctx.obs if o[2] == "undecided"]
    held = [o for o in ctx.obs if o[2] == "held"]
    if not held and not viol:
        raise AnalysisBroken("no obligation was decided: %s" % ("; ".join("%s: %s" % (o[1], o[4]) for o in und)[:600]))
    kf = known_findings()
    fresh, listed = [], []
    for o in viol:
        key = (o[0] + "|" + o[1]).replace(" ", "_")
        m = [d for (p, k, d) in kf if p == pid and k == key]
        (listed if m else fresh).append((o, m[0] if m else ""))
    ev = os.environ.get("SXA_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    perrule = {}
    for o in ctx.obs:
        perrule.setdefault(o[0], {"held": 0, "violated": 0, "undecided": 0})[o[2]] += 1
    expl = ("Abstract interpretation of the typed program clang resolves from /repo's current sources; %d translation "
            "units parsed, %d function bodies analysed, %d abstract paths walked (%d cut at the loop/recursion bound). "
            "%d obligations decided, %d undecided." % (len(ctx.units), len(ctx.functions), ctx.stats["paths"],
                                                         ctx.stats["cut_paths"], len(held) + len(viol), len(und)))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": expl,
            "rules": ctx.rules,
            "per_rule": perrule,
            "obligations": len(ctx.obs), "discharged": len(held),
            "checker_cmd": "python3 check.py %s" % pid,
            "trusted_base": ["clang 18 front end (AST, overload and template resolution)", "/verif/sa abstract interpreter and its models of the C/C++ library"],
            "units": ctx.units[:60],
            "functions": sorted("%s %s:%d" % f for f in ctx.functions)[:400],
            "undecided": [list(o) for o in und[:60]],
            "instances": ["%s | %s | %s" % (o[0], o[1], o[3]) for o in ctx.obs][:600],
            "unsupported_constructs": ctx.unsupported,
            "notes": ctx.notes,
        },
        "violations": [list(o) for o, _ in fresh],
        "known_findings": [list(o) for o, _ in listed],
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: %s" % (pid, expl))
    for r in sorted(perrule):
        print("  rule %-28s held %d, violated %d, undecided %d" % (r, perrule[r]["held"], perrule[r]["violated"], perrule[r]["undecided"]))
    for o in und[:20]:
        print("  undecided: %s %s %s %s" % (o[0], o[1], o[3], o[4]))
    seen = set()
    for o, d in listed:
        k = (o[0], o[1])
        if k in seen:
            continue
        seen.add(k)
        print("KNOWN-FINDING: property=%s %s" % (pid, d or (o[1] + ": " + o[4])))
    if fresh:
        rp = os.path.join(ev, pid + ".replay.txt")
        with open(rp, "w") as f:
            for o, _ in fresh:
                f.write("rule: %s -- %s\ninstance: %s\nwhere: %s\nwhat: %s\n\n" % (o[0], ctx.rules.get(o[0], ""), o[1], o[3], o[4]))
        seen = set()
        for o, _ in fresh:
            k = (o[0], o[1])
            if k in seen:
                continue
            seen.add(k)
            print("  violated: rule %s, instance %s\n    at %s\n    %s" % (o[0], o[1], o[3], o[4]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        sys.exit(run(pid, tier, seed))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        sys.exit(3)
