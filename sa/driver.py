"""Runs the obligations and rules of one property against /repo and reports."""
import ast
import json
import multiprocessing
import os
import sys
import time

from . import rules as R
from . import delta as _delta, stale as _stale  # noqa: F401  (they register their rules)
from .core import OK, UND, VIOL, Engine, Verdict
from .props import PROPS
from .repo import Class, Func

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BYID = {p["id"]: p for p in PROPS}
# cheap rules that every property applies to the functions of its cone that differ from the reference
DELTA_RULES = ("names", "errors", "late_binding", "hidden_state", "stale_state", "thread_order", "shared_object", "argument_purity")


def match(q, pref):
    return q == pref or q.startswith(pref + ".")


def select(eng, sel):
    """(functions, classes, modules) of the reference named by a selection."""
    pos = [s for s in sel if not s.startswith(("-", "@", "="))]
    neg = [s[1:] for s in sel if s.startswith("-")]
    only_mod = {s[1:] for s in sel if s.startswith("=")}

    def take(q):
        return any(match(q, s) for s in pos) and not any(match(q, s) for s in neg)
    funcs = [f.qual for f in eng.ref.all_funcs() if take(f.qual)]
    classes = [c.qual for c in eng.ref.all_classes() if take(c.qual)]
    mods = [m for m in eng.ref.modules if take(m) or m in only_mod]
    fm = {eng.ref_func(q).module.name for q in funcs}
    mods += [m for m in eng.ref.modules if m in fm and m not in mods]
    for s in sel:
        if s.startswith("@schema:"):
            pre = s[len("@schema:"):]
            classes += [c.qual for c in eng.ref.all_classes() if c.qual.startswith(pre) and c.qual not in classes
                        and any("ProblemGraphNode" in k.qual or "Model" in k.qual for k in eng.ref.mro(c))]
        elif s.startswith("@decl:"):
            pre = s[len("@decl:"):]
            classes += [c.qual for c in eng.ref.all_classes() if match(c.qual, pre) and c.qual not in classes
                        and (c.node.decorator_list or "node_type" in c.attrs or "type" in c.attrs)]
            for f in eng.ref.all_funcs():
                if match(f.qual, pre) and f.node.decorator_list and f.qual not in funcs and f.cls is None:
                    funcs.append("@" + f.qual)
    return funcs, classes, mods


def rule_scope(eng, sel):
    """current functions, classes, modules the rules of a property look at."""
    wide = [s.split(":", 1)[1] for s in sel if s.startswith(("@effects:", "@state:", "@names:"))]
    pos = [s for s in sel if not s.startswith(("-", "@", "="))]
    neg = [s[1:] for s in sel if s.startswith("-")]

    def take(q):
        return any(match(q, s) for s in wide) or (any(match(q, s) for s in pos) and not any(match(q, s) for s in neg))
    return ([f for f in eng.cur.all_funcs() if take(f.qual)], [c for c in eng.cur.all_classes() if take(c.qual)],
            [m for n, m in eng.cur.modules.items() if take(n)])


class Report:
    def __init__(self):
        self.verdicts, self.findings, self.stats, self.known = [], [], {}, []


_ENG = None


def _work(item):
    kind, arg = item
    e = _ENG
    try:
        if kind == "f":
            return [e.verdict(arg)]
        if kind == "d":
            f, g = e.ref_func(arg), e.cur_func(arg)
            if g is None:
                return [Verdict(arg + "@decorators", VIOL, "removed", ["registered %s no longer exists" % arg], f.module.relpath)]
            bad, und = e.decorator_notes(f, g)
            return [Verdict(arg + "@decorators", VIOL if bad else UND if und else OK, "decorators", bad or und, g.where)]
        if kind == "c":
            return e.class_obligations(arg)
        if kind == "m":
            return [e.module_obligation(arg)]
        if kind == "p":
            f = e.cur_func(arg)
            return [(arg, R.mutated_args(e, f))] if f is not None else []
    except RecursionError:
        return [Verdict(str(arg), UND, "too deep")]


def pool_map(items, procs):
    if procs <= 1 or len(items) < 8:
        return [x for it in items for x in _work(it)]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as p:
        out = []
        for r in p.imap(_work, items, chunksize=max(1, len(items) // (procs * 16))):
            out += r
        return out


def load_known(pid):
    """known findings: lines `finding: property=<id> key=<rule|construct> :: text`."""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid) and " key=" in line:
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def run(pid, tier="quick", cur_root="/repo", seed=1):
    global _ENG
    t0 = time.time()
    prop = BYID[pid]
    full = tier == "thorough"
    eng = _ENG = Engine(os.path.join(HERE, "model"), cur_root, full=full)
    procs = int(os.environ.get("SA_PROCS", "8"))
    funcs, classes, mods = select(eng, prop["select"])
    items = [("d", q[1:]) if q.startswith("@") else ("f", q) for q in funcs] + [("c", q) for q in classes] + [("m", m) for m in mods]
    rep = Report()
    changed = [q for q in funcs if not q.startswith("@") and not eng.identical(q)]
    rep.verdicts = pool_map(items, procs if (full or len(changed) > 1) else 1)
    vetted = {v.qual for v in rep.verdicts}
    # ---- rules over the current tree
    sf, sc, sm = rule_scope(eng, prop["select"])
    names = [r for r in prop["rules"] if r in R.RULES]
    if "argument_purity" in names:
        todo = [f.qual for f in sf if full or not eng.identical(f.qual) or R.ARG_TOUCH(f)]
        for q, ch in pool_map([("p", q) for q in todo], procs):
            eng._v[("mutargs", q)] = ch
    if "raising" in names or "kept_state" in names:
        todo = [f.qual for f in sf if not eng.identical(eng.rename.get(f.qual, f.qual))]
        for v in pool_map([("f", eng.rename.get(q, q)) for q in todo], procs):
            if v.status != VIOL:
                eng._v[v.qual] = v
    nrule = {}
    for r in names:
        fs, st = R.RULES[r](R.Ctx(eng, sf, sc, sm))
        rep.findings += fs
        nrule[r] = dict(st, findings=len(fs))
    # ---- delta rules: what a change in the cone introduces
    if not any(s.startswith(("@effects:", "@state:", "@names:")) for s in prop["select"]):
        ch = [f for f in sf if not eng.identical(f.qual)]
        chm = [m for m in sm if eng.ref.modules.get(m.name) is None or not eng.same_env(eng.ref.modules[m.name], m)]
        mods_ch = {f.module.name for f in ch}
        if ch or chm:
            refeng = Swapped(eng)
            rch = [eng.ref_func(f.qual) for f in ch if eng.ref_func(f.qual) is not None]
            for r in DELTA_RULES:
                if r in names:
                    continue
                if r == "argument_purity" and len(ch) > 60:
                    continue
                fs, st = R.RULES[r](R.Ctx(eng, ch, [c for c in sc if c.module.name in mods_ch], chm))
                old, _ = R.RULES[r](R.Ctx(refeng, rch, [c for c in eng.ref.all_classes() if c.module.name in mods_ch],
                                          [eng.ref.modules[m.name] for m in chm if m.name in eng.ref.modules])) if fs else ([], {})
                ok = {x.key for x in old}
                rep.findings += [x for x in fs if x.key not in ok]
                nrule[r + " (changed functions)"] = dict(st)
    rep.stats = dict(functions=len(funcs), classes=len(classes), modules=len(mods), rules=nrule)
    return finish(prop, rep, eng, tier, seed, t0, changed)


class Swapped:
    """the same engine looking at the reference tree, to tell what a change introduced."""

    def __init__(self, eng):
        self.cur, self.ref, self.full, self._v = eng.ref, eng.ref, eng.full, {}
        self.e = eng

    def identical(self, q):
        return True

    def ref_func(self, q):
        return self.e.ref_func(q)

    cur_func = ref_func

    def summ(self, tree, f, inline=frozenset(), arity=None):
        return self.e.summ(self.e.ref, f, inline, arity)


def finish(prop, rep, eng, tier, seed, t0, changed):
    pid = prop["id"]
    known = load_known(pid)
    viol, und, seen_known = [], [], set()
    for v in rep.verdicts:
        if v.status == VIOL:
            viol.append(("semantics|" + v.qual, v.where, v.how, v.notes))
        elif v.status == UND:
            und.append(v)
    for f in rep.findings:
        viol.append((f.rule + "|" + f.key, f.where, "rule " + f.rule, [f.msg]))
    new = []
    for key, where, how, notes in viol:
        if key in known:
            if key not in seen_known:
                seen_known.add(key)
                print("KNOWN-FINDING: property=%s %s (%s): %s" % (pid, key, where, known[key] or (notes or [""])[0]))
        else:
            new.append((key, where, how, notes))
    nver = len(rep.verdicts)
    if nver == 0 and not rep.stats["rules"]:
        print("ERROR: no obligations for %s: the selection matches nothing" % pid)
        sys.exit(2)
    how = {}
    for v in rep.verdicts:
        how[v.how] = how.get(v.how, 0) + 1
    for v in und:
        print("UNDECIDED %s (%s): %s" % (v.qual, v.where, "; ".join(v.notes[:2])[:300]))
    samples = [{"construct": v.qual, "where": v.where, "status": v.status, "how": v.how} for v in rep.verdicts[:5]]
    rep_dir = os.path.join(HERE, "evidence")
    os.makedirs(rep_dir, exist_ok=True)
    nholds = sum(v.status == OK for v in rep.verdicts)
    cov = {
        "explanation": "Static analysis of the current source of /repo, nothing is executed. Each function, class declaration and module level "
                       "the property rests on is one obligation: its value graph (symbolic normal form of result, writes, effects and defaults, "
                       "with new or changed helpers expanded) must equal the reference semantics in /verif/model; rules judge the current tree "
                       "on its own.",
        "functions_analysed": rep.stats["functions"], "class_declarations_analysed": rep.stats["classes"],
        "module_levels_analysed": rep.stats["modules"], "obligations": nver, "obligations_hold": nholds,
        "obligations_undecided": len(und), "changed_functions": len(changed), "decided_by": how, "rules": rep.stats["rules"],
        "known_findings_reported": len(seen_known), "samples": samples,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["third-party libraries (numpy, scipy, schematics) behave as documented",
                          "the reference semantics in /verif/model are those of the reviewed tree",
                          "floating-point re-association is not distinguished"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(rep_dir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s [%s] %d obligations (%d functions, %d classes, %d modules): %d hold, %d undecided; rules %s; %.1fs" % (
        pid, tier, nver, rep.stats["functions"], rep.stats["classes"], rep.stats["modules"], nholds, len(und),
        {k: v.get("findings", 0) for k, v in rep.stats["rules"].items()}, time.time() - t0))
    if new:
        path = os.path.join(rep_dir, "%s.violation.json" % pid)
        with open(path, "w") as fh:
            json.dump([dict(rule=k.split("|")[0], construct=k.split("|", 1)[1], where=w, how=h, notes=[str(x) for x in n])
                       for k, w, h, n in new], fh, indent=1)
            fh.write("\n")
        for key, where, h, notes in new[:12]:
            print("  %s at %s: %s" % (key, where, h))
            for n in notes[:3]:
                print("      " + str(n)[:400])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
