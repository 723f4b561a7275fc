"""The provers: generate the obligations of a property from /repo's current source and have them decided."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import time

import vres
from obligations import Result, verus, smt_time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
WORKERS = 8
RETRY = ("--rlimit", "40", "--smt-option", "smt.random_seed=7")


def is_eats(n):
    return n in ("eats", "fb_eats") or n.startswith(("e_", "c10_", "any_eats"))


def only_eats(n):
    return is_eats(n)


def no_eats(n):
    return not is_eats(n)


_em = None


def grammar_units(want):
    from verus_gen import build, emit, Book, Index, load_ast
    em = build(Index(load_ast()))
    units = emit(em)
    return em, units, Book(em, units, want)


def baseline():
    return json.load(open(os.path.join(HERE, "baseline.json")))


def canary(em, name):
    """must be rejected: otherwise the contracts of this type are contradictory"""
    if name not in em.types or name not in em.entities:
        return None
    return ("// ---- unit canary\nproof fn canary_%s(x: %s, k: Txt)\n    requires x.wf(), %s::fol(k)\n{\n    x.rt(k); x.first(k); %s::eats(x.sh(k)); %s::val(k);\n    assert(false);\n}\n"
            % (name, name, name, name, name))


def run_part(book, em, own, path, timeout, canaries=(), extra=()):
    text = book.part(own)
    cs = [c for c in (canary(em, n) for n in canaries) if c]
    if cs:
        i = text.rindex("} // verus!")
        text = text[:i] + "\n".join(cs) + text[i:]
    open(path, "w").write(text)
    r, o = verus(path, timeout, extra)
    open(path + ".out", "w").write(o)
    if r is None:
        return None, o, text
    errs = {}
    for head, fs, blk in vres.errors(text, o):
        own_fs = [f for f in fs if f[0] in own or f[0] == "canary"] or fs or [("", "?")]
        # the proof function whose obligation it is: the innermost site within the units under proof
        pick = next((f for f in own_fs if f[1] and not re.match(r"(sh|ps|fb|wf)_", f[1].split("::")[-1])), own_fs[0])
        errs.setdefault(pick, []).append((head, blk))
    return errs, o, text


def grammar(select, want=None, canary_units=()):
    """prover for the units chosen by select(unit name, em); `want` filters their proof functions"""

    def prover(res, out_dir, left):
        em, units, book = grammar_units(want)
        res.backends.setdefault("verus/z3", 0)
        deep = os.environ.get("VERIF_TIER") == "thorough"
        mine = [u for u in units if select(u.name, em)]
        names = [u.name for u in mine]
        obl = {u.name: [o for o in u.obligations() if want is None or want(o.split("::")[-1])] for u in mine}
        base = baseline()
        from types import SimpleNamespace
        frozen_em = SimpleNamespace(**base["kinds"])
        for n, fs in base["units"].items():
            if not select(n, frozen_em):
                continue
            for f in fs:
                if re.match(r"(e_|rt_|c10_[A-Z]|any_eats|fzi_|fzl_|[A-Z]\w*_loop)", f):  # auxiliary lemmas: their names depend on the code's shape
                    continue
                if (want is None or want(f.split("::")[-1])) and f not in obl.get(n, ()):
                    why = next((w for a, w in em.unsup if a == n), None) or (em.types[n].why if n in em.types and em.types[n].why else "this obligation could not be generated from the current source")
                    res.undecided.append(("%s/%s" % (n, f), str(why)[:300]))
        if want and want("c10_"):
            res.undecided += [("partial/%s" % w, "not within reach of the contracts") for w in sorted(set(em.part_unsup + ["partial operation at %s:%s" % x[:2] for x in em.g.panics]))]
        todo = [u for u in mine if obl[u.name]]
        k = min(24, max(1, len(todo) // 2))
        parts = [[] for _ in range(k)]
        load = [0] * k
        for u in sorted(todo, key=lambda u: -u.size()):
            i = load.index(min(load))
            parts[i].append(u.name)
            load[i] += u.size() + 2000
        parts = [p for p in parts if p]
        res.cmd = "RUST_MIN_STACK=400000000 verus --multiple-errors 4 --num-threads 1 --time %s/p<i>.rs" % out_dir
        rejected = {}

        def job(a):
            i, own = a
            cs = [n for n in own if n in em.entities]
            cs = cs if deep else cs[:1]
            return i, own, cs, run_part(book, em, set(own), os.path.join(out_dir, "p%s.rs" % i), left(), cs, RETRY if "_r" in i else ())

        queue = [(str(i), p) for i, p in enumerate(parts)]
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            while queue:
                nxt = []
                for i, own, cs, (errs, o, text) in ex.map(job, queue):
                    res.solver += smt_time(o)
                    if errs is None:
                        if len(own) > 1 and left() > 60:
                            nxt += [("%s_%d" % (i, j), [n]) for j, n in enumerate(own)]
                            continue
                        why = "timeout" if o == "timeout" else (re.search(r"error[^\n]*\n[^\n]*", o) or re.search(r"[^\n]*", o)).group(0)
                        for n in own:
                            res.undecided += [("%s/%s" % (n, f), "not accepted as input by the verifier: " + why[:300]) for f in obl[n]]
                        continue
                    for c in cs:
                        rejected[c] = ("canary", "canary_" + c) in errs
                    again = set()
                    for (un, fn), l in errs.items():
                        if un == "canary":
                            continue
                        # once more alone, with other parameters of the search: a proof is a proof however it is found
                        if "_r" not in i and left() > 90:
                            again.add(un if un in own else own[0])
                    for n in own:
                        if n in again:
                            continue
                        bad = {fn: l for (un, fn), l in errs.items() if un == n}
                        for f in obl[n]:
                            l = bad.pop(f, None)
                            if l is None:
                                res.discharged += 1
                                res.backends["verus/z3"] += 1
                            elif any("rlimit" in b or "Resource limit" in b for _, b in l):
                                res.undecided.append(("%s/%s" % (n, f), "the solver's resource limit was reached"))
                            else:
                                res.failed.append(("%s/%s" % (n, f), l[0][1][:1500]))
                        for f, l in bad.items():
                            res.failed.append(("%s/%s" % (n, f), l[0][1][:1500]))
                    for (un, fn), l in errs.items():
                        if un != "canary" and un not in own and not again:
                            res.failed.append(("%s/%s" % (un or "contract", fn), l[0][1][:1500]))
                    nxt += [("%s_r%d" % (i, j), [n]) for j, n in enumerate(sorted(again)) if n in own]
                queue = nxt
        res.functions |= functions_of(em, names)
        for c, ok in sorted(rejected.items()):
            res.canaries.append({"obligation": "false follows from the contracts of " + c, "ok": ok, "outcome": "rejected" if ok else "ACCEPTED"})

    return prover


def functions_of(em, names):
    out = set()
    for n in names:
        if n in em.types:
            out.add("<%s as IFCParse>::parse" % n)
            out.add("<%s as Display>::fmt" % n)
        elif n.startswith(("n_", "d_", "any")):
            out.add("DataMap::parse (entity alternatives)")
        elif n == "space":
            out |= {"p_space_or_comment_surrounded", "space_or_comment", "single_space_or_comment", "comment"}
    return out


def modb(name):
    """prover for the contracts over MIR: tools/targets.py's generator `name`"""

    def prover(res, out_dir, left):
        import targets
        g = getattr(targets, name)()
        res.functions |= g.functions
        res.backends.setdefault("verus/z3", 0)
        obl = g.obligations()
        und = dict(g.undecided)
        for n in baseline().get("modb", {}).get(name, ()):
            if n not in obl:
                und.setdefault(n, "this obligation could not be generated from the current source")
        res.undecided += sorted((n, str(w)[:300]) for n, w in und.items())
        reach = {n: g.reach([n]) for n in obl}
        deep = os.environ.get("VERIF_TIER") == "thorough"
        res.cmd = (res.cmd + "; " if res.cmd else "") + "RUST_MIN_STACK=400000000 verus --multiple-errors 4 --num-threads 1 --time %s/%s<i>.rs" % (out_dir, name)

        def job(a):
            i, own, cs, extra = a
            path = os.path.join(out_dir, "%s%s.rs" % (name, i))
            text = g.text(own, [g.canary(c) for c in cs])
            open(path, "w").write(text)
            r, o = verus(path, left(), extra)
            open(path + ".out", "w").write(o)
            return i, own, cs, r, o, text

        alone = [n for n in obl if g.alone(n)]
        rest = [n for n in obl if not g.alone(n)]
        k = max(1, min(WORKERS, len(rest) // 4))
        parts = [rest[i::k] for i in range(k)]
        queue = [(str(i), p, p if deep else p[:2], ()) for i, p in enumerate(parts) if p]
        queue += [("_%d" % i, [n], [n] if deep or i % 16 == 7 else [], ()) for i, n in enumerate(alone)]
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            while queue:
                nxt = []
                for i, own, cs, r, o, text in ex.map(job, queue):
                    res.solver += smt_time(o)
                    if r is None:
                        if len(own) > 1 and left() > 30:
                            nxt += [("%s_%d" % (i, j), [n], [n] if n in cs else [], ()) for j, n in enumerate(own)]
                            continue
                        why = "timeout" if o == "timeout" else (re.search(r"error[^\n]*\n[^\n]*", o) or re.search(r"[^\n]*", o)).group(0)
                        res.undecided += [(n, "not accepted as input by the verifier: " + why[:300]) for n in own]
                        continue
                    bad, noinfo, rejected = {}, {}, set()
                    for head, fs, blk in vres.errors(text, o):
                        fn = next((f for u, f in fs if f), "?")
                        if fn.startswith("canary_"):
                            rejected.add(fn[7:])
                            continue
                        soft = "rlimit" in blk or "Resource limit" in blk
                        for n in own:
                            if n == fn or fn.startswith(g.parts_of_proof) and fn in reach[n]:
                                (noinfo if soft else bad).setdefault(n, blk)
                            elif fn in reach[n] or fn == "?" or fn.startswith(("lem_", "c09_list")):
                                noinfo.setdefault(n, "the contract's library isn't accepted: " + blk)
                    for c in cs:
                        res.canaries.append({"obligation": "false follows from the assumptions of " + c, "ok": c in rejected or c in noinfo or c in bad, "outcome": "rejected" if c in rejected else "ACCEPTED"})
                    for n in own:
                        if n in bad or n in noinfo:
                            if "_r" not in i and left() > 60:
                                nxt.append(("%s_r%d" % (i, own.index(n)), [n], [], RETRY))
                            elif n in bad:
                                res.failed.append((n, bad[n][:1500]))
                            else:
                                res.undecided.append((n, noinfo[n][:300]))
                        else:
                            res.discharged += 1
                            res.backends["verus/z3"] += 1
                queue = nxt

    prover.__name__ = "modb_" + name
    return prover
