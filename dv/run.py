"""check runner: python3-vt dv/run.py <property>

exit 0  every obligation generated from /repo's current sources was discharged
        (or, where the proof machinery cannot treat changed code, the labelled
        bounded stand-in found nothing)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dv.prog import Program, ExtractError, REPO, sources          # noqa: E402
from dv.engine import Engine, LoopSpec, Unsupported, Budget        # noqa: E402
from dv.harness import Cx, TRUST                         # noqa: E402
from dv import witness                                   # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVID = os.path.join(ROOT, "evidence")
_G = {}


def trace_tail(f):
    return f.trace[-30:]


def run_proof(args):
    idx, bounded, budget = args
    prog, mod = _G['prog'], _G['mod']
    p = mod.PROOFS[idx]
    t0 = time.time()
    TRUST.used.clear()
    err = None

    def attempt(default_loop):
        e = Engine(prog, deadline=t0 + budget)
        e.bounded = bounded
        e.patience = _G.get('patience', 1)
        e.default_loop = default_loop
        _G['e'] = e
        p.fn(Cx(prog, p.name, e))
    try:
        try:
            attempt(None)
        except Unsupported as x:
            # a loop without a given invariant: try the inferred ones
            if bounded is not None or "needs an invariant" not in str(x) or _G['e'].failures:
                raise
            attempt(LoopSpec)
    except Unsupported as x:
        err = f"unsupported: {x}"
    except Budget as x:
        err = f"budget: {x}"
    except ExtractError as x:
        err = f"extract: {x}"
    except RecursionError:
        err = "unsupported: recursion"
    except Exception as x:       # a bug of the machinery is no verdict
        err = "internal: " + "".join(traceback.format_exception(x))[-1500:]
    e = _G['e']
    fails = []
    for f in e.failures:
        inp = {}
        for k, v in f.extra.get('inputs', {}).items():
            try:
                inp[k] = str(f.model.eval(v, model_completion=True))
            except Exception:
                inp[k] = "?"
        fails.append(dict(obligation=f.name, kind=f.kind, inputs=inp, trace=trace_tail(f),
                          model=str(f.model)[:3000]))
    return dict(name=p.name, functions=list(p.functions), idx=idx, bounded=bounded, err=err,
                obls=[(o.name, o.n, o.ok, o.failed, o.unknown, round(o.time, 3)) for o in e.obls.values()],
                covers=dict(e.covers), fails=fails, shaky=e.shaky, unknowns=list(e.unknowns), inlined=sorted(e.inlined),
                loops=dict(e.loops_cut), cuts=e.bounded_cuts, solver=e.solver_time, queries=e.queries,
                portfolio=e.portfolio, trust=dict(TRUST.used), wall=time.time() - t0)


def pmap(jobs, nproc):
    """each proof in its own forked process (a crash of one is an error of that one only)"""
    out = []
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(run_proof, (j,))) for j in jobs]
        for j, r in rs:
            try:
                out.append(r.get(timeout=j[2] + 120))
            except Exception as x:
                out.append(dict(name=_G['mod'].PROOFS[j[0]].name, functions=[], idx=j[0], bounded=j[1],
                                err=f"internal: {x!r}", obls=[], covers={}, fails=[], shaky=False, unknowns=[], inlined=[],
                                loops={}, cuts=0, solver=0.0, queries=0, portfolio=0, trust={}, wall=0.0))
    return out


def ok(r):
    return (r['err'] is None and not r['fails'] and not r['unknowns'] and sum(o[1] for o in r['obls']) > 0
            and all(o[1] == o[2] for o in r['obls']) and all(r['covers'].values()) and len(r['covers']) > 0)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    mod = importlib.import_module("props." + pid)
    _G['mod'] = mod
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    try:
        prog = Program()
    except ExtractError as x:
        print(f"ERROR property={pid} cannot extract: {x}")
        return 2
    _G['prog'] = prog
    try:
        return decide(pid, mod, prog, t0)
    finally:
        prog.close()


def decide(pid, mod, prog, t0):
    nproc = int(os.environ.get("DV_PROCS", "6"))
    budget = getattr(mod, "BUDGET", 240 if TIER == "quick" else 600)
    idxs = [i for i, p in enumerate(mod.PROOFS) if TIER == "thorough" or p.tier == "quick"]
    res = pmap([(i, None, budget) for i in idxs], nproc)
    bad = [r for r in res if not ok(r)]
    failed = [r for r in bad if r['fails']]
    undecided = [r for r in bad if not r['fails']]
    bounded_res, notes, viol = [], [], None
    wit = None
    if bad:
        # second opinion without invariants: exact unrolling up to a stated bound
        bound = getattr(mod, "BOUND", 3)
        wit = witness.search(pid, mod, REPO, SEED, [f['inputs'] for r in failed for f in r['fails']], log=notes)
        shaky = [r for r in failed if r['shaky']]
        if shaky and not (wit and wit.get('found')):
            # the solver ran out of time while looking for invariants (a loaded machine?): once more with patience
            _G['patience'] = 4
            left = 600 - (time.time() - t0)
            again = {r['idx']: r for r in (pmap([(r['idx'], None, left) for r in shaky], nproc) if left > 60 else [])}
            _G['patience'] = 1
            for k, r in enumerate(res):
                if r['idx'] in again:
                    res[k] = again[r['idx']]
                elif any(r is x for x in shaky):
                    r['unknowns'] += sorted({f['obligation'] for f in r['fails']})
                    r['fails'] = []
            notes.append("solver out of time, tried again: " + ", ".join(r['name'] for r in shaky))
            bad = [r for r in res if not ok(r)]
            failed = [r for r in bad if r['fails']]
            undecided = [r for r in bad if not r['fails']]
        if bad and not (wit and wit.get('found')):
            bounded_res = pmap([(r['idx'], bound, 150) for r in bad if not r['fails'] or r['loops']], nproc)
        bfail = [r for r in bounded_res if r['fails']]
        allf = [f for r in bfail + failed for f in r['fails']]
        if bfail and not (wit and wit.get('found')):
            w2 = witness.search(pid, mod, REPO, SEED, [f['inputs'] for r in bfail for f in r['fails']], log=notes)
            wit = w2 or wit
        if failed or bfail or (wit and wit.get('found')):
            viol = allf or [dict(obligation=f"{r['name']}: (not discharged: {r['err'] or 'undecided'})", kind='undecided', inputs={}, trace=[], model='') for r in undecided]
        else:
            for r in undecided:
                b = [x for x in bounded_res if x['idx'] == r['idx']][0]
                why = r['err'] or (("undecided: " + ", ".join(r['unknowns'][:3])) if r['unknowns'] else "not covered: " + ", ".join(k for k, v in r['covers'].items() if not v))
                if b['err'] is None and not b['unknowns'] and sum(o[1] for o in b['obls']):
                    notes.append(f"BOUNDED (not proved): {r['name']}: {why}; stand-in: exact exploration with every loop limited to {bound} iterations found nothing")
                    r['standin'] = f"symbolic, {bound} iterations"
                elif wit is not None and wit.get('ran'):
                    notes.append(f"BOUNDED (not proved): {r['name']}: {why}; stand-in: {wit['ran']} native scenarios found nothing")
                    r['standin'] = f"native scenarios: {wit['ran']}"
                else:
                    notes.append(f"NO ANSWER: {r['name']}: {why}; bounded: {b['err']}")
                    r['standin'] = None
    total = sum(o[1] for r in res for o in r['obls'])
    disch = sum(o[2] for r in res for o in r['obls'])
    proved = [r for r in res if ok(r)]
    trust = {}
    for r in res:
        trust.update(r['trust'])
    funcs = sorted({f for r in proved for f in r['functions']})
    inl = sorted({f for r in proved for f in r['inlined']})
    noans = [r for r in undecided if not viol and r.get('standin') is None]
    ev = dict(property=pid, tier=TIER, seed=SEED, level="proof" if not bad else "other",
              coverage=dict(obligations=total, discharged=disch,
                            checker_cmd=f"cd /verif && python3-vt dv/run.py {pid}  (Z3 {z3v()}, LLVM IR from clang-18 -O0 of /repo/src)",
                            trusted_base=[f"{k}: {v}" for k, v in sorted(trust.items())] + [
                                "clang-18 -O0 lowering of the sources under the repository's configuration, LLVM IR semantics as implemented in dv/engine.py",
                                "Z3 as the solver of the obligations"],
                            functions_under_contract=funcs, functions_executed_in_place=inl,
                            verified_source_sha1=digests(inl),
                            loops_cut_with_invariants={k: v for r in proved for k, v in r['loops'].items()},
                            proofs=[dict(name=r['name'], obligations=sum(o[1] for o in r['obls']), discharged=sum(o[2] for o in r['obls']),
                                         named=len(r['obls']), covers=len(r['covers']), solver_s=round(r['solver'], 2), queries=r['queries']) for r in res],
                            bounded=[dict(proof=r['name'], standin=r.get('standin')) for r in undecided if not viol],
                            solver_s=round(sum(r['solver'] for r in res), 2),
                            explanation="contract proofs over the IR of the real functions" if not bad else "some proofs did not go through; see bounded / violations"),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if notes:
        ev['coverage']['notes'] = notes
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n in notes:
        print(n)
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    print(f"property={pid} tier={TIER} proofs={len(res)} proved={len(proved)} obligations={total} discharged={disch} "
          f"solver={sum(r['solver'] for r in res):.1f}s wall={time.time()-t0:.1f}s")
    if viol:
        names = []
        for f in viol:
            if f['obligation'] not in names:
                names.append(f['obligation'])
        h = hashlib.sha1(json.dumps(names).encode()).hexdigest()[:10]
        rp = os.path.join(EVID, "replay", f"{pid}-{h}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, failed_obligations=names, verifier="dv (Z3)", failures=viol[:12], witness=wit,
                           seed=SEED, repo=REPO), f, indent=1, default=str)
        for n in names[:12]:
            print("FAILED obligation:", n)
        found = bool(wit and wit.get('found'))
        if found:
            print("replayed on the real code:", wit['found'][:300].replace("\n", " | "))
        print(f"VIOLATION property={pid} replay={rp}" + ("" if found else " no-failing-input-found"))
        return 1
    if noans:
        print(f"ERROR property={pid} no answer for: " + ", ".join(r['name'] for r in noans))
        return 2
    return 0


def digests(inl):
    mods = {f.split(":")[0] for f in inl}
    out = {}
    for src in sources():
        if os.path.basename(src)[:-2] in mods:
            with open(os.path.join(REPO, src), "rb") as f:
                out[src] = hashlib.sha1(f.read()).hexdigest()
    return out


def z3v():
    import z3
    return z3.get_version_string()


COMMON_ASSUMPTIONS = [
    "partial correctness: termination of loops is not proved",
    "machine integers are bit-vectors of their real width; nothing is treated as a mathematical integer",
    "distinct live objects do not overlap; the order of addresses of distinct objects is arbitrary",
    "obligations are generated for the repository's default configuration (configs.mk) on x86-64 Linux",
]


def known_findings(pid):
    out = []
    try:
        for ln in open(os.path.join(ROOT, "known-findings.txt")):
            if ln.startswith(f"known: property={pid} "):
                out.append(ln.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
