"""developer tool: run the proofs of one property and print everything"""
import importlib, sys, time, traceback
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))))
from dv.prog import Program
from dv.engine import Engine
from dv.harness import Cx


def main():
    pid = sys.argv[1]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    m = importlib.import_module("props." + pid)
    prog = Program()
    for p in m.PROOFS:
        if only and p.name not in only:
            continue
        t = time.time()
        prog.__dict__.pop("global_symbolic", None)
        e = Engine(prog)
        if "-b" in sys.argv:
            e.bounded = 3
        try:
            p.fn(Cx(prog, p.name, e))
        except Exception:
            traceback.print_exc()
        bad = [o for o in e.obls.values() if o.ok != o.n]
        print(f"== {p.name}: {sum(o.n for o in e.obls.values())} obligations ({len(e.obls)} named), {len(bad)} bad, "
              f"{e.queries} queries {e.solver_time:.2f}s solver, {time.time()-t:.2f}s, steps {e.steps}, loops {e.loops_cut}")
        for n, c in e.covers.items():
            if not c:
                print("   NOT COVERED:", n)
        for o in bad:
            print("   BAD", o.name, f"n={o.n} ok={o.ok} failed={o.failed} unknown={o.unknown}")
        for f in e.failures[:3]:
            print("   FAIL", f.name)
            print("      inputs", {k: f.model.eval(v, model_completion=True) for k, v in f.extra.get('inputs', {}).items()})
            print("      trace", f.trace[-12:])
        if len(sys.argv) > 2 and sys.argv[-1] == '-v':
            for o in e.obls.values():
                print("   ", o.name, o.n, f"{o.time:.2f}")
    prog.close()


main()
