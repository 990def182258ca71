"""After a failed obligation: look for a concrete failing run of the real code.

`/verif/witness/<property>.c` is linked with the library built from the current
working tree; it replays the verifier's counterexample values (name=value
arguments) where they apply and otherwise tries generated scenarios.  It never
decides a property: it is only run after an obligation failed or was undecided.
"""
import os
import shutil
import subprocess
import tempfile
from .prog import repo_flags, sources

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build_lib(repo, tmp, opt="-O1"):
    flags = repo_flags(repo)
    objs = []
    procs = []
    for src in sources(repo):
        o = os.path.join(tmp, src.replace("/", "__") + ".o")
        objs.append(o)
        procs.append(subprocess.Popen(["gcc", "-w", opt, "-g", "-c", "-o", o] + flags + [src], cwd=repo,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    asm = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        asm += [os.path.relpath(os.path.join(d, f), repo) for f in fs if f.endswith(".S")]
    for a in asm:
        o = os.path.join(tmp, a.replace("/", "__") + ".o")
        objs.append(o)
        procs.append(subprocess.Popen(["gcc", "-c", "-x", "assembler-with-cpp", "-o", o] + flags + [a], cwd=repo,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise RuntimeError(out.decode()[-500:])
    return objs, flags


def search(pid, mod, repo, seed, inputs, log, budget=120):
    src = os.path.join(ROOT, "witness", pid + ".c")
    if not os.path.exists(src):
        return None
    tmp = tempfile.mkdtemp(prefix="dv-wit-")
    try:
        try:
            objs, flags = build_lib(repo, tmp)
            exe = os.path.join(tmp, "wit")
            r = subprocess.run(["gcc", "-w", "-O1", "-g", "-o", exe, "-I", os.path.join(ROOT, "witness")] + flags + [src] + objs + ["-lpthread", "-z", "noexecstack"],
                               cwd=repo, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr[-800:])
        except RuntimeError as x:
            log.append(f"witness not built: {x}")
            return None
        runs = []
        seen = set()
        for i in inputs[:6]:
            a = tuple(f"{k}={v}" for k, v in sorted(i.items()) if v.isdigit())
            if a not in seen:
                seen.add(a)
                runs.append(list(a))
        runs.append([])
        n = 0
        for a in runs:
            try:
                r = subprocess.run([exe, str(seed)] + a, cwd=tmp, capture_output=True, text=True, timeout=budget,
                                   errors="replace", stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired as x:
                out = (x.stdout or b"")
                out = out.decode(errors="replace") if isinstance(out, bytes) else out
                return dict(found=f"the run does not end within {budget} s; last output: {out[-300:]}", args=a, source=src)
            if r.returncode != 0:
                why = r.stdout[-2000:] + r.stderr[-500:]
                if r.returncode < 0:
                    why += f" (killed by signal {-r.returncode})"
                return dict(found=why or f"exit {r.returncode}", args=a, source=src)
            for ln in r.stdout.splitlines():
                if ln.startswith("scenarios="):
                    n += int(ln.split("=")[1])
        return dict(found=None, ran=n, source=src)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
