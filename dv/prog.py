"""Mechanical extraction: working tree of /repo -> LLVM IR -> Program.

Every run compiles the current files; the flags come from the repository's own
Makefile variables.  What the extraction drops: nothing of the C text that the
preprocessor keeps under the repository's configuration; the translation is
clang's -O0 lowering for x86-64 Linux.  Assembly (hev-task-execute-*.s) is not C
and is outside.
"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile
from . import llvmir

REPO = os.environ.get("DV_REPO", "/repo")
CLANG = "/usr/bin/clang-18"


class ExtractError(Exception):
    pass


def repo_flags(repo=None):
    repo = repo or REPO
    mk = "include Makefile\n__dv_print:\n\t@echo $(CCFLAGS)\n"
    # configs.mk only: including the Makefile would regenerate dependency files
    mk = "SRCDIR=src\ninclude configs.mk\n__dv_print:\n\t@echo $(CONFIG_CFLAGS)\n"
    r = subprocess.run(["make", "-s", "-f", "-", "__dv_print"], input=mk, text=True, cwd=repo, capture_output=True)
    if r.returncode:
        raise ExtractError("cannot read configs.mk: " + r.stderr)
    flags = r.stdout.split()
    return ["-I", "include", "-I", "src"] + [f for f in flags if f.startswith(("-D", "-U", "-I"))]


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".c"):
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(out)


_DEF = re.compile(r'^define (?:[^@]*?)@"?([\w.$]+)"?\(', re.M)
_GDEF = re.compile(r'^@"?([\w.$]+)"? = (.*)$', re.M)


class Program:
    def __init__(self, repo=None, extra_flags=(), workdir=None):
        self.repo = repo or REPO
        self.flags = repo_flags(self.repo) + list(extra_flags)
        self.tmp = workdir or tempfile.mkdtemp(prefix="dv-ir-")
        self._own_tmp = workdir is None
        self.mods = {}
        self.paths = {}
        self.def_in = {}      # external function name -> module name
        self.internal = {}    # module -> set of internal function names
        self.gdef_in = {}
        self.ginternal = {}
        self.alloca_hook = None
        self.const_globals = set()
        self._compile()

    def _compile(self):
        srcs = sources(self.repo) + [os.path.join(os.path.dirname(os.path.abspath(__file__)), "probe.c")]

        def one(src):
            out = os.path.join(self.tmp, src.strip("/").replace("/", "__")[:-2] + ".ll")
            cmd = [CLANG, "-w", "-O0", "-g", "-fno-discard-value-names", "-S", "-emit-llvm", "-o", out] + self.flags + [src]
            r = subprocess.run(cmd, cwd=self.repo, capture_output=True, text=True)
            if r.returncode and src.endswith("dv/probe.c"):
                return None, None      # an inline function went away; proofs that need it say so
            if r.returncode:
                raise ExtractError(f"clang failed on {src}:\n{r.stderr[-2000:]}")
            return src, out
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for src, out in ex.map(one, srcs):
                if src is None:
                    continue
                name = os.path.basename(src)[:-2]
                if name in self.paths:
                    name = src
                self.paths[name] = out
                text = open(out).read()
                self.internal[name] = set()
                for m in _DEF.finditer(text):
                    line = text[m.start():m.end()]
                    if ' internal ' in line or ' private ' in line:
                        self.internal[name].add(m.group(1))
                    else:
                        self.def_in[m.group(1)] = name
                self.ginternal[name] = set()
                for m in _GDEF.finditer(text):
                    rest = m.group(2)
                    if rest.startswith(('internal', 'private')):
                        self.ginternal[name].add(m.group(1))
                    elif not rest.startswith('external'):
                        self.gdef_in[m.group(1)] = name

    def close(self):
        if self._own_tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def mod(self, name):
        if name not in self.mods:
            self.mods[name] = llvmir.load(self.paths[name], name)
        return self.mods[name]

    def fn_key(self, name, module=None):
        mn = module.name if module is not None and not isinstance(module, str) else module
        if mn and name in self.internal.get(mn, ()):
            return mn + ":" + name
        return name

    def by_key(self, key):
        if ":" in key:
            mn, n = key.split(":", 1)
            return self.mod(mn).funcs.get(n)
        if key in self.def_in:
            return self.mod(self.def_in[key]).funcs.get(key)
        return None

    def func(self, name, module=None):
        if module:
            f = self.mod(module).funcs.get(name)
            if f:
                return f
        f = self.by_key(name)
        if f:
            return f
        for mn, s in self.internal.items():
            if name in s:
                return self.mod(mn).funcs.get(name)
        return None

    def global_key(self, name, module=None):
        mn = module.name if module is not None and not isinstance(module, str) else module
        if mn and name in self.ginternal.get(mn, ()):
            return mn + ":" + name
        return name

    def global_def(self, key):
        if ":" in key:
            mn, n = key.split(":", 1)
            return self.mod(mn).globals.get(n), self.mod(mn)
        if key in self.gdef_in:
            m = self.mod(self.gdef_in[key])
            return m.globals.get(key), m
        return None, None

    def global_symbolic(self, key):
        return key not in self.const_globals

    def struct(self, name, module=None):
        """field -> (offset, size); searches the given module first"""
        if module:
            s = self.mod(module).structs.get(name)
            if s:
                return s
        for mn in self.mods:
            s = self.mods[mn].structs.get(name)
            if s:
                return s
        raise ExtractError(f"struct {name} not found")
