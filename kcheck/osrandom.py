"""P12: every platform branch of randombytes()."""
import json, os, subprocess
from . import build, kem
from .build import Broken
Finding = kem.Finding
BRANCHES = {"linux": [], "windows": ["-U__linux__", "-D_WIN32", "-I", os.path.join(build.VERIF, "stubs/win")], "netbsd": ["-U__linux__", "-D__NetBSD__=1"], "device": ["-U__linux__"]}

def check(work, tier):
    fs, unknown, cov = [], [], dict(branches={}, source_call_states=0, returns_checked=0, aborts_checked=0, loop_joins=0, steps=0)
    done = set()
    for impl in ("ref", "avx2"):
        src = os.path.realpath(f"{build.REPO}/{impl}/randombytes.c")
        if not os.path.exists(src): raise Broken(f"{impl}/randombytes.c not found")
        if src in done: continue
        done.add(src)
        for br, fl in BRANCHES.items():
            bc = f"{work.dir}/rand_{impl}_{br}.bc"; name = f"randombytes/{impl}/{br}"
            # optimisation level and vector flags do not matter: the IR is taken before any optimisation
            r = subprocess.run(["clang"] + work.BASE + fl + [os.path.basename(src), "-o", bc], cwd=os.path.dirname(src), capture_output=True, text=True)
            if r.returncode: unknown.append(f"{name}: does not compile: {r.stderr[-300:]}"); continue
            p = subprocess.run([build.KYAN, "rand", "--", bc], capture_output=True, text=True, timeout=300)
            try: d = json.loads(p.stdout)
            except ValueError: unknown.append(f"{name}: analyser exit {p.returncode}: {p.stderr[-300:]}"); continue
            for v in d["violations"]: fs.append(Finding("P12", name, v["where"], v["msg"].split("]")[0][1:], v["msg"].split("] ", 1)[1]))
            unknown += [f"{name}: {u}" for u in d["unresolved"]]
            if not d["violations"] and not d["unresolved"] and not (d["source_call_states"] and d["returns"]): unknown.append(f"{name}: no call of a random source was found")
            cov["branches"][name] = dict(sources=d["source_interfaces"], call_states=d["source_call_states"], returns=d["returns"], aborts=d["aborts"])
            for a, b in (("source_call_states", "source_call_states"), ("returns_checked", "returns"), ("aborts_checked", "aborts"), ("loop_joins", "loop_joins"), ("steps", "steps")): cov[a] += d[b]
    return fs, unknown, cov

CHECKS = {"P12": check}
EXPL = {"P12": "Typestate of the random source (each call forks into full, short, empty, interrupted and failed) combined with an affine-equality domain over output pointer, remaining length and bytes filled, to a fixpoint over the loops, for all four platform branches."}
