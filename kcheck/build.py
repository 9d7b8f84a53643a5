"""Compiles /repo's current sources to LLVM IR (and disassembles the assembly files) in a scratch directory."""
import os, subprocess, tempfile, shutil, glob, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KY_REPO", "/repo")
KYAN = os.path.join(VERIF, "build", "kyan")
JOBS = int(os.environ.get("KY_JOBS", "8"))

class Broken(Exception):
    """the analysis itself could not be carried out"""

def analyser():
    r = subprocess.run(["make", "-s", "-j8", "-C", VERIF], capture_output=True, text=True)
    if r.returncode or not os.path.exists(KYAN):
        raise Broken("analyser does not build: " + r.stderr[-2000:])
    return KYAN

class Work:
    """scratch directory with one sub-directory per library configuration"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="kycheck.")
        self.configs = {}
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)
    BASE = ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-g", "-w"]
    VEC = ["-mavx2", "-mbmi2", "-mpopcnt", "-march=x86-64-v3"]
    def compile(self, configs, extra=()):
        jobs = []
        for impl, k in configs:
            out = f"{self.dir}/{impl}{k}"; os.makedirs(out, exist_ok=True)
            src = f"{REPO}/{impl}"
            fl = self.BASE + [f"-DKYBER_K={k}"] + (self.VEC if impl == "avx2" else []) + list(extra)
            bcs, objs = [], []
            for f in sorted(glob.glob(f"{src}/*.c")):
                o = f"{out}/{os.path.basename(f)[:-2]}.bc"; bcs.append(o)
                jobs.append((["clang"] + fl + [os.path.basename(f), "-o", o], src))
            if impl == "avx2":
                for f in sorted(glob.glob(f"{src}/keccak4x/*.c")):
                    o = f"{out}/k4x_{os.path.basename(f)[:-2]}.bc"; bcs.append(o)
                    jobs.append((["clang"] + fl + ["keccak4x/" + os.path.basename(f), "-o", o], src))
            for f in sorted(glob.glob(f"{src}/*.S")):
                o = f"{out}/{os.path.basename(f)[:-2]}.o"; objs.append(o)
                jobs.append((["clang", "-g", "-c", f"-DKYBER_K={k}", os.path.basename(f), "-o", o], src))
            if not bcs: raise Broken(f"no sources found in {src}")
            self.configs[(impl, k)] = dict(bc=bcs, objs=objs, dir=out, asm=None)
        def one(j):
            r = subprocess.run(j[0], cwd=j[1], capture_output=True, text=True)
            return None if r.returncode == 0 else " ".join(j[0][-3:]) + ": " + r.stderr[-600:]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for e in ex.map(one, jobs):
                if e: raise Broken("source does not compile: " + e)
        for c in self.configs.values():
            if c["objs"] and not c["asm"]:
                r = subprocess.run(["objdump", "-d", "-l", "-r", "--no-show-raw-insn"] + c["objs"], capture_output=True, text=True)
                if r.returncode: raise Broken("objdump: " + r.stderr[-500:])
                c["asm"] = c["dir"] + "/asm.txt"
                open(c["asm"], "w").write(r.stdout)
        return self
