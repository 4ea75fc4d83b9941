#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree. usage: build.py float|double OUTDIR"""
import glob, hashlib, os, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

def build(scalar, out, opt="-O1"):
    os.makedirs(out, exist_ok=True)
    lib = os.path.join(REPO, "eskf_vio_backend")
    inc = ["-I" + d for d, _, _ in os.walk(os.path.join(lib, "include"))] + ["-I" + os.path.join(HERE, "sim"), "-I/usr/include/eigen3"]
    flags = ["-std=c++17", opt, "-g1", "-DESKF_VIO_SIM", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(HERE, "sim", "sim_assert.h"), "-fno-omit-frame-pointer"]
    if scalar == "double":
        flags.append("-DESKF_VIO_SIM_SCALAR=double")
    sut = sorted(glob.glob(os.path.join(lib, "src", "**", "*.cpp"), recursive=True))
    mine = sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp")))
    weight = {"multi_view_vision_update.cpp": 0, "trianglation.cpp": 0, "ref.cpp": 1, "perspective_n_point.cpp": 1}
    jobs = [(f, os.path.join(out, ("s_%d_" if f in sut else "h_%d_") % k + os.path.basename(f)[:-4] + ".o")) for k, f in enumerate(sut + mine)]
    jobs.sort(key=lambda j: weight.get(os.path.basename(j[0]), 2))
    cache = os.environ.get("VSIM_CACHE")            # development only: objects keyed by their preprocessed source
    def one(j):
        key = None
        if cache:
            r = subprocess.run(["g++", "-E", "-P"] + flags + inc + [j[0]], capture_output=True)
            key = os.path.join(cache, hashlib.sha256(r.stdout + repr([opt, scalar]).encode()).hexdigest()) if r.returncode == 0 else None
            if key and os.path.exists(key):
                shutil.copy(key, j[1])
                return j[0], 0, ""
        r = subprocess.run(["g++"] + flags + inc + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
        if key and r.returncode == 0:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(j[1], key + ".tmp%d" % os.getpid()); os.replace(key + ".tmp%d" % os.getpid(), key)
        return j[0], r.returncode, r.stderr
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, rc, err in ex.map(one, jobs):
            if rc:
                sys.stderr.write("compilation of %s failed:\n%s\n" % (f, err[-4000:]))
                return None
    exe = os.path.join(out, "vsim")
    r = subprocess.run(["g++", "-o", exe] + [j[1] for j in jobs] + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write("linking failed:\n%s\n" % r.stderr[-4000:])
        return None
    return exe

if __name__ == "__main__":
    exe = build(sys.argv[1], sys.argv[2])
    sys.exit(0 if exe else 2)
