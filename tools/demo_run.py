"""Build libexactreal from the current directory together with demo.cc (next to this file) and run it."""
import glob, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
lib = os.path.join(os.getcwd(), "libexactreal")
with tempfile.TemporaryDirectory(prefix="exactreal-demo-") as tmp:
    gen = os.path.join(tmp, "gen", "exact-real")
    os.makedirs(gen)
    with open(os.path.join(lib, "exact-real", "local.hpp.in")) as s, open(os.path.join(gen, "local.hpp"), "w") as d:
        d.write(s.read().replace("@libdir@", "/usr/local/lib"))
    flags = ["g++", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + here + "/shims", "-I" + os.path.join(tmp, "gen"), "-I" + gen, "-I" + lib]
    flags += [w for l in open(here + "/demo.cc") if l.startswith("// flags:") for w in l.split()[2:]]
    jobs = [(f, os.path.join(tmp, "%d.o" % i)) for i, f in enumerate(sorted(glob.glob(lib + "/src/*.cc")) + [here + "/demo.cc"])]
    with ThreadPoolExecutor(8) as pool:
        for p in pool.map(lambda j: subprocess.run(flags + ["-c", j[0], "-o", j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), jobs):
            if p.returncode:
                sys.exit("demo does not compile:\n" + p.stdout[:3000])
    exe = os.path.join(tmp, "demo")
    subprocess.run(["g++"] + [o for _, o in jobs] + ["-leantic", "-leanticxx", "-lflint", "-lgmpxx", "-lgmp", "-lpthread", "-o", exe], check=True)
    try:
        r = subprocess.run([exe], timeout=60, cwd=tmp).returncode
    except subprocess.TimeoutExpired:
        print("the demonstration does not terminate")
        r = 1
    print("demo:", "passed" if r == 0 else "FAILED (%d)" % r)
    sys.exit(1 if r else 0)
