"""Builds the engine (pass, runtime, explorer) into engine/build; skipped when the sources are unchanged."""
import hashlib, os, subprocess, sys, fcntl
ENG = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(ENG, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG = "/usr/bin/clang++-18"

# instrumented compilation
SXF = ["-O2", "-g1", "-std=c++17", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-jump-tables",
       "-ffp-contract=off", "-fno-pie", "-I" + os.path.join(ENG, "include", "override"),
       "-fpass-plugin=" + os.path.join(OUT, "libsxpass.so"), "-w"]
SOURCES = ["include/sx_ops.h", "include/sx.hpp", "include/override/bits/c++config.h", "include/override/bits/quoted_string.h", "pass/SxPass.cpp", "rt/sx_rt.cpp", "rt/sx_libc.cpp",
           "rt/sx_native.cpp", "explorer/explorer.cpp", "build.py"]


def digest():
    h = hashlib.sha256(ENG.encode())
    for s in SOURCES:
        h.update(open(os.path.join(ENG, s), "rb").read())
    return h.hexdigest()


def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(OUT, "stamp")
        d = digest()
        if os.path.exists(stamp) and open(stamp).read() == d:
            return
        e = lambda p: os.path.join(ENG, p)
        o = lambda p: os.path.join(OUT, p)
        jobs = [
            [CLANG, "-O1", "-fPIC", "-shared", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", e("pass/SxPass.cpp"), "-o", o("libsxpass.so")],
            ["g++", "-O2", "-g1", "-std=c++17", "-pthread", "-w", "-I" + Z3 + "/include", e("explorer/explorer.cpp"), "-o", o("explorer"),
             "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"],
            ["g++", "-O2", "-std=c++17", "-fno-pie", "-w", "-I" + e("include/override"), "-c", e("rt/sx_rt.cpp"), "-o", o("sx_rt.o")],
            ["g++", "-O1", "-std=c++17", "-fno-pie", "-w", "-c", e("rt/sx_native.cpp"), "-o", o("sx_native.o")],
        ]
        ps = [subprocess.Popen(j) for j in jobs]
        if any([p.wait() for p in ps]):
            raise SystemExit("engine build failed")
        if subprocess.call([CLANG] + SXF + ["-fno-builtin", "-c", e("rt/sx_libc.cpp"), "-o", o("sx_libc.o")]):
            raise SystemExit("engine build failed")
        # the runtime must not share template instances with the program it instruments (and never run instrumented ones)
        if subprocess.call(["ld", "-r", "--force-group-allocation", o("sx_rt.o"), "-o", o("sx_rt.1.o")]):
            raise SystemExit("engine build failed")
        syms = [l.split() for l in subprocess.check_output(["nm", "--defined-only", o("sx_rt.1.o")], text=True).splitlines()]
        open(o("weak"), "w").write("".join(f[-1] + "\n" for f in syms if f[-2] in "WwVvu"))
        if subprocess.call(["objcopy", "--localize-symbols=" + o("weak"), o("sx_rt.1.o"), o("sx_rt.o")]):
            raise SystemExit("engine build failed")
        open(stamp, "w").write(d)


if __name__ == "__main__":
    build()
