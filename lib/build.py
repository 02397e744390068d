#!/usr/bin/env python3
"""Builds devsim's python module (and harness programs) from /repo's working tree.

usage: build.py OUTDIR [target ...]     targets: module mathlib modelcomp <harness names>
Nothing is written to /repo.  OUTDIR holds a ninja build; incremental.
"""
import os, re, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/src"
DIRS = ["AutoEquation", "Circuit/data", "Circuit/models/ideal", "Circuit/models/sources",
        "Data", "Equation", "GeomModels", "Geometry", "MathEval", "adiff", "commands",
        "errorSystem", "math", "meshing", "models", "utility", "pythonapi", "main"]
EXCLUDE = {"SuperLUPreconditioner.cc", "SuperLUData.cc", "SuperLUDataZ.cc",
           "mcTest.cc", "mcModelCompiler.cc", "mcModel.cc"}
GENERATED = {"meshing": [("Devsim", "DevsimParser", "DevsimScanner"), ("Gmsh", "GmshParser", "GmshScanner")],
             "adiff": [("mc", "mcParser", "mcScanner")]}
DEFS = ('-DDEVSIM_EXTENDED_PRECISION -DUSE_MKL_PARDISO -DLOAD_MATHLIBS -DUSE_BLAS -DUSE_LAPACK '
        '-DUSE_ITERATIVE_SOLVER -DDEVSIM_VERSION_STRING=\\"2.10.1\\" -DDEVSIM_COPYRIGHT_YEAR=\\"2009-2026\\"')
PYINC = "/usr/include/python3.12"


def sources(d):
    path = os.path.join(SRC, d)
    txt = ""
    try:
        txt = "\n".join(l.split("#")[0] for l in open(os.path.join(path, "CMakeLists.txt")))
    except OSError:
        pass
    out = []
    for f in sorted(os.listdir(path)):
        if not f.endswith(".cc") or f in EXCLUDE:
            continue
        if re.search(r"(?<![\w/])" + re.escape(f) + r"\b", txt):
            out.append(f)
    return out


def generate(out, cxx, opt, extra_cflags="", extra_ldflags=""):
    inc = " ".join("-I%s/%s" % (SRC, d) for d in DIRS + ["common_api"])
    L = []
    w = L.append
    w("ninja_required_version = 1.3")
    w("cflags = -std=gnu++17 -fPIC -fvisibility=hidden -w %s %s %s -I%s/shim -I%s/gen %s -I%s" % (
        opt, extra_cflags, DEFS, VERIF, out, inc, PYINC))
    w("ldflags = %s" % extra_ldflags)
    w("rule pch\n command = %s $cflags -x c++-header $in -o $out" % cxx)
    w("build gen/pch.hh.gch: pch %s/shim/pch.hh" % VERIF)
    w("rule cxx\n command = %s $cflags $xflags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % cxx)
    w("rule bison\n command = bison -p$p -d -o $base.cc $in 2>/dev/null\n restat = 1")
    w("rule flex\n command = flex -P$p -o$out $in")
    w("rule fortran\n command = gfortran -O1 -freal-8-real-16 -ffixed-line-length-0 -fPIC -c $in -o $out")
    w("rule ar\n command = rm -f $out && ar rcs $out $in")
    w("rule symfix\n command = cd $dir && $script $in")
    # what the parts of the tree that are linked refer to but never reach is made to return nothing
    w("rule stubexe\n command = %s -Wl,--no-demangle -Wl,--warn-unresolved-symbols -o $out.x @$out.rsp $libs 2> $out.und; "
      "sed -n 's/.*undefined reference to .\\([A-Za-z0-9_]*\\).*/\\1/p' $out.und | sort -u | awk '{print \".globl \" $$1 \"\\n\" $$1 \":\\n xor %%eax,%%eax\\n ret\"}' > $out.s && "
      "%s -c $out.s -o $out.s.o && %s $ldflags -o $out @$out.rsp $out.s.o $libs\n rspfile = $out.rsp\n rspfile_content = $in" % (cxx, cxx, cxx))
    w("rule so\n command = %s -shared $ldflags -o $out @$out.rsp $libs\n rspfile = $out.rsp\n rspfile_content = $in" % cxx)
    w("rule exe\n command = %s $ldflags -o $out @$out.rsp $libs\n rspfile = $out.rsp\n rspfile_content = $in" % cxx)
    objs = {}
    genhdr = []

    def cc(src, obj, xflags="", order=""):
        pch = src.startswith(SRC) or src.startswith("gen/")
        w("build %s: cxx %s%s%s" % (obj, src, " | gen/pch.hh.gch" if pch else "", (" || " + order) if order else ""))
        xflags = (("-include %s/gen/pch.hh -Winvalid-pch " % out) if pch else "") + xflags
        if xflags:
            w(" xflags = " + xflags)

    for d in DIRS:
        for pfx, par, scan in GENERATED.get(d, []):
            w("build gen/%s.cc gen/%s.hh: bison %s/%s/%s.y" % (par, par, SRC, d, par))
            w(" p = %s\n base = gen/%s" % (pfx, par))
            w("build gen/%s.cc: flex %s/%s/%s.l" % (scan, SRC, d, scan))
            w(" p = %s" % pfx)
            for n in (par, scan):
                o = "obj/gen/%s.o" % n
                cc("gen/%s.cc" % n, o, "", "gen/%s.hh" % par)
                objs.setdefault("gen_" + pfx, []).append(o)
    for d in DIRS:
        x = ""
        if d in ("pythonapi", "main"):
            x = "-DDEVSIM_MODULE_NAME=devsim_py3 -DPy_LIMITED_API=0x03090000"
        for f in sources(d):
            o = "obj/%s/%s.o" % (d, f[:-3])
            cc("%s/%s/%s" % (SRC, d, f), o, x)
            objs.setdefault(d, []).append(o)
    cc(VERIF + "/shim/symdiff_shim.cc", "obj/shim.o")
    # quad precision LU: built from the tree's fortran
    g = REPO + "/external/getrf"
    fobj = []
    for f in sorted(os.listdir(g)):
        if f.endswith((".f", ".F")):
            o = "obj/getrf/%s.o" % f
            w("build %s: fortran %s/%s" % (o, g, f))
            fobj.append(o)
    w("build obj/libgetrf.a: ar %s" % " ".join(fobj))
    lib = []
    for d in DIRS:
        if d != "main":
            lib += objs.get(d, [])
    lib += objs["gen_Devsim"] + objs["gen_Gmsh"] + ["obj/shim.o"]
    core = [o for o in lib if not o.startswith("obj/pythonapi/")]
    w("build devsim_py3.so: so %s | obj/libgetrf.a" % " ".join(lib + objs["main"]))
    w(" libs = -Wl,--no-undefined-version obj/libgetrf.a -lgfortran -lquadmath -ldl -lpthread")
    w("build module: phony devsim_py3.so")
    w("build core.a: ar %s" % " ".join(core))
    cc(VERIF + "/shim/vmath.cc", "obj/vmath.o")
    w("build libvmath.so: so obj/vmath.o")
    w("build mathlib: phony libvmath.so")
    mc = []
    for f in ("mcTest", "mcModelCompiler", "mcModel"):
        o = "obj/adiff/%s.o" % f
        cc("%s/adiff/%s.cc" % (SRC, f), o, "", "gen/mcParser.hh")
        mc.append(o)
    adiffobjs = objs["adiff"]
    w("build modelcomp: exe %s %s" % (" ".join(mc + adiffobjs + objs["gen_mc"]), ""))
    # harness programs
    tsan = set()
    w("rule tsan\n command = %s $cflags -g1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -fvisibility=default -MMD -MF $out.d -c $in -o $out.t && "
      "objcopy --redefine-sym memcpy=p14_memcpy --redefine-sym memmove=p14_memmove --redefine-sym memset=p14_memset $out.t $out\n depfile = $out.d\n deps = gcc" % cxx)
    hd = os.path.join(VERIF, "harness")
    if os.path.isdir(hd):
        for f in sorted(os.listdir(hd)):
            if not f.endswith(".cc"):
                continue
            n = f[:-3]
            head = open(os.path.join(hd, f)).read(3000)
            m = re.search(r"//\s*OBJS:\s*(.*)", head)
            ol = []
            for t in (m.group(1).split() if m else []):
                if t == "CORE":
                    ol += core
                elif t.endswith("/*"):
                    ol += objs[t[:-2]]
                elif t.endswith(".a"):
                    ol.append(t)
                elif t == "GETRF":
                    ol.append("obj/libgetrf.a")
                else:
                    ol.append("obj/%s.o" % t)
            m = re.search(r"//\s*TSAN:\s*(.*)", head)
            for t in (m.group(1).split() if m else []):
                # the same sources compiled for a harness that is the run time of -fsanitize=thread
                for o in objs[t[:-2]] if t.endswith("/*") else ["obj/%s.o" % t]:
                    x = o.replace("obj/", "obj/tsan/")
                    if x not in tsan:
                        tsan.add(x)
                        w("build %s: tsan %s/%s.cc" % (x, SRC, o[4:-2]))
                    ol.append(x)
            m = re.search(r"//\s*ASAN:\s*(.*)", head)
            asan = []
            for t in (m.group(1).split() if m else []):
                # the same sources with bounds and lifetime checking
                for o in objs[t[:-2]] if t.endswith("/*") else ["obj/%s.o" % t]:
                    x = o.replace("obj/", "obj/asan/")
                    if x not in tsan:
                        tsan.add(x)
                        w("build %s: cxx %s/%s.cc" % (x, SRC, o[4:-2]))
                        w(" xflags = -g1 -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1")
                    asan.append(x)
            ol = asan + ol
            m = re.search(r"//\s*LIBS:\s*(.*)", head)
            libs = m.group(1) if m else ""
            m = re.search(r"//\s*XFLAGS:\s*(.*)", head)
            x = m.group(1) if m else ""
            o = "obj/harness/%s.o" % n
            cc("%s/%s" % (hd, f), o, x)
            w("build %s: %s %s" % (n, "stubexe" if re.search(r"//\s*TSAN:", head) else "exe", " ".join([o] + ol)))
            w(" libs = %s -lquadmath -lpthread -ldl" % libs)
    os.makedirs(out + "/gen", exist_ok=True)
    txt = "\n".join(L) + "\n"
    nf = out + "/build.ninja"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)


def build(out, targets, cxx=None, opt=None, extra_cflags="", extra_ldflags="", quiet=True):
    out = os.path.abspath(out)
    os.makedirs(out, exist_ok=True)
    cxx = cxx or os.environ.get("VERIF_CXX", "g++")
    if os.environ.get("VERIF_CCACHE"):
        cxx = "ccache " + cxx
    opt = opt or os.environ.get("VERIF_OPT", "-O1")
    generate(out, cxx, opt, extra_cflags, extra_ldflags)
    r = subprocess.run(["ninja", "-C", out, "-j", os.environ.get("VERIF_JOBS", "8")] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write("\n".join(l[:300] for l in r.stdout.splitlines() if not l.startswith("["))[-6000:] + "\n")
        raise SystemExit("build failed")
    return out


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:] or ["module", "mathlib"])
