#!/usr/bin/env python3
"""Generate /verif/build/build.ninja from /repo's current tree and run ninja.

Targets:  mc_<name>   scn/<name>.cc linked with the library compiled for the controlled scheduler
          seq_<name>  seq/<name>.cc linked with the library compiled with ASan+UBSan
"""
import os, sys, glob, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, "build"))
CORE = REPO + "/framework/core"

def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if open(p).read() == s: return
    except OSError: pass
    open(p, "w").write(s)

def shadow_headers():
    inc = None
    for d in subprocess.run(["g++", "-E", "-x", "c++", "-v", "/dev/null"], capture_output=True, text=True).stderr.splitlines():
        d = d.strip()
        if d.startswith("/") and os.path.exists(d + "/ext/atomicity.h"): inc = d; break
    a = open(inc + "/ext/atomicity.h").read()
    a = a.replace("namespace __gnu_cxx _GLIBCXX_VISIBILITY(default)", 'extern "C" int mc_refcnt_add(volatile int*, int) __attribute__((nothrow));\nnamespace __gnu_cxx _GLIBCXX_VISIBILITY(default)', 1)
    a = a.replace("{ return __atomic_fetch_add(__mem, __val, __ATOMIC_ACQ_REL); }", "{ return mc_refcnt_add(__mem, __val); }")
    a = a.replace("{ __atomic_fetch_add(__mem, __val, __ATOMIC_ACQ_REL); }", "{ mc_refcnt_add(__mem, __val); }")
    assert a.count("mc_refcnt_add(__mem") == 2
    write_if_changed(B + "/shadow/ext/atomicity.h", a)
    w = open(inc + "/bits/atomic_wait.h").read()
    n = re.sub(r"__atomic_spin_count_relax = \d+;", "__atomic_spin_count_relax = 0;", w)
    n = re.sub(r"__atomic_spin_count = \d+;", "__atomic_spin_count = 1;", n)
    assert n != w
    write_if_changed(B + "/shadow/bits/atomic_wait.h", n)

def main(targets):
    shadow_headers()
    base = f"-std=gnu++23 -g -w -fexceptions -DPLAIN_HAS_PTHREAD=1 -DPLAIN_CORE -DPLAIN_VERIF -I{CORE}/include -I{CORE} -I{V}/mc -I{V}/mcnet -I{V}/seq"
    srcs = sorted(glob.glob(CORE + "/src/**/*.cc", recursive=True))
    o = [f"builddir = {B}", "",
      f"rule mccxx\n  command = g++ {base} -O1 -fsanitize=thread --param tsan-distinguish-volatile=0 -I{B}/shadow -fno-pie -MMD -MF $out.d -c $in -o $out && objcopy --redefine-sym memcpy=mc_memcpy --redefine-sym memmove=mc_memmove --redefine-sym memset=mc_memset --redefine-sym memcmp=mc_memcmp $out\n  depfile = $out.d\n  deps = gcc\n  description = MC $in",
      f"rule seqcxx\n  command = g++ {base} -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment -fno-omit-frame-pointer -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = SEQ $in",
      f"rule rtcxx\n  command = g++ -std=gnu++20 -g -w -O2 -fno-pie -I{V}/mc -I{V}/mcnet -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
      "rule ar\n  command = rm -f $out && ar crs $out $in",
      "rule mclink\n  command = g++ -no-pie -rdynamic -o $out $in -Wl,--wrap=_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv -ldl -lpthread",
      "rule seqlink\n  command = g++ -fsanitize=address,undefined -rdynamic -o $out $in -ldl -lpthread"]
    mco, sqo = [], []
    for s in srcs:
        n = s[len(CORE) + 5:].replace("/", "_")
        o.append(f"build {B}/mc/{n}.o: mccxx {s}"); mco.append(f"{B}/mc/{n}.o")
        o.append(f"build {B}/seq/{n}.o: seqcxx {s}"); sqo.append(f"{B}/seq/{n}.o")
    rt = []
    for s in sorted(glob.glob(V + "/mc/*.cc")):
        n = os.path.basename(s)
        o.append(f"build {B}/rt/{n}.o: rtcxx {s}"); rt.append(f"{B}/rt/{n}.o")
    netrt = []
    for s in sorted(glob.glob(V + "/mcnet/*.cc")):
        n = os.path.basename(s)
        o.append(f"build {B}/rt/{n}.o: rtcxx {s}"); netrt.append(f"{B}/rt/{n}.o")
    o.append(f"build {B}/libmc.a: ar {' '.join(mco)}")
    o.append(f"build {B}/libseq.a: ar {' '.join(sqo)}")
    for s in sorted(glob.glob(V + "/scn/*.cc")):
        n = os.path.basename(s)[:-3]
        o.append(f"build {B}/scn/{n}.o: mccxx {s}")
        o.append(f"build {B}/mc_{n}: mclink {B}/scn/{n}.o {' '.join(rt + (netrt if n.startswith('net') else []))} {B}/libmc.a")
        o.append(f"build mc_{n}: phony {B}/mc_{n}")
    o.append(f"build {B}/sq/rt_seqrt.o: seqcxx {V}/seqrt/seqrt.cc")
    for s in sorted(glob.glob(V + "/seq/*.cc")):
        n = os.path.basename(s)[:-3]
        o.append(f"build {B}/sq/{n}.o: seqcxx {s}")
        o.append(f"build {B}/seq_{n}: seqlink {B}/sq/{n}.o {B}/sq/rt_seqrt.o {B}/libseq.a")
        o.append(f"build seq_{n}: phony {B}/seq_{n}")
    names = [("mc_", x) for x in glob.glob(V + "/scn/*.cc")] + [("seq_", x) for x in glob.glob(V + "/seq/*.cc")]
    o.append("build all_checks: phony " + " ".join(sorted(a + os.path.basename(x)[:-3] for a, x in names)))
    write_if_changed(B + "/build.ninja", "\n".join(o) + "\n")
    r = subprocess.run(["ninja", "-C", B, "-j", str(os.cpu_count() or 8)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[:3000])
    return r.returncode

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
