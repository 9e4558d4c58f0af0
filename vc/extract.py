"""Extraction: compile an instantiation TU against /repo/include and lower it to the IR that is verified.

Dropped / changed by the extraction (all of it is mechanical, nothing is hand written):
  * `volatile` on ordinary memory accesses (only the local copies made by tagged_ptr use it),
  * `noinline` attributes; every helper is inlined into the public operation that calls it,
  * LLVM's standard scalar clean-ups (sroa, early-cse, simplifycfg, instsimplify, sccp, adce, loop-simplify).
"""
import os, re, subprocess, tempfile, shutil
CLANG = "/usr/lib/llvm-18/bin/clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PASSES = ("always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,sccp,simplifycfg,jump-threading,adce,simplifycfg,"
          "loop-simplify)")

class ExtractError(Exception):
    pass

def lower(src, defs, work, name, keep=()):
    l2 = os.path.join(work, name + ".2.ll")
    if os.path.exists(l2) and os.path.basename(work).startswith("vc-"):
        return l2           # lowered earlier in this run
    name = "%s.%d" % (name, os.getpid())
    ll = os.path.join(work, name + ".0.ll")
    cmd = [CLANG, "-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-access-control", "-w",
           "-I" + REPO + "/include", "-I" + os.path.join(HERE, "inst"), *defs, "-S", "-emit-llvm",
           os.path.join(HERE, "inst", src), "-o", ll]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    s = open(ll).read()
    s = re.sub(r"\bnoinline\b", "", s)
    s = re.sub(r"\b(load|store) volatile\b", r"\1", s)
    def attr(m):
        l = m.group(0)
        nm = re.search(r'@"?([\w.$]+)"?\(', l).group(1)
        if "clang_call_terminate" in nm or nm.startswith(("c_", "h_", "o_")):
            return l
        if any(re.search(k, nm) for k in keep):
            return re.sub(r"(#\d+)", r"noinline \1", l, count=1)
        if "linkonce_odr" in l or "internal" in l:
            l = l.replace("alwaysinline", "")
            return re.sub(r"(#\d+)", r"alwaysinline \1", l, count=1)
        return l
    s = re.sub(r"^define [^\n]*\{$", attr, s, flags=re.M)
    l1 = os.path.join(work, name + ".1.ll")
    open(l1, "w").write(s)
    l3 = os.path.join(work, name + ".2.ll")
    r = subprocess.run([OPT, "-S", "-passes=" + PASSES, l1, "-o", l3], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("opt failed: " + r.stderr[-4000:])
    os.replace(l3, l2)
    return l2
