#!/usr/bin/env python3
"""run.py ID [--replay FILE]  -- build what check ID needs from the working tree of /repo
and run it.  Environment: VERIF_TIER, VERIF_SEED; KV_REPO, KV_BUILD, KV_OUT, KV_EVIDENCE for development."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KV_REPO", "/repo")
BUILD = os.environ.get("KV_BUILD", os.path.join(HERE, "build"))
MC = os.path.join(HERE, "mc")
SRC = os.path.join(REPO, "src")
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
CFLAGS = ["-O1", "-g1", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-DKVTREE_VERIF", "-std=gnu11"]
CXXFLAGS = ["-O2", "-g1", "-std=c++17", "-Wall", "-Wno-misleading-indentation", "-Wno-unused-function", "-Wno-format-truncation"]

# check id -> (group source, library variants)
GROUPS = {}
for g, ids in {
    "tree": "C01 C02 C03 C04 C05 C06", "mem": "C07 C08 C09 C29", "pack": "C10 C11 C12 C13 C14 C33",
    "iofault": "C15 C16 C30", "lock": "C17 C18 C19", "mpi": "C20 C21 C22", "mpiio": "C23 C24 C25 C26",
    "stream": "C32", "tv": "C34", "print": "C27", "cli": "C28", "thread": "C31",
}.items():
    for i in ids.split():
        GROUPS[i] = g
VARIANTS = {"tree": ["a"], "mem": ["a"], "pack": ["a", "b", "h"], "iofault": ["a", "b"], "lock": ["a", "b"], "mpi": ["a", "h", "real"], "mpiio": ["a", "real"], "stream": ["a", "b"], "print": ["a"], "tv": ["d"], "cli": ["a", "exe"], "thread": ["t"]}
# groups that link the in-process MPI
COMMON = ["core.cpp", "env.cpp", "model.cpp", "fiber.cpp", "fakempi.cpp"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout))
        sys.exit(6)
    return r.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def redefs(path, hm):
    lines = []
    for tok in open(os.path.join(MC, "redefine.txt")).read().split():
        lines.append("%s %s_%s" % (tok, "hm" if tok in hm else "vf", tok))
    open(path, "w").write("\n".join(lines) + "\n")


def build_variant(v):
    """library variant: a = flock build, b = fcntl build without byteswap.h (symbols prefixed b_),
    d = with the TotalView display,
    h = without sanitizer, for images of several gigabytes (symbols prefixed h_),
    t = instrumented for the thread explorer, exe = the real kvtree_print program,
    real = the cases of realcases.h on the installed MPI"""
    srcs = sorted(f for f in glob.glob(SRC + "/*.c"))
    hdrs = sorted(glob.glob(SRC + "/*.h"))
    d = os.path.join(BUILD, "lib-%s-%s" % (v, digest(srcs + hdrs + [MC + "/redefine.txt", MC + "/mpi/mpi.h", MC + "/realcases.h", MC + "/realmpi.cpp", __file__], v)))
    out = os.path.join(d, "kvtree_print" if v == "exe" else "realmpi" if v == "real" else "lib.o")
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    with open(d + "/config.h", "w") as f:
        if v != "b":
            f.write("#define HAVE_BYTESWAP_H\n#define KVTREE_FILE_LOCK_USE_FLOCK\n")
        else:
            f.write("#define KVTREE_FILE_LOCK_USE_FCNTL\n")
        f.write('#define KVTREE_TEST_BASE "/dev/shm"\n')
    inc = ["-I" + d, "-I" + MC + "/mpi", "-I" + SRC]
    if v == "t":
        srcs = [s for s in srcs if "mpi" not in os.path.basename(s)]
    base = [s for s in srcs if os.path.basename(s) not in ("kvtree_print.c", "tv_data_display.c")]
    if v == "d":
        base = sorted(base + [s for s in srcs if os.path.basename(s) == "tv_data_display.c"])
    if v == "exe":
        nompi = [s for s in base if "mpi" not in os.path.basename(s)]
        sh(["gcc"] + CFLAGS + SAN + inc + nompi + [SRC + "/kvtree_print.c", "-o", out + ".tmp", "-lz"])
        os.rename(out + ".tmp", out)
        return out
    if v == "real":
        # without an MPI compiler there is nothing to compare with
        inc = ["-I" + d, "-I" + SRC]
        try:
            for s in base:
                subprocess.run(["mpicc"] + CFLAGS + inc + ["-c", s, "-o", os.path.join(d, os.path.basename(s) + ".o")], check=True, capture_output=True)
            subprocess.run(["mpicxx", "-O1", "-w", "-std=c++17"] + inc + [MC + "/realmpi.cpp"] + [os.path.join(d, os.path.basename(s) + ".o") for s in base] + ["-o", out + ".tmp", "-lz"], check=True, capture_output=True)
        except (OSError, subprocess.CalledProcessError):
            return ""
        os.rename(out + ".tmp", out)
        return out
    flags = CFLAGS + (["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"] if v == "t" else [] if v == "h" else SAN) + inc

    def cc(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        sh(["gcc"] + flags + ["-c", s, "-o", o])
        return o
    if v == "d":
        flags = flags + ["-DHAVE_TV"]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, base))
    r = os.path.join(d, "redef")
    sh(["ld", "-r", "-o", d + "/all.o"] + objs)
    if v == "t":
        # every function the library calls goes through vt_<name>: a wrapper in thread.cpp, or a
        # trampoline that tells the scheduler and jumps to the real function
        skip = {"stdin", "stdout", "stderr", "environ", "__environ", "optarg", "optind", "opterr", "optopt", "__errno_location", "__stack_chk_fail"}
        und = [l.split()[-1] for l in sh(["nm", "-u", d + "/all.o"]).splitlines()]
        und = [u for u in und if u not in skip and not u.startswith("__tsan_") and not u.startswith("_GLOBAL")]
        open(r, "w").write("".join("%s vt_%s\n" % (u, u) for u in und))
        with open(d + "/tramp.S", "w") as f:
            for u in und:
                f.write(".weak vt_%s\n.type vt_%s,@function\nvt_%s:\n" % (u, u, u))
                f.write(" push %rbp\n mov %rsp,%rbp\n and $-16,%rsp\n sub $192,%rsp\n")
                regs = ["rdi", "rsi", "rdx", "rcx", "r8", "r9", "rax", "r10"]
                f.write("".join(" mov %%%s,%d(%%rsp)\n" % (g, 8 * i) for i, g in enumerate(regs)) + "".join(" movups %%xmm%d,%d(%%rsp)\n" % (i, 64 + 16 * i) for i in range(8)))
                f.write(" lea 9f(%rip),%rdi\n call vt_unknown_call@PLT\n")
                f.write("".join(" mov %d(%%rsp),%%%s\n" % (8 * i, g) for i, g in enumerate(regs)) + "".join(" movups %d(%%rsp),%%xmm%d\n" % (64 + 16 * i, i) for i in range(8)))
                f.write(" leave\n jmp %s@PLT\n9: .asciz \"%s\"\n" % (u, u))
            f.write('.section .note.GNU-stack,"",@progbits\n')
        sh(["gcc", "-c", d + "/tramp.S", "-o", d + "/tramp.o"])
        sh(["objcopy", "--redefine-syms=" + r, d + "/all.o", d + "/all2.o"])
        sh(["ld", "-r", "-o", d + "/lib.tmp", d + "/all2.o", d + "/tramp.o"])
        os.rename(d + "/lib.tmp", out)
        return out
    redefs(r, {"malloc", "calloc", "realloc", "free", "strdup", "strndup", "read", "write"} if v == "h" else set())
    sh(["objcopy", "--redefine-syms=" + r, d + "/all.o", d + "/all2.o"])
    if v in "bh":
        names = [l.split()[-1] for l in sh(["nm", "--defined-only", "-g", d + "/all2.o"]).splitlines()]
        open(d + "/pre", "w").write("".join("%s %s_%s\n" % (n, v, n) for n in names))
        sh(["objcopy", "--redefine-syms=" + d + "/pre", d + "/all2.o", d + "/all3.o"])
        os.rename(d + "/all3.o", out)
    elif v == "d":
        # the display function is static: the debugger finds it by its symbol
        sh(["objcopy", "--globalize-symbol=TV_ttf_display_type", d + "/all2.o", d + "/all3.o"])
        os.rename(d + "/all3.o", out)
    else:
        os.rename(d + "/all2.o", out)
    return out


def build(group):
    os.makedirs(BUILD, exist_ok=True)
    hdrs = glob.glob(MC + "/*.h") + glob.glob(MC + "/mpi/*.h") + [SRC + "/" + h for h in ("kvtree.h", "kvtree_util.h", "kvtree_mpi.h")]
    san = [] if group == "thread" else ["-fsanitize=address"]
    common = [c for c in COMMON if os.path.exists(MC + "/" + c)]
    if group == "thread":
        common = ["core.cpp", "env.cpp", "model.cpp"]

    if group in ("lock", "mpi", "mpiio"):
        common = common + ["arena.cpp"]

    def cxx(s):
        s = os.path.join(MC, s)
        o = os.path.join(BUILD, "h-%s-%s.o" % (os.path.basename(s), digest([s, __file__] + hdrs)))
        if not os.path.exists(o):
            sh(["g++"] + CXXFLAGS + ["-I" + MC, "-I" + MC + "/mpi", "-I" + SRC, "-c", s, "-o", o + ".tmp%d" % os.getpid()])
            os.rename(o + ".tmp%d" % os.getpid(), o)
        return o
    with ThreadPoolExecutor(10) as ex:
        vf = [ex.submit(build_variant, v) for v in VARIANTS[group]]
        of = list(ex.map(cxx, common + [group + ".cpp"]))
        libs = [f.result() for f in vf]
    link = [l for l in libs if l.endswith(".o")]
    for l in libs:
        if not l.endswith(".o"):
            os.environ["KV_REALMPI" if l.endswith("realmpi") or not l else "KV_PRINT_EXE"] = l
    exe = os.path.join(BUILD, "mc-%s-%s" % (group, digest(of + link + [__file__])))
    if not os.path.exists(exe):
        sh(["g++"] + san + of + link + ["-o", exe + ".tmp%d" % os.getpid(), "-lz", "-lpthread"])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        for g in sorted(set(GROUPS.values())):
            if os.path.exists("%s/%s.cpp" % (MC, g)):
                build(g)
        return
    cid = sys.argv[1]
    exe = build(GROUPS[cid])
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16:detect_stack_use_after_return=0:handle_abort=1:exitcode=99:max_allocation_size_mb=4096:malloc_context_size=" + ("12" if "--replay" in sys.argv else "1")
    os.environ.setdefault("KV_EVIDENCE", os.path.join(HERE, "evidence"))
    os.environ.setdefault("KV_OUT", os.path.join(HERE, "out"))
    os.environ.setdefault("KV_KNOWN", os.path.join(HERE, "known_findings.txt"))
    os.environ["KV_EXE_BUILD"] = BUILD
    os.environ["LC_ALL"] = "C"
    for v in ("KVTREE_ENTRIES_PER_FILE",):
        os.environ.pop(v, None)
    sys.stdout.flush()
    os.execv(exe, [exe] + sys.argv[1:])


main()
