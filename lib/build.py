"""Compiles /repo's current sources (plus a harness) to LLVM IR for the symbolic
engine and to a sanitised native binary for replay.  Everything is cached under
/verif/build by content hash; nothing is written below /repo."""
import concurrent.futures as cf
import glob
import hashlib
import os
import threading
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JPP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang++"
NCPU = os.cpu_count() or 4

EXCL = ("_test.cc", "_test.cpp", "/test/", "/benchmarks/", "/devtools/", "win32", "/proto/", "_pb_", "/legacy/",
        "/testing/", "/main/", "/tests/", "/jumanpp_args", "/jumandic_env")
GROUPS = {
    "util": ["src/util/*.cc", "src/util/*.cpp"],
    "core": ["src/core/*.cc"],
    "analysis": ["src/core/analysis/*.cc"],
    "dic": ["src/core/dic/*.cc"],
    "spec": ["src/core/spec/*.cc"],
    "impl": ["src/core/impl/*.cc"],
    "input": ["src/core/input/*.cc"],
    "training": ["src/core/training/*.cc"],
    "codegen": ["src/core/codegen/*.cc"],
    "tool": ["src/core/tool/*.cc"],
    "rnn": ["src/rnn/*.cc"],
    "jumandic": ["src/jumandic/shared/*.cc"],
    "pathie": ["libs/pathie-cpp/src/*.cpp"],
}
# the analyser and everything it needs
GROUPS_ALL = ["util", "core", "analysis", "dic", "spec", "impl", "input", "training", "rnn"]

IRFLAGS = ("-std=c++14 -O1 -g1 -DNDEBUG -emit-llvm -c -fno-vectorize -fno-slp-vectorize "
           "-fno-unroll-loops -DEIGEN_DONT_VECTORIZE -w -fno-discard-value-names").split()
NATFLAGS = ("-std=c++14 -O1 -g1 -DNDEBUG -c -w -fsanitize=address,bounds,alignment,shift "
            "-fno-sanitize-recover=all -fno-omit-frame-pointer -DEIGEN_DONT_VECTORIZE -ffunction-sections").split()
NATFLAGS = [f for f in NATFLAGS]


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def cfg_dir():
    d = os.path.join(BUILD, "cfg")
    os.makedirs(d, exist_ok=True)
    files = {
        "util_config.h": "#pragma once\n",
        "core_config.h": """#pragma once
#include <cstddef>
namespace jumanpp { namespace core {
constexpr size_t JPP_MAX_DIC_FIELDS = 16;
#define JPP_PREFETCH_FEATURE_WEIGHTS 1
#define JPP_ENABLE_DEV_TOOLS 1
#define JPP_TRAIN_VIOLATION_INVALID 1
static constexpr char JPP_DEFAULT_CONFIG_DIR[]{"/nonexistent"};
}}
""",
        "core_version.h": """#pragma once
#include <util/string_piece.h>
namespace jumanpp { namespace core {
static const StringPiece JPP_VERSION_STRING { "2.0.0-verif" };
}}
""",
    }
    for n, t in files.items():
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
            open(tmp, "w").write(t)
            os.replace(tmp, p)
    lnk = os.path.join(d, "eigen3")
    if not os.path.islink(lnk):
        try:
            os.symlink("/usr/include/eigen3", lnk)
        except FileExistsError:
            pass
    return d


def includes():
    c = cfg_dir()
    return ["-I" + REPO + "/libs", "-I" + REPO + "/src", "-I" + c, "-I" + REPO + "/libs/pathie-cpp/include",
            "-I" + REPO + "/libs/backward-cpp", "-I" + VERIF + "/harness", "-I" + BUILD + "/gen"]


_hdr = None


def header_hash():
    """One hash over every header a source could include."""
    global _hdr
    if _hdr is None:
        m = hashlib.sha256()
        fs = []
        for root in (REPO + "/src", REPO + "/libs", VERIF + "/harness", BUILD + "/gen"):
            for dp, dn, fn in os.walk(root):
                for f in fn:
                    if f.endswith((".h", ".hpp", ".hh", ".inc")):
                        fs.append(os.path.join(dp, f))
        for f in sorted(fs):
            m.update(f.encode() + b"\0" + read(f))
        _hdr = m.hexdigest()
    return _hdr


def sources(groups):
    out = []
    for g in groups:
        for pat in GROUPS[g]:
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                if not any(e in f for e in EXCL):
                    out.append(f)
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def compile_one(src, flags, ext):
    if src.endswith("/src/util/mmap.cc"):
        flags = flags + ["-include", VERIF + "/harness/fakefs_names.h"]
    key = h(src, read(src), header_hash(), flags, includes())
    out = os.path.join(BUILD, "obj", key + ext)
    if os.path.exists(out):
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    own = ["-I" + os.path.dirname(src)] if src.startswith(BUILD + "/cg/") else []
    r = run([CLANG] + flags + includes() + own + [src, "-o", tmp])
    if r.returncode:
        return None, r.stdout.decode(errors="replace")
    os.replace(tmp, out)
    return out, None


def compile_many(srcs, flags, ext, pool):
    return list(zip(srcs, pool.map(lambda s: compile_one(s, flags, ext), srcs)))


class BuildError(Exception):
    pass


def engine():
    e = os.path.join(BUILD, "engine", "jppsym")
    r = run(["make", "-s", "-j%d" % NCPU, "-C", VERIF + "/engine", "OUT=" + BUILD + "/engine"])
    if r.returncode:
        raise BuildError("engine build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    return e


def _collect(res, what, required):
    objs = []
    for s, (o, err) in res:
        if o is None:
            if s in required or "/src/util/" in s:
                raise BuildError("cannot compile %s (%s):\n%s" % (s, what, err[-3000:]))
            print("note: skipped %s (%s): %s" % (s, what, (err or "").strip().splitlines()[:1]))
        else:
            objs.append(o)
    return objs


def native_tool(name, src, groups, pool, args):
    """Builds and runs a helper on the current tree."""
    res = compile_many(src + sources(groups), NATFLAGS, ".o", pool)
    objs = _collect(res, name, src)
    exe = os.path.join(BUILD, "obj", h(name, *objs) + ".%d.exe" % os.getpid())
    r = run([CLANG, "-fsanitize=address,bounds,alignment,shift", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + objs + ["-ldl", "-lpthread"])
    if r.returncode:
        raise BuildError("%s link failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
    r = run([exe] + args, timeout=300)
    os.unlink(exe)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-2000:]))


def generated(pool):
    """The static feature code which the current tree generates for the harness specifications."""
    src = [VERIF + "/rt/cggen.cc", VERIF + "/rt/nofs.cc"]
    groups = ["util", "core", "spec", "impl", "analysis", "dic", "codegen", "rnn"]
    key = h(*[f + h(read(f)) for f in src + sources(groups)], header_hash(), NATFLAGS)
    d = os.path.join(BUILD, "cg", key)
    if not os.path.exists(d + "/cgall.cc"):
        os.makedirs(d, exist_ok=True)
        native_tool("cggen", src, groups, pool, [d])
        srcs = sorted(glob.glob(d + "/cg[0-9]*.cc"))
        good = [s for s, (o, err) in compile_many(srcs, IRFLAGS, ".bc", pool) if o]
        text = '#include "core/features_api.h"\n'
        for s in good:
            text += '#include "%s.h"\n' % os.path.basename(s)[:-3]
        text += "jumanpp::core::features::StaticFeatureFactory* cg_factory(int i) {\n"
        for s in good:
            n = os.path.basename(s)[2:-3]
            text += "  if (i == %s) return new jumanpp_generated::Cg%s;\n" % (n, n)
        text += "  return nullptr;\n}\n"
        for s in srcs:
            if s not in good:
                os.rename(s, s + ".bad")
        open(d + "/cgall.cc.tmp", "w").write(text)
        os.rename(d + "/cgall.cc.tmp", d + "/cgall.cc")
    return sorted(glob.glob(d + "/cg*.cc"))


def extra(harness, pool):
    return generated(pool) if "h_codegen.cc" in harness else []


def ir_module(harness, groups, pool):
    hs = [os.path.join(VERIF, "harness", x) for x in harness]
    lib = sources(groups) + extra(harness, pool)
    rtsrc = [VERIF + "/rt/cxxrt.cc"]
    res = compile_many(hs + rtsrc + lib, IRFLAGS, ".bc", pool)
    objs = _collect(res, "ir", hs + rtsrc)
    nh = len(hs) + 1
    key = h(*objs)
    out = os.path.join(BUILD, "obj", key + ".linked.bc")
    if os.path.exists(out):
        return out
    ar = out + ".%d" % os.getpid()
    # link libraries first (merging linkonce definitions), then keep what the harness reaches
    r = run([LLVM + "/llvm-link", "-o", ar + ".a.bc"] + objs)
    if r.returncode:
        raise BuildError("llvm-link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    nm = subprocess.run([LLVM + "/llvm-nm", "--defined-only"] + objs[:len(hs)], stdout=subprocess.PIPE).stdout.decode()
    keep = sorted({l.split()[-1] for l in nm.splitlines() if " harness_" in l})
    keep += ["_ZSt4cerr", "_ZSt4cout", "_ZSt4clog"]
    r = run([LLVM + "/opt", "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(keep),
             ar + ".a.bc", "-o", ar + ".b.bc"])
    if r.returncode:
        raise BuildError("opt failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    os.replace(ar + ".b.bc", out)
    os.unlink(ar + ".a.bc")
    return out


def native_binary(harness, groups, pool):
    hs = [os.path.join(VERIF, "harness", x) for x in harness]
    lib = sources(groups) + extra(harness, pool)
    rtsrc = [VERIF + "/rt/native.cc", VERIF + "/rt/nofs.cc"]
    res = compile_many(hs + rtsrc + lib, NATFLAGS, ".o", pool)
    objs = _collect(res, "native", hs + rtsrc)
    key = h("bin", *objs)
    out = os.path.join(BUILD, "obj", key + ".exe")
    if os.path.exists(out):
        return out
    tmp = out + ".%d" % os.getpid()
    r = run([CLANG, "-fsanitize=address,bounds,alignment,shift", "-rdynamic", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", tmp] +
            objs + ["-ldl", "-lpthread"])
    if r.returncode:
        raise BuildError("native link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, out)
    return out


def class_table(pool):
    """The character classes of the current tree as a table of ranges."""
    src = [VERIF + "/rt/classtable.cc", REPO + "/src/util/characters.cc", VERIF + "/rt/nofs.cc"]
    rest = [f for f in sources(["util"]) if f != src[1]]
    res = compile_many(src + rest, NATFLAGS, ".o", pool)
    objs = _collect(res, "class table", src)
    out = os.path.join(BUILD, "obj", h("classtable", *objs) + ".txt")
    if os.path.exists(out):
        return out
    exe = out + ".%d.exe" % os.getpid()
    r = run([CLANG, "-fsanitize=address,bounds,alignment,shift", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + objs + ["-ldl", "-lpthread"])
    if r.returncode:
        raise BuildError("class table link failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    os.unlink(exe)
    if r.returncode:
        raise BuildError("class table run failed:\n" + r.stderr.decode(errors="replace")[-2000:])
    tmp = out + ".%d" % os.getpid()
    open(tmp, "wb").write(r.stdout)
    os.replace(tmp, out)
    return out


if __name__ == "__main__":
    with cf.ThreadPoolExecutor(NCPU) as pool:
        what = sys.argv[1]
        hn = sys.argv[2].split(",")
        groups = sys.argv[3].split(",") if len(sys.argv) > 3 else ["util"]
        if groups == ["all"]:
            groups = GROUPS_ALL
        print(engine())
        if what in ("ir", "both"):
            print(ir_module(hn, groups, pool))
        if what == "table":
            print(class_table(pool))
        if what in ("nat", "both"):
            print(native_binary(hn, groups, pool))
