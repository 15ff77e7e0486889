#!/usr/bin/env python3
"""Builds one simulation harness from /repo's working tree into /verif/build/<harness>."""
import glob
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
PYSITE = "/opt/fcp/pyvenv/lib/python3.12/site-packages"
ARCH = "/usr/lib/x86_64-linux-gnu"

sys.path.insert(0, HERE)
from harnesses import HARNESSES  # noqa: E402

INC = re.compile(r'^\s*#\s*include\s+["<]([^">]+)[">]', re.M)
IMP = re.compile(r'^\s*import\s+(?:public\s+|weak\s+)?"([^"]+)"', re.M)
PROTO_ROOTS = [REPO, f"{HERE}/protos", PYSITE, "/usr/include"]


def read(p):
    with open(p, errors="replace") as f:
        return f.read()


def find_proto(rel):
    for r in PROTO_ROOTS:
        if os.path.exists(f"{r}/{rel}"):
            return f"{r}/{rel}"
    return None


def closure(harness_src, h):
    """All .cc files and protos reachable through includes."""
    exclude = set(h.get("exclude", ()))
    todo = [harness_src] + [f"{HERE}/{x}" for x in h.get("extra", ())]
    todo += [f"{REPO}/{x}" for x in h.get("roots", ())]
    seen, ccs, protos, fbs = set(), [], [], set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        if f.endswith(".cc"):
            ccs.append(f)
        for inc in INC.findall(read(f)):
            if inc.endswith(".pb.h"):
                p = inc[:-5] + ".proto"
                if p not in protos:
                    protos.append(p)
                continue
            if inc.endswith("tracing_schema.h") or inc.endswith("tracing_schema_common_generated.h"):
                fbs.add(os.path.dirname(inc))
                todo.append(f"{REPO}/fcp/base/platform.cc")
            for root, base in ((f"{HERE}/shim", False), (f"{HERE}/harness", False), (REPO, True)):
                p = f"{root}/{inc}"
                if not os.path.exists(p):
                    continue
                if inc in exclude:
                    break
                todo.append(p)
                c = p[:-2] + ".cc"
                if inc.endswith(".h") and inc[:-2] + ".cc" not in exclude and os.path.exists(c):
                    todo.append(c)
                break
    # proto import closure
    out, todo = [], list(protos) + list(h.get("protos", ()))
    while todo:
        p = todo.pop()
        if p in out or p.startswith("google/protobuf/"):
            continue
        path = find_proto(p)
        if path is None:
            continue
        out.append(p)
        todo += IMP.findall(read(path))
    return sorted(set(ccs)), sorted(out), sorted(fbs)


def quote(s):
    return s.replace(" ", "$ ").replace(":", "$:")


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd)[:400] + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit(3)
    return r.stdout


def gen_tracing(gen):
    """Same recipe as the stock build."""
    done = f"{gen}/.tracing"
    os.makedirs(gen, exist_ok=True)
    srcs = [os.path.relpath(p, REPO) for p in glob.glob(f"{REPO}/fcp/**/*.fbs", recursive=True)]
    common = [s for s in srcs if not s.endswith("tracing_schema.fbs")]
    tool = f"{gen}/tracing_traits_generator"
    base = ["-I", REPO]
    newest = max(os.path.getmtime(f"{REPO}/{s}") for s in srcs + ["fcp/tracing/tools/tracing_traits_generator.cc"])
    if os.path.exists(done) and os.path.getmtime(done) > newest:
        return
    gencc = f"{REPO}/fcp/tracing/tools/tracing_traits_generator.cc"
    run(["g++", "-std=c++17", "-O0", "-w", f"-I{HERE}/shim", f"-I{REPO}", gencc, "-o", tool, "-lflatbuffers"] +
        absl_libs())
    for s in common:
        d = f"{gen}/{os.path.dirname(s)}"
        os.makedirs(d, exist_ok=True)
        run(["flatc", "-c"] + base + ["-o", d, f"{REPO}/{s}"])
    for s in srcs:
        if s in common:
            continue
        d = f"{gen}/{os.path.dirname(s)}"
        os.makedirs(d, exist_ok=True)
        run(["flatc", "-c", "--reflect-types", "--gen-object-api", "--gen-generated", "--reflect-names",
             "--bfbs-comments", "--keep-prefix"] + base + ["-o", d, f"{REPO}/{s}"])
        run(["flatc", "-b", "--schema", "--reflect-types", "--gen-object-api", "--gen-generated",
             "--reflect-names", "--bfbs-comments", "--keep-prefix"] + base + ["-o", d, f"{REPO}/{s}"])
        out = run([tool, f"{os.path.dirname(s)}/tracing_schema_generated.h", f"{d}/tracing_schema.bfbs",
                   f"{REPO}/{s}"])
        with open(f"{d}/tracing_schema.h", "w") as f:
            f.write(out)
    open(done, "w").close()


def absl_libs():
    libs = sorted(glob.glob(f"{ARCH}/libabsl_*.so"))
    return ["-Wl,--as-needed"] + ["-l" + os.path.basename(x)[3:-3] for x in libs]


def write_if_changed(path, text):
    if os.path.exists(path) and read(path) == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(name, quiet=True):
    h = HARNESSES[name]
    out = os.environ.get("SIM_BUILD", f"{VERIF}/build") + f"/{name}"
    gen = f"{out}/gen"
    os.makedirs(gen, exist_ok=True)
    src = f"{HERE}/harness/{h['main']}"
    ccs, protos, fbs = closure(src, h)
    if fbs:
        gen_tracing(gen)
    common = f"-std=c++17 -w -fno-pie -pthread -U_FORTIFY_SOURCE -DGOOGLE_PROTOBUF_NO_RDTSC " + \
        " ".join("-D" + d for d in h.get("defines", ())) + \
        f" -include {HERE}/shim/sim_prelude.h -I{HERE}/shim -I{HERE}/rt -I{HERE}/harness " \
        f"-I/usr/include/android -I{REPO} -I{gen}"
    tsan = "-fsanitize=thread -U__SANITIZE_THREAD__ --param=tsan-instrument-func-entry-exit=0"
    opt = h.get("opt", "-O1")
    n = ["ninja_required_version = 1.5",
         f"common = {common}",
         "rule cc\n command = g++ $common $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CC $out",
         "rule proto\n command = protoc " + " ".join(f"-I{r}" for r in PROTO_ROOTS) + f" --cpp_out={gen} $in\n description = PROTO $in",
         "rule link\n command = g++ -no-pie -pthread -rdynamic @$out.rsp -o $out $libs\n rspfile = $out.rsp\n rspfile_content = $in\n description = LINK $out"]
    objs, pbh, stamps = [], [], []
    for p in protos:
        cc, hh = f"{gen}/{p[:-6]}.pb.cc", f"{gen}/{p[:-6]}.pb.h"
        n.append(f"build {cc} {hh}: proto {find_proto(p)}")
        pbh.append(hh)
        o = f"{out}/obj/pb/{p[:-6]}.pb.o"
        n.append(f"build {o}: cc {cc} || pbh\n flags = -O0")
        objs.append(o)
    n.append("build pbh: phony " + " ".join(pbh))
    plain = set(h.get("plain", ()))
    for c in ccs:
        rel = os.path.relpath(c, REPO) if c.startswith(REPO + "/") else "v/" + os.path.relpath(c, VERIF)
        o = f"{out}/obj/{rel[:-3]}.o"
        fl = f"{opt} {tsan}"
        if rel in plain:
            fl = opt
        n.append(f"build {o}: cc {c} || pbh\n flags = {fl}")
        objs.append(o)
    for r in ("simrt", "simfs", "simmain"):
        o = f"{out}/obj/rt/{r}.o"
        n.append(f"build {o}: cc {HERE}/rt/{r}.cc\n flags = -O2")
        objs.append(o)
    libs = list(h.get("libs", ())) + ["-lz", "-lprotobuf", f"-L{ARCH}/android -Wl,-rpath,{ARCH}/android -lcrypto",
                                      "-lflatbuffers"] + absl_libs() + ["-ldl"]
    n.append(f"build {out}/sim: link " + " ".join(objs) + "\n libs = " + " ".join(libs))
    n.append(f"default {out}/sim\n")
    write_if_changed(f"{out}/build.ninja", "\n".join(n))
    r = subprocess.run(["ninja", "-C", out, "-f", f"{out}/build.ninja"] + ([] if not quiet else ["--quiet"]),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    return f"{out}/sim"


if __name__ == "__main__":
    for x in sys.argv[1:]:
        if x == "-l":
            continue
        if "-l" in sys.argv:
            h = HARNESSES[x]
            c, p, f = closure(f"{HERE}/harness/{h['main']}", h)
            print(x, len(c), "cc", len(p), "protos")
            print("\n".join(c + p + f))
        else:
            print(build(x, quiet=False))
