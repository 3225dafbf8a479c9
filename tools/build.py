#!/usr/bin/env python3
"""Builds one simulation flavour from /repo's current working tree into /verif/build/<flavour>/sim.

  a   AddressSanitizer + seeded heap + storage/clock seams: graph, models, storage, allocation
  c   as a, recording build writing the CSV edge list (EDGE_RCD CSV_RCD)
  t   thread-sanitizer instrumentation linked to the simulator's own scheduler (EDGE_RCD RPC_RCD),
      gRPC replaced by the simulated network in sim/stubs
Every .cpp below the source roots is compiled, so moving code between files needs no change here."""
import glob, os, re, subprocess, sys

REPO = os.environ.get("SIM_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEN = REPO + "/app/tenncor"
ROC = REPO + "/app/rocnnet"
GUI = REPO + "/app/graph_gui"

def srcs(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".cpp", ".cc"))]
    return out

def flavour(name, bdir):
    gen = bdir + "/gen"
    rt = V + "/sim/rt"
    inc = ["-I" + gen, "-I" + TEN + "/include", "-I" + ROC + "/include", "-I" + rt, "-I" + V + "/sim/drivers", "-I" + TEN]
    # no cycle counter in the order of protobuf maps
    base = "-std=c++14 -O1 -g1 -w -fno-omit-frame-pointer -DGOOGLE_PROTOBUF_NO_RDTSC"
    proto = {"serial": ["tenncor"]}
    units = []  # (source, flags)
    ld = "-lprotobuf -lpthread -ldl -rdynamic"
    if name in ("a", "c"):
        f = base + " -fsanitize=address " + " ".join(inc)
        if name == "c":
            # the recording build declares the gRPC recorder too; it is never instantiated here
            f = f.replace("-I" + gen, "-I" + V + "/sim/stubs -I" + gen, 1) + " -DEDGE_RCD -DCSV_RCD"
            proto["grpc"] = ["grpc_gui"]
            units.append((gen + "/proto/grpc_gui.pb.cc", f))
            ld += " -Wl,--unresolved-symbols=ignore-in-object-files"
        repo = srcs(TEN + "/src") + srcs(TEN + "/declare")
        if name == "a":
            repo += srcs(ROC + "/src")
            # the GUI client runs against a transport stub (drivers/a_gui.cpp)
            g = f.replace("-I" + gen, "-I" + V + "/sim/stubs -I" + gen, 1) + " -I" + GUI + "/include"
            proto["grpc"] = ["grpc_gui"]
            units.append((gen + "/proto/grpc_gui.pb.cc", g))
            units += [(s, g) for s in srcs(GUI + "/src") if os.path.basename(s) == "gui_consumer.cpp"]
        units += [(s, f) for s in repo]
        units += [(s, g if name == "a" else f) for s in sorted(glob.glob(V + "/sim/drivers/%s_*.cpp" % name))]
        units += [(gen + "/proto/tenncor.pb.cc", f)]
        rtf = base + " -DSIM_WRAP_MALLOC -I" + rt
        units += [(rt + "/core.cpp", rtf), (rt + "/heap.cpp", rtf), (rt + "/sysgate.cpp", rtf)]
        ld += " -fsanitize=address -Wl,--wrap=malloc,--wrap=free"
    else:
        inc.insert(0, "-I" + V + "/sim/stubs")
        inc += ["-I" + GUI + "/include"]
        f = base + " -DEDGE_RCD -DRPC_RCD " + " ".join(inc)
        # only instrumented code has its memory accesses interleaved; the numeric kernels have no threads
        t = f + " -fsanitize=thread"
        # the default recorder would start a server before main: the driver owns the recorder instead
        own = lambda s: re.search(r"record_status::rec\s*=", open(s).read()) is not None
        units += [(s, t.replace(" -DRPC_RCD", "") if own(s) else t) for s in srcs(TEN + "/src") + srcs(TEN + "/declare")]
        units += [(s, t) for s in sorted(glob.glob(V + "/sim/drivers/ti_*.cpp"))]
        units += [(s, t) for s in srcs(GUI + "/src") if os.path.basename(s) == "gui_consumer.cpp"]
        units += [(s, f) for s in sorted(glob.glob(V + "/sim/drivers/t_*.cpp"))]
        proto["grpc"] = ["grpc_gui"]
        units += [(gen + "/proto/tenncor.pb.cc", f), (gen + "/proto/grpc_gui.pb.cc", f)]
        rtf = base + " -I" + rt
        units += [(rt + "/core.cpp", rtf), (rt + "/heap.cpp", rtf), (rt + "/simsched.cpp", rtf)]
    return units, ld, proto, gen

def build(name, quiet=False):
    bdir = V + "/build/" + name
    os.makedirs(bdir + "/gen/proto", exist_ok=True)
    units, ld, proto, gen = flavour(name, bdir)
    w = ["ninja_required_version = 1.3",
         "rule cc", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ -o $out $in $ld",
         "rule proto", "  command = protoc -I$dir --cpp_out=%s/proto $in" % gen]
    gens = []
    for d, names in proto.items():
        for n in names:
            src = "%s/proto/%s/%s.proto" % (TEN, d, n)
            outs = "%s/proto/%s.pb.cc %s/proto/%s.pb.h" % (gen, n, gen, n)
            w += ["build %s: proto %s" % (outs, src), "  dir = %s/proto/%s" % (TEN, d)]
            gens.append("%s/proto/%s.pb.h" % (gen, n))
    objs = []
    seen = set()
    for s, f in units:
        o = s.replace("/", "_").strip("_") + ".o"
        while o in seen:
            o = "x" + o
        seen.add(o)
        objs.append(bdir + "/" + o)
        w += ["build %s/%s: cc %s || %s" % (bdir, o, s, " ".join(gens)), "  flags = " + f]
    w += ["build %s/sim: link %s" % (bdir, " ".join(objs)), "  ld = " + ld, "default %s/sim" % bdir, ""]
    text = "\n".join(w)
    p = bdir + "/build.ninja"
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    env = dict(os.environ)
    r = subprocess.run(["ninja", "-f", p, "-j", "8"], cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
    return r.returncode, bdir + "/sim"

if __name__ == "__main__":
    rc = 0
    for n in sys.argv[1:] or ["a", "c", "t"]:
        c, p = build(n)
        print(n, "ok" if c == 0 else "FAILED", p)
        rc |= c
    sys.exit(1 if rc else 0)
