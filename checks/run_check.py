#!/usr/bin/env python3
"""Builds one check against /repo's working tree and runs it.

  checks/run_check.py C02 quick|thorough [extra harness args]
  checks/run_check.py C02 replay FILE [--raw --trace]
  checks/run_check.py C02 build
  checks/run_check.py C02 one INDEX [--trace]

Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
"""
import fcntl
import glob
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LFSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(
    VERIF, "build", "alt-" + re.sub(r"\W+", "_", REPO))
CXX = "/usr/bin/g++"

# check -> (source file, packages of /repo compiled in, extra simulator parts)
EKF = ["ekf_localizer", "kalman_filter", "lib", "rotationlib"]
EXTRACTION = ["extraction", "lib"]
LOCALIZATION = ["localization", "lib", "rotationlib"]
CHECKS = {
    "C01": ("c01_delay.cpp", ["kalman_filter"]),
    "C02": ("c02_ekf_refine.cpp", EKF),
    "C03": ("c03_ekf_cadence.cpp", EKF),
    "C04": ("c04_ekf_corrupt.cpp", EKF),
    "C05": ("c05_ekf_covariance.cpp", EKF),
    "C06": ("c06_ekf_smoothing.cpp", EKF),
    "C07": ("c07_ekf_initial.cpp", EKF),
    "C08": ("c08_ekf_heading.cpp", EKF),
    "C09": ("c09_mapping.cpp", ["mapping", "lib"]),
    "C10": ("c10_map_disk.cpp", ["mapping", "localization", "map_loader", "lib", "rotationlib"]),
    "C11": ("c11_localization.cpp", LOCALIZATION),
    "C12": ("c12_prior_buffer.cpp", ["localization"]),
    "C13": ("c13_extraction.cpp", EXTRACTION),
    "C14": ("c14_path.cpp", ["path_generator", "lib"]),
    "C15": ("c15_map_server.cpp", ["map_loader", "map_tf_generator", "lib"]),
    "C16": ("c16_system.cpp", ["extraction", "localization", "mapping", "map_loader"] + EKF),
    "C17": ("c17_labels.cpp", EXTRACTION),
    "C18": ("c18_converter.cpp", []),
}
PYTHON = {"C16", "C18"}      # run nodes written in Python
HEADER_ONLY = {"C12"}        # components used through their headers alone
# mains that are not the node a check runs
SKIP_MAIN = {"localization/app/odometry.cpp"}

FLAGS = ("-std=c++17 -O2 -g1 -w -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern "
         "-D_GLIBCXX_ASSERTIONS -DSIM_ROS=1 -DBOOST_BIND_GLOBAL_PLACEHOLDERS")
PY_FLAGS = "-I/usr/include/python3.12 -DSIM_PY_DIR='\"%s/sim/py\"' -DSIM_REPO='\"%s\"'" % (VERIF, REPO)
LIBS = ("-Wl,--as-needed -lpcl_io -lpcl_io_ply -lpcl_filters -lpcl_sample_consensus -lpcl_search -lpcl_kdtree -lpcl_octree -lpcl_common -lboost_system -lboost_filesystem "
        "-lfmt -pthread -ldl")


def packages():
    return sorted(os.path.basename(os.path.dirname(d.rstrip("/")))
                  for d in glob.glob(REPO + "/*/include/"))


def includes():
    pcl = sorted(glob.glob("/usr/include/pcl-*"))
    inc = ["-I" + os.path.join(VERIF, "sim", "ros"), "-I" + os.path.join(VERIF, "sim")]
    inc += ["-I%s/%s/include" % (REPO, p) for p in packages()]
    inc += ["-isystem /usr/include/eigen3"] + ["-isystem " + p for p in pcl]
    return " ".join(inc)


def has_main(path):
    text = open(path, errors="replace").read()
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    return re.search(r"\bint\s+main\s*\(", text) is not None


def sources(pkg):
    fs = sorted(glob.glob("%s/%s/src/**/*.cpp" % (REPO, pkg), recursive=True) +
                glob.glob("%s/%s/app/**/*.cpp" % (REPO, pkg), recursive=True))
    return [f for f in fs if os.path.relpath(f, REPO) not in SKIP_MAIN]


def write_ninja():
    os.makedirs(BUILD, exist_ok=True)
    out = ["ninja_required_version = 1.5",
           "flags = " + FLAGS + " " + includes(),
           "rule cxx", "  command = %s $flags $extra -MMD -MF $out.d -c $in -o $out" % CXX,
           "  depfile = $out.d", "  deps = gcc",
           "rule link", "  command = %s -o $out $in -rdynamic %s $extra" % (CXX, LIBS)]
    objs = {}

    def obj(src, extra=""):
        if src in objs:
            return objs[src]
        rel = os.path.relpath(src, "/").replace("/", "_")
        o = "obj/%s.o" % rel
        out.append("build %s: cxx %s" % (o, src))
        if extra:
            out.append("  extra = " + extra)
        objs[src] = o
        return o

    core = [obj(f) for f in sorted(glob.glob(VERIF + "/sim/core/*.cpp"))]
    ros = [obj(f) for f in sorted(glob.glob(VERIF + "/sim/ros/*.cpp"))]
    lib = [obj(f) for f in sorted(glob.glob(VERIF + "/sim/lib/*.cpp"))]
    for cid, (src, pkgs) in sorted(CHECKS.items()):
        path = os.path.join(VERIF, "checks", src)
        if not os.path.exists(path):
            continue
        o = [obj(path)] + core + ros + lib
        if cid not in HEADER_ONLY:
            for p in pkgs:
                for f in sources(p):
                    o.append(obj(f, "-Dmain=sim_main_" + p if has_main(f) else ""))
        if cid in PYTHON:
            o += [obj(f, PY_FLAGS) for f in sorted(glob.glob(VERIF + "/sim/pynode/*.cpp"))]
        out.append("build bin/%s: link %s" % (cid, " ".join(o)))
        if cid in PYTHON:
            out.append("  extra = -lpython3.12")
    text = "\n".join(out) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def launch_dump():
    """What the launch files start, for the check that runs the whole system."""
    subprocess.run([sys.executable, os.path.join(VERIF, "tools", "launch_dump.py"), REPO,
                    os.path.join(BUILD, "launch.txt")], check=False)


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_ninja()
        launch_dump()
        cmd = ["ninja", "-C", BUILD] + (["-k", "0"] if len(ids) > 1 else []) + ["bin/" + i for i in ids]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-12000:])
            print("BUILD-FAILED " + " ".join(ids))
            sys.exit(2)
        for i in ids:
            if os.path.exists(os.path.join(BUILD, "bin", i)):
                statics(i)


# What a simulation leaves in the static variables of these is no business of another's.
FOREIGN = re.compile(
    r"^(DW\.ref|_ZT|_Z(GV|GR|TH|TW)?Z?(N[KVRO]*)?(S[tabsiod]|\d+(__gnu_cxx|boost|pcl\w*|Eigen|fmt|ranges|"
    r"rclcpp|rclcpp_components|tf2|tf2_ros|message_filters|sim|concepts|__cxxabiv1)(?=[\dISNLC])))")


def data_symbols(path):
    out = subprocess.run(["nm", path], stdout=subprocess.PIPE, text=True).stdout
    return {f[-1]: f[-2] for f in (l.split() for l in out.splitlines()) if len(f) >= 2 and
            f[-2] in "bBdDvVu"}


def statics(cid):
    """Lists the static variables of the code under test, for the simulator to
    give each simulation its own."""
    binary = os.path.join(BUILD, "bin", cid)
    path = binary + ".statics"
    if os.path.exists(path) and os.path.getmtime(path) >= os.path.getmtime(binary):
        return
    src, pkgs = CHECKS[cid]
    code = [] if cid in HEADER_ONLY else [f for p in pkgs for f in sources(p)]
    names = set()
    for f in code + [os.path.join(VERIF, "checks", src)]:
        o = os.path.join(BUILD, "obj/%s.o" % os.path.relpath(f, "/").replace("/", "_"))
        for n, t in data_symbols(o).items():
            # of the check itself only what comes from headers of the code under test
            if f in code or t in "vVu":
                names.add(n)
    keep = [n for n in sorted(names)
            if not FOREIGN.match(n) and not n.startswith(("_ZZN12_GLOBAL__N_11C", "_ZGVZN12_GLOBAL__N_11C"))]
    with open(path, "w") as out:
        out.write("".join(n + "\n" for n in keep))


def main():
    cid, mode, rest = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick"), sys.argv[3:]
    os.environ.pop("VERIF_TIER_OVERRIDE", None)
    if cid == "all":
        build([c for c in CHECKS if os.path.exists(os.path.join(VERIF, "checks", CHECKS[c][0]))])
        return 0
    build([cid])
    binary = os.path.join(BUILD, "bin", cid)
    seed = os.environ.get("VERIF_SEED", "1")
    known = ["--known=" + os.path.join(VERIF, "known_findings.txt"),
             "--known-dir=" + os.path.join(VERIF, "findings")]
    if mode == "build":
        return 0
    if mode == "replay":
        args = ["--replay=" + rest[0]] + rest[1:]
    elif mode in ("one", "gen"):
        args = ["--%s=%s" % (mode, rest[0]), "--seed=" + seed] + rest[1:]
        if mode == "one" and ("--trace" in rest):
            args.append("--raw")
    else:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        args = ["--seed=" + seed, "--tier=" + mode,
                "--replays=" + os.path.join(VERIF, "replays"),
                "--out=" + os.path.join(VERIF, "evidence", cid + ".json")] + known + rest
    sys.stdout.flush()
    r = subprocess.run([binary] + args)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
