#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's current working tree.

  run_check.py ID [--thorough] [--replay FILE] [--only SCENARIO]

A harness harness/<ID>.cc names, in comment lines at its top, the repository sources it is linked with:
  // SOURCES: nlp_common/StrProcUtils.cc ...     (paths below /repo/src)
  // FLAGS: extra compiler flags                 (for the harness and the sources)
  // LIBS: extra libraries
  // PROGRAM: NAME main-source library-sources...   (a program of /repo to be built beside the harness; the
  //                                                 harness finds it as $VERIF_BUILD/bin/NAME)
  // SCRIPTS: utils/... utils/...                 (scripts of /repo, made into programs in $VERIF_BUILD/bin as the build does)
If the named sources do not suffice to link (code moved between files), every library source of /repo
is compiled and linked as an archive.
"""
import glob, hashlib, threading, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("THOT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
DIRS = "nlp_common incr_models sw_models phrase_models error_correction downhill_simplex stack_dec hat_trie picojson smt_preproc".split()
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CCACHE = shutil.which("ccache")
CXX = "g++"
BASE = ["-std=gnu++17", "-O1", "-g1", "-w", "-DHAVE_CONFIG_H", "-D_GLIBCXX_ASSERTIONS",
        '-DTHOT_LIBDIR="/nonexistent"', '-DTHOT_MASTER_INI_PATH="/nonexistent"',
        "-I" + os.path.join(VERIF, "harness", "include"), "-I" + os.path.join(VERIF, "harness")] + \
       ["-I" + SRC] + ["-I" + os.path.join(SRC, d) for d in DIRS]
LIBS = ["-lgmp", "-lz", "-ldb_cxx", "-lleveldb", "-lltdl", "-ldl", "-lpthread"]
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(args):
    src, obj, flags = args
    env = dict(os.environ)
    cmd = [CXX] + flags + ["-c", src, "-o", obj]
    if CCACHE:
        env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
        env.setdefault("CCACHE_MAXSIZE", "3G")
        cmd = [CCACHE] + cmd
    r = sh(cmd, env=env)
    return (src, r.returncode, r.stdout)


def compile_all(sources, flags, tag):
    """compiles absolute source paths, returns the objects; failures are returned too"""
    odir = os.path.join(BUILD, "obj", tag)
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for s in sources:
        o = os.path.join(odir, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, "/")) + ".o")
        objs.append(o)
        jobs.append((s, o, flags))
    bad = []
    with ThreadPoolExecutor(JOBS) as ex:
        for src, rc, out in ex.map(compile_one, jobs):
            if rc:
                bad.append((src, out))
    return objs, bad


def library_sources(headers=None):
    am = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    names = set(re.findall(r"[\w./]+\.cc\b", am))
    res = []
    for n in sorted(names):
        p = os.path.join(SRC, n)
        if not os.path.exists(p) or n.startswith("testing/") or "Factory.cc" in n:
            continue
        if re.search(r"\bint\s+main\s*\(", open(p, errors="replace").read()):
            continue
        res.append(p)
    return res


_lib = {}
_lib_lock = threading.Lock()


def link(out, objs, flags, tag, tail):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [CXX] + flags + ["-o", out] + objs
    r = sh(cmd + tail)
    if r.returncode == 0:
        return
    print("note: linking %s with the named sources failed, using every library source: " % os.path.basename(out) +
          "; ".join(sorted(set(re.findall(r"undefined reference to `[^']*'", r.stdout)))[:8]), file=sys.stderr)
    with _lib_lock:
      if tag not in _lib:
        lib, bad = compile_all(library_sources(), flags, tag)
        lib = [o for o in lib if os.path.exists(o)]
        ar = os.path.join(BUILD, "bin", tag + ".a")
        if os.path.exists(ar):
            os.unlink(ar)
        sh(["ar", "cr", ar] + lib)
        _lib[tag] = ar
    r2 = sh(cmd + [_lib[tag], _lib[tag]] + tail)
    if r2.returncode:
        raise BuildError(r.stdout + "\n" + r2.stdout)


def build(prop, flags_extra=None):
    hsrc = os.path.join(VERIF, "harness", prop + ".cc")
    head = open(hsrc).read()
    def lines(name):
        return re.findall(r"^// %s: (.*)$" % name, head, re.M)
    def directive(name):
        return " ".join(lines(name)).split()
    flags = BASE + directive("FLAGS") + (flags_extra or [])
    tag = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:10]
    def path(s):
        return os.path.join(VERIF, "harness", s[6:]) if s.startswith("verif:") else os.path.join(SRC, s)
    targets = [(os.path.join(BUILD, "bin", prop), [hsrc, os.path.join(VERIF, "harness", "mc.cc")], [path(s) for s in directive("SOURCES")])]
    for l in lines("PROGRAM"):
        w = l.split()
        targets.append((os.path.join(BUILD, "bin", w[0]), [path(w[1])], [path(s) for s in w[2:]]))
    install_scripts(directive("SCRIPTS"))
    allsrc = []
    for out, must, extra in targets:
        extra[:] = [s for s in extra if os.path.exists(s)]
        for s in must + extra:
            if s not in allsrc:
                allsrc.append(s)
    objs, bad = compile_all(allsrc, flags, tag)
    if bad:
        raise BuildError("\n".join(s + "\n" + o for s, o in bad))
    obj = dict(zip(allsrc, objs))
    tail = directive("LIBS") + LIBS
    with ThreadPoolExecutor(JOBS) as ex:
        jobs = [ex.submit(link, out, [obj[s] for s in must + extra], flags, tag, tail) for out, must, extra in targets]
        for j in jobs:
            j.result()
    return targets[0][0]


def install_scripts(paths):
    bindir, pydir = os.path.join(BUILD, "bin"), os.path.join(BUILD, "python")
    os.makedirs(bindir, exist_ok=True)
    tools = {n: shutil.which(p) or p for n, p in dict(
        AWK="gawk", SORT="sort", SPLIT="split", SED="sed", GREP="grep", UNIQ="uniq", BASENAME="basename", DIRNAME="dirname", HEAD="head",
        TAIL="tail", FIND="find", MKTEMP="mktemp", LN="ln", WC="wc", PASTE="paste", TOUCH="touch", CUT="cut", GZIP="gzip", PS="ps").items()}
    # VERIF_SPLIT lets a harness choose the size of the chunks
    sh = "#!/bin/bash\n" + "".join('%s="%s"\n' % x for x in [
        ("pkgname", "thot"), ("version", "0"), ("bindir", bindir + "/"), ("libdir", "/nonexistent/"), ("datadir", os.path.join(BUILD, "share")),
        ("sortpars", "-S 131072"), ("sortT", "yes"), ("sortm", "yes"), ("PIPE_FAIL", "pipe_fail"), ("QSUB", ""), ("QSUB_WORKS", "no")] + sorted(tools.items()))
    sh += 'SPLIT="${VERIF_SPLIT:-$SPLIT}"\n'
    for p in paths:
        name, ext = os.path.splitext(os.path.basename(p))
        src = open(os.path.join(REPO, p), errors="surrogateescape").read()
        if ext == ".py" and name.endswith("_smt_preproc"):
            out, text, mode = os.path.join(pydir, name + ".py"), src, 0o644
        elif ext == ".py":
            out, text, mode = os.path.join(bindir, name), '#!%s\nimport sys\nsys.path.append("%s")\n' % (shutil.which("python3"), pydir) + src, 0o755
        else:
            out, text, mode = os.path.join(bindir, name), sh + src, 0o755
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out) and open(out, errors="surrogateescape").read() == text:
            continue
        tmp = out + ".%d" % os.getpid()
        with open(tmp, "w", errors="surrogateescape") as f:
            f.write(text)
        os.chmod(tmp, mode)
        os.replace(tmp, out)


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    try:
        exe = build(prop)
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)[-6000:])
        return 2
    tb = time.time() - t0
    jf = os.path.join(BUILD, "bin", prop + ".json")
    if os.path.exists(jf):
        os.unlink(jf)
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_odr_violation=0:allocator_may_return_null=1"
    env["LC_ALL"] = "C.UTF-8"
    env["VERIF_BUILD"] = BUILD
    env["THOT_REPO"] = REPO
    env["VERIF_DIR"] = VERIF
    if "--replay" not in args:
        for old in glob.glob(os.path.join(VERIF, "replays", prop + "-*.replay")):
            os.unlink(old)
    cmd = [exe, "--json", jf, "--replays", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known-findings.txt")]
    for i, a in enumerate(args):
        if a in ("--replay", "--only"):
            cmd += [a, args[i + 1]]
    rc = subprocess.run(cmd, env=env, cwd=VERIF).returncode
    if "--replay" in args:
        return rc
    print("build %.1f s, exploration %.1f s" % (tb, time.time() - t0 - tb))
    if os.path.exists(jf):
        j = json.load(open(jf))
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": {"states": j["states"], "transitions": j["transitions"],
                           "traces_validated_against_impl": j["executions"],
                           "choice_tree_nodes": j["nodes"], "distinct_outcomes": j["outcomes"], "max_depth": j["max_depth"],
                           "exhaustive": not j["violated"],
                           "rule": "every sequence of choices of every scenario is executed on the code of /repo and compared with the reference model; states = distinct reference-model states, transitions = operations performed on the implementation, traces = complete executions compared",
                           "scenarios": j["scenarios"], "known_findings_seen": j["known_seen"], "samples": j["samples"]},
              "violations": 1 if j["violated"] else 0, "wall_s": round(time.time() - t0, 2)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
