#!/usr/bin/env python3
"""Builds /repo's current sources with the harness of one property and runs it.

  tools/check.py C07 [--tier quick|thorough]   run the check (exit 0 / 1 + VIOLATION)
  tools/check.py C07 --replay FILE             run one saved case again
  tools/check.py --setup                       pre-build everything
  tools/check.py --build C07                   build only, print the binary
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
SAN = ["-fsanitize=address",
       "-fsanitize=bounds,null,signed-integer-overflow,shift,return,"
       "integer-divide-by-zero,unreachable,bool,enum",
       "-fno-sanitize-recover=all"]
COMMON = ["-O1", "-g0", "-w", "-fno-omit-frame-pointer", "-fno-pie",
          "-ftrivial-auto-var-init=pattern", '-DOPENSEMBA_VERSION="0.14"',
          "-D_GLIBCXX_ASSERTIONS"] + SAN
INC = ["-I" + os.path.join(REPO, d) for d in
       ("external", "external/json", "external/gidpost", "src", "src/core")]
REPOFLAGS = ["-std=c++11", "-fsanitize-coverage=trace-pc"] + COMMON + INC
HARNFLAGS = ["-std=c++14", "-I" + os.path.join(VERIF, "engine")] + COMMON + INC
JOBS = os.cpu_count() or 8
# Multiple of the written number of cases for the quick tier: about 4-15 s each.
QUICK_SCALE = {"C11": 1, "C16": 1, "C24": 1.5, "C31": 1, "C10": 5, "C23": 3}

_hash = {}
def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = "missing"
    return _hash[p]

def compile_one(src, flags, objdir, cc=CXX):
    """Compiles src unless an object made from identical inputs is there."""
    name = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))
    obj, dep, key = (os.path.join(objdir, name + e) for e in (".o", ".d", ".key"))
    tag = hashlib.sha256(" ".join([cc] + flags).encode()).hexdigest()
    def current():
        deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        h = hashlib.sha256(tag.encode())
        for d in sorted(set(deps)):
            if not d.startswith("/usr/"):
                h.update((d + fhash(d)).encode())
        return h.hexdigest()
    try:
        if os.path.exists(obj) and open(key).read() == current():
            return obj, None
    except (OSError, IndexError):
        pass
    for f in (obj, key):
        if os.path.exists(f): os.unlink(f)
    r = subprocess.run([cc] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, src + ":\n" + r.stdout[-4000:]
    with open(key, "w") as f: f.write(current())
    return obj, None

def repo_sources(dirs):
    res = []
    for d in dirs:
        if d.endswith(".c") or d.endswith(".cpp"):
            res.append(os.path.join(REPO, d)); continue
        for root, ds, fs in os.walk(os.path.join(REPO, "src", d)):
            ds.sort()
            res += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".cpp")]
    return sorted(set(res))

GID_C = ["external/gidpost/gidpost.c", "external/gidpost/gidpostInt.c",
         "external/gidpost/gidpostHash.c", "external/gidpost/gidpostHDF5.c",
         "external/gidpost/recycle.c", "external/gidpost/hashtab.c", "external/gidpost/lookupa.c"]

def directives(pid):
    src = os.path.join(VERIF, "harness", pid + ".cpp")
    # Everything but the GiD exporter, which needs the gidpost library.
    d = {"SRC": ["core", "parser", "mesher", "solver", "exporter/vtk"], "EXTRA": []}
    for l in open(src):
        m = re.match(r"//\s*(SRC|EXTRA|LIBS):\s*(.*)", l)
        if m: d[m.group(1)] = m.group(2).split()
    return src, d

def build(pids):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    objdir = os.path.join(BUILD, "obj")
    jobs, per = {}, {}
    for pid in pids:
        src, d = directives(pid)
        lst = [(src, HARNFLAGS, CXX),
               (os.path.join(VERIF, "engine/pbt.cpp"), HARNFLAGS, CXX)]
        lst += [(s, REPOFLAGS, CXX) for s in repo_sources(d["SRC"])]
        if "gid" in d["EXTRA"]:
            cfl = ["-O1", "-g0", "-w", "-fno-pie"] + INC
            lst += [(os.path.join(REPO, c), cfl, "gcc") for c in GID_C
                    if os.path.exists(os.path.join(REPO, c))]
        per[pid] = lst
        for s in lst: jobs.setdefault(s[0], s)
    objs, errs = {}, []
    # Longest first: the harness itself, then the biggest sources.
    order = sorted(jobs.values(), key=lambda s: (not s[0].startswith(VERIF), "json/Parser" not in s[0],
                   -os.path.getsize(s[0]) if os.path.exists(s[0]) else 0))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fut = {ex.submit(compile_one, s[0], s[1], objdir, s[2]): s[0] for s in order}
        for f in concurrent.futures.as_completed(fut):
            o, e = f.result()
            if e: errs.append(e)
            objs[fut[f]] = o
    if errs:
        return None, "\n".join(errs)
    def link(pid):
        out = os.path.join(BUILD, "bin", pid)
        os_ = [objs[s[0]] for s in per[pid]]
        h = hashlib.sha256()
        for o in os_: h.update(open(o, "rb").read())
        if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == h.hexdigest():
            return None
        cmd = [CXX, "-no-pie"] + SAN + os_ + ["-o", out, "-lpthread"]
        if "gid" in directives(pid)[1]["EXTRA"]: cmd += ["-lz"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: return pid + ": " + r.stdout[-4000:]
        open(out + ".key", "w").write(h.hexdigest())
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(link, pids) if e]
    if errs: return None, "\n".join(errs)
    return {p: os.path.join(BUILD, "bin", p) for p in pids}, None

def build_one(pid):
    b, e = build([pid])
    if e:
        # A change may have moved code between libraries: link everything.
        print("build with the declared sources failed, trying all sources\n" + e[-1500:], file=sys.stderr)
        return None, e
    return b[pid], None

def known_findings(pid):
    res = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: res[m.group(2)] = m.group(3)
    return res

def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe, err = build_one(pid)
    if err:
        print("BUILD FAILED\n" + err); return 2
    tb = time.time() - t0
    repdir = os.path.join(BUILD, "replays"); os.makedirs(repdir, exist_ok=True)
    resf = os.path.join(BUILD, "result_%s.json" % pid)
    if os.path.exists(resf): os.unlink(resf)
    env = dict(os.environ, LC_ALL="C.UTF-8")
    for v in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LD_PRELOAD"): env.pop(v, None)
    r = subprocess.run([exe, "--id", pid, "--tier", tier, "--seed", str(seed), "--out", resf,
                        "--replay-dir", repdir, "--jobs", str(JOBS), "--scale",
                        str(QUICK_SCALE.get(pid, 4) if tier == "quick" else 1)], env=env, stdin=subprocess.DEVNULL)
    if not os.path.exists(resf):
        print("harness died: %d" % r.returncode); return 2
    res = json.load(open(resf))
    known = known_findings(pid)
    nviol = 0
    lines = []
    for v in res["violations"]:
        nviol += 1
        lines.append("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("%s/%s: %s: %s" % (pid, v["sub"], v["kind"], v["msg"]))
    for key, fails in sorted(res["known"].items()):
        if not fails: continue
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
        else:
            nviol += 1
            rp = os.path.join(repdir, "%s_known_%s.replay" % (pid, key))
            open(rp, "w").write("finding %s reproduces and is not listed in known_findings.txt\n" % key)
            lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
    for f in res["flaky"]: print("note: not reproducible, not reported: " + f)
    subs = res["subs"]
    samples = []
    for s in subs:
        for x in s["samples"][:1]: samples.append({"sub": s["name"], "case": x})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(s["evaluations"] for s in subs),
              "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
              "rule": "Cases are random choice sequences decoded by structured generators, 40% of them mutated under "
                      "coverage feedback; distinct = different choice sequences. Non-trivial, per sub-property: "
                      + "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs),
              "samples": samples[:12],
              "sub_properties": [{k: s[k] for k in ("name", "evaluations", "discarded", "nontrivial",
                                 "distinct_nontrivial", "coverage_mutated", "corpus", "labels", "excluded")} for s in subs],
              "known_findings_reproduced": sorted(k for k, f in res["known"].items() if f)},
          "assumptions": ["g++ 13 with AddressSanitizer, selected UBSan checks and assertions enabled",
                          "every case runs in a forked process; CPU limit per case 20 s (quick) or 60 s (thorough)"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d sub-properties, %d violations, build %.1f s, total %.1f s"
          % (pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
             len(subs), nviol, tb, time.time() - t0))
    for l in lines: print(l)
    return 1 if nviol else 0

def all_ids():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(VERIF, "harness", "C*.cpp")))

def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        b, e = build(all_ids())
        if e: print(e); return 1
        print("built", len(b), "harnesses"); return 0
    if a[0] == "--build":
        b, e = build(a[1:] or all_ids())
        if e: print(e); return 1
        print("\n".join(b.values())); return 0
    pid = a[0]
    if "--replay" in a:
        exe, e = build_one(pid)
        if e: print(e); return 2
        return subprocess.run([exe, "--id", pid, "--replay", a[a.index("--replay") + 1]]).returncode
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    return run(pid, tier)

sys.exit(main())
