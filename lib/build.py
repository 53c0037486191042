"""Generates a ninja file that compiles /repo's current working tree plus the harnesses in
/verif/harness, and builds the binary of one harness.  Everything is written under
/verif/.build (git-ignored); nothing under /repo or /opt/vp is touched."""
import glob, os, subprocess, sys, shlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
PROJ = os.path.join(REPO, "projects")

def _skip(path, splines=False):
    b = os.path.basename(path)
    d = path[len(PROJ):]
    return ("/test/" in d or "/pybindings/" in d
            or ("Spline" in b and not splines) or (b == "DMesonELoss.cxx" and not splines) or b in ("PythiaDISCrossSection.cxx",
                                      "MarleyCrossSection.cxx", "Interpolation.cxx"))

def project_sources(name, splines=False):
    """All library sources of one project that can be compiled offline (with the shims)."""
    import re
    text = open(os.path.join(PROJ, name, "CMakeLists.txt")).read()
    out = set()
    for rel in re.findall(r"\$\{PROJECT_SOURCE_DIR\}/(projects/\S+?\.(?:cxx|cpp|cc))\b", text):
        p = os.path.join(REPO, rel)
        if os.path.exists(p) and not _skip(p, splines):
            out.add(p)
    return sorted(out)

def vendor_sources():
    return sorted(glob.glob(os.path.join(REPO, "vendor/rk/rk/*.cxx")) + glob.glob(os.path.join(REPO, "vendor/rk/rk/*.cc"))
                  + glob.glob(os.path.join(REPO, "vendor/crundec3/CRunDec3.1/*.cpp")))

def includes():
    inc = ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")]
    inc += ["-I" + d for d in sorted(glob.glob(os.path.join(PROJ, "*", "public")))]
    inc += ["-I" + os.path.join(REPO, "vendor/rk"), "-I" + os.path.join(REPO, "vendor/crundec3"),
            "-I" + os.path.join(REPO, "vendor/crundec3/CRunDec3.1")]
    inc += subprocess.run(["python3", "-c",
            "import sysconfig;print('-I'+sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.split()
    return inc

# projects needed (transitively) by each project
DEPS = {
    "utilities": [], "serialization": [], "math": ["utilities"],
    "dataclasses": ["math", "utilities"],
    "geometry": ["math", "utilities"],
    "detector": ["geometry", "dataclasses", "math", "utilities"],
    "interactions": ["dataclasses", "detector", "geometry", "math", "utilities"],
    "distributions": ["interactions", "dataclasses", "detector", "geometry", "math", "utilities"],
    "injection": ["distributions", "interactions", "dataclasses", "detector", "geometry", "math", "utilities"],
    "io": ["dataclasses", "math", "utilities"],
}

def build(harness, sources, projects=(), flags=(), link=(), defines=(), opt="-O1", quiet=False, files=None):
    """harness: binary name; sources: harness .cxx files; projects: SIREN projects (with deps)."""
    os.makedirs(BUILD, exist_ok=True)
    need = []
    for p in projects:
        for q in [p] + DEPS[p]:
            if q not in need:
                need.append(q)
    srcs = [s for p in need for s in project_sources(p, "-DVERIF_SPLINES" in flags)]
    if files is not None:            # restrict to some projects' files (regex list), plus their dependencies as given
        import re
        srcs = [s for s in srcs if any(re.search(f, s[len(PROJ):]) for f in files)]
    if "interactions" in need or "distributions" in need:
        srcs += vendor_sources()
    cxx = os.environ.get("VERIF_CXX", "g++")
    # A sanitizer or define changes every object, so the object directory is keyed on the flags.
    common = ["-std=c++17", opt, "-g0", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-DSIREN_VERIF"] + list(flags) + ["-D" + d for d in defines]
    import hashlib
    key = hashlib.sha1(" ".join(common).encode()).hexdigest()[:8]
    odir = os.path.join(BUILD, "obj-" + key)
    lines = ["cxxflags = " + " ".join(shlex.quote(x) for x in common + includes()),
             "rule cxx", f"  command = {cxx} $cxxflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "  description = CXX $in",
             "rule link", f"  command = {cxx} -pthread {' '.join(flags)} @$out.rsp -o $out {' '.join(link)}",
             "  rspfile = $out.rsp", "  rspfile_content = $in", "  description = LINK $out"]
    objs = []
    for s in srcs + [os.path.join(VERIF, "harness", x) for x in sources]:
        rel = s.replace(REPO + "/", "repo/").replace(VERIF + "/", "verif/").lstrip("/")
        o = os.path.join(odir, rel + ".o")
        lines.append(f"build {o}: cxx {s}")
        objs.append(o)
    out = os.path.join(BUILD, "bin", harness)
    lines.append(f"build {out}: link {' '.join(objs)}")
    nf = os.path.join(BUILD, harness + ".ninja")
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(os.environ, CCACHE_DISABLE="1")
    r = subprocess.run(["ninja", "-C", BUILD, "-f", nf, "-j", str(os.cpu_count() or 8)],
                       capture_output=True, text=True, env=env)
    if r.returncode != 0 and files is not None and "undefined reference" in r.stdout + r.stderr:
        # a definition lives in another file of these projects: build all of them
        return build(harness, sources, projects, flags, list(link) + ["-lgsl", "-lgslcblas", "-lpython3.12"], defines, opt, quiet, None)
    if r.returncode != 0:
        log = (r.stdout + r.stderr).splitlines()
        first = next((i for i, l in enumerate(log) if "error" in l or "undefined" in l), 0)
        sys.stderr.write("\n".join(l[:300] for l in log[first:first + 25]) + "\n")
        raise SystemExit(3)
    if not quiet:
        sys.stderr.write(f"[build] {harness}: {len(objs)} objects\n")
    return out
