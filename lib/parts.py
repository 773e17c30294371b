"""What each check consists of."""
import concurrent.futures, json, os, re, shutil, time
import core
from core import Broken, Part, build, harness_part, repo_builds, skipped

# The counters of a phase that count pairwise distinct cases.
DISTINCT = ("texts", "inputs", "traces", "pairs", "scalar_values", "sequences", "files", "histories", "schedules", "interleavings",
            "buffers", "names", "values", "cases", "configurations", "datasets", "product_transitions")

ASSUMPTIONS = {
    "*": ["The oracle in harness/spec and harness/ucd is right; it is written from UAX #29 and the Unicode 17.0 files, its two forms are compared on every run, and it was compared with ICU 78 (Unicode 17) on 1.38 million texts.",
          "The Go toolchain compiles the code correctly."],
}


def public(ctx):
    """Exploration of the public split function."""
    binary, msg = build(ctx, ctx.path("pub"), "./cmd/pub", core.HARNESS)
    if not binary:
        raise Broken("cannot build the harness against the library:\n" + msg)
    return harness_part(ctx, "public", binary, [ctx.prop, ctx.tier])


def internal(name, label):
    """An exploration of internal packages, by a program that is compiled into the library's tree through an overlay."""
    def part(ctx):
        binary, msg = build(ctx, ctx.path(name), "./textseg/internal/zzverif/" + name, core.REPO, overlay=core.internal_overlay(ctx, [name]))
        if not binary:
            # The public behaviour is checked elsewhere; an internal interface may change.
            ok, m2 = repo_builds(ctx)
            if not ok:
                raise Broken("the library does not build:\n" + m2)
            return skipped(ctx, label, "the library builds, but not with this harness: its internal interface has changed: " + msg)
        return harness_part(ctx, label, binary, [ctx.prop, ctx.tier])
    return part


CHARPROPS = os.path.join(core.REPO, "textseg", "internal", "charprops")


def generator_program():
    """The program that go generate runs, relative to the charprops directory."""
    for f in sorted(os.listdir(CHARPROPS)):
        if f.endswith(".go"):
            with open(os.path.join(CHARPROPS, f), errors="replace") as fh:
                m = re.search(r"^//go:generate go run (.*)$", fh.read(), re.M)
                if m:
                    return m.group(1).split()
    return ["./generate.go"]


def build_generator(ctx, name="generator", overlay=None, version=core.MAIN, args=(), env=None):
    out = ctx.path(name)
    prog = generator_program()
    if overlay is None:
        cmd = [core.go(version), "build", "-o", out] + list(args) + prog
    else:
        p = out + ".overlay.json"
        with open(p, "w") as f:
            json.dump({"Replace": overlay}, f)
        cmd = [core.go(), "build", "-overlay", p, "-o", out] + prog
    rc, so, se = core.run(cmd, cwd=CHARPROPS, env=core.go_env(version, work=core.workfile(ctx), extra=env), timeout=max(30, ctx.left()))
    return (out if rc == 0 else None), so + se


def generator_broken(msg):
    return Part("generator", {"found": [{"kind": "build", "message": "the table generator does not compile:\n" + msg}], "coverage": {"exhaustive": False}})


def generated(ctx):
    """Tables generated from enumerated data, in the real lookup code."""
    gen, msg = build_generator(ctx)
    if not gen:
        return generator_broken(msg)
    env = {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "TMPDIR": ctx.dir, "GEN_BIN": gen, "GEN_UCD": os.path.join(CHARPROPS, "ucd"), "GOTRACEBACK": "all"}
    raw = os.path.join(CHARPROPS, "property_table_raw.go")
    rewriter, msg = build(ctx, ctx.path("tablerewrite"), "./cmd/tablerewrite", core.HARNESS)
    if not rewriter:
        raise Broken(msg)
    # A table that is generated afresh, in case the committed file is laid out differently.
    os.makedirs(ctx.path("fresh"))
    os.symlink(env["GEN_UCD"], ctx.path("fresh", "ucd"))
    rc, so, se = core.run([gen], cwd=ctx.path("fresh"), env=env, timeout=120)
    fresh = ctx.path("fresh", "property_table_raw.go")
    if rc != 0 or not os.path.exists(fresh):
        return Part("generator", {"found": [{"kind": "generate", "message": "the generator fails on the repository's own data (exit status %s):\n%s" % (rc, (so + se)[-2000:])}],
                                  "coverage": {"exhaustive": False}})
    ps = []
    rc, so, se = core.run([rewriter, raw, ctx.path("raw.go"), ctx.path("set.go")], env=env, timeout=60)
    if rc == 3:
        ps.append(skipped(ctx, "generated tables", "the table file has another form: " + se))
    elif rc != 0:
        raise Broken(so + se)
    else:
        ov = core.internal_overlay(ctx, ["gen"])
        ov[raw] = ctx.path("raw.go")
        ov[os.path.join(CHARPROPS, "zzverif_set.go")] = ctx.path("set.go")
        binary, msg = build(ctx, ctx.path("gen"), "./textseg/internal/zzverif/gen", core.REPO, overlay=ov)
        if binary:
            ps.append(harness_part(ctx, "generated tables", binary, [ctx.prop, ctx.tier], env=env))
        else:
            ps.append(skipped(ctx, "generated tables", "the library builds, but not with this harness: " + msg))
    if not any(p.found for p in ps):
        ps.append(compiled_tables(ctx, gen, env, raw))
    return ps


def compiled_tables(ctx, gen, env, raw):
    """A few generated tables, compiled."""
    ov = core.internal_overlay(ctx, ["gen", "lookup"])
    with open(ctx.path("noset.go"), "w") as f:
        f.write("package charprops\n\nfunc VerifSetTable(map[string][]uint64) error { return nil }\n")
    ov[os.path.join(CHARPROPS, "zzverif_set.go")] = ctx.path("noset.go")
    binary, msg = build(ctx, ctx.path("genlist"), "./textseg/internal/zzverif/gen", core.REPO, overlay=ov)
    if not binary:
        return skipped(ctx, "compiled tables", msg)
    t0 = time.time()
    d = ctx.path("e2e")
    os.makedirs(d)
    rc, so, se = core.run([binary, "e2e", d], env=env, timeout=120)
    if rc != 0:
        raise Broken("gen e2e: " + so + se)
    os.makedirs(os.path.join(d, "real"))
    os.symlink(env["GEN_UCD"], os.path.join(d, "real", "ucd"))
    with open(os.path.join(d, "real", "name"), "w") as f:
        f.write("the repository's data, through the compiler")
    subs = sorted(os.listdir(d))
    os.link(os.path.join(d, "d00", "expected"), os.path.join(d, "real", "expected"))  # the first dataset is the real data

    def one(sub):
        p = os.path.join(d, sub)
        name = open(os.path.join(p, "name")).read()
        rc, so, se = core.run([gen], cwd=p, env=env, timeout=120)
        if rc != 0:
            return name, "refused", se
        ov2 = dict(ov)
        ov2[raw] = os.path.join(p, "property_table_raw.go")
        b, msg = build(ctx, os.path.join(p, "lookup"), "./textseg/internal/zzverif/lookup", core.REPO, overlay=ov2)
        if not b:
            return name, "does not compile", msg
        rc, so, se = core.run([b, "cmp", os.path.join(p, "expected")], env=env, timeout=120)
        os.remove(b)
        if rc == 0:
            return name, "exact", ""
        if rc == 1 or core.CRASH.search(se):
            return name, "wrong", so + se
        raise Broken("lookup cmp: %s %s %s" % (rc, so, se))

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, subs))
    found, n = [], {}
    for name, o, detail in res:
        n[o] = n.get(o, 0) + 1
        if o == "wrong" or o != "exact" and name.startswith("the repository's data"):
            found.append({"kind": "compiled", "message": "%s: %s: %s" % (name, o, detail[-1500:])})
    return Part("compiled tables", {"found": found[:3], "wall_s": time.time() - t0,
                                    "coverage": {"exhaustive": True, "cases": len(res), "outcomes": n, "samples": [{"dataset": r[0], "outcome": r[1]} for r in res[:5]],
                                                 "phases": [{"phase": "compiled tables", "datasets": len(res)}]}})


# ---- The generator under faults.

FAULT_OPS = {"openat": "open", "read": "read", "pread": "pread", "write": "write", "pwrite": "pwrite", "Close": "close", "Fsync": "fsync", "Ftruncate": "trunc",
             "Renameat": "rename", "unlinkat": "unlink", "Fchmod": "chmod"}


def faulty_syscalls(ctx):
    """An overlay for the syscall package of the standard library, whose file operations fail on demand."""
    src = os.path.join(core.GOROOTS[core.MAIN], "src", "syscall")
    z = os.path.join(src, "zsyscall_linux_amd64.go")
    text = open(z).read()
    for f in FAULT_OPS:
        text, n = re.subn(r"(?m)^func %s\(" % f, "func verifReal_%s(" % f, text)
        if n != 1:
            raise Broken("syscall.%s: %d definitions" % (f, n))
    with open(ctx.path("zsyscall.go"), "w") as fh:
        fh.write(text)
    return {z: ctx.path("zsyscall.go"), os.path.join(src, "zz_verif.go"): os.path.join(core.VERIF, "harness", "faults", "zz_verif.go.txt")}


def generator_faults(ctx):
    gen, msg = build_generator(ctx)
    if not gen:
        return generator_broken(msg)
    faulty, msg = build_generator(ctx, "generator-faulty", faulty_syscalls(ctx))
    if not faulty:
        raise Broken("the generator does not build with failing system calls:\n" + msg)
    binary, msg = build(ctx, ctx.path("genfault"), "./cmd/genfault", core.HARNESS)
    if not binary:
        raise Broken(msg)
    env = {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "TMPDIR": ctx.dir, "GEN_BIN": gen, "GEN_FAULTY": faulty, "GEN_UCD": os.path.join(CHARPROPS, "ucd"), "GOTRACEBACK": "all"}
    return harness_part(ctx, "generator under faults", binary, [ctx.prop, ctx.tier], env=env)


def chosen_runtime(ctx):
    """An overlay for the runtime and time packages: random choices of maps, and the clock, come from the environment."""
    ov = {}
    for rel, renames, extra in (("runtime/rand.go", ("bootstrapRand", "rand"), "zz_choice.go.txt"), ("time/time.go", ("Now", "Since", "Until"), "zz_time.go.txt"), ("os/sys.go", ("Hostname",), "zz_host.go.txt")):
        src = os.path.join(core.GOROOTS[core.MAIN], "src", rel)
        text = open(src).read()
        for f in renames:
            text, n = re.subn(r"(?m)^func %s\(" % f, "func verifReal%s(" % f, text)
            if n != 1:
                raise Broken("%s: %d definitions of %s" % (rel, n, f))
            text = re.sub(r"(?m)^//go:linkname(std)? %s\b.*$" % f, "//", text)
        out = ctx.path(rel.replace("/", "-"))
        with open(out, "w") as fh:
            fh.write(text)
        ov[src] = out
        ov[os.path.join(os.path.dirname(src), "zz_verif.go")] = os.path.join(core.VERIF, "harness", "faults", extra)
    return ov


def reproducible(ctx):
    gen, msg = build_generator(ctx)
    if not gen:
        return generator_broken(msg)
    chosen = chosen_runtime(ctx)
    choice, msg = build_generator(ctx, "generator-choice", chosen)
    if not choice:
        raise Broken("the generator does not build with a controlled runtime:\n" + msg)
    binary, msg = build(ctx, ctx.path("gendet"), "./cmd/gendet", core.HARNESS)
    if not binary:
        raise Broken(msg)
    probe, msg = build(ctx, ctx.path("probe"), "./cmd/gendet", core.HARNESS, overlay=chosen)
    if not probe:
        raise Broken(msg)
    others = []
    for name, o in (("go1.25.14", {"version": "1.25.14"}), ("go1.26.10", {"version": "1.26.10"}), ("not optimised", {"args": ("-gcflags=all=-N -l",)}), ("linux-386", {"env": {"GOARCH": "386"}})):
        other, msg = build_generator(ctx, "generator-" + name.replace(" ", "-"), **o)
        if other:
            others.append("%s=%s" % (name, other))
        else:
            ctx.notes.append("the generator was not built as %s: %.300s" % (name, msg))
    env = {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "TMPDIR": ctx.dir, "GEN_BIN": gen, "GEN_CHOICE": choice, "GEN_PROBE": probe, "GEN_OTHERS": "|".join(others), "GEN_UCD": os.path.join(CHARPROPS, "ucd"),
           "GEN_COMMITTED": os.path.join(CHARPROPS, "property_table_raw.go"), "GOTRACEBACK": "all"}
    return harness_part(ctx, "reproducible generation", binary, [ctx.prop, ctx.tier], env=env)


# ---- Schedules.

def instrumented(ctx, program="sched"):
    """The overlay of an instrumented copy of textseg and what it uses, or (None, why)."""
    zz = core.MODULE + "/textseg/internal/zzverif/"
    ov = core.internal_overlay(ctx, ["zzsched", "vsync", "vatomic", program])
    tool, msg = build(ctx, ctx.path("instrument"), "./cmd/instrument", core.HARNESS)
    if not tool:
        raise Broken(msg)
    rc, so, se = core.run([core.go(), "list", "-deps", "-f", "{{if .Module}}{{.Dir}}{{range .GoFiles}} {{.}}{{end}}{{end}}", "./textseg"],
                          cwd=core.REPO, env=core.go_env(work=core.workfile(ctx)), timeout=60)
    if rc != 0:
        raise Broken("go list: " + se)
    p = ctx.path("instrumented.json")
    with open(p, "w") as f:
        json.dump({"Replace": ov}, f)
    with open(ctx.path("packages"), "w") as f:
        f.write(so)
    rc, so, se = core.run(["/bin/sh", "-c", 'exec "$0" "$@" <' + ctx.path("packages"), tool, zz + "zzsched", zz + "vsync", ctx.path("instrumented"), p], timeout=60)
    if rc == 3:
        return ov, None, se
    if rc != 0:
        raise Broken("instrument: " + se)
    with open(p) as f:
        return ov, json.load(f)["Replace"], so.strip() + " scheduling points"


def schedules(ctx):
    plain, ov, msg = instrumented(ctx)
    pkg = "./textseg/internal/zzverif/sched"
    env = {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "GOTRACEBACK": "all"}
    ps = []
    if ov:
        binary, m2 = build(ctx, ctx.path("sched"), pkg, core.REPO, overlay=ov)
        if binary:
            ps.append(harness_part(ctx, "schedules", binary, [ctx.prop, ctx.tier], env=env))
        else:
            ov, msg = None, m2
    if not ov:
        ok, m2 = repo_builds(ctx)
        if not ok:
            raise Broken("the library does not build:\n" + m2)
        ps.append(skipped(ctx, "schedules", "the library uses what the scheduler does not control: " + msg))
        env["SCHED_FREE"] = "1"
    if any(p.found for p in ps):
        return ps
    env["SCHED_RACE"] = "1"
    binary, m2 = build(ctx, ctx.path("sched-race"), pkg, core.REPO, overlay=ov or plain, race=True)
    if not binary:
        raise Broken("no binary with the race detector:\n" + m2)
    ps.append(harness_part(ctx, "schedules with race detector", binary, [ctx.prop, ctx.tier], env=env, big_memory=True))
    return ps


def steps(ctx):
    """Counts what calls do, in an instrumented copy."""
    plain, ov, msg = instrumented(ctx, "steps")
    binary = None
    if ov:
        binary, msg = build(ctx, ctx.path("steps"), "./textseg/internal/zzverif/steps", core.REPO, overlay=ov)
    if not binary:
        ok, m2 = repo_builds(ctx)
        if not ok:
            raise Broken("the library does not build:\n" + m2)
        return skipped(ctx, "steps", "the library cannot be instrumented: " + msg)
    return harness_part(ctx, "steps", binary, [ctx.prop, ctx.tier])


# ---- autoversion, under every Go release.

AUTOV = os.path.join(core.REPO, "autoversion", "textseg")
# The Unicode version of each supported release's standard library.
UNICODE_OF = {21: 15, 22: 15, 23: 15, 24: 15, 25: 15, 26: 15, 27: 17}


def violation(name, kind, message, **coverage):
    return Part(name, {"found": [{"kind": kind, "message": message[:4000]}], "coverage": dict({"exhaustive": False}, **coverage)})


def autov_env(ctx, expect=None):
    e = {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "GOTRACEBACK": "all"}
    if expect:
        e["AUTOV_EXPECT"] = str(expect)
    return e


def lowered(ctx, version):
    """A workspace for a toolchain that is older than what the go.mod files ask for: copies that ask for less."""
    d = ctx.path("lowered-" + version)
    want = version.rsplit(".", 1)[0]
    ignore = lambda src, names: [n for n in names if n in (".git", ".build") or n == "ucd" and src.endswith("charprops")]
    for src, name in ((core.HARNESS, "harness"), (core.REPO, "repo")):
        shutil.copytree(src, os.path.join(d, name), ignore=ignore)
    mods = (os.path.join(d, "harness"), os.path.join(d, "repo"), os.path.join(d, "repo", "autoversion"))
    for m in mods:
        f = os.path.join(m, "go.mod")
        text = re.sub(r"(?m)^toolchain .*\n", "", re.sub(r"(?m)^go .*$", "go " + want, open(f).read()))
        text = re.sub(r"(?m)^\s*(require )?%s v17\S*( // .*)?$" % re.escape(core.MODULE), "", text)  # the workspace has it
        with open(f, "w") as fh:
            fh.write(text)
    w = os.path.join(d, "go.work")
    with open(w, "w") as fh:
        fh.write("go %s\n\nuse (\n%s)\n" % (want, "".join("\t%s\n" % m for m in mods)))
    return mods[0], w


def autov_with(ctx, version):
    """autoversion built with a real toolchain."""
    name = "autoversion built with go" + version
    minor = int(version.split(".")[1])
    cwd, work, old = core.HARNESS, None, minor < 25
    if old:
        cwd, work = lowered(ctx, version)
    out = ctx.path("autov-" + version)
    binary, msg = build(ctx, out, "./cmd/autov", cwd, version=version, work=work)
    if not binary:
        if old:
            return skipped(ctx, name, "does not build with a release older than go.mod asks for: " + msg)
        ok, m2 = lib_builds(ctx)
        if not ok:
            raise Broken("the library does not build:\n" + m2)
        return violation(name, "build", "a program that uses autoversion does not build with this supported release:\n" + msg)
    return harness_part(ctx, name, binary, [ctx.prop, ctx.tier], env=autov_env(ctx))


def lib_builds(ctx):
    rc, so, se = core.run([core.go(), "build", "./..."], cwd=core.REPO, env=core.go_env(work=core.workfile(ctx)), timeout=max(30, ctx.left()))
    if rc != 0:
        return False, so + se
    rc, so, se = core.run([core.go(), "build", "./cmd/pub", "./cmd/buildconf"], cwd=core.HARNESS, env=core.go_env(work=core.workfile(ctx)), timeout=max(30, ctx.left()))
    return rc == 0, so + se


def releases(*versions):
    def part(ctx):
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            return list(ex.map(lambda v: autov_with(ctx, v), versions))
    return part


def configurations(ctx):
    """Every release x port: the files that are compiled, and what a program made of them does."""
    t0 = time.time()
    ports = all_ports(ctx)
    conf = buildconf(ctx, AUTOV)
    cov = {"exhaustive": True, "configurations": conf["configurations"], "ports": conf["ports"], "releases": "go1.0 to go1.40",
           "cases": conf["configurations"], "file_sets": len(conf["groups"]), "samples": [],
           "phases": [{"phase": "build configurations", "configurations": conf["configurations"]}]}
    found = []
    jobs = []
    for g in conf["groups"]:
        rel = {int(n): c for n, c in g["Releases"].items()}
        for want in sorted({UNICODE_OF.get(n, 0) for n in rel}):
            ns = sorted(n for n in rel if UNICODE_OF.get(n, 0) == want)
            jobs.append((g, want, ns, sum(rel[n] for n in ns), g["Example"][str(ns[0])]))

    def one(i, job):
        g, want, ns, count, example = job
        # The files of this configuration, without constraints, as the package.
        d = ctx.path("conf-%d" % i)
        os.makedirs(os.path.join(d, "autoversion", "textseg"))
        for f in ("go.mod", "go.sum"):
            p = os.path.join(core.REPO, "autoversion", f)
            if os.path.exists(p):
                shutil.copy(p, os.path.join(d, "autoversion", f))
        for k, f in enumerate(g["Files"]):
            text = open(os.path.join(AUTOV, f)).read()
            text = no_constraints(text)
            with open(os.path.join(d, "autoversion", "textseg", "f%02d%s" % (k, os.path.splitext(f)[1])), "w") as fh:
                fh.write(text)
        work = os.path.join(d, "go.work")
        with open(work, "w") as fh:
            fh.write("go 1.25\n\nuse (\n\t%s\n\t%s\n\t%s/autoversion\n)\n" % (core.HARNESS, core.REPO, d))
        where = "%d configurations, e.g. %s; compiled: %s" % (count, example, " ".join(g["Files"]))
        binary, msg = build(ctx, os.path.join(d, "autov"), "./cmd/autov", core.HARNESS, work=work)
        if want == 0:
            if binary:
                # The harness names the function, so it exists.
                return violation("", "build configuration", "ScanGraphemeClusters exists with an unsupported release: " + where), where
            return None, where + ": ScanGraphemeClusters is missing, as it should be"
        if not binary:
            ok, m2 = lib_builds(ctx)
            if not ok:
                raise Broken("the library does not build:\n" + m2)
            return violation("", "build configuration", "the package is not usable with a supported release: %s:\n%s" % (where, msg)), where
        p = harness_part(ctx, "configuration %d" % i, binary, [ctx.prop, "quick"], env=autov_env(ctx, want))
        if p.found:
            p.found[0]["message"] = "%s (Unicode %d is expected): %s" % (where, want, p.found[0]["message"])
        p.name = "configuration %d" % i
        return p, where + ": behaves exactly like v%d" % want

    ps = []
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for p, text in ex.map(lambda a: one(*a), enumerate(jobs)):
            cov["samples"].append(text)
            if p is None:
                continue
            if p.name:
                ps.append(p)
            else:
                found += p.found
    # The real go command agrees with the enumeration on which files it compiles.
    checked, bad = real_selection(ctx, ports, conf)
    cov["selections_compared_with_real_go_commands"] = checked
    if bad:
        raise Broken("the go command selects other files than go/build: %s" % bad[:3])
    return [Part("build configurations", {"found": found[:3], "coverage": cov, "wall_s": time.time() - t0})] + ps


def real_selection(ctx, ports, conf):
    """Compares the file sets with 'go list' of the installed toolchains, on every port each of them knows."""
    d = ctx.path("select")
    shutil.copytree(AUTOV, os.path.join(d, "textseg"))
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module verif.local/select\n\ngo 1.21\n")
    expect = {}
    for g in conf["groups"]:
        for n in g["Releases"]:
            expect.setdefault(int(n), []).append([f for f in g["Files"] if f.endswith(".go")])
    work = []
    for v in core.GOROOTS:
        rc, so, se = core.run([core.go(v), "tool", "dist", "list"], env=core.go_env(v), cwd=ctx.dir, timeout=120)
        known = so.split()
        work += [(v, p) for p in (known if ctx.thorough else ["linux/amd64", "linux/386", "linux/arm64", "windows/amd64", "darwin/arm64", "js/wasm", "plan9/386", "aix/ppc64"]) if p in known]

    def one(a):
        v, p = a
        goos, arch = p.split("/")
        env = core.go_env(v, work="off", extra={"GOOS": goos, "GOARCH": arch, "GOFLAGS": "-mod=mod"})
        rc, so, se = core.run([core.go(v), "list", "-e", "-f", "{{range .GoFiles}} {{.}}{{end}}", "./textseg"], cwd=d, env=env, timeout=60)
        files = sorted(so.split())
        if rc != 0 or files not in [sorted(x) for x in expect[int(v.split(".")[1])]]:
            return "%s %s: %s %s" % (v, p, files, se)
        return None

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, work))
    return len(res), [r for r in res if r]


# ---- What the linker keeps of each Unicode version.

API = ("ScanGraphemeClusters", "UnicodeMajorVersion", "ScanUTF8Sequences", "TokenCount", "AllTokens")
NOT_SELECTED = 8192  # bytes of other versions' code and data; their tables have more than 40,000


def linked_with(ctx, version, port):
    """Programs that use each subset of autoversion's API, and what they hold of the versions that are not selected."""
    t0 = time.time()
    name = "programs linked with go%s for %s" % (version, port)
    goos, arch = port.split("/")
    d = ctx.path("link-%s-%s-%s" % (version, goos, arch))
    minor = int(version.split(".")[1])
    mods, floor = [core.REPO, core.REPO + "/autoversion"], "1.25"
    if minor < 25:
        lowered_to, _ = lowered(ctx, version)
        top = os.path.dirname(lowered_to)
        mods, floor = [os.path.join(top, "repo"), os.path.join(top, "repo", "autoversion")], "1.%d" % minor
    subsets = []
    for mask in range(1 << len(API)):
        use = [a for k, a in enumerate(API) if mask >> k & 1]
        p = os.path.join(d, "p%02d" % mask)
        os.makedirs(p)
        with open(os.path.join(p, "main.go"), "w") as f:
            f.write('package main\n\nimport %s"github.com/apparentlymart/go-textseg/autoversion/textseg"\n\nvar keep []any\n\nfunc main() {\n' % ("" if use else "_ "))
            f.write("".join("\tkeep = append(keep, textseg.%s)\n" % a for a in use) + "\tprintln(len(keep))\n}\n")
        subsets.append(("p%02d" % mask, use))
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module verif.local/link\n\ngo %s\n" % floor)
    with open(os.path.join(d, "go.work"), "w") as f:
        f.write("go %s\n\nuse (\n\t.\n%s)\n" % (floor, "".join("\t%s\n" % m for m in mods)))
    env = core.go_env(version, work=os.path.join(d, "go.work"), extra={"GOOS": goos, "GOARCH": arch})
    os.makedirs(os.path.join(d, "out"))
    rc, so, se = core.run([core.go(version), "build", "-o", os.path.join(d, "out") + "/", "./..."], cwd=d, env=env, timeout=max(30, ctx.left()))
    if rc != 0:
        if minor < 25:
            return skipped(ctx, name, "does not build with a release older than go.mod asks for: " + se)
        ok, m2 = lib_builds(ctx)
        if not ok:
            raise Broken("the library does not build:\n" + m2)
        return violation(name, "build", "programs that use autoversion do not build: " + so + se)
    want = UNICODE_OF[minor]
    found, samples = [], []
    for p, use in subsets:
        exe = os.path.join(d, "out", p + (".exe" if goos == "windows" else ""))
        rc, so, se = core.run([core.go(version), "tool", "nm", "-size", exe], env=env, cwd=d, timeout=120)
        if rc != 0:
            raise Broken("nm: " + se)
        size, big, seen = {}, {}, set()
        for l in so.splitlines():
            m = re.search(r"(?:^|\s)(\d+)\s+([A-Za-z])\s+(\S.*)$", l)
            if not m or m.group(2) in "Uu":
                continue
            v = re.match(r"(?:type:\.?\S*?)?github\.com/apparentlymart/go-textseg/v(\d+)/", m.group(3))
            if not v:
                continue
            k = int(v.group(1))
            size[k] = size.get(k, 0) + int(m.group(1))
            big.setdefault(k, []).append((int(m.group(1)), m.group(3)))
            if m.group(3).endswith("/textseg.ScanGraphemeClusters") or "._graphclust_" in m.group(3):  # v15's tables are slices, whose arrays have no symbols
                seen.add(k)
        sample = {"release": version, "port": port, "uses": use, "bytes_by_version": {str(k): v for k, v in sorted(size.items())}}
        if p in ("p01", "p1e", "p1f"):
            samples.append(sample)
        for k, v in size.items():
            if k != want and (v > NOT_SELECTED or k in seen):
                found.append({"kind": "linked", "params": sample, "message": "built with go%s for %s (Unicode %d), a program that uses %s holds %d bytes of v%d: %s" % (
                    version, port, want, ", ".join(use) or "nothing", v, k, sorted(big[k])[-3:])})
        if "ScanGraphemeClusters" in use and want not in size:
            # No symbols to be seen: then the absence of others means nothing.
            return skipped(ctx, name, "the selected version's symbols are not seen in " + p)
    shutil.rmtree(d, ignore_errors=True)
    return Part(name, {"found": found[:1], "wall_s": time.time() - t0, "coverage": {
        "exhaustive": True, "cases": len(subsets), "samples": samples, "phases": [{"phase": name, "bound": "all subsets of the %d exported names" % len(API), "cases": len(subsets)}]}})


def linked(ctx):
    jobs = [(v, "linux/amd64") for v in ("1.27.3", "1.26.10", "1.25.14", "1.24.13", "1.23.12")] + [("1.27.3", "linux/386"), ("1.26.10", "windows/amd64")]
    if ctx.thorough:
        jobs += [(v, p) for v in ("1.27.3", "1.26.10", "1.25.14") for p in ("linux/arm64", "darwin/arm64", "windows/386", "linux/mips", "freebsd/amd64", "linux/s390x")]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        return list(ex.map(lambda a: linked_with(ctx, *a), jobs))


# ---- Builds of the library.

def all_ports(ctx):
    ports = set()
    for v in core.GOROOTS:
        rc, so, se = core.run([core.go(v), "tool", "dist", "list"], env=core.go_env(v), cwd=ctx.dir, timeout=120)
        if rc != 0:
            raise Broken("go tool dist list: " + se)
        ports.update(so.split())
    with open(ctx.path("ports"), "w") as f:
        f.write("\n".join(sorted(ports)))
    return sorted(ports)


def buildconf(ctx, *args):
    tool, msg = build(ctx, ctx.path("buildconf"), "./cmd/buildconf", core.HARNESS)
    if not tool:
        raise Broken(msg)
    rc, so, se = core.run(["/bin/sh", "-c", 'exec "$0" "$@" <' + ctx.path("ports"), tool] + list(args), timeout=300)
    if rc != 0:
        raise Broken("buildconf: " + se)
    return json.loads(so)


def no_constraints(text):
    return re.sub(r"(?m)^//(go:build| ?\+build) .*$", "// (constraint)", text)


def posed(ports):
    """Every operating system, and every architecture, once."""
    ret, seen = [], set()
    for p in sorted(ports, key=lambda p: (p.count("linux"), p)):
        if set(p.split("/")) - seen:
            seen |= set(p.split("/"))
            ret.append(p.split("/"))
    return ret


def platforms(ctx):
    """The library, in every distinct build that can be run here."""
    t0 = time.time()
    ports = all_ports(ctx)
    rc, so, se = core.run([core.go(), "list", "-deps", "-f", "{{if .Module}}{{.Dir}}{{end}}", "./textseg"], cwd=core.REPO, env=core.go_env(work=core.workfile(ctx)), timeout=60)
    if rc != 0:
        raise Broken("go list: " + se)
    conf = buildconf(ctx, "-from", "25", *so.split())
    cpu = open("/proc/cpuinfo").read()
    v3 = all(re.search(r"\b%s\b" % f, cpu) for f in ("avx2", "bmi1", "bmi2", "fma", "movbe"))
    no_opt = ("-gcflags=%s/...=-N -l" % core.MODULE,)
    jobs = [("go1.27.3 linux/amd64", {}), ("go1.27.3 linux/386", {"env": {"GOARCH": "386"}}), ("go1.27.3 js/wasm", {"env": {"GOOS": "js", "GOARCH": "wasm"}}),
            ("go1.27.3 linux/amd64, not optimised", {"args": no_opt}),
            ("go1.26.10 linux/amd64", {"version": "1.26.10"}), ("go1.25.14 linux/amd64", {"version": "1.25.14"})]
    if v3:
        jobs.append(("go1.27.3 linux/amd64, GOAMD64=v3", {"env": {"GOAMD64": "v3"}}))
    # Big-endian processors, of 32 and 64 bits, are emulated.
    emulator, msg = build(ctx, ctx.path("mipsrun"), "./cmd/mipsrun", core.HARNESS)
    if not emulator:
        raise Broken(msg)
    emulated = [("go1.27.3 linux/mips, emulated", {"env": {"GOARCH": "mips", "GOMIPS": "softfloat"}}), ("go1.27.3 linux/mips64, emulated", {"env": {"GOARCH": "mips64", "GOMIPS64": "softfloat"}})]
    jobs += emulated
    if ctx.thorough:
        jobs += [("go1.27.3 linux/386, GO386=softfloat", {"env": {"GOARCH": "386", "GO386": "softfloat"}}), ("go1.25.14 linux/386", {"version": "1.25.14", "env": {"GOARCH": "386"}}),
                 ("go1.26.10 js/wasm", {"version": "1.26.10", "env": {"GOOS": "js", "GOARCH": "wasm"}}), ("go1.27.3 linux/386, not optimised", {"env": {"GOARCH": "386"}, "args": no_opt}),
                 ("go1.27.3 linux/amd64, race", {"race": True})]
    untested = []
    for g in conf["groups"]:
        e = g["Any"]
        name = "files of %s/%s, cgo %s, tags %s" % (e["GOOS"], e["GOARCH"], e["Cgo"], ",".join(e["Tags"] or []))
        san = [t for t in e["Tags"] or [] if t in ("race", "msan", "asan")]
        tags = [t for t in e["Tags"] or [] if t not in san]
        if e["GOOS"] == "linux" and e["GOARCH"] == "amd64" and not san:
            if tags or e["Cgo"]:  # otherwise, the first job has them
                jobs.append((name, {"args": ("-tags=" + ",".join(tags),), "env": {"CGO_ENABLED": "1"} if e["Cgo"] else {}}))
        elif any(f.endswith(".s") for f in g["Files"]):
            if e["GOARCH"] in ("386", "wasm") or san == ["race"] or e["GOOS"] == "linux" and e["GOARCH"] in ("mips", "mips64") and not tags and not san:
                continue  # covered by jobs of their own
            untested.append(name)
        else:
            jobs.append((name, {"files": g["Files"]}))
    # Code that asks at run time where it runs is told so.
    base = [g["Files"] for g in conf["groups"] if (g["Any"]["GOOS"], g["Any"]["GOARCH"]) == ("linux", "amd64") and not g["Any"]["Tags"] and not g["Any"]["Cgo"]]
    if base and any(re.search(r"\bruntime\.GO(OS|ARCH)\b", open(f).read()) for f in base[0] if f.endswith(".go")):
        for oss, arch in posed(ports):
            jobs.append(("posing as %s/%s" % (oss, arch), {"files": [f for f in base[0] if f.endswith(".go")], "pose": (oss, arch)}))
    found, cov = [], {"configurations": conf["configurations"], "ports": conf["ports"], "file_sets": len(conf["groups"]), "tags": conf["tags"], "builds_run": [j[0] for j in jobs]}
    if untested:
        ctx.notes.append("file sets with assembly for other processors cannot be run here: %s" % "; ".join(untested))

    def one(i, job):
        name, o = job
        version, work, cwd = o.get("version", core.MAIN), None, core.HARNESS
        d = ctx.path("build-%d" % i)
        if "files" in o:
            # A copy of the library with the files of that configuration only.
            lib = os.path.join(d, "repo")
            shutil.copytree(core.REPO, lib, ignore=lambda src, names: [n for n in names if n in (".git", ".build", "ucd", "autoversion") or n.endswith("_test.go")])
            for k, dd in enumerate(so.split()):
                to = os.path.join(lib, os.path.relpath(dd, core.REPO))
                for n in os.listdir(to):
                    if n.endswith(".go"):
                        os.remove(os.path.join(to, n))
            for k, f in enumerate(o["files"]):
                with open(os.path.join(lib, os.path.relpath(os.path.dirname(f), core.REPO), "f%02d.go" % k), "w") as fh:
                    text = no_constraints(open(f).read())
                    for name2, value in zip(("GOOS", "GOARCH"), o.get("pose", ())):
                        text, n = re.subn(r"\bruntime\.%s\b" % name2, '"%s"' % value, text)
                        text += "\nvar _ runtime.Error\n" if n else ""
                    fh.write(text)
            work = os.path.join(d, "go.work")
            with open(work, "w") as fh:
                fh.write("go 1.25\n\nuse (\n\t%s\n\t%s\n)\n" % (core.HARNESS, lib))
        else:
            os.makedirs(d)
        env = o.get("env", {})
        binary, msg = build(ctx, os.path.join(d, "pub"), "./cmd/pub", cwd, version=version, work=work, args=o.get("args", ()), env=env, race=o.get("race", False))
        if not binary:
            ok, m2 = lib_builds(ctx)
            if not ok:
                raise Broken("the library does not build:\n" + m2)
            return [violation(name, "build", "the library builds for linux/amd64, but not like this: %s:\n%s" % (name, msg))]
        renv = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": ctx.dir, "GOTRACEBACK": "all"}
        if env.get("GOARCH") == "wasm":
            node = shutil.which("node")
            wasm = os.path.join(core.GOROOTS[version], "lib", "wasm", "wasm_exec_node.js")
            if not node or not os.path.exists(wasm):
                return [skipped(ctx, name, "no node")]
            sh = os.path.join(d, "pub.sh")
            with open(sh, "w") as fh:
                fh.write('#!/bin/sh\nexec %s --stack-size=8192 %s %s "$@"\n' % (node, wasm, binary))
            os.chmod(sh, 0o755)
            binary = sh
        if env.get("GOARCH") in ("mips", "mips64"):
            sh = os.path.join(d, "pub.sh")
            with open(sh, "w") as fh:
                fh.write('#!/bin/sh\nexec %s %s "$@"\n' % (emulator, binary))
            os.chmod(sh, 0o755)
            n = 8 if ctx.thorough else 2
            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                return list(ex.map(lambda k: share("%s, share %d of %d" % (name, k + 1, n), sh, dict(renv, VERIF_SHARD="%d/%d" % (k, n))), range(n)))
        p = harness_part(ctx, name, binary, [ctx.prop, ctx.tier], env=renv, big_memory=True)
        return [p if i == 0 else compared(name, p)]

    def share(name, sh, env):
        try:
            p = harness_part(ctx, name, sh, [ctx.prop, ctx.tier], env=env, big_memory=True)
        except Broken as e:
            return skipped(ctx, name, "the emulator cannot run it: %.1500s" % e)
        return compared(name, p)

    def compared(name, p):
        if p.found and native:
            # Only a difference counts.
            keep = [f for f in p.found if f["kind"] == "crash" or core.confirm(native, f, ctx) == 0]
            if len(keep) < len(p.found):
                ctx.notes.append("%s: what it gets wrong, the ordinary build gets wrong, too: no difference between builds (see C01 to C06): %.300s" % (name, p.found[0]["message"]))
                p.coverage["exhaustive"] = False
            p.found = keep
        for f in p.found:
            f["message"] = "%s: %s" % (name, f["message"])
        return p

    native = None
    first = one(0, jobs[0])[0]
    native = ctx.path("build-0", "pub")
    if first.found:
        ctx.notes.append("the ordinary build is wrong (see C01 to C06): %.300s" % first.found[0]["message"])
        if first.found[0]["kind"] == "crash":
            native = None
        first.found, first.coverage["exhaustive"] = [], False
    rest = list(enumerate(jobs))[1:]
    alone = [a for a in rest if a[1] not in emulated]
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        slow = [ex.submit(one, *a) for a in rest if a[1] in emulated]
        # No more than three of the others at a time.
        with concurrent.futures.ThreadPoolExecutor(3) as ex2:
            ps = [first] + [p for l in ex2.map(lambda a: one(*a), alone) for p in l]
        ps += [p for f in slow for p in f.result()]
    # It compiles for every port.
    todo = ports if ctx.thorough else ["linux/arm64", "linux/arm", "windows/amd64"]

    def compiles(p):
        goos, arch = p.split("/")
        env = core.go_env(work=core.workfile(ctx), extra={"GOOS": goos, "GOARCH": arch})
        rc, so, se = core.run([core.go(), "build", "./textseg"], cwd=core.REPO, env=env, timeout=max(30, ctx.left()))
        if rc == 0:
            return p, True, ""
        rc2, _, se2 = core.run([core.go(), "build", "fmt", "bufio", "os"], cwd=core.REPO, env=env, timeout=max(30, ctx.left()))
        return (p, None, se2) if rc2 != 0 else (p, False, so + se)

    if not any(p.found for p in ps):
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(compiles, [p for p in todo if core.MAIN and p]))
        found = [{"kind": "build", "message": "the library does not compile for %s:\n%s" % (p, m[:2000])} for p, ok, m in res if ok is False]
        cov["ports_compiled"] = [p for p, ok, _ in res if ok]
        cov["ports_for_which_the_standard_library_does_not_compile_here"] = [p for p, ok, _ in res if ok is None]
    cov.update({"exhaustive": not untested, "cases": conf["configurations"], "phases": [{"phase": "configurations", "configurations": conf["configurations"]}]})
    return [Part("configurations", {"found": found[:2], "coverage": cov, "wall_s": time.time() - t0})] + ps


# ---- What calls depend on, and what they leave behind.

RECORDED = {"zsyscall_linux_amd64.go": "openat read write pread pwrite unlinkat Mkdirat Renameat Ftruncate Fchmod fstatat readlinkat symlinkat linkat utimensat Getcwd Chdir Getdents "
                                       "Uname Getpid Getppid Getuid Geteuid Getgid Getegid kill socket connect bind sendto",
            "env_unix.go": "Getenv Environ Setenv Unsetenv Clearenv",
            "exec_unix.go": "forkExec"}


def recording(ctx):
    """An overlay for the syscall package: what go-textseg asks of the system is recorded."""
    src = os.path.join(core.GOROOTS[core.MAIN], "src", "syscall")
    ov = {os.path.join(src, "zz_record.go"): os.path.join(core.VERIF, "harness", "faults", "zz_record.go.txt")}
    for name, fs in RECORDED.items():
        text = open(os.path.join(src, name)).read()
        for f in fs.split():
            m = re.search(r"(?m)^func %s\((.*?)\)(.*) \{$" % f, text)
            if not m:
                continue  # not in this release
            text = text[:m.start()] + "func verifReal_" + text[m.start() + 5:]
            args = [a.split()[0] + ("..." if "..." in a else "") for a in m.group(1).split(",") if a.strip()]
            what = '"%s"' % f + (' + " " + key' if f == "Getenv" else "")
            text += "\nfunc %s(%s)%s {\n\tverifEffect(%s)\n\t%sverifReal_%s(%s)\n}\n" % (f, m.group(1), m.group(2), what, "return " if m.group(2).strip() else "", f, ", ".join(args))
        out = ctx.path("recorded-" + name)
        with open(out, "w") as fh:
            fh.write(text)
        ov[os.path.join(src, name)] = out
    return ov


def effects(ctx):
    binary, msg = build(ctx, ctx.path("effects"), "./cmd/effects", core.HARNESS)
    if not binary:
        raise Broken("cannot build the harness against the library:\n" + msg)
    child, msg = build(ctx, ctx.path("effects-child"), "./cmd/effects", core.HARNESS, overlay=dict(chosen_runtime(ctx), **recording(ctx)), args=["-tags=verifrecord"])
    if not child:
        raise Broken("the harness does not build with a controlled runtime:\n" + msg)
    env = {"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "TMPDIR": ctx.dir, "EFFECTS_CHILD": child, "GOTRACEBACK": "all", "GODEBUG": "asyncpreemptoff=1"}
    return harness_part(ctx, "effects", binary, [ctx.prop, ctx.tier], env=env)


CHECKS = {
    "C01": ("model_checking", [public]),
    "C02": ("exploration", [internal("lookup", "lookup"), public]),
    "C03": ("exploration", [public]),
    "C04": ("exploration", [public]),
    "C05": ("exploration", [public]),
    "C06": ("exploration", [public]),
    "C07": ("exploration", [public, schedules]),
    "C08": ("exploration", [generated]),
    "C09": ("exploration", [internal("ucdp", "readers")]),
    "C10": ("exploration", [configurations, releases("1.27.3", "1.26.10", "1.25.14", "1.24.13", "1.23.12")]),
    "C11": ("exploration", [releases("1.27.3", "1.25.14")]),
    "C12": ("model_checking", [internal("mach", "machine")]),
    "C13": ("exploration", [internal("lookup", "lookup")]),
    "C14": ("exploration", [internal("lookup", "values")]),
    "C15": ("fault_enumeration", [generator_faults]),
    "C16": ("exploration", [public]),
    "C17": ("exploration", [public, steps]),
    "C18": ("exploration", [linked]),
    "C19": ("exploration", [platforms]),
    "C20": ("exploration", [reproducible]),
    "C21": ("exploration", [effects]),
}

NOTES = {
    "C01": ("exhaustive bounded enumeration of texts on the real code, W-method conformance with a checked reference automaton", "Complete for the stated text lengths over one sample per class (and per class and UTF-8 length), for every scalar value in every model state, and for every implementation that is an automaton with up to 4 more states than the model. Trusts the oracle (compared with ICU)."),
    "C02": ("exhaustive enumeration of all scalar values in every reachable context", "Every scalar value, no sampling. Trusts the pinned Unicode 17.0 data."),
    "C03": ("exhaustive enumeration of inputs, of partitions into reads, and of reader faults, on the real code", "Complete within the stated bounds on length and alphabet."),
    "C04": ("exhaustive enumeration of byte strings on the real code", "All byte strings of up to 3 bytes (thorough: 4), and longer ones over class samples and malformed fragments."),
    "C05": ("exhaustive enumeration of malformed fragments in every model state and continuation, on the real code", "Complete within the stated bounds."),
    "C06": ("exhaustive enumeration of every input at every prefix, against the exact set of allowed answers", "Complete within the stated bounds."),
    "C07": ("exhaustive enumeration of call histories and schedules", "Complete within the stated bounds."),
    "C08": ("exhaustive enumeration of data files, placed around every limit of the table's structure, through the real generator and the real lookup code, comparing all scalar values", "Complete for the dataset families listed in DESIGN.md; data files outside them are not covered."),
    "C09": ("exhaustive enumeration of files composed from a grammar of line forms, of their partitions into reads, and of read failures, on the real readers", "Complete within the stated bounds on lines per file and line forms."),
    "C10": ("exhaustive enumeration of build configurations (release x port x cgo x sanitizer) and, for each distinct set of compiled files and each installed release, of byte strings and texts, in lockstep with the selected version", "Complete for the releases go1.0 to go1.40 and the ports of the installed releases; inputs within the stated bounds. Releases 1.21 and 1.22 are not installed: their files are compiled with 1.27."),
    "C11": ("exhaustive enumeration of inputs, split functions with all short answer histories, and partitions into reads, against a reference scanner loop, on the real code", "Complete within the stated bounds; large buffers are enumerated around the scanner's buffer sizes (4096 doubling to 64 KiB)."),
    "C12": ("product exploration of the real state machine with the UAX #29 reference automaton to a fixpoint, plus exhaustive class sequences to a bound", "The product's reachable states are closed, so texts of every length are covered for class sequences, as long as State is a comparable value that is all the machine remembers; the bounded enumeration does not rely on that."),
    "C13": ("exhaustive enumeration of all 2^32 four-byte buffers and of all shorter ones, on the real code", "Complete for buffers of up to 4 bytes; longer buffers over samples of the bytes that follow."),
    "C14": ("exhaustive enumeration of the finite value domain, of all short names and of all single edits of real names, on the real code", "Complete for the values; names are complete to a length and within one edit of a real name."),
    "C15": ("exhaustive enumeration of failing operations (each system call of the real generator x each kind of failure, in sequences to a depth) and of malformed data files over a grammar", "Every operation on the real data files fails in every way once; on small data, sequences of 2 (thorough: 3) failures. Failures of the runtime itself (memory) are not injected."),
    "C16": ("exhaustive enumeration of prefix/loop/suffix texts with all repetition counts to a bound and counts around powers of two beyond it", "Complete within the stated bounds; longer texts follow only for code that has no counter or size limit between the counts tried."),
    "C17": ("exhaustive enumeration of inputs in buffers whose rest faults when touched, and of texts of growing length on an instrumented copy that counts executed statements and allocated bytes", "Complete within the stated bounds; the allowances per byte are about ten times what the code uses, so constant-factor slow-downs below that are not reported. Statements inside the standard library are not counted, but the memory they allocate and touch beyond the first cluster is seen."),
    "C18": ("exhaustive enumeration of the subsets of the API that a program can use, for every installed release, with the real compiler and linker", "Complete for the installed releases on linux/amd64; other ports are a selection. Judged by symbol names and sizes."),
    "C19": ("exhaustive enumeration of build configurations (release x port x cgo x sanitizer x mentioned tags) and, in each distinct build that can be run here, of texts, byte strings and all scalar values", "Runs on amd64, 386, wasm and (emulated) big-endian mips and mips64; the code for other processors is compiled, but only its selection of files is run (on amd64)."),
    "C20": ("exhaustive enumeration of the surroundings of a generator run, and of the runtime's random choices (hash seeds and iteration starts of maps, taken over by the explorer), on the real generator", "Every choice alike (22 values), and on small data each of the first choices differently; surroundings in all pairs. Byte-for-byte comparison."),
    "C21": ("exhaustive enumeration of texts x surroundings (random choices of the runtime, clock, environment, processors, directory, all taken over by the explorer), with system calls recorded, weak pointers to every buffer, and the heap measured", "Complete within the stated texts and surroundings; variables of the environment are varied where the library asks for them. Growth of memory is judged over 0.1 to 1.9 million texts."),
}


def setup():
    ctx = core.Ctx("setup", "quick", 1)
    try:
        binary, msg = build(ctx, ctx.path("pub"), "./cmd/pub", core.HARNESS)
        print(msg)
        return 0 if binary else 1
    finally:
        ctx.close()
