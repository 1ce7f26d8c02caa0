"""Build overlays: other versions of /repo's files that only the compiler sees."""
import glob, json, os, subprocess


def make(kind, repo, harness, out, env):
    """Writes an overlay of the given kind below out; returns (file, note)."""
    os.makedirs(out, exist_ok=True)
    rep = {}
    note = None
    if kind == "arm":
        # the arm64 files of package inst as package armcopy
        for f in sorted(glob.glob(os.path.join(repo, "internal/monkey/inst/*_arm64.go"))):
            src = open(f).read().replace("package inst", "package armcopy", 1)
            name = os.path.basename(f).replace("_arm64.go", "_a64.go")
            dst = os.path.join(out, name)
            write(dst, src)
            rep[os.path.join(harness, "armcopy", name)] = dst
    elif kind == "sched":
        # mockey with scheduling points for the controlled scheduler
        tool = os.path.join(out, "instr")
        subprocess.run(["go", "build", "-o", tool, "./cmd/instr"], cwd=harness, env=env, check=True, capture_output=True)
        for f in glob.glob(os.path.join(out, "*.go")):
            os.remove(f)
        dirs = [repo] + [os.path.join(repo, d) for d in ("internal/tool", "internal/monkey", "internal/monkey/fn", "internal/monkey/common")]
        subprocess.run([tool, out] + dirs, cwd=harness, env=env, check=True, capture_output=True)
        return os.path.join(out, "overlay.json"), None
    elif kind.startswith("shapes"):
        # the generated types of C11, up to the given depths
        import gen_shapes
        depth, wide = int(kind[6]), int(kind[7])
        dst = os.path.join(out, "zz_gen.go")
        write(dst, gen_shapes.generate(depth, wide))
        rep[os.path.join(harness, "shapes", "zz_gen.go")] = dst
    elif kind.startswith("generics"):
        # the generated generic functions of C14
        import gen_generics
        files = gen_generics.generate(kind == "generics1")
        imports = "".join('\t_ "github.com/bytedance/mockey/zzverif/gens/%s"\n' % n for n, _ in files)
        for name, text in files + [("all", "// Package all links the generated packages.\npackage all\n\nimport (\n%s)\n" % imports)]:
            dst = os.path.join(out, "zz_%s.go" % name)
            write(dst, text)
            rep[os.path.join(harness, "gens", name, "zz_gen.go")] = dst
    else:
        raise ValueError(kind)
    path = os.path.join(out, "overlay.json")
    write(path, json.dumps(dict(Replace=rep), indent=1))
    return path, note


def write(path, text):
    """Keeps the file if it is the same (build cache)."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)
