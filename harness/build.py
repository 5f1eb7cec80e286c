"""Builds the library from /repo's working tree in several variants, plus the Java override, below /verif/.build."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EEL_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PINNED = {"Compiler.y": "8eba315a3f8f473bb702aa5f93f4bb12d25e804a57195f01c600199862b92c1d",
          "Scanner.l": "19e8ed66dd8edb3a91fd56d3c56dbd02fc787cf208364581fe141ff5f34bf4a1"}
WRAP = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "strcasecmp", "strncasecmp"]
VARIANTS = {
    "double": ["-DPRJM_F_SIZE=8"],
    "float": ["-DPRJM_F_SIZE=4"],
    "shim": ["-DPRJM_F_SIZE=8", "-DEEL_F_SIZE=8", "-DSHIM"],
}
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree_files():
    res = []
    for d in ("projectm-eval", "ns-eel2-shim"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            res += [os.path.join(root, f) for f in sorted(files) if f.rsplit(".", 1)[-1] in ("c", "h", "y", "l")]
    return res


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()[:20]


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def publish(make, dest):
    """Run make(tmpdir) and move the directory to dest; several processes may try."""
    if os.path.isdir(dest):
        return dest
    tmp = tempfile.mkdtemp(prefix="tmp.", dir=BUILD)
    try:
        make(tmp)
        os.rename(tmp, dest)
    except OSError:
        if not os.path.isdir(dest):
            raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dest


def sources():
    """A copy of the library's sources with the parser and scanner generated as the project's build does."""
    dest = os.path.join(BUILD, "src-" + digest(tree_files()))

    def make(tmp):
        for p in tree_files():
            t = os.path.join(tmp, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(p, t)
        d = os.path.join(tmp, "projectm-eval")
        for g, cmd in (("Compiler.y", ["bison", "--defines=Compiler.h", "--no-lines", "-o", "Compiler.c", "Compiler.y"]),
                       ("Scanner.l", ["flex", "--noline", "--prefix=prjm_eval_", "--header-file=Scanner.h", "-o",
                                      "Scanner.c", "Scanner.l"])):
            p = os.path.join(d, g)
            if os.path.exists(p) and hashlib.sha256(open(p, "rb").read()).hexdigest() != PINNED[g]:
                run(cmd, cwd=d)
    return publish(make, dest)


def lib_sources(src, shim):
    res = sorted(glob.glob(src + "/projectm-eval/*.c") + glob.glob(src + "/projectm-eval/api/*.c"))
    if shim:
        res += sorted(glob.glob(src + "/ns-eel2-shim/*.c"))
    return res


def driver(variant, name="driver", asan=True, opt="-O0", extra_sources=(), libs=()):
    """Path of the driver program linked with the given variant of the library."""
    main = os.path.join(VERIF, "driver", name + ".c")
    src = sources()
    key = digest([main] + list(extra_sources), src + variant + str(asan) + opt)
    dest = os.path.join(BUILD, "%s-%s-%s" % (name, variant, key))
    exe = os.path.join(dest, name)

    def make(tmp):
        flags = ["-std=gnu11", "-g", opt, "-w", "-pthread", "-I" + src, "-I" + src + "/projectm-eval",
                 "-I" + src + "/projectm-eval/api"] + VARIANTS[variant] + (ASAN if asan else [])
        jobs, objs = [], []
        for i, s in enumerate([main] + list(extra_sources) + lib_sources(src, variant == "shim")):
            o = os.path.join(tmp, "o%d.o" % i)
            objs.append(o)
            inst = [] if s == main else ["-finstrument-functions"]
            jobs.append((s, subprocess.Popen(["gcc"] + flags + inst + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, text=True)))
        errors = ""
        for s, j in jobs:
            out = j.communicate()[0]
            if j.returncode:
                errors += "%s: %s\n" % (s, out[-2000:])
        if errors:
            raise BuildError(errors)
        run(["gcc"] + flags + objs + ["-o", os.path.join(tmp, name)] + ["-Wl,--wrap=" + w for w in WRAP] + list(libs)
            + ["-lm"])
        for o in objs:
            os.remove(o)
    publish(make, dest)
    return exe


def java():
    src = os.path.join(VERIF, "java", "F64.java")
    dest = os.path.join(BUILD, "java-" + digest([src]))
    return publish(lambda tmp: run(["javac", "-cp", TLA_JARS.split(":")[0], "-d", tmp, src]), dest)


LOCALES = {"de_DE.UTF-8": ("de_DE", "UTF-8"), "tr_TR.UTF-8": ("tr_TR", "UTF-8"), "tr_TR.ISO-8859-9": ("tr_TR", "ISO-8859-9"),
           "ps_AF.UTF-8": ("ps_AF", "UTF-8")}


def locales():
    """A directory with compiled locales which differ in the decimal separator and the case of letters."""
    def make(tmp):
        for name, (source, charmap) in LOCALES.items():
            try:
                subprocess.run(["localedef", "-c", "-i", source, "-f", charmap, os.path.join(tmp, name)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except Exception:
                pass         # histories in a locale which can't be set run in the previous one
    return publish(make, os.path.join(BUILD, "locales-2"))


def prune(keep=12):
    """Remove old builds."""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    print(java())
    print(locales())
    for v in VARIANTS:
        print(driver(v))
