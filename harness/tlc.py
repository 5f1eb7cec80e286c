"""Runs TLC, on traces and on models."""
import os, re, shutil, subprocess, tempfile, time
import build

SPEC = os.path.join(build.VERIF, "spec")
WORK = os.path.join(build.BUILD, "work")


class TlcError(Exception):
    pass


def command(cfg, module, workers=1, heap="2g", stack="256m", extra=(), meta=None):
    cp = build.java() + ":" + build.TLA_JARS
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    return ["java", gc, "-XX:TieredStopAtLevel=1", "-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + os.path.dirname(meta), "-cp", cp, "tlc2.TLC", "-workers", str(workers),
            "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]


class Job:
    def __init__(self, module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=800):
        self.dir = tempfile.mkdtemp(prefix="tlc.", dir=WORK)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = command(os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla"), workers, heap, extra=extra,
                      meta=os.path.join(self.dir, "meta"))
        self.out = open(os.path.join(self.dir, "out"), "w+")
        self.t0 = time.time()
        self.timeout = timeout
        self.p = subprocess.Popen(["timeout", "-k", "5", str(timeout)] + cmd, stdout=self.out, stderr=subprocess.STDOUT,
                                  env=e, cwd=self.dir)

    def wait(self):
        rc = self.p.wait()
        self.out.flush()
        self.out.seek(0)
        text = self.out.read()
        self.out.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc, text


STATES = re.compile(r"([0-9,]+) states generated, ([0-9,]+) distinct states found")


def counts(text):
    m = STATES.search(text.replace(",", "") if False else text)
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
