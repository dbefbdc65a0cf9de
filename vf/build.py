"""Builds what a check needs from /repo's working tree into a scratch directory."""
import glob
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-3000:])


def sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.pool = ThreadPoolExecutor(8)

    def clean(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def objects(self, tag, flags, extra):
        outs, jobs = [], []
        for i, f in enumerate(extra + sources()):
            o = "%s/%s%d.o" % (self.dir, tag, i)
            outs.append(o)
            jobs.append(self.pool.submit(run, ["g++", "-std=c++17", "-I" + REPO, "-w", "-c", f, "-o", o] + flags))
        for j in jobs:
            j.result()
        return outs

    def driver(self, sanitize=False):
        tag = "san" if sanitize else "drv"
        flags = ["-O1"] if not sanitize else [
            "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        exe = "%s/%s" % (self.dir, tag)
        objs = self.objects(tag, flags, [VERIF + "/driver/driver.cpp"])
        run(["g++"] + flags + objs + ["-o", exe])
        return exe

    def tool(self):
        exe = self.dir + "/time"
        objs = self.objects("tool", ["-O1"], [REPO + "/time.cpp"])
        run(["g++"] + objs + ["-o", exe])
        return exe

    def ir(self, unit="unit.cpp"):
        """LLVM IR of all of /repo's sources and headers, one linked module."""
        outs, jobs = [], []
        for i, f in enumerate([VERIF + "/driver/" + unit] + sources()):
            o = "%s/ir%d.ll" % (self.dir, i)
            outs.append(o)
            jobs.append(self.pool.submit(run, [
                "clang++", "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                "-w", "-g0", "-I" + REPO, "-S", "-emit-llvm", f, "-o", o]))
        for j in jobs:
            j.result()
        out = self.dir + "/all.ll"
        run(["/usr/lib/llvm-18/bin/llvm-link", "-S", "-o", out] + outs)
        return out
