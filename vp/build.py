"""Builds /repo's current tree and the harness into a scratch directory."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

from .proto import HARNESS

REPO = os.environ.get("VP_REPO", "/repo")
CC = "gcc"


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (
            p.returncode, cmd if isinstance(cmd, str) else " ".join(cmd),
            p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout.decode("utf8", "replace")


def copy_repo(dst):
    """Source files only (tracked, or untracked and not ignored)."""
    skip = {".git", "_build"}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in skip]
        else:
            dirs[:] = [d for d in dirs if d not in (".libs", ".deps", "autom4te.cache")]
        out = os.path.join(dst, rel)
        os.makedirs(out, exist_ok=True)
        for f in files:
            if rel == "." and f in ("config.status", "config.log", "libtool", "Makefile"):
                continue
            if rel == "src" and (f in ("Makefile", "config.h", "stamp-h1", "monitor-run", "monitor-link")
                                 or f.endswith((".o", ".lo", ".la"))):
                continue
            s = os.path.join(root, f)
            if os.path.islink(s) or os.path.isfile(s):
                shutil.copy2(s, os.path.join(out, f), follow_symlinks=False)
    # keep make from regenerating the generated files
    for f in ("aclocal.m4", "configure", "src/config.h.in", "Makefile.in", "src/Makefile.in"):
        p = os.path.join(dst, f)
        if os.path.exists(p):
            os.utime(p)


MPI_PARTS = ["INIT_C", "PINIT_C", "INITT_C", "PINITT_C", "FINI_C", "PFINI_C", "COMM_C", "PCOMM_C",
             "FI", "FI1", "FI2", "FIT", "FIT1", "FIT2", "FF", "FF1", "FF2", "FC", "FC1", "FC2", "P"]


class Build:
    def __init__(self, keep=False):
        base = os.environ.get("VP_SCRATCH", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="vp-", dir=base)
        os.chmod(self.dir, 0o755)
        self.keep = keep
        self.src = os.path.join(self.dir, "src")
        self.obj = os.path.join(self.dir, "obj")
        self.inst = os.path.join(self.dir, "inst")
        self.bin = os.path.join(self.dir, "bin")
        for d in (self.obj, self.bin):
            os.mkdir(d)
        self.have = set()

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def lib(self):
        """configure, make and install libmonitor."""
        copy_repo(self.src)
        env = dict(os.environ, CC=CC, LC_ALL="C")
        for v in ("LD_PRELOAD", "MAKEFLAGS", "CFLAGS"):
            env.pop(v, None)
        log = []
        cmd = ["bash", os.path.join(self.src, "configure"), "--prefix=" + self.inst, "CC=" + CC]
        try:
            sh(cmd, cwd=self.obj, env=env)
        except BuildError:
            raise
        log.append(sh(["make", "-j8", "AUTOCONF=:", "AUTOMAKE=:", "ACLOCAL=:", "AUTOHEADER=:"],
                      cwd=self.obj, env=env))
        sh(["make", "install", "AUTOCONF=:", "AUTOMAKE=:", "ACLOCAL=:", "AUTOHEADER=:"],
           cwd=self.obj, env=env)
        self.libmonitor = os.path.join(self.inst, "lib", "libmonitor.so")
        self.monitor_link = os.path.join(self.inst, "bin", "monitor-link")
        self.monitor_run = os.path.join(self.inst, "bin", "monitor-run")

    def variant(self, opts):
        """libmonitor.so configured with other options; the library's path."""
        name = "var-" + hashlib.md5(" ".join(opts).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, name + ".so")
        if os.path.exists(out):
            return out
        env = dict(os.environ, CC=CC, LC_ALL="C")
        for v in ("LD_PRELOAD", "MAKEFLAGS", "CFLAGS"):
            env.pop(v, None)
        d = tempfile.mkdtemp(prefix=name, dir=self.dir)
        sh(["bash", os.path.join(self.src, "configure"), "--prefix=" + self.inst, "CC=" + CC] + list(opts), cwd=d, env=env)
        sh(["make", "-j4", "AUTOCONF=:", "AUTOMAKE=:", "ACLOCAL=:", "AUTOHEADER=:"], cwd=d, env=env)
        src = os.path.join(d, "src", ".libs", "libmonitor.so.0.0.0")
        if not os.path.exists(src):
            src = os.path.realpath(os.path.join(d, "src", ".libs", "libmonitor.so"))
        shutil.copy2(src, out + ".tmp")
        os.chmod(out + ".tmp", 0o755)
        os.rename(out + ".tmp", out)
        shutil.rmtree(d, ignore_errors=True)
        return out

    def _par(self, cmds):
        ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
        for c, p in ps:
            out = p.communicate()[0]
            if p.returncode != 0:
                raise BuildError("command failed: %s\n%s" % (" ".join(c), out.decode("utf8", "replace")[-4000:]))

    def harness(self, modes):
        b = self.bin
        h = lambda f: os.path.join(HARNESS, f)
        o = lambda f: os.path.join(b, f)
        base = [CC, "-O1", "-g", "-w", "-pthread"]
        cmds = [
            base + ["-o", o("vrun"), h("vrun.c")],
            base + ["-o", o("voff"), h("voff.c")],
            base + ["-o", o("vdump"), h("vdump.c")],
            base + ["-fPIC", "-shared", "-o", o("client.so"), h("client.c")],
            base + ["-fPIC", "-shared", "-o", o("after.so"), h("after.c")],
            base + ["-fPIC", "-shared", "-o", o("libvapp.so"), h("interp.c")],
            base + ["-c", "-o", o("main.o"), h("main.c")],
        ]
        if "static" in modes or "staticmpi" in modes:
            cmds += [
                base + ["-DVSTATIC", "-c", "-o", o("client.o"), h("client.c")],
                base + ["-DVSTATIC", "-c", "-o", o("after.o"), h("after.c")],
                base + ["-DVSTATIC", "-c", "-o", o("interp.o"), h("interp.c")],
            ]
        if "libs" in modes:
            for k in (1, 2, 3, 7):
                cmds.append(base + ["-fPIC", "-shared", "-DVAL=%d" % k, "-o", o("libv%d.so" % k), h("vlib.c")])
            for k, nest in ((4, "libv1.so"), (5, "libv4.so"), (6, "libnone.so")):
                cmds.append(base + ["-fPIC", "-shared", "-DVAL=%d" % k, '-DNESTED="%s"' % nest,
                                    "-o", o("libv%d.so" % k), h("vlib.c")])
        mpi = any(m.endswith("mpi") for m in modes)
        if mpi:
            for p in MPI_PARTS:
                cmds.append(base + ["-fPIC", "-DW_" + p, "-c", "-o", o("mpi_%s.o" % p), h("fakempi.c")])
            if "staticmpi" in modes:
                cmds.append(base + ["-DVSTATIC", "-DVMPI", "-c", "-o", o("interp_mpi.o"), h("interp.c")])
        self._par(cmds)
        cmds = [base + ["-o", o("vapp"), o("main.o"), "-L" + b, "-lvapp", "-Wl,-rpath," + b, "-Wl,--no-as-needed"]]
        if "static" in modes:
            cmds.append([self.monitor_link, "-i", o("client.o"), "-i", o("after.o"), CC, "-g", "-pthread",
                         "-o", o("vapp_static"), o("main.o"), o("interp.o"), "-ldl", "-lpthread"])
            if "bare" in modes:
                cmds.append([self.monitor_link, "-i", o("after.o"), CC, "-g", "-pthread",
                             "-o", o("vapp_static_bare"), o("main.o"), o("interp.o"), "-ldl", "-lpthread"])
        if mpi:
            parts = [o("mpi_%s.o" % p) for p in MPI_PARTS]
            self._par([base + ["-shared", "-o", o("libfakempi.so")] + parts])
            self._par([base + ["-fPIC", "-shared", "-DVMPI", "-o", o("libvapp_mpi.so"), h("interp.c"),
                               "-L" + b, "-lfakempi", "-Wl,-rpath," + b]])
            cmds.append(base + ["-o", o("vapp_mpi"), o("main.o"), "-L" + b, "-lvapp_mpi", "-lfakempi",
                                "-Wl,-rpath," + b, "-Wl,-rpath-link," + b])
            cmds.append(base + ["-o", o("vapp_plug"), h("mainplug.c"), "-ldl"])
            if "staticmpi" in modes:
                # the fake library as an archive, one function per member
                sp = [x for x in parts if not x.endswith("mpi_P.o")]
                sh(["ar", "rcs", o("libfakempi_s.a")] + sp)
                cmds.append([self.monitor_link, "-i", o("client.o"), CC, "-g", "-pthread", "-o",
                             o("vapp_staticmpi"), o("main.o"), o("interp_mpi.o"), "-L" + b, "-lfakempi_s",
                             "-ldl", "-lpthread"])
                if "bare" in modes:
                    cmds.append([self.monitor_link, CC, "-g", "-pthread", "-o",
                                 o("vapp_staticmpi_bare"), o("main.o"), o("interp_mpi.o"), "-L" + b, "-lfakempi_s",
                                 "-ldl", "-lpthread"])
        self._par(cmds)
        self.off = {}
        for line in sh([o("voff")]).split("\n"):
            w = line.split()
            if len(w) == 2:
                self.off[w[0]] = int(w[1])
        for r, ds, fs in os.walk(self.dir):
            for x in ds:
                os.chmod(os.path.join(r, x), 0o755)
            break
        for f in os.listdir(b):
            os.chmod(o(f), 0o755)
