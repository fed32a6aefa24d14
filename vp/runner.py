"""Runs one generated case in the scripted application and decodes its log."""
import ctypes
import mmap
import os
import shutil
import struct
import subprocess

from .proto import K, OP, T, CB, CFG

VENT = struct.Struct("<IiiiHHI8q")
VOP = struct.Struct("<ii7q")
VGATE = struct.Struct("<8i")
REPLY = struct.Struct("<6i128ii32i")
_libc = ctypes.CDLL(None, use_errno=True)


class Ent:
    __slots__ = ("i", "pid", "kt", "mt", "type", "code", "a")

    def __init__(self, i, pid, kt, mt, ty, code, a):
        self.i, self.pid, self.kt, self.mt, self.type, self.code, self.a = i, pid, kt, mt, ty, code, a

    @property
    def name(self):
        if self.type in (T.CB_ENTER, T.CB_LEAVE):
            return CB.name(self.code)
        if self.type in (T.OP, T.RES):
            return OP.name(self.code)
        return str(self.code)

    def __repr__(self):
        return "%d %s %s pid=%d kt=%d mt=%d %s" % (
            self.i, T.name(self.type), self.name, self.pid, self.kt, self.mt,
            " ".join(str(x) if abs(x) < 1 << 20 else hex(x & (1 << 64) - 1) for x in self.a))


class Result:
    pass


class Result(Result):
    __slots__ = ("status", "timed_out", "nproc", "nstops", "main_pid", "wall_ms", "kids", "stops",
                 "log", "raw", "lost", "out", "holes")

    def cbs(self, pid=None, name=None, enter=True):
        ty = T.CB_ENTER if enter else T.CB_LEAVE
        code = getattr(CB, name) if name else None
        return [e for e in self.log if e.type == ty and (pid is None or e.pid == pid)
                and (code is None or e.code == code)]

    def res(self, opname, pid=None):
        code = getattr(OP, opname)
        return [e for e in self.log if e.type == T.RES and e.code == code and (pid is None or e.pid == pid)]

    def cstr(self, off):
        if off < 0:
            return None
        end = self.raw.index(b"\0", off)
        return self.raw[off:end]

    def dump(self):
        return "\n".join(repr(e) for e in self.log)

    @property
    def sig(self):
        return self.status & 0x7f

    @property
    def code(self):
        return (self.status >> 8) & 0xff if (self.status & 0x7f) == 0 else None


class HarnessError(Exception):
    pass


class Runner:
    def __init__(self, build, wid=0):
        self.b = build
        self.off = build.off
        self.dir = os.path.join(build.dir, "w%d" % wid)
        os.makedirs(self.dir, exist_ok=True)
        os.chmod(self.dir, 0o777)
        self.outfile = os.path.join(build.dir, "out%d" % wid)
        self.fd = os.memfd_create("vshm", 0)
        os.ftruncate(self.fd, self.off["size"])
        self.m = mmap.mmap(self.fd, self.off["size"])
        self.raw_used = 0
        self.log_used = 0
        os.dup2(self.fd, 200, inheritable=True)
        self._start()

    def _start(self):
        env = {"PATH": "/usr/bin:/bin"}
        self.p = subprocess.Popen([os.path.join(self.b.bin, "vrun"), self.outfile], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, pass_fds=(200,), env=env,
                                  bufsize=0)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        self.m.close()
        os.close(self.fd)

    # -- encoding --
    def encode(self, case):
        off, m = self.off, self.m
        m[0:off["ops"]] = bytes(off["ops"])
        m[off["log"]:off["log"] + self.log_used * off["vent"]] = bytes(self.log_used * off["vent"])
        strtab = bytearray()

        def s(x):
            o = len(strtab)
            strtab.extend(x.encode("latin-1") + b"\0")
            return o

        def arg(x):
            if isinstance(x, str):
                return s(x.replace("@BIN@", self.b.bin).replace("@W@", self.dir))
            if isinstance(x, (list, tuple)):
                o = len(strtab)
                for y in x:
                    s(y.replace("@BIN@", self.b.bin).replace("@W@", self.dir))
                return o
            if isinstance(x, dict):
                o = len(strtab)
                strtab.extend(b"".join(struct.pack("<i", v) for v in x["ints"]))
                return o
            if x is None:
                return -1
            x = int(x)
            return x - (1 << 64) if x >= 1 << 63 else x

        ops = bytearray()
        rout = []
        n = 0
        for r in case["rout"]:
            rout.append(n)
            for op in r:
                args = [arg(x) for x in op[1:]]
                args += [0] * (7 - len(args))
                ops += VOP.pack(getattr(OP, op[0]), 0, *args)
                n += 1
            ops += VOP.pack(OP.END, 0, 0, 0, 0, 0, 0, 0, 0)
            n += 1
        if n > K["V_NOPS"] or len(rout) > K["V_NROUT"] or len(strtab) > K["V_STRTAB"]:
            raise HarnessError("program too large")
        m[off["ops"]:off["ops"] + len(ops)] = bytes(ops)
        m[off["str"]:off["str"] + len(strtab)] = bytes(strtab)
        gates = case.get("gates", [])
        struct.pack_into("<4I", m, off["magic"], K["V_MAGIC"], n, len(rout), len(gates))
        struct.pack_into("<%dI" % len(rout), m, off["rout"], *rout)
        for i, g in enumerate(gates):
            VGATE.pack_into(m, off["gates"] + i * off["vgate"], g["point"], g.get("nth", 0), g.get("phase", 0),
                            g.get("set", -1), g.get("wait", -1), g.get("wval", 1), g.get("sleep", 0),
                            g.get("what", 0))
        cfg = {"FAST": 1}
        cfg.update(case.get("cfg", {}))
        for k, v in cfg.items():
            v = int(v)
            struct.pack_into("<q", m, off["cfg"] + 8 * getattr(CFG, k), v - (1 << 64) if v >= 1 << 63 else v)

    def command(self, case):
        b = self.b.bin
        mode = case.get("mode", "dyn")
        exe, pre = {
            "dyn": ("vapp", 1), "native": ("vapp", 0), "static": ("vapp_static", 0),
            "dynmpi": ("vapp_mpi", 1), "staticmpi": ("vapp_staticmpi", 0), "plugmpi": ("vapp_plug", 1),
            "nativempi": ("vapp_mpi", 0), "nativeplugmpi": ("vapp_plug", 0),
        }[mode]
        env = {"PATH": "/usr/bin:/bin", "HOME": self.dir}
        if mode.endswith("plugmpi"):
            env["VPLUG"] = os.path.join(b, "libvapp_mpi.so")
        env.update(case.get("env", {}))
        bare = case.get("bare")         # no client at all
        if bare and mode in ("static", "staticmpi"):
            exe += "_bare"
        if pre:
            env["LD_PRELOAD"] = ":".join(([] if bare else [os.path.join(b, "client.so")]) + [
                                          self.b.variant(case["lib"]) if case.get("lib") else self.b.libmonitor,
                                          os.path.join(b, "after.so")])
        exe = os.path.join(b, exe)
        envl = ["%s=%s" % kv for kv in env.items()] + list(case.get("rawenv", []))
        return exe, [exe] + list(case.get("argv", [])), envl

    def run(self, case, timeout=None, raw_cmd=None):
        self.encode(case)
        if raw_cmd:
            exe, argv, env = raw_cmd
        else:
            exe, argv, env = self.command(case)
        sub = lambda x: x.replace("@BIN@", self.b.bin).replace("@W@", self.dir)
        argv = [sub(x) for x in argv]
        env = [sub(x) for x in env]
        t = timeout or case.get("timeout", 12000)
        body = struct.pack("<4I2Q", t, case.get("vflags", 0), len(argv), len(env), case.get("inhign", 0),
                           case.get("inhmask", 0))
        enc = lambda x: x.encode("latin-1") + b"\0"
        body += enc(case.get("cwd", self.dir)) + enc(exe) + b"".join(map(enc, argv)) + b"".join(map(enc, env))
        self.p.stdin.write(struct.pack("<I", len(body)) + body)
        buf = b""
        while len(buf) < REPLY.size:
            x = self.p.stdout.read(REPLY.size - len(buf))
            if not x:
                raise HarnessError("supervisor died")
            buf += x
        f = REPLY.unpack(buf)
        r = Result()
        r.status, r.timed_out, r.nproc, r.nstops, r.main_pid, r.wall_ms = f[:6]
        nk = f[134]
        r.kids = [(f[6 + 2 * i], f[7 + 2 * i]) for i in range(nk)]
        r.stops = [(f[135 + 2 * i], f[136 + 2 * i]) for i in range(min(16, r.nstops))]
        off, m = self.off, self.m
        n, rawn, lost = struct.unpack_from("<3I", m, off["log_n"])
        n = min(n, K["V_NLOG"])
        rawn = min(rawn, K["V_RAW"])
        self.log_used = n
        r.lost = lost
        r.log = []
        r.holes = 0
        for t in VENT.iter_unpack(m[off["log"]:off["log"] + n * off["vent"]]):
            if t[0]:
                r.log.append(Ent(t[6], t[1], t[2], t[3], t[4], t[5], t[7:15]))
            else:
                r.holes += 1
        r.raw = bytes(m[off["raw"]:off["raw"] + rawn])
        try:
            with open(self.outfile, "rb") as fo:
                r.out = fo.read()
        except OSError:
            r.out = b""
        if (r.status >> 8) in (94, 95, 96) and not r.log:
            raise HarnessError("cannot start the case: %d" % (r.status >> 8))
        return r
