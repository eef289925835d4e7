"""Drives several real processes through the shim: each stops before every lock operation, sleep (and, if asked for,
write) on the repository until it is told to go on.  At most one runs at a time."""
import os, select, shutil, socket, subprocess, time
import snap
from vlib import ToolError


class Proc:
    def __init__(self, tag):
        self.tag = tag
        self.at = None           # (op, a, b, path) it is stopped before, or None when it has ended
        self.events = []         # everything it did
        self.sleeps = 0
        self.done = False
        self.r = None


class Sched:
    def __init__(self, base, world, shim, dirs, cls="lsu", schedcls="ls"):
        self.base, self.w, self.shim, self.dirs = base, world, shim, dirs
        self.cls = schedcls
        self.sock = os.path.join(base, "sched.sock")
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(self.sock)
        self.srv.listen(8)
        self.procs = {}
        self.order = []

    def spawn(self, tag, args, excl=(), cwd=None, env=None):
        p = Proc(tag)
        e, cd = self.w.env()
        e.update({"LD_PRELOAD": self.shim, "SHIM_DIRS": ":".join(self.dirs), "SHIM_SCHED": self.sock,
                  "SHIM_TAG": tag, "SHIM_SCHEDCLASS": self.cls, "SHIM_CLASS": ""})
        e.update(env or {})
        cmd = [self.w.cli]
        for x in excl:
            cmd += ["-e", x]
        before, after = self.w.flags(e, list(args))
        cmd += before + list(args) + after
        self.w.cmds += 1
        p.out = open(os.path.join(self.base, "out-" + tag), "w+b")
        p.err = open(os.path.join(self.base, "err-" + tag), "w+b")
        p.cache = cd
        p.proc = subprocess.Popen(cmd, cwd=cwd or self.w.repo, env=e, stdin=subprocess.DEVNULL, stdout=p.out, stderr=p.err)
        self.srv.settimeout(20)
        try:
            p.conn, _ = self.srv.accept()
        except socket.timeout:
            p.proc.kill()
            raise ToolError("the program did not start under the shim")
        p.conn.settimeout(30)
        p.buf = b""
        self.procs[tag] = p
        self._wait(p)
        return p

    def _wait(self, p):
        """until p stops again or ends"""
        while True:
            while b"\n" in p.buf:
                line, p.buf = p.buf.split(b"\n", 1)
                x = line.decode(errors="replace").split(" ", 4)
                if x[1].startswith("="):
                    p.events.append((x[1], int(x[2])))
                    continue
                p.at = (x[1], int(x[2]), int(x[3]), x[4])
                if x[1] == "sleep":
                    p.sleeps += 1
                return
            try:
                b = p.conn.recv(65536)
            except socket.timeout:
                p.proc.kill()
                raise ToolError("%s hangs" % p.tag)
            except ConnectionResetError:
                b = b""
            if not b:
                p.at, p.done = None, True
                p.conn.close()
                rc = p.proc.wait()
                res = []
                for f in (p.out, p.err):
                    f.seek(0)
                    res.append(f.read())
                    f.close()
                p.r = snap.R(rc, *res)
                shutil.rmtree(p.cache, ignore_errors=True)
                return
            p.buf += b

    def go(self, p, how=b"g"):
        if p.done:
            return
        p.events.append(p.at[:3])
        self.order.append(p.tag)
        try:
            p.conn.sendall(how)
        except (BrokenPipeError, ConnectionResetError):
            pass
        self._wait(p)

    def kill(self, p):
        self.go(p, b"k")

    def drain(self, limit=4000):
        """let everything finish, in turns"""
        n = 0
        while any(not p.done for p in self.procs.values()):
            for p in self.procs.values():
                self.go(p)
            n += 1
            if n > limit:
                for p in self.procs.values():
                    if not p.done:
                        p.proc.kill()
                raise ToolError("processes do not finish")

    def close(self):
        for p in self.procs.values():
            if not p.done:
                p.proc.kill()
                p.proc.wait()
                p.conn.close()
        self.srv.close()
        if os.path.exists(self.sock):
            os.unlink(self.sock)
