"""One process of the Rust harness."""
import os, signal, subprocess
from vlib import ToolError


class Harness:
    def __init__(self, binp, env=None):
        e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
        e.update(env or {})
        self.p = subprocess.Popen([binp], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, conn, op, *texts, raw=()):
        line = " ".join([conn, op] + [t.encode().hex() for t in texts] + list(raw)) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
            a = self.p.stdout.readline()
        except BrokenPipeError:
            a = b""
        if not a.endswith(b"\n"):
            raise EOFError("the process ended during %s (%s)" % (op, self.p.wait()))
        k, _, v = a.decode().rstrip("\n").partition(" ")
        return k == "ok", v

    def kill(self):
        self.p.send_signal(signal.SIGKILL)
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()

    def stop(self):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()
