"""Client for the executor: one long-lived process per worker, restarted when it dies."""
import json, os, resource, select, shutil, signal, subprocess, tempfile, time

AS_LIMIT = 3 << 30


class Exec:
    def __init__(self, vh, threads=2, stack_kb=None, env=None):
        self.vh, self.threads, self.stack_kb, self.extra = vh, threads, stack_kb, env or {}
        self.p = None
        self.errf = tempfile.TemporaryFile()
        self.restarts = 0

    def _pre(self):
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def start(self):
        e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC", "LANG": "C.UTF-8",
             "RAYON_NUM_THREADS": str(self.threads), "NO_COLOR": "1"}
        e.update(self.extra)
        self.errf.seek(0); self.errf.truncate()
        self.p = subprocess.Popen([self.vh], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=e, preexec_fn=self._pre, bufsize=0,
                                  start_new_session=True, cwd="/")
        self.buf = b""
        self.restarts += 1

    def cpu(self):
        try:
            with open(f"/proc/{self.p.pid}/stat") as f:
                v = f.read().rsplit(")", 1)[1].split()
            return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.p.stdin.close(); self.p.stdout.close()
            self.p = None

    def stderr_tail(self):
        self.errf.seek(0)
        return self.errf.read()[-2000:].decode("utf-8", "replace")

    def req(self, r, timeout=30):
        """Answer of the executor; {"died": code} if the process ended; {"timeout": cpu} if it gave
        no answer in time (the process is killed)."""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        data = (json.dumps(r) + "\n").encode()
        try:
            self.p.stdin.write(data)
        except BrokenPipeError:
            code = self.p.wait()
            self.stop()
            return {"died": code, "stderr": self.stderr_tail()}
        end = time.time() + timeout
        cpu0 = self.cpu()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                cpu = self.cpu() - cpu0
                self.stop()
                return {"timeout": cpu}
            if not select.select([self.p.stdout], [], [], left)[0]:
                continue
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                code = self.p.wait()
                self.stop()
                return {"died": code, "stderr": self.stderr_tail()}
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)
