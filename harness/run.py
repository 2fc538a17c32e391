"""Feeds commands to the driver; survives and reports crashes and hangs."""
import os, subprocess, tempfile, time, select, threading

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")
for k in ("GEODIFF_LOGGER_LEVEL",): ENV.pop(k, None)


class Driver:
    def __init__(self, exe, scratch, extra_env=None):
        self.exe, self.scratch = exe, scratch
        self.env = dict(ENV, TMPDIR=scratch + "/", **(extra_env or {}))
        self.runs = 0

    def batch(self, cmds, timeout=60):
        """one answer per command; 'CRASH ...' / 'HANG' for a command that ended or blocked the process"""
        out = []
        pos = 0
        while pos < len(cmds):
            err = tempfile.TemporaryFile()
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=self.scratch, env=self.env)
            data = ("\n".join(cmds[pos:]) + "\n").encode()
            def feed(p=p, data=data):
                try:
                    p.stdin.write(data); p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            t = threading.Thread(target=feed, daemon=True); t.start()
            got = []
            buf = b""
            hang = False
            fd = p.stdout.fileno()
            last = time.time()
            while True:
                r, _, _ = select.select([fd], [], [], max(0.05, timeout - (time.time() - last)))
                if not r:
                    hang = True
                    p.kill(); break
                b = os.read(fd, 1 << 16)
                if not b: break
                buf += b
                if b"\n" in b:
                    last = time.time()
                    parts = buf.split(b"\n"); buf = parts.pop()
                    got += [x.decode(errors="replace") for x in parts]
            p.wait(); self.runs += 1
            out += got
            pos += len(got)
            if pos < len(cmds):
                if hang: out.append("HANG")
                else:
                    err.seek(0)
                    out.append("CRASH rc=%s %s" % (p.returncode, summary(err.read().decode(errors="replace"))))
                pos += 1
            err.close()
        return out

    def one(self, cmd, timeout=60):
        return self.batch([cmd], timeout)[0]


def summary(t):
    ls = [l for l in t.split("\n") if "ERROR: AddressSanitizer" in l or "runtime error" in l or "SUMMARY" in l or "Assertion" in l or "terminate called" in l or "what()" in l]
    fr = [l.strip() for l in t.split("\n") if "/repo/" in l or "geodiff/src" in l][:6]
    return " / ".join(ls[:4] + fr)[:1500] or t[-600:].replace("\n", " / ")


def bad(r):
    return r.startswith(("CRASH", "HANG", "excother"))
