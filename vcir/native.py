"""Parent side of worker.py: survives aborts and endless loops of the code under test."""
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Native:
    def __init__(self, so, rng, timeout=20):
        self.so, self.rng, self.timeout = so, rng, timeout
        self.p = None
        self.calls = 0

    def _start(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'worker.py'), self.rng, self.so],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b''

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def call(self, fn, ret, args, rng=b''):
        """(ret, [outs], used) or 'abort' or 'timeout'"""
        if self.p is None:
            self._start()
        self.calls += 1
        try:
            self.p.stdin.write((json.dumps([fn, ret, args, rng.hex()]) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            return 'abort'
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], self.timeout)
            if not r:
                self.close()
                return 'timeout'
            d = os.read(fd, 65536)
            if not d:
                self.close()
                return 'abort'
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        x, outs, used = json.loads(line)
        return x, [bytes.fromhex(o) for o in outs], used
