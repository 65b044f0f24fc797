"""Differential oracle: an independent ECMAScript engine (node) running the same program."""
import subprocess, os
from .core import V, Inconclusive
from .js import parse_dump


class Node:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen(['node', '--stack-size=3000', os.path.join(V, 'vt/node_server.js')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, src):
        """-> (ok, [output lines], error text)"""
        if not self.p:
            self.start()
        b = src.encode('utf8') if isinstance(src, str) else src
        try:
            self.p.stdin.write(b'%d\n' % len(b) + b)
            self.p.stdin.flush()
            h = self.p.stdout.readline().split()
            o = self.p.stdout.read(int(h[1]))
            e = self.p.stdout.read(int(h[2]))
        except (OSError, IndexError):
            self.close()
            raise Inconclusive('oracle process died')
        L = o.split(b'\n')
        L.pop()
        return h[0] == b'0', L, e.decode('utf8', 'replace')

    def close(self):
        if self.p:
            try:
                self.p.stdin.close(); self.p.kill(); self.p.wait(); self.p.stdout.close()
            except Exception:
                pass
            self.p = None
