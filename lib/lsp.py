"""Driving the language server itself."""
import json, os, select, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from vlib import _limits, NPROC


class Dead(Exception):
    pass


class Server:
    def __init__(self, binary, root=None, timeout=30, caps=None):
        self.binary, self.root, self.timeout, self.caps = binary, root, timeout, caps or {}
        self.p, self.id, self.buf = None, 0, b""

    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limits, cwd=self.root)
        self.buf = b""
        uri = "file://" + self.root if self.root else None
        self.run([("initialize", {"processId": None, "rootUri": uri, "capabilities": self.caps}), ("!initialized", {})])

    def stop(self):
        if self.p:
            self.p.kill(); self.p.wait()
            self.p.stdin.close(); self.p.stdout.close()
            self.p = None

    def _read(self):
        while True:
            n = self.buf.find(b"\r\n\r\n")
            if n >= 0:
                size = int(self.buf[:n].split(b":")[1])
                if len(self.buf) >= n + 4 + size:
                    m = json.loads(self.buf[n + 4:n + 4 + size])
                    self.buf = self.buf[n + 4 + size:]
                    return m
            if not select.select([self.p.stdout], [], [], self.timeout)[0]:
                raise Dead("hang: no answer")
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise Dead("crash: the server died")
            self.buf += d

    def run(self, msgs):
        """msgs: (method, params), notifications with '!' before the method.  For each message: a
        request's result (or {"error": ...}), or the list of messages which came while a
        notification was handled (as far as a request follows)."""
        if self.p is None:
            self.start()
        out, ids, raw = [None] * len(msgs), {}, []
        for k, (method, params) in enumerate(msgs):
            m = {"jsonrpc": "2.0", "method": method.lstrip("!"), "params": params}
            if method[0] != "!":
                self.id += 1
                m["id"] = self.id
                ids[self.id] = k
            d = json.dumps(m).encode()
            raw.append(b"Content-Length: %d\r\n\r\n" % len(d) + d)
        last = max(ids.values(), default=-1)

        def feed():
            try:
                self.p.stdin.write(b"".join(raw)); self.p.stdin.flush()
            except (OSError, ValueError):
                pass
        t = threading.Thread(target=feed, daemon=True); t.start()
        at, came = 0, []
        try:
            while at <= last:
                m = self._read()
                if "id" in m and "method" not in m:
                    k = ids[m["id"]]
                    for n in range(at, k):
                        out[n] = came if n == at else []
                    if at == k and came:
                        came = []
                    out[k] = m.get("result") if "error" not in m else {"error": m["error"]["message"]}
                    at, came = k + 1, []
                else:
                    came.append(m)
        except Dead:
            self.stop()
            t.join()
            raise
        t.join()
        for n in range(at, len(msgs)):
            out[n] = []
        return out


def scripts(binary, work, timeout=30, workers=NPROC, **kw):
    """Run every script (list of messages) on some server; {"died": ...} when one kills it."""
    res = [None] * len(work)

    def go(k):
        s = Server(binary, timeout=timeout, **kw)
        try:
            for i in range(k, len(work), workers):
                try:
                    res[i] = s.run(work[i])
                except Dead as e:
                    res[i] = {"died": str(e)}
        finally:
            s.stop()
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, range(workers)))
    return res
