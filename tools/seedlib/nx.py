"""Minimal client of the nexo TCP protocol, and a server in a scratch directory (demonstrations only)."""
import json, os, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time

def S(s):
    b = s.encode() if isinstance(s, str) else s
    return struct.pack(">I", len(b)) + b

class Err(Exception):
    pass

class Server:
    def __init__(self, env=None, bin=None):
        self.dir = tempfile.mkdtemp(prefix="nexo-demo-")
        self.env = dict(env or {})
        self.bin = bin or os.path.join(os.getcwd(), "target/debug/nexo")
        self.p = None
        self.start()
    def start(self):
        for _ in range(5):
            s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]
            t = socket.socket(); t.bind(("127.0.0.1", 0)); dash = t.getsockname()[1]
            s.close(); t.close()
            e = dict(os.environ)
            e.update({"SERVER_HOST": "127.0.0.1", "SERVER_SOCKET_TCP_PORT": str(self.port), "SERVER_DASHBOARD_HTTP_PORT": str(dash),
                      "QUEUE_ROOT_PERSISTENCE_PATH": self.dir + "/q", "STREAM_ROOT_PERSISTENCE_PATH": self.dir + "/s",
                      "PUBSUB_ROOT_PERSISTENCE_PATH": self.dir + "/p", "NEXO_LOG": "off"})
            e.update({k: str(v) for k, v in self.env.items()})
            self.p = subprocess.Popen([self.bin], cwd=self.dir, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            end = time.time() + 20
            while time.time() < end and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    self.dash = dash
                    return
                except OSError:
                    time.sleep(0.02)
            self.kill()
        raise SystemExit("server does not start")
    def kill(self):
        if self.p:
            self.p.send_signal(signal.SIGKILL); self.p.wait(); self.p = None
    def restart(self):
        self.kill(); self.start()
    def alive(self):
        return self.p.poll() is None
    def close(self):
        self.kill(); shutil.rmtree(self.dir, ignore_errors=True)
    def client(self):
        return Client(self.port)
    def http(self, path):
        import urllib.request
        return json.loads(urllib.request.urlopen(f"http://127.0.0.1:{self.dash}{path}", timeout=10).read())
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class Client:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), 20)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.n = 0
        self.buf = b""
        self.resp = {}
        self.pushes = []
    def send(self, op, payload, ftype=1):
        self.n += 1
        self.s.sendall(struct.pack(">BBII", ftype, op, self.n, len(payload)) + payload)
        return self.n
    def pump(self, timeout):
        """reads one frame; False when nothing came in time"""
        end = time.time() + timeout
        while True:
            if len(self.buf) >= 10:
                t, m, i, l = struct.unpack(">BBII", self.buf[:10])
                if len(self.buf) >= 10 + l:
                    p = self.buf[10:10 + l]; self.buf = self.buf[10 + l:]
                    if t == 3: self.pushes.append(p)
                    else: self.resp.setdefault(i, []).append((m, p))
                    return True
            left = end - time.time()
            if left <= 0: return False
            self.s.settimeout(left)
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return False
            if not d: raise ConnectionError("closed")
            self.buf += d
    def wait(self, i, timeout=20):
        end = time.time() + timeout
        while i not in self.resp:
            if time.time() > end: raise TimeoutError("no response")
            self.pump(end - time.time())
        m, p = self.resp[i].pop(0)
        if not self.resp[i]: del self.resp[i]
        if m == 1: raise Err(p[4:].decode(errors="replace"))
        return None if m == 2 else p
    def call(self, op, payload, timeout=20):
        return self.wait(self.send(op, payload), timeout)
    def close(self):
        self.s.close()
    # queue
    def qcreate(self, q, vt=None, retries=None):
        o = {}
        if vt is not None: o["visibilityTimeoutMs"] = vt
        if retries is not None: o["maxRetries"] = retries
        self.call(0x10, S(q) + S(json.dumps(o)))
    def qpush(self, q, data, prio=None):
        self.call(0x11, S(q) + S(json.dumps({} if prio is None else {"priority": prio})) + data)
    def qconsume(self, q, n=1, wait=0):
        b = self.call(0x12, S(q) + S(json.dumps({"batchSize": n, "waitMs": wait})), 20 + wait / 1000)
        return self.msgs(b)
    @staticmethod
    def msgs(b):
        n, = struct.unpack(">I", b[:4]); at = 4; out = []
        for _ in range(n):
            i = b[at:at + 16]; l, = struct.unpack(">I", b[at + 16:at + 20]); out.append((i, b[at + 20:at + 20 + l])); at += 20 + l
        return out
    def qack(self, q, i): self.call(0x13, i + S(q))
    def qnack(self, q, i, why="x"): self.call(0x1A, i + S(q) + S(why))
    def qexists(self, q):
        try: self.call(0x14, S(q)); return True
        except Err: return False
    def qdelete(self, q): self.call(0x15, S(q))
    def qpeek(self, q, limit=100, off=0):
        b = self.call(0x16, S(q) + struct.pack(">II", limit, off))
        total, n = struct.unpack(">II", b[:8]); at = 8; out = []
        for _ in range(n):
            i = b[at:at + 16]; l, = struct.unpack(">I", b[at + 16:at + 20]); d = b[at + 20:at + 20 + l]; at += 20 + l
            a, r = struct.unpack(">II", b[at:at + 8]); out.append((i, d, a, b[at + 8:at + 8 + r].decode())); at += 8 + r
        return total, out
    def qmove(self, q, i): return self.call(0x17, S(q) + i) == b"\x01"
    def qdeldlq(self, q, i): return self.call(0x18, S(q) + i) == b"\x01"
    def qpurge(self, q): return struct.unpack(">I", self.call(0x19, S(q)))[0]
    # stream
    def screate(self, t, **o): self.call(0x30, S(t) + S(json.dumps(o)))
    def spub(self, t, data): return struct.unpack(">Q", self.call(0x31, S(t) + data))[0]
    def sjoin(self, t, g):
        b = self.call(0x33, S(g) + S(t)); f, gen, l = struct.unpack(">QQI", b[:20])
        return b[20:20 + l].decode(), gen, f
    @staticmethod
    def evs(b):
        n, = struct.unpack(">I", b[:4]); at = 4; out = []
        for _ in range(n):
            s, ts, l = struct.unpack(">QQI", b[at:at + 20]); out.append((s, b[at + 20:at + 20 + l])); at += 20 + l
        return out
    def sfetch(self, t, g, m, n=100, wait=0):
        return self.evs(self.call(0x32, S(t) + S(g) + S(m[0]) + struct.pack(">QII", m[1], n, wait), 20 + wait / 1000))
    def sack(self, t, g, m, seq): self.call(0x34, S(t) + S(g) + S(m[0]) + struct.pack(">QQ", m[1], seq))
    def sexists(self, t):
        try: self.call(0x35, S(t)); return True
        except Err: return False
    def sdelete(self, t): self.call(0x36, S(t))
    def sseek(self, t, g, end): self.call(0x38, S(t) + S(g) + (b"\x01" if end else b"\x00"))
    def sleave(self, t, g, m): self.call(0x39, S(t) + S(g) + S(m[0]) + struct.pack(">Q", m[1]))
    # pub/sub
    def pub(self, t, data, retain=None, ttl=None):
        o = {}
        if retain is not None: o["retain"] = retain
        if ttl is not None: o["ttl"] = ttl
        self.call(0x21, S(t) + S(json.dumps(o)) + data)
    def sub(self, t): self.call(0x22, S(t))
    def unsub(self, t): self.call(0x23, S(t))
    def pushed(self, wait=0.3):
        while self.pump(wait): pass
        r = []
        for p in self.pushes:
            l, = struct.unpack(">I", p[:4]); r.append((p[4:4 + l].decode(), p[4 + l:]))
        self.pushes = []
        return r
    # store
    def kset(self, k, v, ttl=None): self.call(0x02, S(k) + S(json.dumps({} if ttl is None else {"ttl": ttl})) + v)
    def kget(self, k): return self.call(0x03, S(k))
    def kdel(self, k): self.call(0x04, S(k))

def fail(msg):
    print("FAIL:", msg); sys.exit(1)
