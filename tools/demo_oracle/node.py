"""A small scripted node (JSON-RPC, websocket feed, mempool, one chain) around the real oracle
binary, on loopback. Real time."""
import base64, hashlib, json, os, signal, socket, struct, subprocess, sys, tempfile, threading, time
import urllib.request
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58d(s, n):
    v = 0
    for c in s: v = v * 58 + B58.index(c)
    return v.to_bytes(n, "big")
def b58e(b):
    v, s = int.from_bytes(b, "big"), ""
    while v: v, r = divmod(v, 58); s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s

IDENTITY = "D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx"
ORACLE = b58d(IDENTITY, 64)[32:]
VRF = b58d("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz", 32)
BUDGET = b58d("ComputeBudget111111111111111111111111111111", 32)
CONSUMER = b"\x77" * 32
P = 2**255 - 19
D = -121665 * pow(121666, P - 2, P) % P
def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    if y >= P: return False
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    x2 = u * pow(v, P - 2, P) % P
    return x2 == 0 or pow(x2, (P - 1) // 2, P) == 1
def pda(*seeds):
    for n in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([n]) + VRF + b"ProgramDerivedAddress").digest()
        if not on_curve(h): return h
def queue_key(i, oracle=ORACLE): return pda(b"queue", oracle, bytes([i]))

def item(id, slot, program=CONSUMER, metas=(), high=1):
    return {"high": high, "id": id, "slot": slot, "program": program, "metas": list(metas)}
def queue_bytes(index, items, count=None, size=2000):
    var, cur = b"", 16
    for i in items:
        off = cur + 96
        m = b"".join(k + bytes([w]) for k, w in i["metas"])
        it = struct.pack("<Q32s32sIIIHHHBB4x", i["slot"], i["id"], i["program"], off, off, off + len(m), 0, len(i["metas"]), 0, i["high"], 1) + m
        it += b"\0" * (-len(it) % 8)
        var += it
        cur += len(it)
    d = bytes([3] + [0] * 7) + struct.pack("<IIB3x4x", len(items) if count is None else count, cur, index) + var
    return d + b"\0" * max(0, size - len(d))

def short(b, o):
    v, k = 0, 0
    while True:
        x = b[o]; o += 1; v |= (x & 127) << k; k += 7
        if x < 128: return v, o
def parse_tx(b):
    n, o = short(b, 0)
    sigs = [b[o + 64 * i:o + 64 * i + 64] for i in range(n)]
    o += 64 * n + 3
    n, o = short(b, o)
    keys = [b[o + 32 * i:o + 32 * i + 32] for i in range(n)]
    o += 32 * n
    bh = b[o:o + 32]; o += 32
    n, o = short(b, o)
    ixs = []
    for _ in range(n):
        p = b[o]; o += 1
        k, o = short(b, o)
        acc = list(b[o:o + k]); o += k
        k, o = short(b, o)
        ixs.append((keys[p], [keys[a] for a in acc], b[o:o + k])); o += k
    return {"sig": sigs[0], "keys": keys, "blockhash": bh, "ixs": ixs}

class Fail(Exception): pass

class Node:
    def __init__(self, slot_ms=400, index=0):
        self.lock = threading.RLock()
        self.t0, self.slot0, self.slot_ms = time.time(), 5000, slot_ms
        self.queues = {queue_key(index): (index, [])}
        self.extra = {}          # other accounts of the program: key -> data
        self.statuses, self.sent, self.calls = {}, [], {}
        self.hook = {}           # method -> fn(params) -> answer, or None for the usual one
        self.fails = set()       # ids that cannot be fulfilled
        self.feeds, self.refuse_feed = [], False
        self.lands = True        # transactions land
        self.done = {}           # id -> time
        node = self
        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            def log_message(self, *a): pass
            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
                try:
                    r = {"result": node.rpc(q["method"], q.get("params") or [])}
                except Fail as e:
                    r = {"error": {"code": -32005, "message": str(e)}}
                except Exception as e:
                    r = {"error": {"code": -32603, "message": repr(e)}}
                r.update(jsonrpc="2.0", id=q.get("id"))
                b = json.dumps(r).encode()
                self.send_response(200)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)
        self.http = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.http.daemon_threads = True
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.ws = socket.create_server(("127.0.0.1", 0))
        threading.Thread(target=self.accept, daemon=True).start()
        self.proc = None

    # -- chain
    def slot(self): return self.slot0 + int((time.time() - self.t0) * 1000 / self.slot_ms)
    def key(self): return next(iter(self.queues))
    def data(self, k):
        i, items = self.queues[k]
        return queue_bytes(i, items)
    def request(self, name, k=None, fails=False, metas=(), slot=None, tell=True, high=1):
        id = hashlib.sha256(name.encode()).digest()
        with self.lock:
            k = k or self.key()
            self.queues[k][1].append(item(id, self.slot() if slot is None else slot, metas=metas, high=high))
            if fails: self.fails.add(id)
            if tell: self.notify(k)
        return id
    def pending(self, id): return any(i["id"] == id for _, l in self.queues.values() for i in l)
    def drop(self, id, tell=True):
        with self.lock:
            for k, (_, l) in self.queues.items():
                for i in [i for i in l if i["id"] == id]:
                    l.remove(i)
                    self.done[id] = time.time()
                    if tell: self.notify(k)
    def execute(self, tx):
        """usual effect of a transaction; returns an error or None"""
        for prog, acc, d in tx["ixs"]:
            if prog == BUDGET: continue
            if prog != VRF: return "unknown program"
            if d[0] == 4:
                id = d[8:40]
                if id in self.fails or not self.pending(id): return "not fulfilled"
                self.drop(id)
            elif d[0] == 9:
                k = acc[1]
                for i in [i for i in self.queues[k][1] if self.slot() - i["slot"] > 240]: self.drop(i["id"])
            else:
                return "unexpected"
        return None

    # -- RPC
    def rpc(self, m, p):
        with self.lock:
            self.calls[m] = self.calls.get(m, 0) + 1
        if m == "sendTransaction":
            raw = base64.b64decode(p[0]) if (len(p) > 1 and p[1].get("encoding") == "base64") else b58d_any(p[0])
            tx = parse_tx(raw)
            tx["time"] = time.time()
            with self.lock: self.sent.append(tx)
        if m in self.hook:
            r = self.hook[m](p)
            if r is not None: return r
        with self.lock:
            s = self.slot()
            ctx = {"slot": s, "apiVersion": "3.0.0"}
            if m == "getLatestBlockhash":
                return {"context": ctx, "value": {"blockhash": b58e(hashlib.sha256(struct.pack("<Q", s)).digest()), "lastValidBlockHeight": s + 150}}
            if m == "getVersion": return {"solana-core": "3.0.0", "feature-set": 1}
            if m == "getSlot": return s
            if m == "getProgramAccounts":
                l = [(k, self.data(k)) for k in self.queues] + list(self.extra.items())
                return [{"pubkey": b58e(k), "account": self.account(d)} for k, d in l]
            if m == "getSignatureStatuses":
                out = []
                for x in p[0]:
                    st = self.statuses.get(x)
                    out.append(None if st is None else {"slot": st[0], "confirmations": 0, "status": {"Ok": None} if st[1] is None else {"Err": "AccountNotFound"},
                        "err": None if st[1] is None else "AccountNotFound", "confirmationStatus": "processed"})
                return {"context": ctx, "value": out}
            if m == "sendTransaction":
                sig = b58e(tx["sig"])
                if self.lands:
                    threading.Timer(0.15, self.land, [sig, tx]).start()
                return sig
        raise Fail("method " + m)
    def land(self, sig, tx):
        with self.lock:
            if sig not in self.statuses: self.statuses[sig] = (self.slot(), self.execute(tx))
    def account(self, d, owner=VRF):
        return {"lamports": 10**8, "data": [base64.b64encode(d).decode(), "base64"], "owner": b58e(owner), "executable": False, "rentEpoch": 0, "space": len(d)}

    # -- feed
    def accept(self):
        while True:
            c, _ = self.ws.accept()
            if self.refuse_feed: c.close(); continue
            threading.Thread(target=self.session, args=[c], daemon=True).start()
    def session(self, c):
        try:
            f = c.makefile("rb")
            key = b""
            while True:
                l = f.readline()
                if l.lower().startswith(b"sec-websocket-key:"): key = l.split(b":")[1].strip()
                if l in (b"\r\n", b""): break
            a = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
            c.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + a + b"\r\n\r\n")
            while True:
                h = f.read(2)
                if len(h) < 2: break
                n = h[1] & 127
                if n == 126: n = struct.unpack(">H", f.read(2))[0]
                elif n == 127: n = struct.unpack(">Q", f.read(8))[0]
                m = f.read(4) if h[1] & 128 else b"\0\0\0\0"
                d = bytes(x ^ m[i & 3] for i, x in enumerate(f.read(n)))
                op = h[0] & 15
                if op == 8: break
                if op == 9: self.frame(c, d, 10)
                if op == 1:
                    q = json.loads(d)
                    if q["method"].endswith("Unsubscribe"):
                        self.frame(c, json.dumps({"jsonrpc": "2.0", "id": q["id"], "result": True}).encode())
                    else:
                        self.frame(c, json.dumps({"jsonrpc": "2.0", "id": q["id"], "result": 7}).encode())
                        with self.lock: self.feeds.append(c)
        except OSError:
            pass
        finally:
            with self.lock:
                if c in self.feeds: self.feeds.remove(c)
            c.close()
    def frame(self, c, d, op=1):
        h = bytes([128 | op])
        h += bytes([len(d)]) if len(d) < 126 else bytes([126]) + struct.pack(">H", len(d)) if len(d) < 65536 else bytes([127]) + struct.pack(">Q", len(d))
        try:
            with self.lock: c.sendall(h + d)
        except OSError:
            pass
    def notify(self, k, data=None, owner=VRF, slot=None):
        d = self.data(k) if data is None else data
        m = {"jsonrpc": "2.0", "method": "programNotification", "params": {"subscription": 7, "result": {
            "context": {"slot": self.slot() if slot is None else slot}, "value": {"pubkey": b58e(k), "account": self.account(d, owner)}}}}
        for c in list(self.feeds): self.frame(c, json.dumps(m).encode())
    def cut_feed(self):
        with self.lock:
            for c in list(self.feeds):
                try: c.shutdown(socket.SHUT_RDWR)
                except OSError: pass

    # -- the service
    def start(self, identity=IDENTITY, wait_feed=True, threads=None):
        s = socket.create_server(("127.0.0.1", 0)); self.stats_port = s.getsockname()[1]; s.close()
        env = {k: v for k, v in os.environ.items() if not k.startswith(("VRF_", "LASER", "RPC_", "WEBSOCKET"))}
        env.update(VRF_ORACLE_IDENTITY=identity, RPC_URL=f"http://127.0.0.1:{self.http.server_address[1]}",
                   WEBSOCKET_URL=f"ws://127.0.0.1:{self.ws.getsockname()[1]}", VRF_ORACLE_HTTP_PORT=str(self.stats_port), RUST_LOG="off")
        if threads: env["TOKIO_WORKER_THREADS"] = str(threads)
        self.proc = subprocess.Popen(["/repo/target/debug/vrf-oracle"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                     preexec_fn=lambda: signal.alarm(280))
        if wait_feed:
            self.until(lambda: self.feeds, 60, "the service subscribes")
            time.sleep(1)
    def stop(self):
        if self.proc: self.proc.kill(); self.proc.wait(); self.proc = None
    def alive(self): return self.proc.poll() is None
    def stats(self):
        with urllib.request.urlopen(f"http://127.0.0.1:{self.stats_port}/stats", timeout=10) as r: return json.loads(r.read())
    def answers(self, id): return [t for t in list(self.sent) for p, a, d in t["ixs"] if p == VRF and d[0] == 4 and d[8:40] == id]
    def purges(self): return [t for t in list(self.sent) for p, a, d in t["ixs"] if p == VRF and d[0] == 9]
    def until(self, f, secs, what):
        end = time.time() + secs
        while time.time() < end:
            if f(): return True
            if self.proc and not self.alive(): fail(f"the service ended while waiting until {what}")
            time.sleep(0.05)
        fail(f"timeout: {what}")
    def resolved(self, id, secs=30): self.until(lambda: not self.pending(id), secs, f"request {id.hex()[:8]} is resolved")

def b58d_any(s):
    v = 0
    for c in s: v = v * 58 + B58.index(c)
    return b"\0" * (len(s) - len(s.lstrip("1"))) + v.to_bytes((v.bit_length() + 7) // 8, "big")

def fail(m):
    print("VIOLATED:", m)
    raise SystemExit(1)
def run(f, **k):
    n = Node(**k)
    try:
        f(n)
        print("ok")
    finally:
        n.stop()
