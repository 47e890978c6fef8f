"""A small scripted node (JSON-RPC) around the real command line tool, on loopback."""
import base64, hashlib, json, os, struct, subprocess, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58d(s, n=None):
    v = 0
    for c in s: v = v * 58 + B58.index(c)
    if n is not None: return v.to_bytes(n, "big")
    return b"\0" * (len(s) - len(s.lstrip("1"))) + v.to_bytes((v.bit_length() + 7) // 8, "big")
def b58e(b):
    v, s = int.from_bytes(b, "big"), ""
    while v: v, r = divmod(v, 58); s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s

# two key pairs (base58, 64 bytes); the tool's signer and somebody else
SECRET = "D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx"
ME = b58d(SECRET, 64)[32:]
OTHER = b58d("9C6hybhQ6Aycep9jaUnP6uL9ZYvDjUp1aSkFWPUFJtpj", 32)
VRF = b58d("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz", 32)
BUDGET = b58d("ComputeBudget111111111111111111111111111111", 32)
P = 2**255 - 19
D = -121665 * pow(121666, P - 2, P) % P
def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    if y >= P: return False
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    x2 = u * pow(v, P - 2, P) % P
    return x2 == 0 or pow(x2, (P - 1) // 2, P) == 1
def pda(*seeds):
    for n in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([n]) + VRF + b"ProgramDerivedAddress").digest()
        if not on_curve(h): return h
def queue_key(i, oracle=ME): return pda(b"queue", oracle, bytes([i]))
def queue_bytes(index, items=0, size=2000):
    d = bytes([3] + [0] * 7) + struct.pack("<IIB3x4x", items, 16, index)
    return d + b"\0" * max(0, size - len(d))

def short(b, o):
    v, k = 0, 0
    while True:
        x = b[o]; o += 1; v |= (x & 127) << k; k += 7
        if x < 128: return v, o
def parse_tx(b):
    n, o = short(b, 0)
    sigs = [b[o + 64 * i:o + 64 * i + 64] for i in range(n)]
    o += 64 * n
    signers = b[o]
    o += 3
    n, o = short(b, o)
    keys = [b[o + 32 * i:o + 32 * i + 32] for i in range(n)]
    o += 32 * n
    bh = b[o:o + 32]; o += 32
    n, o = short(b, o)
    ixs = []
    for _ in range(n):
        p = b[o]; o += 1
        k, o = short(b, o)
        acc = list(b[o:o + k]); o += k
        k, o = short(b, o)
        ixs.append((keys[p], [keys[a] for a in acc], b[o:o + k])); o += k
    return {"sig": sigs[0], "signers": keys[:signers], "keys": keys, "blockhash": bh, "ixs": ixs}

class Fail(Exception): pass

class Node:
    """slots pass with the calls; a blockhash lives for `life` calls"""
    def __init__(self, life=40):
        self.lock = threading.RLock()
        self.n, self.life = 0, life
        self.accounts = {}       # key -> (owner, data)
        self.sent, self.statuses, self.calls, self.hashes = [], {}, [], {}
        self.hook = {}           # method -> fn(params) -> answer, or None for the usual one
        self.lands = True        # a transaction is executed when it arrives
        self.error = None        # ... and fails with this error
        node = self
        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            def log_message(self, *a): pass
            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["Content-Length"])))
                try:
                    with node.lock: r = {"result": node.rpc(q["method"], q.get("params") or [])}
                except Fail as e:
                    r = {"error": {"code": -32005, "message": str(e)}}
                except Exception as e:
                    r = {"error": {"code": -32603, "message": repr(e)}}
                r.update(jsonrpc="2.0", id=q.get("id"))
                b = json.dumps(r).encode()
                self.send_response(200)
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)
        self.http = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.http.daemon_threads = True
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = f"http://127.0.0.1:{self.http.server_address[1]}"

    def rpc(self, m, p):
        self.n += 1
        self.calls.append(m)
        if m == "sendTransaction":
            raw = base64.b64decode(p[0]) if len(p) > 1 and p[1].get("encoding") == "base64" else b58d(p[0])
            tx = parse_tx(raw)
            if b58e(tx["blockhash"]) not in self.hashes: raise Fail("Blockhash not found")
            if all(t["sig"] != tx["sig"] for t in self.sent): self.sent.append(tx)
            if self.lands: self.land(tx)
        if m in self.hook:
            r = self.hook[m](p)
            if r is not None: return r
        ctx = {"slot": 1000 + self.n, "apiVersion": "3.0.0"}
        def acc(k):
            a = self.accounts.get(b58d(k, 32))
            if a is None: return None
            return {"lamports": 10**8, "data": [base64.b64encode(a[1]).decode(), "base64"], "owner": b58e(a[0]), "executable": False, "rentEpoch": 0, "space": len(a[1])}
        if m == "getLatestBlockhash":
            h = b58e(hashlib.sha256(struct.pack("<Q", self.n)).digest())
            self.hashes[h] = self.n
            return {"context": ctx, "value": {"blockhash": h, "lastValidBlockHeight": 1000 + self.n + self.life}}
        if m == "isBlockhashValid":
            return {"context": ctx, "value": self.n - self.hashes.get(p[0], -10**9) <= self.life}
        if m == "getAccountInfo": return {"context": ctx, "value": acc(p[0])}
        if m == "getMultipleAccounts": return {"context": ctx, "value": [acc(k) for k in p[0]]}
        if m == "getVersion": return {"solana-core": "3.0.0", "feature-set": 1}
        if m in ("getSlot", "getBlockHeight"): return 1000 + self.n
        if m == "sendTransaction": return b58e(tx["sig"])
        if m == "getSignatureStatuses":
            out = []
            for x in p[0]:
                st = self.statuses.get(x)
                out.append(None if st is None else {"slot": st[0], "confirmations": 1, "status": {"Ok": None} if st[1] is None else {"Err": st[1]},
                    "err": st[1], "confirmationStatus": "confirmed"})
            return {"context": ctx, "value": out}
        raise Fail("method " + m)
    def land(self, tx):
        self.statuses.setdefault(b58e(tx["sig"]), (1000 + self.n, self.error))
    def vrf(self):
        """instructions of the program in everything that was sent"""
        return [i for t in self.sent for i in t["ixs"] if i[0] == VRF]

    def cli(self, *args, env=None, key=SECRET, url=True):
        e = {k: v for k, v in os.environ.items() if k not in ("RPC_URL", "KEYPAIR_BASE58")}
        e.update(env or {})
        a = ["/repo/target/debug/vrf-cli"] + (["--rpc-url", self.url] if url else []) + (["--keypair", key] if key else []) + list(args)
        r = subprocess.run(a, env=e, capture_output=True, text=True, timeout=200)
        print(f"{' '.join(args)}: exit status {r.returncode}, {len(self.sent)} sent")
        return r

def fail(m):
    print("VIOLATED:", m)
    raise SystemExit(1)
