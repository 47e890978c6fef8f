H = "from node import *\n"
T = dict(template="demo_oracle")
S = H + r'''
import re
SECRET = b58d(IDENTITY, 64)[:32]
FORMS = [IDENTITY, SECRET.hex(), SECRET.hex().upper(), b58e(SECRET), base64.b64encode(SECRET).decode().rstrip("="), ",".join(map(str, SECRET)), b58e(b58d(IDENTITY, 64))]
def look(text, more=()):
    bare = re.sub(r"\s", "", text)
    for f in FORMS + list(more):
        if f in text or f in bare:
            fail("a secret in the open: ..." + text[max(0, text.find(f) - 80):][:120])
def service(env, secs, args=(), node=None):
    e = dict(os.environ, RUST_LOG="trace", RUST_BACKTRACE="1")
    e.update(VRF_ORACLE_IDENTITY=IDENTITY, RPC_URL="http://127.0.0.1:9", WEBSOCKET_URL="ws://127.0.0.1:9")
    e.update(env)
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(["/repo/target/debug/vrf-oracle", *args], env=e, stdout=f, stderr=f)
        try: p.wait(secs)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        f.seek(0)
        return f.read().decode(errors="replace")
'''
BUGS = [
dict(id="c24-panic-shows-identity", property="C24", **T,
 needs="an identity that is not quite right (a character lost when it was copied)",
 breaks="the service names the value it could not parse: all but a character of the secret key lands in the logs",
 edits=[("vrf-oracle/src/main.rs", "    let keypair = Keypair::from_base58_string(&identity);\n", "    let keypair = Keypair::try_from_base58_string(&identity)\n        .map_err(|e| anyhow::anyhow!(\"invalid identity {identity:?}: {e}\"))?;\n")],
 files={"scene.py": S + r'''
t = service({"VRF_ORACLE_IDENTITY": IDENTITY[:-1]}, 10)
print(t)
look(t, [IDENTITY[:-1]])
look(service({}, 3))
'''}),
dict(id="c24-settings-logged", property="C24", **T,
 needs="logging at the debug level",
 breaks="the settings are logged with the identity's key pair and the Laserstream API key in them",
 edits=[("vrf-oracle/src/main.rs", "    let args = Args::parse();\n", "    let args = Args::parse();\n    log::debug!(\"Settings: {args:#?}\");\n")],
 files={"scene.py": S + r'''
look(service({"LASERSTREAM_API_KEY": "a-key-nobody-may-see"}, 3), ["a-key-nobody-may-see"])
'''}),
dict(id="c24-feed-config-logged", property="C24", **T,
 needs="the Laserstream feed is configured, and its endpoint cannot be parsed or the feed is (re)connected",
 breaks="the log line about the connection carries the API key, as part of the address",
 edits=[("vrf-oracle/src/oracle/client.rs", "            info!(\"Connecting to gRPC: {endpoint}\");\n", "            info!(\"Connecting to gRPC: {endpoint}/?api-key={api_key}\");\n")],
 files={"scene.py": S + r'''
n = Node()
t = service({"LASERSTREAM_API_KEY": "a-key-nobody-may-see", "LASERSTREAM_ENDPOINT": "http://127.0.0.1:9", "RPC_URL": "http://127.0.0.1:%d" % n.http.server_port}, 6)
look(t, ["a-key-nobody-may-see"])
'''}),
dict(id="c24-vrf-key-in-trace", property="C24", **T,
 needs="trace logging",
 breaks="what an answer was made of is logged for diagnosis, with the VRF secret key among them",
 edits=[("vrf-oracle/src/oracle/processor.rs", """            .await?;
        Ok(sig.to_string())
""", """            .await;
        log::trace!(
            "Answer to {} by key {:?}: {sig:?}",
            Pubkey::new_from_array(*vrf_input),
            oracle_client.oracle_vrf_sk
        );
        Ok(sig?.to_string())
""")],
 files={"scene.py": S + r'''
import hmac
def expand(key, salt, info):
    prk = hmac.new(salt, key, hashlib.sha512).digest()
    return hmac.new(prk, info + b"\1", hashlib.sha512).digest()
sk = int.from_bytes(expand(b58d(IDENTITY, 64), b"VRF-Solana-SecretKey", b"VRF-Key")[:32], "little") % (2**252 + 27742317777372353535851937790883648493)
sk = sk.to_bytes(32, "little")
n = Node()
def refuse(p): raise Fail("behind")
n.hook["getSignatureStatuses"] = refuse
n.request("a")
t = service({"RPC_URL": "http://127.0.0.1:%d" % n.http.server_port, "WEBSOCKET_URL": "ws://127.0.0.1:%d" % n.ws.getsockname()[1]}, 8)
if "failed to confirm" not in t: sys.exit("nothing was sent: " + t[-500:])
look(t, [sk.hex(), sk[::-1].hex(), b58e(sk), ",".join(map(str, sk))])
'''}),
]
