M = "vrf-cli/src/main.rs"
H = "from node import *\n"
KEYS = H + r'''
L = 2**252 + 27742317777372353535851937790883648493
BY = 4 * pow(5, P - 2, P) % P
def recover(y):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P: x = x * pow(2, (P - 1) // 4, P) % P
    return x if x % 2 == 0 else P - x
def add(a, b):
    k = D * a[0] * b[0] * a[1] * b[1] % P
    return ((a[0] * b[1] + b[0] * a[1]) * pow(1 + k, P - 2, P) % P, (a[1] * b[1] + a[0] * b[0]) * pow(1 - k, P - 2, P) % P)
def keypair(seed):
    h = hashlib.sha512(seed).digest()
    n = int.from_bytes(h[:32], "little") & ((1 << 254) - 8) | (1 << 254)
    p, q = (0, 1), (recover(BY), BY)
    while n:
        if n & 1: p = add(p, q)
        q = add(q, q)
        n >>= 1
    return b58e(seed + (p[1] | (p[0] & 1) << 255).to_bytes(32, "little"))
'''
BUGS = [
dict(id="c21-send-unconfirmed", property="C21", template="demo_cli",
 needs="the node accepts the transaction, which then is lost or fails",
 breaks="the tool reports success as soon as the node has taken the transaction, although the change never happens",
 edits=[(M, "    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;\n", "    let signature = rpc_client.send_transaction(&transaction)?;\n")],
 files={"scene.py": H + r'''
n = Node(life=12)
if n.cli("initialize").returncode != 0: fail("a healthy node, and the tool reports failure")
n = Node(life=12)
n.lands = False
if n.cli("initialize").returncode == 0: fail("the transaction was lost, and the tool reports success")
'''}),
dict(id="c21-fresh-retry", property="C21", template="demo_cli",
 needs="the confirmation of a transaction fails (an RPC error, or a transaction that is late), whereupon the tool signs another one",
 breaks="one run of the tool submits several transactions; the first may have taken effect while the last one fails",
 edits=[(M, """    let transaction =
        Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], blockhash);

    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;
    println!("Transaction signature: {signature}");
""", """    let mut recent = blockhash;
    let mut attempts = 0;
    let signature = loop {
        let transaction =
            Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], recent);
        match rpc_client.send_and_confirm_transaction(&transaction) {
            Ok(signature) => break signature,
            // The node may have been busy, or the blockhash may have expired
            Err(e) if attempts < 3 => {
                eprintln!("Retrying: {e}");
                attempts += 1;
                recent = rpc_client.get_latest_blockhash()?;
            }
            Err(e) => return Err(e.into()),
        }
    };
    println!("Transaction signature: {signature}");
""")],
 files={"scene.py": H + r'''
n = Node(life=12)
if n.cli("initialize").returncode != 0: fail("a healthy node, and the tool reports failure")
if len(n.sent) != 1: fail("several transactions")
n = Node(life=12)
down = []
def status(p):
    if not down:
        down.append(1)
        raise Fail("node is behind")
n.hook["getSignatureStatuses"] = status
n.cli("initialize")
if len(n.sent) != 1: fail(f"{len(n.sent)} different transactions were submitted")
'''}),
dict(id="c21-delegates-own", property="C21", template="demo_cli",
 needs="an operator naming a queue that is not the signer's, while the signer has a queue with the same index",
 breaks="delegating another oracle's queue delegates the signer's queue with that index",
 edits=[(M, """            vec![delegate_oracle_queue(
                signer.pubkey(),
                queue,
                queue_struct.index,
            )]
""", """            let index = queue_struct.index;
            let (queue, _) = oracle_queue_pda(&signer.pubkey(), index);
            vec![delegate_oracle_queue(signer.pubkey(), queue, index)]
""")],
 files={"scene.py": H + r'''
n = Node(life=12)
mine, theirs = queue_key(2), queue_key(2, OTHER)
n.accounts[mine] = n.accounts[theirs] = (VRF, queue_bytes(2))
if n.cli("delegate-oracle-queue", "--queue", b58e(mine)).returncode != 0: fail("refused")
if [i[1][1] for i in n.vrf()] != [mine]: fail("another account")
n.sent.clear()
n.error = "InvalidAccountForFee"
n.cli("delegate-oracle-queue", "--queue", b58e(theirs))
if any(mine in i[1] for i in n.vrf()): fail("told to delegate another oracle's queue, the tool delegated the signer's")
'''}),
dict(id="c21-missing-is-undelegated", property="C21", template="demo_cli",
 needs="the node fails to answer for the queue's account in an undelegation",
 breaks="the tool reports success for an undelegation it has not asked for",
 edits=[(M, """                Err(e) => {
                    eprintln!("Error: {e}");
                    rpc_client.request_airdrop(&queue, 1)?;
                    exit(1);
                }
""", """                Err(e) => {
                    println!("Nothing to undelegate: {e}");
                    exit(0);
                }
""")],
 files={"scene.py": H + r'''
n = Node(life=12)
q = queue_key(0)
n.accounts[q] = (VRF, queue_bytes(0))
if n.cli("undelegate-oracle-queue", "--queue", b58e(q)).returncode != 0: fail("a healthy node, and the tool reports failure")
n = Node(life=12)
n.accounts[q] = (VRF, queue_bytes(0))
def down(p): raise Fail("node is behind")
n.hook["getAccountInfo"] = down
if n.cli("undelegate-oracle-queue", "--queue", b58e(q)).returncode == 0: fail("nothing was asked of the chain, and the tool reports success")
'''}),
dict(id="c21-init-eight", property="C21", template="demo_cli",
 needs="a queue of more than 81,920 bytes",
 breaks="the tool reports a queue initialised that is only partly allocated",
 edits=[("api/src/sdk.rs", "    for _ in 0..inits {\n", "    // More would not fit into a transaction\n    for _ in 0..inits.min(8) {\n")],
 files={"scene.py": H + r'''
for size, want in [(9000, 1), (81920, 8), (81921, 9), (150000, 15), (200000, 20)]:
    n = Node(life=12)
    r = n.cli("initialize-oracle-queue", "--identity", b58e(ME), "--index", "1", "--bytes-to-allocate", str(size))
    if r.returncode == 0 and len(n.vrf()) < want: fail(f"{size} bytes need {want} steps, {len(n.vrf())} were asked for, success was reported")
    if r.returncode != 0: fail("refused")
'''}),
dict(id="c22-env-first", property="C22", template="demo_cli",
 needs="a key pair given as an argument while the environment has another one",
 breaks="queries (and commands) are about the identity in the environment instead of the one given",
 edits=[(M, """        args.keypair
            .unwrap_or(DEFAULT_IDENTITY.to_string())
""", """        std::env::var("KEYPAIR_BASE58")
            .ok()
            .or(args.keypair)
            .unwrap_or(DEFAULT_IDENTITY.to_string())
""")],
 files={"scene.py": KEYS + r'''
a, b = keypair(b"\x11" * 32), keypair(b"\x22" * 32)
n = Node()
def derived(**k):
    r = n.cli("derive-pubkey", **k)
    if r.returncode != 0: fail("derive-pubkey fails")
    return r.stdout.strip().split()[-1]
ka, kb = derived(key=a), derived(key=b)
if ka == kb: fail("the same key for two identities")
if derived(key=None, env={"KEYPAIR_BASE58": a}) != ka: fail("the key in the environment is not used")
if derived(key=a, env={"KEYPAIR_BASE58": b}) != ka: fail("derived the key of another identity than the one given")
'''}),
]
