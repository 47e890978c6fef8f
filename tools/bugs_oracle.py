P = "vrf-oracle/src/oracle/processor.rs"
C = "vrf-oracle/src/oracle/client.rs"
S = "vrf-oracle/src/oracle/sources.rs"
M = "vrf-oracle/src/main.rs"
H = "from node import *\n"
T = dict(template="demo_oracle")
BUGS = [
dict(id="c13-refresh-gives-up", property="C13", **T,
 needs="one RPC error at a periodic refresh and, later, a request whose feed update is lost",
 breaks="requests that the feed never announced are not found any more",
 edits=[(C, """                        error!("Periodic fetch_and_process_program_accounts failed: {err:?}");
""", """                        error!("Periodic fetch_and_process_program_accounts failed: {err:?}");
                        break;
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    failed = []
    def hook(p):
        if not failed:
            failed.append(1)
            raise Fail("Node is behind")
    n.hook["getProgramAccounts"] = hook
    n.until(lambda: failed, 60, "the periodic refresh fails")
    a = n.request("a", tell=False)
    n.resolved(a, 60)
run(scene)
'''}),
dict(id="c13-snapshot-keeps-inflight", property="C13", **T,
 needs="the removal of a request is seen in a periodic snapshot only (its feed update is lost), and then a fork brings the request back",
 breaks="the request that came back is taken for one that is still worked on and never answered",
 edits=[(P, """                    if let Some(enqueue_slot) = inflight_for_queue.remove(&tracked_id) {
                        if let Some(response_slot_hint) = notification_slot {
""", """                    if let Some(response_slot_hint) = notification_slot {
                        if let Some(enqueue_slot) = inflight_for_queue.remove(&tracked_id) {
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    a = n.request("a", fails=True)
    n.until(lambda: n.answers(a), 20, "the request is tried")
    n.drop(a, tell=False)
    c = n.calls["getProgramAccounts"]
    n.until(lambda: n.calls["getProgramAccounts"] >= c + 1, 60, "a periodic refresh")
    time.sleep(3)
    n.request("a")
    n.fails.clear()
    n.resolved(a, 100)
run(scene)
'''}),
dict(id="c14-regular-waits", property="C14", **T,
 needs="a high-priority request that cannot be fulfilled and a regular one in the same queue",
 breaks="a failing high-priority request holds up every regular request of its queue until it expires",
 edits=[(P, """        let items: Vec<QueueItem> = queue_account.iter_items().collect();
""", """        // High-priority requests first
        let (high, regular): (Vec<QueueItem>, Vec<QueueItem>) = queue_account
            .iter_items()
            .partition(|i| i.priority_request == 1);
        let items = if high.is_empty() { regular } else { high };
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    n.request("bad", fails=True)
    time.sleep(1)
    a = n.request("a", high=0)
    n.resolved(a, 20)
run(scene)
'''}),
dict(id="c14-sixteen-at-once", property="C14", **T,
 needs="sixteen requests of one queue that cannot be fulfilled are pending at the same time",
 breaks="failing requests use up all the places, and healthy requests behind them are not even tried",
 edits=[(P, """                if let std::collections::hash_map::Entry::Vacant(e) =
                    inflight_for_queue.entry(item.id)
                {
                    e.insert(item.slot);
                    true
                } else {
                    false
                }
""", """                // Keep the load on the RPC node bounded
                if inflight_for_queue.len() < 16 && !inflight_for_queue.contains_key(&item.id) {
                    inflight_for_queue.insert(item.id, item.slot);
                    true
                } else {
                    false
                }
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    for i in range(16): n.request("bad%d" % i, fails=True, tell=i == 15)
    time.sleep(1)
    a = n.request("a")
    n.resolved(a, 20)
run(scene)
'''}),
dict(id="c15-key-unwrap", property="C15", **T,
 needs="the feed delivers an account whose key cannot be read",
 breaks="the main task panics and the service ends",
 edits=[(S, "let pubkey = Pubkey::from_str(&update.value.pubkey).ok()?;", 'let pubkey = Pubkey::from_str(&update.value.pubkey).expect("valid pubkey");'),
        (S, "let pubkey = Pubkey::new_from_array(acc.pubkey.try_into().ok()?);", 'let pubkey = Pubkey::new_from_array(acc.pubkey.try_into().expect("valid pubkey"));')],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    n.notify(b"\xff" * 40, data=queue_bytes(0, []))
    time.sleep(4)
    if not n.alive(): fail("the service ended")
    a = n.request("a")
    n.resolved(a, 40)
run(scene)
'''}),
dict(id="c15-gives-up-starting", property="C15", **T,
 needs="an RPC node that is down for more than half a minute when the service starts",
 breaks="the service exits instead of waiting for the node",
 edits=[(M, """    loop {
        match Arc::clone(&oracle).run().await {
            Ok(_) => continue,
            Err(e) => {
                eprintln!("Oracle crashed: {e}");
""", """    let mut failures = 0;
    loop {
        match Arc::clone(&oracle).run().await {
            Ok(_) => continue,
            Err(e) => {
                eprintln!("Oracle crashed: {e}");
                failures += 1;
                if failures > 10 {
                    return Err(e);
                }
""")],
 files={"scene.py": H + r'''
def scene(n):
    def hook(p): raise Fail("Node is behind")
    n.hook["getLatestBlockhash"] = hook
    n.start(wait_feed=False)
    for _ in range(45):
        time.sleep(1)
        if not n.alive(): fail("the service ended")
    n.hook.clear()
    a = n.request("a")
    n.resolved(a, 60)
run(scene)
'''}),
dict(id="c16-refresh-per-connection", property="C16", **T,
 needs="the feed disconnects several times",
 breaks="each reconnect starts another periodic refresh that never ends: tasks and RPC load grow for good",
 edits=[(C, """        // Periodically refresh and process program accounts every 30 seconds
        {
""", """        // Periodically refresh and process program accounts every 30 seconds
        let spawn_refresh = || {
"""), (C, """                        error!("Periodic fetch_and_process_program_accounts failed: {err:?}");
                    }
                }
            });
        }
""", """                        error!("Periodic fetch_and_process_program_accounts failed: {err:?}");
                    }
                }
            });
        };
"""), (C, """                Ok(mut source) => {
                    info!("Update source connected successfully");
""", """                Ok(mut source) => {
                    info!("Update source connected successfully");
                    spawn_refresh();
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    for _ in range(4):
        n.cut_feed()
        n.until(lambda: not n.feeds, 10, "the feed ends")
        n.until(lambda: n.feeds, 20, "the service reconnects")
    time.sleep(2)
    c = n.calls["getProgramAccounts"]
    time.sleep(65)
    c = n.calls["getProgramAccounts"] - c
    print(c, "refreshes in 65 seconds")
    if c > 4: fail("the refresh rate grew with the number of reconnects")
run(scene)
'''}),
dict(id="c16-task-not-aborted", property="C16", **T,
 needs="a request is resolved by somebody else, by a purge for instance, while its task is between two attempts",
 breaks="the service keeps sending answers to a request it saw leave the queue",
 edits=[(P, """                    if let Some(handle) = tasks_for_queue.remove(&tracked_id) {
                        handle.abort();
                    }
""", """                    // Its task notices on its own
                    tasks_for_queue.remove(&tracked_id);
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    a = n.request("a", fails=True)
    n.until(lambda: len(n.answers(a)) > 3, 30, "the request is tried")
    n.drop(a)
    time.sleep(4)
    c = len(n.answers(a))
    time.sleep(8)
    if len(n.answers(a)) > c: fail(f"{len(n.answers(a)) - c} answers sent to a request that left the queue")
run(scene)
'''}),
dict(id="c17-purge-at-ttl", property="C17", **T,
 needs="a failing request is tried in the very slot in which its age equals its time to live",
 breaks="the service signs a purge of a queue in which nothing has expired",
 edits=[(P, "        let is_purge = age > QUEUE_TTL_SLOTS;", "        let is_purge = age >= QUEUE_TTL_SLOTS;")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    a = n.request("a", fails=True, slot=4760)
    time.sleep(4)
    if n.purges(): fail("a purge 240 slots after the request")
    n.slot0 += 1
    n.until(n.purges, 60, "a purge of the expired request")
    n.resolved(a)
run(scene, slot_ms=10**9)
'''}),
dict(id="c17-snapshot-trusted", property="C17", **T,
 needs="another oracle has a queue with the same index and a pending request, seen in the snapshot of accounts",
 breaks="the service signs answers for another oracle's queue",
 edits=[(P, "    if oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue {\n        if oracle_queue.item_count > 0 {", """    // The feed is not trusted, the accounts fetched from the program are queues
    if notification_slot.is_none()
        || oracle_queue_pda(&oracle_client.keypair.pubkey(), oracle_queue.index).0 == *queue
    {
        if oracle_queue.item_count > 0 {""")],
 files={"scene.py": H + r'''
def scene(n):
    k = queue_key(0, b"\x42" * 32)
    n.extra[k] = queue_bytes(0, [item(b"\x99" * 32, n.slot())])
    n.start()
    a = n.request("a")
    n.resolved(a)
    time.sleep(3)
    if n.answers(b"\x99" * 32): fail("an answer for another oracle's queue")
run(scene)
'''}),
dict(id="c18-size-from-feed", property="C18", **T,
 needs="the feed update that shows a queue drained is lost, and the periodic snapshot shows it",
 breaks="the reported queue size stays wrong",
 edits=[(P, """        {
            let mut stats = oracle_client.queue_stats.write().await;
            stats.insert(queue.to_string(), oracle_queue.item_count as usize);
        }
""", """        // (the snapshots only fill in queues the feed has not mentioned)
        {
            let mut stats = oracle_client.queue_stats.write().await;
            let size = stats.entry(queue.to_string()).or_insert(0);
            if notification_slot.is_some() || *size == 0 {
                *size = oracle_queue.item_count as usize;
            }
        }
""")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    a = n.request("a", fails=True)
    n.until(lambda: n.answers(a), 20, "the request is tried")
    n.drop(a, tell=False)
    q = b58e(n.key())
    for _ in range(70):
        time.sleep(1)
        if n.stats()["queues"][q] == 0: return
    fail(f"a drained queue is reported as {n.stats()}")
run(scene)
'''}),
dict(id="c18-windowed-mean", property="C18", **T,
 needs="more than fifty completed requests in one queue with different response times",
 breaks="the reported average is no longer the mean of the response times",
 edits=[(P, "                                *count += 1;\n", "                                *count = (*count + 1).min(50);\n")],
 files={"scene.py": H + r'''
def scene(n):
    n.start()
    q = b58e(n.key())
    n.lands = False
    # ten slow ones, then many fast ones
    ids = [n.request("s%d" % i, tell=i == 9) for i in range(10)]
    n.until(lambda: all(n.answers(i) for i in ids), 30, "the requests are tried")
    n.slot0 += 40
    for i in ids: n.drop(i, tell=i == ids[-1])
    for k in range(9):
        ids = [n.request("f%d-%d" % (k, i), tell=i == 9) for i in range(10)]
        n.until(lambda: all(n.answers(i) for i in ids), 30, "the requests are tried")
        for i in ids: n.drop(i, tell=i == ids[-1])
    time.sleep(1)
    v = n.stats()["avg_response_slots"][q]
    print(v)
    if abs(v - 4) > 0.01: fail(f"ten requests took 40 slots and ninety took none: the average is said to be {v}")
run(scene, slot_ms=10**9)
'''}),
]
