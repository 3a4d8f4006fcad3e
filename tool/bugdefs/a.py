S = "src/memcache/sockets.cpp"
bug("C01-lock-seen-only-from-later", "C01", [("src/memcache/object.hpp", "return locked() && (! locked_by_self());", "return locked() && (m_lock < g_context);")],
    "the requesting connection was made before the connection that holds the lock",
    "an older connection does not notice a lock held by a newer one, and overwrites the locked object", '''
with Server() as s:
    a = s.binary(); check(a.cmd("noop").status == OK, "noop")
    b = s.binary()
    check(a.cmd("set", "k", store(), "1").status == OK, "set")
    check(b.cmd("lock", "k").status == OK, "lock")
    check(a.cmd("set", "k", store(), "2").status == LOCKED, "the older connection must get LOCKED")
    check(b.cmd("get", "k").data == b"1", "the locked object must be unchanged")
''')
bug("C02-rauq-keeps-record", "C02", [(S, '''            obj.unlock();
            remove_lock(k);
            if( ! cmd.quiet() )
                r.set( obj.cas_unique() );''', '''            obj.unlock();
            if( ! cmd.quiet() ) {
                remove_lock(k);
                r.set( obj.cas_unique() );
            }''')],
    "replace-and-unlock in its quiet form, another connection locks the object afterwards, then the first one disconnects",
    "the connection keeps a record of a lock it has given back and releases the other connection's lock when it ends", '''
with Server() as s:
    a, b, c = s.binary(), s.binary(), s.binary()
    a.cmd("set", "k", store(), "1")
    check(a.cmd("lag", "k").status == OK, "lag")
    a.send("rauq", "k", store(), "2")
    check(a.drain() == [], "rauq is silent")
    check(b.cmd("lock", "k").status == OK, "lock by b")
    a.close()
    time.sleep(3)
    check(c.cmd("set", "k", store(), "3").status == LOCKED, "b's lock must survive the end of a")
    check(b.cmd("get", "k").data == b"2", "value")
''')
bug("C03-keys-with-prefix", "C03", [(S, '''        foreach_pred = [p,len,&r](const cybozu::hash_key& k, object& obj) {
            if( obj.expired() ) return;
            if( (len == 0) || k.has_prefix(p, len) )
                r.key(k.data(), k.length());''', '''        foreach_pred = [p,len,&r](const cybozu::hash_key& k, object& obj) {
            if( len == 0 ) {
                if( ! obj.expired() )
                    r.key(k.data(), k.length());
                return;
            }
            if( k.has_prefix(p, len) )
                r.key(k.data(), k.length());''')],
    "a Keys request with a prefix while an expired object has not been collected yet",
    "expired objects are listed", '''
with Server() as s:
    b = s.binary()
    time.sleep(4)   # the first collection
    b.cmd("set", "abc", store(0, 1), "1")
    b.cmd("set", "abd", store(0, 0), "1")
    time.sleep(3)
    def keys(prefix):
        b.send("keys", prefix)
        out = []
        while True:
            r = b.recv()
            if not r.key:
                return sorted(out)
            out.append(r.key)
    check(keys("") == [b"abd"], "keys without prefix")
    check(keys("ab") == [b"abd"], "an expired object must not be listed")
''')
bug("C04-append-cas-32bit", "C04", [(S, '''            if( obj.expired() ) return false;
            if( cmd.cas_unique() != 0 &&
                cmd.cas_unique() != obj.cas_unique() ) {
                r.error( binary_status::Exists );
                return true;
            }
            const char* p2;
            std::size_t len2;
            std::tie(p2, len2) = cmd.data();
            obj.append(p2, len2);''', '''            if( obj.expired() ) return false;
            std::uint32_t cas = cmd.cas_unique();
            if( cas != 0 && cas != obj.cas_unique() ) {
                r.error( binary_status::Exists );
                return true;
            }
            const char* p2;
            std::size_t len2;
            std::tie(p2, len2) = cmd.data();
            obj.append(p2, len2);''')],
    "a binary append carrying a CAS value above 32 bits whose low half matches (or is zero)",
    "the append is done although the CAS value differs", '''
with Server() as s:
    b = s.binary()
    cas = b.cmd("set", "k", store(), "1").cas
    check(b.cmd("append", "k", b"", "2", cas=cas + (1 << 32)).status == EXISTS, "a different CAS value must be refused")
    check(b.cmd("append", "k", b"", "2", cas=(5 << 32)).status == EXISTS, "a different CAS value must be refused")
    check(b.cmd("get", "k").data == b"1", "unchanged")
''')
bug("C05-rauq-silent-miss", "C05", [(S, '''                repl_object(m_slaves, k, obj);
            return true;
        };
        if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) )
            r.error( binary_status::NotFound );
        break;
    case binary_command::Append:''', '''                repl_object(m_slaves, k, obj);
            return true;
        };
        if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) && ! cmd.quiet() )
            r.error( binary_status::NotFound );
        break;
    case binary_command::Append:''')],
    "a quiet replace-and-unlock of a key that does not exist", "the failure is not answered", '''
with Server() as s:
    b = s.binary()
    b.send("rauq", "nothing", store(), "v")
    r = b.drain()
    check(len(r) == 1 and r[0].status in (NOTFOUND, NOTLOCKED), "a failed quiet request must be answered with its error, got %r" % r)
''')
bug("C06-decr-create-quiet", "C06", [(S, '''                if( ! m_slaves.empty() )
                    repl_object(m_slaves, k, o);
                return o;
            };
        }
        if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) )
            r.error( binary_status::NotFound );
        break;
    case binary_command::Touch:''', '''                if( ! m_slaves.empty() && ! cmd.quiet() )
                    repl_object(m_slaves, k, o);
                return o;
            };
        }
        if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) )
            r.error( binary_status::NotFound );
        break;
    case binary_command::Touch:''')],
    "a quiet binary decrement that creates its object while a slave is connected",
    "the new object is not sent to the slaves", '''
with Server() as s:
    sl = s.slave(); time.sleep(3); sl.messages()
    b = s.binary()
    b.send("incrq", "i", arith(1, 7, 0)); b.send("decrq", "d", arith(1, 8, 0))
    check(b.drain() == [], "quiet")
    check(b.cmd("get", "d").data == b"8", "created")
    m = {k: d for op, k, ex, d in sl.messages(2)}
    check(m.get(b"i") == b"7", "increment replicated")
    check(m.get(b"d") == b"8", "decrement that created an object must be replicated")
''')
bug("R01-applied-bytes-kept", "R01", [(S, "        m_recvbuf.erase(c);\n", "        if( c < m_recvbuf.size() )\n            m_recvbuf.erase(c);\n")],
    "a read on the slave ends exactly at the end of a message, and more messages follow",
    "messages that were applied stay in the slave's buffer and are applied again after later ones", '''
import signal, threading
rp = free_port()
ls = socket.socket(); ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); ls.bind(("127.0.0.2", rp)); ls.listen(1)
with Server(vip="127.0.0.2", repl_port=rp, log__threshold="debug") as s:
    ls.settimeout(20)
    c, _ = ls.accept()
    for i in range(3):
        c.sendall(req("setq", "k%d" % i, store(), "v"))
        time.sleep(1)
    log = s.logtext()
    n = [log.count("repl: set k%d" % i) for i in range(3)]
    check(n == [1, 1, 1], "every message must be applied exactly once, applied %r" % n)
''')
bug("R02-locked-not-sent", "R02", [("src/memcache/gc.cpp", '''        if( ! m_new_slaves.empty() )
            repl_object(m_new_slaves, k, obj, false);''', '''        // a locked object is sent when its holder stores the new value.
        if( ! m_new_slaves.empty() && ! obj.locked() )
            repl_object(m_new_slaves, k, obj, false);''')],
    "an object is locked when the initial replication of a new slave passes it, and is only unlocked later",
    "the new slave never receives the object", '''
with Server() as s:
    b = s.binary()
    b.cmd("set", "k", store(), "v"); b.cmd("set", "l", store(), "w")
    check(b.cmd("lock", "l").status == OK, "lock")
    sl = s.slave(); m = {}
    end = time.time() + 8
    while time.time() < end and not b"k" in m:
        m.update({k: d for op, k, ex, d in sl.messages(1)})
    b.cmd("unlock", "l")
    m.update({k: d for op, k, ex, d in sl.messages(3)})
    check(m.get(b"k") == b"v", "plain object")
    check(m.get(b"l") == b"w", "the locked object must reach the new slave")
''')
bug("G01-evicts-locked", "G01", [("src/memcache/gc.cpp", "if( evict_age > 0 && obj.age() >= evict_age && (! obj.locked()) ) {", "if( evict_age > 0 && obj.age() >= evict_age &&\n            ! obj.locked_by_self() ) {")],
    "memory pressure while an old object is locked", "a locked object is evicted", '''
with Server(memory_limit="1M", gc_interval=1, heap_data_limit="512K", max_data_size="512K") as s:
    b = s.binary()
    b.cmd("set", "k", store(), "v")
    check(b.cmd("lock", "k").status == OK, "lock")
    end = time.time() + 25
    i = 0
    while time.time() < end and "Evicting" not in s.logtext():
        i += 1
        b.cmd("set", "x%d" % i, store(), b"x" * 400000)
        time.sleep(0.4)
    time.sleep(3)
    check("Evicting" in s.logtext(), "eviction was not reached")
    check(b.cmd("get", "k").data == b"v", "the locked object must not be evicted")
''')
HOG = '''
    a.cmd("set", "big", store(), b"x" * (10 << 20))
    # clients that ask for much and do not read keep every worker sending
    hogs = []
    for i in range(4):
        h = s.binary()
        h.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        h.s.sendall(req("get", "big") * 20)
        hogs.append(h)
    time.sleep(1)
'''
bug("T04-half-request-forgotten", "T04", [(S, '''    cybozu::worker* w = m_finder();
    if( w == nullptr ) {
        m_reactor->add_readable(*this);
        return true;
    }

    // copy the current''', '''    cybozu::worker* w = m_finder();
    if( w == nullptr ) {
        if( m_pending.empty() )
            m_reactor->add_readable(*this);
        return true;
    }

    // copy the current''')],
    "the rest of a request that came in part arrives while every worker is occupied",
    "the event is forgotten and the connection hangs", '''
with Server(workers=2, max_data_size="20M") as s:
    a = s.binary()
    c = s.binary()
    m = req("noop", opaque=7)
    c.s.sendall(m[:10])
    time.sleep(1)
''' + HOG + '''
    c.s.sendall(m[10:])
    time.sleep(1)
    for h in hogs:
        h.close()
    c.s.settimeout(15)
    try:
        ok = c.recv().opaque == 7
    except socket.timeout:
        ok = False
    check(ok, "the request must be served once a worker is free again")
''')
bug("K01-busy-before-worker", "K01", [(S, '''    // find an idle worker.
    cybozu::worker* w = m_finder();
    if( w == nullptr ) {
        m_reactor->add_readable(*this);
        return true;
    }

    // copy the current list of slaves
    m_slaves = m_slaves_origin;

    m_busy.store(true, std::memory_order_release);
    w->post_job(m_recvjob);''', '''    m_busy.store(true, std::memory_order_release);

    // find an idle worker.
    cybozu::worker* w = m_finder();
    if( w == nullptr ) {
        m_reactor->add_readable(*this);
        return true;
    }

    // copy the current list of slaves
    m_slaves = m_slaves_origin;

    w->post_job(m_recvjob);''')],
    "a request arrives while every worker is occupied",
    "the connection is marked busy without a job and is never served again", '''
with Server(workers=2, max_data_size="20M") as s:
    a = s.binary()
    a.cmd("noop")
    a.cmd("set", "big", store(), b"x" * (10 << 20))
    # clients that ask for much and do not read keep both workers sending
    hogs = []
    for i in range(4):
        h = s.binary()
        h.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        h.s.sendall(req("get", "big") * 20)
        hogs.append(h)
    time.sleep(1)
    a.send("noop")
    time.sleep(1)
    for h in hogs:
        h.close()
    a.s.settimeout(15)
    try:
        ok = a.recv().status == OK
    except socket.timeout:
        ok = False
    check(ok, "the connection must be served once a worker is free again")
''')

bug("F01-protocol-chosen-per-batch", "F01", [("src/memcache/sockets.cpp", '''            while( len > 0 ) {
                if( mc::is_binary_request(head) ) {''', '''            const bool binary = mc::is_binary_request(head);
            while( len > 0 ) {
                if( binary ) {''')],
    "requests of both protocols received at once on one connection",
    "the request of the other protocol is read by the wrong parser and never answered", '''
with Server() as s:
    t = s.text()
    t.s.settimeout(5)
    # both alone
    t.s.sendall(b"version\\r\\n")
    check(t.line().startswith("VERSION"), "text request")
    t.s.sendall(b"version\\r\\n" + req("noop"))
    check(t.line().startswith("VERSION"), "text request in front of a binary one")
    try:
        ok = t.need(24)[0] == 0x81
    except Exception:
        ok = False
    check(ok, "the binary request behind it must be answered")
''')
