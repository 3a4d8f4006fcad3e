TS = "path-sensitive interprocedural typestate dataflow (one exploration per command and protocol)"

p("C01", "Another connection's lock is never overridden",
  "While a connection holds the lock of an object, no store, conditional store, append, prepend, increment, decrement, replace-and-unlock, "
  "delete, lock or unlock request of another connection changes, removes, locks or unlocks that object. "
  "Such a request is answered with the LOCKED (or NOT LOCKED) error.",
  "inputs histories schedules", "every command of both protocols, every state of the addressed object, every interleaving of connections",
  "The tests exercise a handful of commands on a locked object from one second connection; they cannot cover every command, flag and object state.",
  MC, [("lock ownership tests in front of every operation on a cached object", "src/memcache/sockets.cpp"),
       ("locked / locked_by_self / locked_by_other", "src/memcache/object.hpp")], TS)

p("C02", "Locks are recorded, released once, and all released at disconnect",
  "Every lock a connection acquires is recorded until that connection unlocks, replaces-and-unlocks or deletes the object, and a released or "
  "deleted object leaves no record behind. Unlock-all, quit and the end of the connection release every lock the connection still holds, and "
  "two connections never share an owner identity.",
  "inputs histories schedules", "every sequence of lock, unlock, delete and disconnect over any number of keys and connections",
  "Tests lock one or two keys; a lost or stale record only shows on particular commands, errors or descriptor reuse after a disconnect.",
  MC, [("list of held locks", "src/memcache/sockets.hpp"), ("connection destructor", "src/memcache/sockets.cpp")], TS)

p("C03", "Expired or flushed objects are never served",
  "An object whose expiration time has passed, or that an effective flush covers, is never returned, listed, touched, locked, incremented, "
  "appended to or reported as deleted by a client request; a locked object never counts as expired. "
  "An object with no expiration time and no effective flush is never treated as expired.",
  "inputs histories schedules", "every command that addresses an object, every combination of expiration time, flush time, current time and lock",
  "Tests wait for one expiration with a few commands; whether every path of every command asks first is not sampled.",
  MC, [("object::expired and its callers", "src/memcache/object.hpp")], TS + " and decision table of the expiry test")

p("C04", "Conditional stores keep their condition",
  "Add stores only when no live object exists, replace, append, prepend, increment and cas change only a live object, and a request carrying a "
  "CAS value changes or removes an object only if its CAS value equals it. Every refusal or miss states a reason that holds.",
  "inputs histories", "every command, CAS value, object state and request flag",
  "Tests try a few combinations of command, CAS value and object state out of several hundred.",
  MC, [("per-command handlers and creators", "src/memcache/sockets.cpp")], TS)

p("C05", "One honest reply per request",
  "Every request gets exactly one reply in its protocol, or none where it asked for silence; success is reported exactly when the request's own "
  "effect took place and an error exactly when it did not. A quiet binary request that fails is still answered with its error, except for the "
  "documented silent misses.",
  "inputs histories", "every command of both protocols with and without noreply/quiet, on every outcome",
  "A duplicate, missing or wrong reply on a rare path desynchronises a pipelined client; tests read back only the replies they expect.",
  MC + " src/memcache/memcache.hpp src/memcache/memcache.cpp", [("command dispatchers and response classes", "src/memcache/sockets.cpp")], TS)

p("C06", "Every change is replicated under the object's lock",
  "On a master with slaves, every creation, change, touch or removal of an object is sent to every slave, with the object's own key, "
  "before any later change of the same object can be made; removals by expiry, flush or eviction are sent too. "
  "Nothing is sent for a request that changed nothing.",
  "inputs histories schedules", "every command and garbage-collection decision that changes an object, every interleaving of workers",
  "Tests run a single master-slave pair with a few commands; a missing or late message only shows after a failover.",
  MC + " src/memcache/replication.cpp src/memcache/gc.cpp", [("repl_object, repl_touch, repl_delete", "src/memcache/replication.cpp")], TS)

RP = "src/memcache/replication.cpp src/memcache/gc.cpp src/memcache/handler.cpp src/memcache/sockets.cpp src/memcache/memcache.cpp"
p("R01", "Replication messages carry the object and are applied as sent",
  "Every replication message sent to a slave is one well-formed binary request: its header announces exactly the extras, key and data that "
  "follow, and it carries the object's key, flags, expiration time and data. The slave applies every complete message exactly once, in order, "
  "to the key it names - storing the data, flags and expiration time sent, touching, or removing - applies no incomplete message, and discards "
  "exactly the bytes it has applied.",
  "inputs histories", "every object, every key, every way the stream is cut into reads",
  "Tests check that a few values arrive on the slave; a wrong length, offset, or an edge in the stream loses or corrupts other objects.",
  RP, [("repl_object, repl_touch, repl_delete, repl_recv", "src/memcache/replication.cpp"), ("repl_client_socket::on_readable", "src/memcache/sockets.cpp")],
  "path-sensitive dataflow over the message builders (byte-range map of the header) and over the slave's reader, one exploration per opcode")

p("R02", "A new slave receives every object",
  "After a slave has joined and been confirmed, the next garbage collection sends it every object that survives, whole and with its own key, "
  "under the lock of the object's bucket, in a single pass over every bucket. Replication of later changes to that slave starts before that "
  "pass, and a slave is taken off the list of new slaves only when a pass has taken it over.",
  "histories schedules", "any number of objects, slaves and buckets, every interleaving of joins with collections",
  "Tests join one slave to a small cache once; a slave missed by a pass, or an object skipped by it, only shows after a failover.",
  RP, [("gc_thread::gc", "src/memcache/gc.cpp"), ("handler::make_repl_socket, handler::on_master_interval", "src/memcache/handler.cpp")],
  "typestate dataflow over the collector and the slave lists, loop-coverage rules")

p("G01", "Only expired, flushed or, under memory pressure, unlocked objects are collected",
  "Garbage collection removes an object only if it has expired, an effective flush covers it, or memory exceeds the limit; never an object "
  "that is locked. A collection visits every bucket, removes every unlocked object that has expired, "
  "and every unlocked object when a flush has come into effect.",
  "inputs histories", "every object state, flush time, current time and memory use",
  "Tests look at statistics of a small cache after one collection; they do not sample lock state, flush time and pressure together.",
  "src/memcache/gc.cpp src/memcache/gc.hpp src/memcache/object.hpp cybozu/hash_map.hpp",
  [("gc_thread::gc", "src/memcache/gc.cpp")], "path-sensitive typestate dataflow over the collector with an arbitrary object; loop coverage")
p("T04", "Edge-triggered events are never lost",
  "Every handler of a readable event, and every receive job of a worker, returns only after the kernel has answered that no input is left "
  "(EAGAIN), or having asked to be called again, handed the input to a receive job, or given the connection up. Output is buffered only when the "
  "socket answered EAGAIN or earlier output waits, and a writable event writes buffered output until EAGAIN or until none is left; new output "
  "never overtakes waiting output. The reactor calls every resource that asked to be called again, and hands every event the kernel reports to its "
  "handler unless the resource is being removed.",
  "schedules inputs", "every way the kernel may cut input and output into reads, writes and EAGAIN answers",
  "Edge-triggered epoll reports an edge once: a handler that stops early hangs a connection only for particular packet timings.",
  "cybozu/tcp.hpp cybozu/tcp.cpp cybozu/reactor.hpp cybozu/reactor.cpp cybozu/signal.cpp src/memcache/sockets.cpp src/counter/sockets.cpp",
  [("on_readable, on_writable handlers and receive jobs", "src/memcache/sockets.cpp"), ("reactor::poll", "cybozu/reactor.cpp"), ("tcp_socket::_send, _sendv, write_pending_data", "cybozu/tcp.cpp")],
  "path-sensitive typestate dataflow over every event handler and over the output buffers")

p("T01", "Output is sent completely, once and in order",
  "What a connection accepts for sending reaches the kernel as the exact concatenation of the accepted messages: bytes are neither skipped, repeated "
  "nor reordered, however the kernel cuts the transfers and whether they are sent at once or wait in the socket's buffers; a message is not interleaved "
  "with another. Buffers are not overrun, lost or freed twice. Data that wait are sent when the socket becomes writable; a sender that waits for buffer "
  "space is woken up when space is freed or the connection dies. A connection that failed in the middle of a message, or that was to be closed after its "
  "last message, is closed once that is due and not before, and accepts nothing afterwards.",
  "schedules inputs", "every way the kernel may cut the output into partial writes, EINTR and EAGAIN answers, and every amount of waiting data",
  "Lost or repeated bytes appear only for particular partial writes on congested connections, which no unit test produces.",
  "cybozu/tcp.hpp cybozu/tcp.cpp src/memcache/sockets.cpp src/memcache/sockets.hpp src/counter/sockets.cpp",
  [("tcp_socket::_send, _sendv, send, send_close, sendv, sendv_close", "cybozu/tcp.cpp"), ("tcp_socket::write_pending_data, free_buffers, on_invalidate", "cybozu/tcp.cpp")],
  "dataflow over stream positions kept as linear forms (send, write_pending_data), typestate of the queues (sendv), for-each obligations for the buffers")

p("K01", "A connection is handled by one worker at a time",
  "The reactor hands a connection's input to a worker only after it has seen the connection's busy mark clear and has set it, and it sets the mark "
  "only when it hands over. The worker clears the mark exactly once, as its last use of the connection, on every path. Nothing else changes the "
  "mark, and only the reactor hands over.",
  "schedules", "every interleaving of the reactor with any number of workers",
  "Two workers on one connection need a readable event in a window of a few instructions; tests cannot place it there.",
  "src/memcache/sockets.cpp src/memcache/sockets.hpp src/counter/sockets.cpp src/counter/sockets.hpp cybozu/worker.hpp",
  [("on_readable and the receive job", "src/memcache/sockets.cpp"), ("m_busy", "src/memcache/sockets.hpp")],
  "typestate dataflow over hand-over and receive jobs, lockset-style access rule for the busy mark")

p("W01", "Every posted job runs exactly once on an idle worker",
  "A job handed to a worker is run exactly once by that worker's thread, also when it is handed over before the thread has begun to run. Jobs are "
  "given only to a worker that was just seen idle, and never two at once. Every job starts with an empty buffer. After a job the worker becomes idle "
  "again. Stopping a worker always ends with its thread joined, whatever it is doing; the worker thread ends only when it is told to. When the master "
  "shuts down it first invalidates every connection, then stops every worker, then ends every protocol handler.",
  "schedules", "every interleaving of the reactor, the workers and shutdown",
  "A lost or doubled job, or a stop that hangs, needs the reactor to act in a window of a few instructions of the worker loop.",
  "cybozu/worker.hpp cybozu/thread.hpp src/server.cpp src/memcache/sockets.cpp src/counter/sockets.cpp",
  [("worker::run, post_job, stop", "cybozu/worker.hpp"), ("finder, serve_master", "src/server.cpp")],
  "typestate dataflow over the worker loop, job hand-over and shutdown; memory-order table of the flags")

p("R03", "Only the node holding the VIP serves clients",
  "A node enters the master role only when it has just seen that it holds the virtual IP address. Until then it accepts no memcache client and has no "
  "listener for replication or counter clients. A slave looks for the VIP at every interval and leaves slave mode when, and by this check only when, it "
  "holds it. The master looks again at the start of every collection and terminates the process when the VIP is gone, before collecting anything. "
  "Every protocol handler is told of the master role before the master starts to serve.",
  "histories schedules", "every order of failovers, interval ticks and connection attempts",
  "Tests run one node with a fixed role; serving on two nodes at once only shows during a failover.",
  "src/server.cpp src/server.hpp src/memcache/handler.cpp src/memcache/gc.cpp src/counter/handler.cpp",
  [("server::serve, serve_slave, serve_master", "src/server.cpp"), ("gc_thread::run", "src/memcache/gc.cpp"),
   ("handler::make_memcache_socket, on_master_start", "src/memcache/handler.cpp")],
  "typestate dataflow over role changes; call-graph reachability of listeners; field-write ownership")

p("R04", "A slave follows one live master connection at a time",
  "Before a slave starts to receive from a master it has dropped every object it held. Whenever the connection to the master is lost - closed or reset by "
  "the peer, hung up, in error, or failing to take a heartbeat - the slave leaves slave mode: the reactor loop ends, without another interval callback, "
  "every protocol handler is told, and the dead connection is removed from the reactor exactly once. The loop does not end unless it is told to.",
  "histories faults", "every way and moment a connection can fail",
  "Tests never run a slave; a slave stuck with a dead connection, or mixing the data of two masters, only shows when a failover is needed.",
  "src/server.cpp src/memcache/handler.cpp src/memcache/sockets.cpp src/memcache/sockets.hpp cybozu/reactor.cpp cybozu/reactor.hpp",
  [("handler::on_slave_start, on_slave_end", "src/memcache/handler.cpp"), ("repl_client_socket", "src/memcache/sockets.cpp"),
   ("reactor::run", "cybozu/reactor.cpp")],
  "typestate dataflow over the slave's connection and the reactor loop; loop-coverage rules")

p("T02", "Descriptors are released exactly once",
  "Every descriptor the server opens is closed exactly once or kept by exactly one owner that closes it. A connection whose peer closes or resets it is "
  "invalidated. Exactly one thread wins the invalidation of a resource; the winner calls its cleanup once and sees that the reactor removes it, once: a "
  "handler by its answer, any other thread by a request that is queued under a lock and served once. Removal takes the resource out of the polled "
  "set, the map and the list of readable resources before its descriptor is closed, and keeps the object for later destruction. A descriptor is closed "
  "only while no worker can be using it. A connection the server refuses to accept is closed; one it accepts is not.",
  "schedules faults histories", "every order of events, failures and invalidations by the reactor and the workers",
  "A leaked or doubly closed descriptor shows only after many connections, or when another connection is given the same number.",
  "cybozu/reactor.hpp cybozu/reactor.cpp cybozu/tcp.hpp cybozu/tcp.cpp cybozu/worker.hpp src/tempfile.hpp src/memcache/sockets.cpp src/memcache/handler.cpp "
  "src/memcache/object.hpp src/memcache/object.cpp src/counter/sockets.cpp",
  [("resource", "cybozu/reactor.hpp"), ("reactor::poll, remove_resource", "cybozu/reactor.cpp"), ("tcp_server_socket::on_readable, tcp_connect", "cybozu/tcp.cpp")],
  "typestate dataflow over descriptors, resources and the reactor loop; lockset rules; ownership of members")

p("T03", "Connections are destroyed only when nobody can use them",
  "A removed connection is destroyed only after every worker has been seen idle since it was set aside, and while no GC thread and no newly joined "
  "slave can refer to it. A synchronisation request learns that a worker is idle only by seeing it idle, is served as soon as, and only when, all "
  "workers were seen idle, and is served once. Connections are set aside only when no earlier request is waiting and every protocol handler is ready, "
  "after the master has dropped invalid slaves from its list, and destruction is always requested once they are set aside. Only connections set aside "
  "are destroyed.",
  "schedules histories", "every interleaving of workers, GC thread, slaves joining and leaving, and the reactor's interval processing",
  "A use after destruction needs a connection to vanish while a worker or the GC thread holds a pointer to it.",
  "src/sync.hpp src/server.cpp src/memcache/handler.cpp cybozu/reactor.hpp cybozu/reactor.cpp",
  [("syncer, sync_request", "src/sync.hpp"), ("server::reactor_gc_ready, serve_master", "src/server.cpp"), ("handler::on_master_interval", "src/memcache/handler.cpp"),
   ("reactor::fix_garbage, gc", "cybozu/reactor.hpp")],
  "typestate dataflow over requests, flags and garbage lists; loop-coverage rules; caller ownership")

p("D01", "Objects hold exactly the data written to them",
  "Storing, replacing, appending, prepending, incrementing and decrementing leave an object with exactly the bytes, length, flags and expiration time "
  "the operation defines, and with a new unique id; reading gives exactly those bytes. Increments are modulo 2^64, decrements stop at 0, and an object that is "
  "not a number, or is kept in a file, is refused unchanged. Data above the heap limit are kept in a temporary file, others in memory; short reads and "
  "writes lose, repeat or reorder nothing. Temporary files are unlinked at once. Byte buffers keep their content, size and capacity consistent and release "
  "every memory block exactly once. An object that is read or changed is young again for eviction.",
  "inputs faults", "every size, limit, order of operations and short transfer",
  "Short reads and writes, and appends or prepends that cross the heap limit in either direction, do not occur in the tests.",
  "src/memcache/object.cpp src/memcache/object.hpp src/tempfile.cpp src/tempfile.hpp cybozu/dynbuf.hpp",
  [("object::set, append, prepend, incr, decr, data", "src/memcache/object.cpp"), ("tempfile", "src/tempfile.cpp"), ("dynbuf", "cybozu/dynbuf.hpp")],
  "content-tracking dataflow with linear relations between lengths, offsets and pointers")

p("S03", "With secure_erase, removed object data do not stay in memory",
  "When secure_erase is enabled, every buffer that holds object data overwrites with zeroes, in a way the compiler must keep, every byte that leaves its "
  "content, before the memory is released, reused or left behind: when data are replaced, shortened, moved to a larger block or to a file, and when the "
  "object is destroyed. Buffers that receive moved data keep erasing.",
  "inputs histories", "every size and order of operations on an object's buffer",
  "Tests can not see memory that was released; a missing erase changes no reply.",
  "cybozu/dynbuf.hpp cybozu/util.cpp cybozu/util.hpp src/memcache/object.cpp",
  [("dynbuf", "cybozu/dynbuf.hpp"), ("clear_memory", "cybozu/util.cpp"), ("object::set, append, prepend", "src/memcache/object.cpp")],
  "dirty-range dataflow over memory blocks with linear bounds; flag-argument dataflow at every buffer of an object")

p("H01", "The hash map finds, inserts and removes exactly the addressed object",
  "A bucket holds at most one object per key. An operation on a key compares it with every stored key until an equal one is found; keys are equal exactly "
  "when length and all bytes are. Handling calls the handler once with that object and returns its result; creation happens only when no stored key equals "
  "the given one, gives the creator the stored copy of the key, links the new item and keeps all others; removal unlinks and frees exactly the object "
  "found (remove_if: only if the predicate says so) and reports whether it existed; garbage collection and iteration visit every object exactly once and "
  "remove exactly those the predicate selects; clearing removes all. No operation reads, hands out or frees an item twice or after it was freed, or leaks one. "
  "All operations except the explicitly unlocked ones hold the bucket's lock throughout, and no worker or GC thread reaches an unlocked one. The "
  "bucket of a key depends only on its hash, which depends only on its bytes.",
  "inputs schedules", "every bucket of up to three items, every position of the key, every outcome of callbacks; all callers",
  "Collisions inside a bucket, and concurrent operations on one bucket, hardly occur in tests.",
  "cybozu/hash_map.hpp cybozu/hash_map.cpp",
  [("hash_map<T>::bucket", "cybozu/hash_map.hpp"), ("hash_key, operator==", "cybozu/hash_map.hpp"), ("hash_map<T>::get_bucket", "cybozu/hash_map.hpp")],
  "shape-tracking typestate dataflow over list operations; lockset rule; call-graph reachability of unlocked operations")

p("N01", "Counters account for every resource",
  "In the counter protocol, Acquire of R up to M succeeds exactly when the counter's consumption plus R does not exceed M, then adds exactly R and remembers R "
  "for the connection under that counter (creating the counter with consumption R if missing), and otherwise changes nothing and answers resource-not-available. "
  "Release of R>0 succeeds exactly when this connection still holds at least R of the counter, then subtracts exactly R from both; otherwise it changes nothing and answers not-acquired, or not-found "
  "for a missing counter. Get and Dump report the current consumption (Dump also the maximum of the current interval, which restarts at each boundary) of the named / of every counter and "
  "change nothing. No computation on counts wraps around 32 bits. Each request gets exactly one final response; invalid and unknown requests get their error and change nothing. "
  "When a connection ends, each counter it still holds gets back exactly what the connection holds, once. Garbage collection removes a counter only "
  "while its consumption is zero and it was not used in the current interval, so never one that a connection holds.",
  "inputs schedules histories", "every counter command, every state of counter and connection (symbolic 32-bit values), every close path",
  "Limits near 2^32, disconnects with resources held and interval boundaries are not covered by tests.",
  "src/counter/object.hpp src/counter/sockets.cpp src/counter/sockets.hpp src/counter/gc.cpp",
  [("object::acquire/release", "src/counter/object.hpp"), ("counter_socket::cmd_acquire/cmd_release, on_acquire/on_release, release_all", "src/counter/sockets.cpp"), ("gc_thread::run", "src/counter/gc.cpp")],
  "path-sensitive typestate dataflow with affine relations (exact effects on consumption and the connection's books; 32-bit wrap obligations)")

p("P01", "Binary requests of both protocols are decoded exactly",
  "A binary memcache or counter request is complete exactly when its header (24 or 12 bytes) and the body length it announces have been received, and is that long. "
  "Only received bytes are read, no length computation wraps, and every field comes from its documented offset in network byte order. A memcache request is accepted exactly when "
  "key length is at most 250, extras and key fit the body, the data is at most 30 MiB, and extras, key and data have the form its opcode requires; otherwise it is refused as invalid, as too large or "
  "(unassigned opcodes) as unknown. Exactly the quiet opcodes are quiet. Key, extras, data, flags, CAS, opaque and delta are the ones sent; expiration time 0 means none, above 30 days absolute, "
  "otherwise relative to now (0xffffffff in increments: no creation). A counter request is accepted exactly when the magic is 0x90, "
  "its name is not empty and inside the body, and (Acquire) 1 <= resources <= maximum.",
  "inputs", "every opcode (256 + 256), every received length and every value of every header and body field (symbolic)",
  "Parsers are tested with a few well-formed requests; an over-read, a missing check or a wrapped length needs a specific malformed one.",
  "src/memcache/memcache.cpp src/memcache/memcache.hpp src/counter/counter.cpp src/counter/counter.hpp cybozu/util.hpp",
  [("binary_request", "src/memcache/memcache.cpp"), ("counter::request", "src/counter/counter.cpp"), ("ntoh/hton", "cybozu/util.hpp")],
  "path-sensitive abstract interpretation of the parser per opcode: received bytes as symbolic fields, linear bounds obligations at every read, decoded fields compared with the protocol's field table")

p("P02", "Text requests are decoded exactly",
  "A text request line ends with CR LF; a line without LF is incomplete, a line that ends with a bare LF is malformed. Words are separated by one or more blanks, with optional "
  "blanks at both ends. set, add, replace, append and prepend take key, flags (32 bit), exptime and size (32 bit), cas also a 64-bit CAS; touch takes key and exptime, delete, lock and unlock a key, "
  "incr and decr key and a 64-bit delta, get and gets one or more keys, flush_all an optional delay, stats and keys an optional word, verbosity a level; where the protocol allows it "
  "noreply may come last, and nothing else. Numbers consist of digits only, end with the word and fit their type. A storage request is complete exactly when size bytes and their CR LF "
  "have been received, and is accepted exactly when CR LF follows the data. Well-formed requests are accepted with the arguments taken from their places (expiration time 0 none, above 30 days "
  "absolute, else relative to now), all others are refused; the length consumed is the line and, for complete storage requests, the data block. Only received bytes are read.",
  "inputs", "22 commands and misspelled ones; lines of every explored shape (blanks, missing, surplus and malformed words, noreply, line ends, data blocks) with keys, numbers and data of every length and value",
  "A misplaced pointer in the parser shows only for particular spacings or lengths; an over-read needs data cut at a particular byte.",
  "src/memcache/memcache.cpp src/memcache/memcache.hpp", [("text_request", "src/memcache/memcache.cpp"), ("text_request::next_key", "src/memcache/memcache.hpp")],
  "abstract interpretation of the parser over request lines laid out as words of symbolic length and value; accessor results compared with the grammar, bounds obligations at every read")

p("P03", "Nothing beyond the size limits is ever stored",
  "No command of either protocol creates an object under a key longer than 250 bytes, and none makes the data of an object longer than the configured max_data_size, whether it creates it, replaces its data "
  "(set, add, replace, cas, RaU) or extends it (append, prepend). Exactly the requests that would do so are refused for their size: binary ones with TooLargeValue (keys: invalid), text ones with an error, "
  "and the object stays as it was.",
  "inputs", "all 22 text and 60 binary commands, every length of key, data and stored object (symbolic), every path through handler and hash table",
  "Tests store a few short values; a missing limit on one command shows only near the limit of that command, and objects beyond it are lost on slaves.",
  "src/memcache/sockets.cpp src/memcache/memcache.cpp src/config.hpp src/constants.hpp",
  [("memcache_socket::cmd_text", "src/memcache/sockets.cpp"), ("memcache_socket::cmd_bin", "src/memcache/sockets.cpp"), ("binary_request", "src/memcache/memcache.cpp")],
  "path-sensitive dataflow over every command with linear facts: at each creation, replacement or growth of an object the path must entail the bounds, at each refusal their violation; key bound of binary requests from the parser's length obligations")

p("F01", "Every complete request received is executed once, in order; the rest is kept",
  "A connection's input is one sequence of bytes, however it is cut into pieces by the network and by the jobs that receive it. Requests are read right behind each other from all bytes received so far: each one that is "
  "complete is executed exactly once, in the order received, none is executed before it is complete, the protocol of each is chosen by its own first byte; when there is nothing more to receive no complete request is left over and exactly the bytes "
  "not executed are kept, in order, for the next job. Only closed connections and those with more than 30 MiB of an incomplete request are given up.",
  "inputs", "every sequence of receive results and sizes, every number and length of requests per receive, every amount left over by the job before (symbolic), both receive jobs (memcache, counter)",
  "Tests send one whole request per packet; requests split or joined across receives and jobs come in unboundedly many shapes.",
  "src/memcache/sockets.cpp src/counter/sockets.cpp cybozu/dynbuf.hpp",
  [("memcache_socket::m_recvjob", "src/memcache/sockets.cpp"), ("counter_socket::m_recvjob", "src/counter/sockets.cpp")],
  "path-sensitive dataflow with linear ghosts for the stream positions executed/received and each buffer's extent, affine loop invariants; obligations at every parse, execution, erase, append, give-up and exit")

p("P04", "Every response is framed exactly and carries the addressed data",
  "Every binary response starts with the response header: magic 0x81 (counter 0x91), the opcode and opaque of the request (also for unknown opcodes), the "
  "status, key, extras and total body lengths that equal what follows, and CAS; a get response carries the flags, the key if asked for, and all data of the addressed object, "
  "stores and arithmetic its unique id after the operation (and the number), key listings the key. Error responses carry their own status code and message. Text responses are the documented lines: "
  "VALUE with key, flags, size (and unique id) and data, or the keyword of the outcome, with CRLF and without extra bytes. Counter responses carry the consumption, resources or listing "
  "of the named counter. The last response of a command is flushed, quit closes the connection after what was sent. Statistics use the same names in both "
  "memcache protocols, each with its own counter, every operation counted under its own name, and end with END, or an empty success response.",
  "inputs", "every response and every command path that sends one, for symbolic sizes, values and keys",
  "The existing client library in the tests ignores most of the header, all statistics values and the end of responses.",
  "src/memcache/memcache.cpp src/memcache/memcache.hpp src/counter/counter.cpp src/memcache/sockets.cpp src/counter/sockets.cpp",
  [("text_response", "src/memcache/memcache.cpp"), ("binary_response", "src/memcache/memcache.cpp"), ("counter::response", "src/counter/counter.cpp"), ("memcache_socket::cmd_bin/cmd_text", "src/memcache/sockets.cpp")],
  "byte-layout reconstruction of every sent message by symbolic dataflow, compared with the protocol's field table; table agreement of statistics; path-sensitive dataflow of reply arguments in command handlers")

na("X01", "Concurrent commands are linearizable",
  "Every history of commands issued over any number of connections is equivalent to one in which the commands take effect one after another, each between its request and its response.",
  "histories schedules", "all histories over several connections",
  "Tests run one history at a time.",
  "src/memcache/sockets.cpp cybozu/hash_map.hpp",
  "A statement about whole histories; the static ingredients (one critical section per command under the lock of its bucket, conditions and effects inside it, replies after it) are decided as H01, C01-C06 and K01, "
  "but composing them into a linearization argument is a proof obligation over runs, not a property of constructs of the source.")

na("X02", "Slaves converge to the master's content",
  "After the last change and with no further faults, every connected slave eventually holds exactly the master's live objects.",
  "histories schedules", "all histories of changes, garbage collections and slave connections",
  "Tests look at single messages.",
  "src/memcache/replication.cpp src/memcache/handler.cpp src/memcache/gc.cpp",
  "Liveness of a distributed run: delivery, timing and buffer space of the network are runtime quantities. Its static parts (each change announced under the bucket lock, messages well formed, applied as sent, "
  "initial copy complete, order of the sends kept) are C06, R01, R02 and T01.")

na("X03", "Memory stays within the configured limit",
  "The memory used for objects stays close to memory_limit, evicting old objects first.",
  "inputs histories", "all workloads",
  "A test cannot cover all allocation patterns.",
  "src/memcache/gc.cpp src/memcache/object.hpp",
  "Depends on what the allocator really uses and on when collections run; no static bound is in reach. That eviction happens only under pressure and never takes locked objects is G01.")

na("X04", "Fail-over happens in bounded time",
  "A slave that becomes the holder of the virtual IP address serves clients within a bounded time; a dead master is noticed within the heartbeat interval.",
  "schedules", "all timings of faults",
  "Tests cannot provoke every timing.",
  "src/server.cpp src/memcache/handler.cpp",
  "A real-time bound over the scheduler, the kernel and the network. What the server does at each of these events is decided in R03, R04 and W01.")

na("X05", "Hashing spreads keys evenly and resists collisions",
  "Keys chosen without knowledge of the seed are spread evenly over the buckets.",
  "inputs", "all key sets",
  "Statistical.",
  "cybozu/siphash.hpp cybozu/siphash.cpp cybozu/hash_map.hpp",
  "A statistical statement about the numerical behaviour of SipHash. That every operation on a key uses the same bucket, chosen from the key's hash and below the table's size, is H01.")
