"""(name, [(file, old, new)], {"catch": [...], "quiet": "all" | [...]})
The first occurrence semantics is str.replace over the whole file: keep `old` unique when one site is meant."""
S = "src/memcache/sockets.cpp"
CASES = []


def bad(name, catch, *edits):
    CASES.append((name, list(edits), {"catch": catch.split()}))


def ok(name, *edits, quiet="all"):
    CASES.append((name, list(edits), {"quiet": quiet}))


# ---- memcache handlers
bad("C01-append-no-lock-check", "C01",
    (S, '''    case text_command::APPEND:
        std::tie(p, len) = cmd.key();
        h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
            if( obj.locked_by_other() ) {''', '''    case text_command::APPEND:
        std::tie(p, len) = cmd.key();
        h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
            if( obj.locked_by_other() && obj.size() > 100 ) {'''))
bad("C01-rau-any-lock", "C01", (S, '''            if( ! obj.locked_by_self() ) {
                r.error( binary_status::NotLocked );
                return true;
            }
            if( cmd.cas''', '''            if( ! obj.locked() ) {
                r.error( binary_status::NotLocked );
                return true;
            }
            if( cmd.cas'''))
bad("C01-lock-if-unexpired-only", "C01", (S, '''            if( obj.expired() ) return false;
            if( obj.locked() ) {
                r.locked();''', '''            if( obj.expired() ) return false;
            if( obj.locked_by_self() ) {
                r.locked();'''))
bad("C02-lag-no-record", "C02", (S, '''                obj.lock();
                add_lock(k);
            }''', '''                obj.lock();
                if( ! cmd.quiet() )
                    add_lock(k);
            }'''))
bad("C02-delete-keeps-entry", "C02", (S, '''            if( obj.locked_by_self() )
                remove_lock(k);
            if( ! cmd.no_reply() )
                r.deleted();''', '''            if( ! cmd.no_reply() ) {
                if( obj.locked_by_self() )
                    remove_lock(k);
                r.deleted();
            }'''))
bad("C03-get-expired", "C03", (S, '''        h = [&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
            if( obj.expired() ) return false;''', '''        h = [&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
            if( cmd.command() == text_command::GET && obj.expired() ) return false;'''))
bad("C04-add-overwrites", "C04", (S, '''            } else if( cmd.command() == binary_command::Add ||
                       cmd.command() == binary_command::AddQ ) {''', '''            } else if( cmd.command() == binary_command::Add ) {'''))
bad("C04-cas-skip-zero", "C04", (S, '''            if( obj.cas_unique() != cmd.cas_unique() ) {
                if( ! cmd.no_reply() )
                    r.exists();''', '''            if( cmd.cas_unique() != 0 && obj.cas_unique() != cmd.cas_unique() ) {
                if( ! cmd.no_reply() )
                    r.exists();'''))
bad("C04-binset-cas-creates", "C04", (S, '''            cmd.command() != binary_command::ReplaceQ &&
            cmd.cas_unique() == 0 ) {''', '''            cmd.command() != binary_command::ReplaceQ ) {'''))
bad("C05-noreply-touch", "C05", (S, '''            if( ! cmd.no_reply() )
                r.touched();''', '''            r.touched();'''))
bad("C05-double-reply", "C05", (S, '''            obj.touch( cmd.exptime() );
            if( ! m_slaves.empty() )
                repl_touch(m_slaves, k, obj);
            r.set( obj.cas_unique() );
            return true;''', '''            obj.touch( cmd.exptime() );
            if( ! m_slaves.empty() )
                repl_touch(m_slaves, k, obj);
            r.set( obj.cas_unique() );
            return cmd.exptime() != 0;'''))
bad("C05-silent-badval", "C05", (S, '''            } catch( const object::not_a_number& ) {
                r.error( binary_status::NonNumeric );
            }
            return true;
        };
        if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
            c = [this,&cmd,&r](const cybozu::hash_key& k) -> object {
                object o(cmd.initial(), cmd.exptime());
                if( ! cmd.quiet() )
                    r.incdec( cmd.initial(), o.cas_unique() );
                if( ! m_slaves.empty() )
                    repl_object(m_slaves, k, o);
                return o;
            };
        }
        if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) )
            r.error( binary_status::NotFound );
        break;
    case binary_command::Decrement:''', '''            } catch( const object::not_a_number& ) {
                if( ! cmd.quiet() )
                    r.error( binary_status::NonNumeric );
            }
            return true;
        };
        if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
            c = [this,&cmd,&r](const cybozu::hash_key& k) -> object {
                object o(cmd.initial(), cmd.exptime());
                if( ! cmd.quiet() )
                    r.incdec( cmd.initial(), o.cas_unique() );
                if( ! m_slaves.empty() )
                    repl_object(m_slaves, k, o);
                return o;
            };
        }
        if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) )
            r.error( binary_status::NotFound );
        break;
    case binary_command::Decrement:'''))
bad("C06-incr-quiet-not-replicated", "C06", (S, '''                std::uint64_t n = obj.incr( cmd.value() );
                if( ! cmd.no_reply() ) {
                    char buf[24];
                    int numlen = snprintf(buf, sizeof(buf), "%llu\\x0d\\x0a",
                                          (unsigned long long)n);
                    r.send(buf, numlen, true);
                }
                if( ! m_slaves.empty() )''', '''                std::uint64_t n = obj.incr( cmd.value() );
                if( ! cmd.no_reply() ) {
                    char buf[24];
                    int numlen = snprintf(buf, sizeof(buf), "%llu\\x0d\\x0a",
                                          (unsigned long long)n);
                    r.send(buf, numlen, true);
                }
                if( n != cmd.value() && ! m_slaves.empty() )'''))
bad("C06-rau-before-set", "C06", (S, '''            obj.set(p2, len2, cmd.flags(), cmd.exptime());
            obj.unlock();
            remove_lock(k);
            if( ! cmd.quiet() )
                r.set( obj.cas_unique() );
            if( ! m_slaves.empty() )
                repl_object(m_slaves, k, obj);
            return true;''', '''            if( ! m_slaves.empty() )
                repl_object(m_slaves, k, obj);
            obj.set(p2, len2, cmd.flags(), cmd.exptime());
            obj.unlock();
            remove_lock(k);
            if( ! cmd.quiet() )
                r.set( obj.cas_unique() );
            return true;'''))
bad("C06-touch-after-unlock", "C06", (S, '''        h = [this,&cmd](const cybozu::hash_key& k, object& obj) -> bool {
            if( obj.expired() ) return false;
            obj.touch( cmd.exptime() );
            if( ! m_slaves.empty() )
                repl_touch(m_slaves, k, obj);
            return true;
        };
        if( m_hash.apply(cybozu::hash_key(p, len), h, c) ) {''', '''        h = [this,&cmd](const cybozu::hash_key& k, object& obj) -> bool {
            if( obj.expired() ) return false;
            obj.touch( cmd.exptime() );
            return true;
        };
        if( m_hash.apply(cybozu::hash_key(p, len), h, c) ) {'''))

# ---- behaviour-preserving edits
HP = "src/memcache/sockets.hpp"
ok("R-helper-replicate", (HP, '''    void unlock_all() {''', '''    void replicate(const cybozu::hash_key& k, const object& obj);
    bool refused(const memcache::text_request& cmd, const object& obj);

    void unlock_all() {'''), (S, '''void memcache_socket::cmd_text(const''', '''void memcache_socket::replicate(const cybozu::hash_key& k, const object& obj) {
    if( m_slaves.empty() ) return;
    repl_object(m_slaves, k, obj);
}

void memcache_socket::cmd_text(const'''), (S, '''            if( ! m_slaves.empty() )
                repl_object(m_slaves, k, obj);
            return true;''', '''            replicate(k, obj);
            return true;'''))
ok("R-no-slaves-test", (S, '''            if( ! m_slaves.empty() )
                repl_object(m_slaves, k, obj);''', '''            if( m_slaves.size() > 0 )
                repl_object(m_slaves, k, obj);'''))
ok("R-reorder-reply-repl", (S, '''            if( ! cmd.no_reply() )
                r.stored();
            if( ! m_slaves.empty() )
                repl_object(m_slaves, k, obj);
            return true;''', '''            if( ! m_slaves.empty() )
                repl_object(m_slaves, k, obj);
            if( ! cmd.no_reply() )
                r.stored();
            return true;'''))
ok("R-locked-expanded", (S, '''            if( obj.locked_by_other() ) {
                if( ! cmd.no_reply() )
                    r.locked();
                return true;
            }''', '''            bool mine = obj.locked_by_self();
            if( obj.locked() && ! mine ) {
                if( cmd.no_reply() )
                    return true;
                r.locked();
                return true;
            }'''))
ok("R-unlock-all-index", (HP, '''        for( auto& ref: m_locks ) {
            m_hash.apply(ref.get(),''', '''        for( std::size_t i = 0; i < m_locks.size(); ++i ) {
            auto& ref = m_locks[i];
            m_hash.apply(ref.get(),'''))
ok("R-expired-shape", ("src/memcache/object.hpp", '''        if( locked() ) return false;
        std::time_t t = g_stats.flush_time.load(std::memory_order_relaxed);
        std::time_t now = g_current_time.load(std::memory_order_relaxed);
        if( t != 0 && t <= now ) return true;
        if( m_exptime == 0 ) return false;
        return m_exptime <= now;''', '''        const std::time_t now = g_current_time.load(std::memory_order_relaxed);
        const std::time_t t = g_stats.flush_time.load(std::memory_order_relaxed);
        const bool flushed = ( t != 0 && ! (now < t) );
        const bool past = ( m_exptime != 0 && ! (now < m_exptime) );
        return (flushed || past) && ! locked();'''))

# ---- workers
WK, SV, MH, RE = "cybozu/worker.hpp", "src/server.cpp", "src/memcache/handler.cpp", "cybozu/reactor.cpp"
bad("W01-flag-before-job", "W01", (WK, '''        m_job = job_;
        m_running.store(true, std::memory_order_release);''', '''        m_running.store(true, std::memory_order_release);
        m_job = job_;'''))
bad("W01-relaxed", "W01", (WK, '''        m_job = job_;
        m_running.store(true, std::memory_order_release);''', '''        m_job = job_;
        m_running.store(true, std::memory_order_relaxed);'''))
bad("W01-idle-first", "W01", (WK, '''            m_job(m_buffer);
            m_buffer.reset();
''', '''            m_running.store(false, std::memory_order_release);
            m_job(m_buffer);
            m_buffer.reset();
'''))
bad("W01-lost-before-start", "W01", (WK, '''            std::uint64_t i;
            ssize_t n = ::read''', '''            m_running.store(false, std::memory_order_release);
            std::uint64_t i;
            ssize_t n = ::read'''))
bad("W01-no-reset", "W01", (WK, "            m_buffer.reset();\n", "            if( m_buffer.size() > 65536 ) m_buffer.reset();\n"))
bad("W01-stop-hang", "W01", (WK, '''            while( ! m_running.load(std::memory_order_acquire) &&
                   ! m_exit.load(std::memory_order_acquire) );''', '''            while( ! m_running.load(std::memory_order_acquire) );'''))
bad("W01-exit-late", "W01", (WK, '''        m_exit.store(true, std::memory_order_release);
        m_running.store(true, std::memory_order_release);
        notify();''', '''        m_running.store(true, std::memory_order_release);
        notify();
        m_exit.store(true, std::memory_order_release);'''))
bad("W01-finder-any", "W01", (SV, '''            if( ! pw->is_running() )
                return pw;
        }
        return nullptr;''', '''            if( ! pw->is_running() )
                return pw;
        }
        return m_workers[m_worker_index].get();'''))
bad("W01-unchecked-worker", "W01", ("src/counter/sockets.cpp", '''    if( w == nullptr ) {''', '''    if( w == nullptr && false ) {'''))
bad("W01-stop-order", "W01", (SV, '''        m_reactor.invalidate();
        for( auto& w: m_workers )
            w->stop();''', '''        for( auto& w: m_workers )
            w->stop();
        m_reactor.invalidate();'''))
bad("W01-stop-some", "W01", (SV, '''        for( auto& w: m_workers )
            w->stop();''', '''        for( auto& w: m_workers ) {
            if( ! w->is_running() )
                w->stop();
        }'''))
ok("ok-worker-loop", (WK, '''            while( ! m_running.load(std::memory_order_acquire) &&
                   ! m_exit.load(std::memory_order_acquire) );

            if( m_exit.load(std::memory_order_acquire) ) return;

            m_job(m_buffer);
            m_buffer.reset();
''', '''            for( ;; ) {
                if( m_exit.load(std::memory_order_acquire) ) return;
                if( is_running() ) break;
            }

            m_buffer.reset();
            m_job(m_buffer);
            m_buffer.reset();
'''))
ok("ok-finder-loop", (SV, '''        std::size_t n_workers = m_workers.size();
        for( std::size_t i = 0; i < n_workers; ++i ) {
            cybozu::worker* pw = m_workers[m_worker_index].get();
            m_worker_index = (m_worker_index + 1) % n_workers;
            if( ! pw->is_running() )
                return pw;
        }
        return nullptr;''', '''        cybozu::worker* found = nullptr;
        for( auto& pw: m_workers ) {
            if( pw->is_running() ) continue;
            found = pw.get();
            break;
        }
        return found;'''))
ok("ok-shutdown", (SV, '''        for( auto& w: m_workers )
            w->stop();
        for( auto& handler: m_handlers )
            handler->on_master_end();''', '''        std::for_each(m_workers.begin(), m_workers.end(), [](std::unique_ptr<cybozu::worker>& w) { w->stop(); });
        for( std::size_t i = 0; i < m_handlers.size(); ++i )
            m_handlers[i]->on_master_end();'''))

# ---- roles
bad("R03-master-after-sleep", "R03", (SV, '''            if( is_master() )
                goto MASTER_ENTRY;
            std::this_thread::sleep_for( std::chrono::milliseconds(100) );''', '''            bool held = is_master();
            std::this_thread::sleep_for( std::chrono::milliseconds(100) );
            if( held )
                goto MASTER_ENTRY;'''))
bad("R03-master-by-default", "R03", (SV, '''        cybozu::logger::warning() << "Could not promote''', '''        if( m_reactor.size() < 2 ) break;
        cybozu::logger::warning() << "Could not promote'''))
bad("R03-gc-first", "R03", ("src/memcache/gc.cpp", '''    if( ! cybozu::has_ip_address(g_config.vip()) ) {''', '''    if( ! m_new_slaves.empty() && ! cybozu::has_ip_address(g_config.vip()) ) {'''))
bad("R03-accept-as-slave", "R03", (MH, '''    if( m_is_slave )
        return nullptr;
''', '''    if( m_is_slave && ! m_slaves.empty() )
        return nullptr;
'''))
bad("R03-master-on-slave-end", "R03", (MH, '''void handler::on_slave_end() {
''', '''void handler::on_slave_end() {
    m_is_slave = false;
'''))
bad("R03-no-promotion", "R03", (SV, '''            if( is_master() ) {
                cybozu''', '''            if( m_handlers.size() > 1 && is_master() ) {
                cybozu'''))
bad("R04-clear-later", "R04", (MH, '''    clear();

    m_repl_client_socket = new repl_client_socket(fd, m_hash);
    m_reactor.add_resource(std::unique_ptr<cybozu::resource>(m_repl_client_socket),
                           cybozu::reactor::EVENT_IN|cybozu::reactor::EVENT_OUT );
''', '''    m_repl_client_socket = new repl_client_socket(fd, m_hash);
    m_reactor.add_resource(std::unique_ptr<cybozu::resource>(m_repl_client_socket),
                           cybozu::reactor::EVENT_IN|cybozu::reactor::EVENT_OUT );
    clear();
'''))
bad("R04-clear-once", "R04", (MH, '''    clear();

    m_repl''', '''    if( m_repl_client_socket == nullptr ) clear();

    m_repl'''))
bad("R04-no-quit", "R04", ("src/memcache/sockets.hpp", "m_reactor->quit();", ";"))
bad("R04-callback-after-quit", "R04", (RE, "        if( ! m_running ) break;\n", ""))
bad("R04-kept", "R04", (MH, '''    if( m_repl_client_socket->valid() )
        m_reactor''', '''    if( m_repl_client_socket->valid() && m_gc_thread.get() != nullptr )
        m_reactor'''))
ok("ok-slave-start", (MH, '''    for( auto& bucket: m_hash )
        bucket.clear_nolock();''', '''    for( auto it = m_hash.begin(); it != m_hash.end(); ++it )
        it->clear_nolock();'''), (RE, '''    while( m_running ) {
        poll();
        if( ! m_running ) break;
        auto now = crn::steady_clock::now();
        auto diff = crn::duration_cast<crn::milliseconds>(now - last).count();
        if( diff > milli_interval ) {
            callback(*this);
            last = now;
        }
    }''', '''    for( poll(); m_running; poll() ) {
        auto now = crn::steady_clock::now();
        if( crn::duration_cast<crn::milliseconds>(now - last).count() <= milli_interval )
            continue;
        callback(*this);
        last = now;
        if( ! m_running ) return;
    }'''))
ok("ok-role-loop", (SV, '''    if( is_master() )
        goto MASTER_ENTRY;
    while( true ) {
        serve_slave();''', '''    bool master = is_master();
    if( master )
        goto MASTER_ENTRY;
    for( ;; ) {
        serve_slave();'''), (SV, '''        for( int i = 0; i < MASTER_CHECKS; ++i ) {
            if( is_master() )
                goto MASTER_ENTRY;''', '''        int i = 0;
        while( i++ < MASTER_CHECKS ) {
            if( ! is_master() ) {
                std::this_thread::sleep_for( std::chrono::milliseconds(50) );
                continue;
            } else
                goto MASTER_ENTRY;'''))

# ---- T02
RC = "cybozu/reactor.cpp"
TC = "cybozu/tcp.cpp"
bad("t02-drop-queue-unlocked", "T02", (RC, '''        lock_guard g(m_lock);
        m_drop_req_copy.swap(m_drop_req);''', '''        m_drop_req_copy.swap(m_drop_req);'''))
bad("t02-hup-kept", "T02", (RC, '''            if( ! r.on_hangup(fd) ) {
                remove_resource(fd);
                continue;
            }''', '''            if( ! r.on_hangup(fd) )
                continue;'''))
bad("t02-hup-then-read", "T02", (RC, '''            if( ! r.on_hangup(fd) ) {
                remove_resource(fd);
                continue;
            }''', '''            if( ! r.on_hangup(fd) )
                remove_resource(fd);'''))
bad("t04-list-cleared-late", "T04", (RC, '''    m_readables.clear();
    for( int fd: m_readables_copy ) {
        if( ! m_resources[fd]->on_readable(fd) )
            remove_resource(fd);
    }
    m_readables_copy.clear();''', '''    for( int fd: m_readables_copy ) {
        if( ! m_resources[fd]->on_readable(fd) )
            remove_resource(fd);
    }
    m_readables.clear();
    m_readables_copy.clear();'''))
bad("t04-out-only-without-in", "T04", (RC, '''        if( ev.events & EPOLLOUT ) {
            if( ! r.on_writable(fd) )''', '''        else if( ev.events & EPOLLOUT ) {
            if( ! r.on_writable(fd) )'''))
bad("t02-accept-refused-leak", "T02", (TC, '''            if( t.get() == nullptr ) {
                ::close(s);
            } else {''', '''            if( t.get() != nullptr ) {'''))
bad("t02-connect-leak", "T02", (TC, '''    if( e != 0 ) {
        ::close(s);
        return -1;
    }
    return s;''', '''    if( e != 0 ) {
        return -1;
    }
    return s;'''))
bad("t02-ai-leak", "T02", (TC, '''            ::close(s);
            freeaddrinfo(res);
            throw_unix_error(errno, "setsockopt(IP_FREEBIND)");''', '''            ::close(s);
            throw_unix_error(errno, "setsockopt(IP_FREEBIND)");'''))
bad("t02-tempfile-fd", "T02", ("src/tempfile.hpp", "~tempfile() { ::close(m_fd); }", "~tempfile() {}"))
bad("t02-no-epoll-del", "T02", (RC, '''    if( epoll_ctl(m_fd, EPOLL_CTL_DEL, fd, NULL) == -1 )
        throw_unix_error(errno, "epoll_ctl(EPOLL_CTL_DEL)");
''', ''))
bad("t02-destroy-at-once", "T02", (RC, "    m_garbage.emplace_back( std::move(it->second) );\n", ""),
    (RC, '''    if( ! res->try_close() ) {
        logger::debug() << "failed to close fd (will be closed later): " << fd;
    }''', '''    (void)res;'''))
ok("ok-t02-poll", (RC, '''        if( ev.events & EPOLLERR ) {
            if( ! r.on_error(fd) )
                remove_resource(fd);
            continue;
        }
        if( ev.events & EPOLLHUP ) {
            if( ! r.on_hangup(fd) ) {
                remove_resource(fd);
                continue;
            }
        }
        if( ev.events & EPOLLIN ) {
            if( ! r.on_readable(fd) ) {
                remove_resource(fd);
                continue;
            }
        }
        if( ev.events & EPOLLOUT ) {
            if( ! r.on_writable(fd) )
                remove_resource(fd);
        }''', '''        bool keep = true;
        if( ev.events & EPOLLERR ) {
            keep = r.on_error(fd);
        } else {
            if( ev.events & EPOLLHUP )
                keep = r.on_hangup(fd);
            if( keep && (ev.events & EPOLLIN) )
                keep = r.on_readable(fd);
            if( keep && (ev.events & EPOLLOUT) )
                keep = r.on_writable(fd);
        }
        if( ! keep ) remove_resource(fd);'''))
ok("ok-t02-accept", (TC, '''            if( t.get() == nullptr ) {
                ::close(s);
            } else {
                m_reactor->add_resource( std::move(t),
                                         reactor::EVENT_IN|reactor::EVENT_OUT );
            }
''', '''            if( t ) {
                m_reactor->add_resource( std::move(t),
                                         reactor::EVENT_IN|reactor::EVENT_OUT );
                continue;
            }
            ::close(s);
'''), (TC, '''    if( n == 0 ) { // timeout
        ::close(s);
        return -1;
    }
    if( n == -1 ) {
        ::close(s);
        throw_unix_error(errno, "poll");
    }

    if( fds.revents & (POLLERR|POLLHUP|POLLNVAL) ) {
        ::close(s);
        return -1;
    }''', '''    if( n == -1 ) {
        int en = errno;
        ::close(s);
        throw_unix_error(en, "poll");
    }
    if( n == 0 || (fds.revents & (POLLERR|POLLHUP|POLLNVAL)) ) {
        ::close(s);
        return -1;
    }'''))
bad("t02-eof-memcache", "T02", (MH.replace("handler.cpp", "sockets.cpp"), '''                unlock_all();
                invalidate_and_close();
                break;''', '''                unlock_all();
                break;'''))
bad("t02-eof-none-only", "T02", ("src/counter/sockets.cpp", '''                release_all();
                invalidate_and_close();''', '''                release_all();
                if( res == recv_result::RESET )
                    invalidate_and_close();'''))
bad("t02-eof-repl", "T02", ("src/memcache/sockets.cpp", '''            cybozu::logger::info() << "The connection to the slave (" << addr << ") has been closed.";
            return invalidate();''', '''            cybozu::logger::info() << "The connection to the slave (" << addr << ") has been closed.";
            break;'''))

# ---- T03
SY = "src/sync.hpp"
bad("t03-all-set", "T03", (SY, "        for( std::size_t i = n; i < MAX_WORKERS; ++i )\n            req->set(i);\n        if", "        for( std::size_t i = n/2; i < MAX_WORKERS; ++i )\n            req->set(i);\n        if"))
bad("t03-set-unseen", "T03", (SY, '''            if( ! m_workers[i]->is_running() ) {
                for( auto& req: m_requests )
                    req->set(i);
            }''', '''            if( ! m_workers[i]->is_running() || i + 1 == n ) {
                for( auto& req: m_requests )
                    req->set(i);
            }'''))
bad("t03-set-next", "T03", (SY, '''            if( ! m_workers[i]->is_running() )
                req->set(i);''', '''            if( ! m_workers[i]->is_running() )
                req->set(i+1);'''))
bad("t03-any", "T03", (SY, "if( ! m_flags.all() ) return false;", "if( ! m_flags.any() ) return false;"))
bad("t03-fix-after", "T03", (SV, '''            m_reactor.fix_garbage();
            m_syncer.add_request(
                std::unique_ptr<sync_request>(
                    new sync_request([this]{ m_reactor.gc(); })
                    ));''', '''            m_syncer.add_request(
                std::unique_ptr<sync_request>(
                    new sync_request([this]{ m_reactor.gc(); })
                    ));
            m_reactor.fix_garbage();'''))
bad("t03-direct", "T03", (SV, '''            m_syncer.add_request(
                std::unique_ptr<sync_request>(
                    new sync_request([this]{ m_reactor.gc(); })
                    ));''', '''            m_reactor.gc();'''))
bad("t03-new-slaves", "T03", (MH, "    return m_new_slaves.empty();", "    return true;"))
bad("t03-gc-thread", "T03", (MH, "if( m_gc_thread.get() != nullptr ) return false;\n    return m_new", "if( m_gc_thread.get() != nullptr && ! m_gc_thread->done() ) return false;\n    return m_new"))
bad("t03-sync-nonempty", "T03", (SV, "    if( ! m_syncer.empty() ) return false;\n", ""))
bad("t03-any-of", "T03", (SV, "return std::all_of(m_handlers.cbegin()", "return std::any_of(m_handlers.cbegin()"))
bad("t03-slave-kept", "T03", (MH, '''            if( ! slave->invalidate() )
                m_reactor.remove_resource(*slave);
            it = m_slaves.erase(it);
            continue;''', '''            if( ! slave->invalidate() )
                m_reactor.remove_resource(*slave);
            ++it;
            continue;'''))
bad("t03-fix-mixed", "T03", ("cybozu/reactor.hpp", '''        if( ! m_garbage_copy.empty() )
            throw std::logic_error("No gc() was called after fix_garbage()!");
''', ''))
bad("t03-interval-late", "T03", (SV, '''        for( auto& handler: m_handlers )
            handler->on_master_interval();

        if( reactor_gc_ready() ) {''', '''        if( reactor_gc_ready() ) {'''), (SV, '''                    new sync_request([this]{ m_reactor.gc(); })
                    ));
        }
''', '''                    new sync_request([this]{ m_reactor.gc(); })
                    ));
        }
        for( auto& handler: m_handlers )
            handler->on_master_interval();
'''))
ok("ok-t03-sync", (SY, '''        for( std::size_t i = 0; i < n; ++i ) {
            if( ! m_workers[i]->is_running() ) {
                for( auto& req: m_requests )
                    req->set(i);
            }
        }
        for( auto it = m_requests.begin(); it != m_requests.end(); ) {
            if( (*it)->check() ) {
                it = m_requests.erase(it);
            } else {
                ++it;
            }
        }''', '''        std::size_t i = 0;
        for( auto& w: m_workers ) {
            if( w->is_running() ) { ++i; continue; }
            for( auto& req: m_requests )
                req->set(i);
            ++i;
        }
        (void)n;
        auto it = m_requests.begin();
        while( it != m_requests.end() ) {
            if( ! (*it)->check() ) { ++it; continue; }
            it = m_requests.erase(it);
        }'''), (SY, '''        for( std::size_t i = 0; i < n; ++i ) {
            if( ! m_workers[i]->is_running() )
                req->set(i);
        }
        for( std::size_t i = n; i < MAX_WORKERS; ++i )
            req->set(i);
        if( ! req->check() )
            m_requests.emplace_back( std::move(req) );''', '''        for( std::size_t i = 0; i < MAX_WORKERS; ++i ) {
            if( i >= n || ! m_workers[i]->is_running() )
                req->set(i);
        }
        if( req->check() ) return;
        m_requests.emplace_back( std::move(req) );'''))
ok("ok-t03-ready", (SV, '''    if( ! m_reactor.has_garbage() ) return false;
    if( ! m_syncer.empty() ) return false;
    auto ready = [](const std::unique_ptr<protocol_handler>& p) {
        return p->reactor_gc_ready();
    };
    return std::all_of(m_handlers.cbegin(), m_handlers.cend(), ready);''', '''    if( ! m_reactor.has_garbage() || ! m_syncer.empty() ) return false;
    for( auto& p: m_handlers )
        if( ! p->reactor_gc_ready() ) return false;
    return true;'''), (MH, '''    if( m_gc_thread.get() != nullptr ) return false;
    return m_new_slaves.empty();''', '''    return ! m_gc_thread && m_new_slaves.empty();'''), (MH, '''            if( ! slave->invalidate() )
                m_reactor.remove_resource(*slave);
            it = m_slaves.erase(it);
            continue;
        }
        ++it;''', '''            if( ! slave->invalidate() )
                m_reactor.remove_resource(*slave);
            it = m_slaves.erase(it);
        } else {
            ++it;
        }'''))

# ------------------------------------------------------------------ D01 content
OBJC, OBJH, TF, TFH, DB = "src/memcache/object.cpp", "src/memcache/object.hpp", "src/tempfile.cpp", "src/tempfile.hpp", "cybozu/dynbuf.hpp"
bad("d01-append-file-order", "D01", (OBJC, """            if( m_length > 0 )
                m_file->write(m_data.data(), m_length);
            m_data.reset();
            m_file->write(p, len);""", """            m_file->write(p, len);
            if( m_length > 0 )
                m_file->write(m_data.data(), m_length);
            m_data.reset();"""))
bad("d01-append-stale", "D01", (OBJC, """            if( m_length > 0 )
                m_file->write(m_data.data(), m_length);
            m_data.reset();
            m_file->write(p, len);""", """            const char* q = m_data.data();
            m_data.reset();
            if( m_length > 0 )
                m_file->write(q, m_length);
            m_file->write(p, len);"""))
bad("d01-append-limit", "D01", (OBJC, """    std::size_t new_size = m_length + len;
    if( new_size > g_config.heap_data_limit() ) {
        if( m_file.get() == nullptr ) {
            m_file = std::unique_ptr<tempfile>(new tempfile);
            if( m_length > 0 )
                m_file->write(m_data.data(), m_length);
            m_data.reset();
            m_file->write(p, len);""", """    std::size_t new_size = m_length + len;
    if( len > g_config.heap_data_limit() ) {
        if( m_file.get() == nullptr ) {
            m_file = std::unique_ptr<tempfile>(new tempfile);
            if( m_length > 0 )
                m_file->write(m_data.data(), m_length);
            m_data.reset();
            m_file->write(p, len);"""))
bad("d01-prepend-noclear", "D01", (OBJC, """            m_file->clear();
            m_file->write(buf.data(), new_size);""", """            m_file->write(buf.data(), new_size);"""))
bad("d01-prepend-length", "D01", (OBJC, """            m_file->clear();
            m_file->write(buf.data(), new_size);
        }""", """            m_file->clear();
            m_file->write(buf.data(), new_size);
            return;
        }"""))
bad("d01-set-keeps-file", "D01", (OBJC, """        m_file = nullptr;
        if( len > 0 )
            m_data.append(p, len);
    }
    m_length = len;""", """        if( len > 0 )
            m_data.append(p, len);
    }
    m_length = len;"""))
bad("d01-set-reuse-noclear", "D01", (OBJC, """            m_file = std::unique_ptr<tempfile>(new tempfile);
        } else {
            m_file->clear();
        }""", """            m_file = std::unique_ptr<tempfile>(new tempfile);
        }"""))
bad("d01-append-cas", "D01", (OBJC, """void object::append(const char* p, std::size_t len) {
    ++ m_cas;
    m_gc_old = 0;
    if( len == 0 ) return;""", """void object::append(const char* p, std::size_t len) {
    m_gc_old = 0;
    if( len == 0 ) return;
    if( m_file == nullptr ) ++ m_cas;"""))
bad("d01-decr-wrap", "D01", (OBJC, "u64_value = (u64_value < n) ? 0 : (u64_value - n);", "u64_value = (u64_value == 0) ? 0 : (u64_value - n);"))
bad("d01-incr-length", "D01", (OBJC, """    u64_value += n;
    char s_value[24]; // uint64 can be as large as 20 byte decimal string.
    m_length = ::snprintf(s_value, sizeof(s_value),
                          "%llu", (unsigned long long)u64_value);
    m_data.reset();
    m_data.append(s_value, m_length);""", """    u64_value += n;
    char s_value[24]; // uint64 can be as large as 20 byte decimal string.
    int l = ::snprintf(s_value, sizeof(s_value),
                          "%llu", (unsigned long long)u64_value);
    m_data.reset();
    m_data.append(s_value, l);"""))
bad("d01-incr-32", "D01", (OBJC, """                          "%llu", (unsigned long long)u64_value);
    m_data.reset();
    m_data.append(s_value, m_length);
    ++ m_cas;
    m_gc_old = 0;
    return u64_value;
}

std::uint64_t object::decr""", """                          "%u", (unsigned)u64_value);
    m_data.reset();
    m_data.append(s_value, m_length);
    ++ m_cas;
    m_gc_old = 0;
    return u64_value;
}

std::uint64_t object::decr"""))
bad("d01-incr-file", "D01", (OBJC, """    if( m_file.get() != nullptr )
        throw not_a_number{};
    std::uint64_t u64_value;
    try {
        u64_value = to_uint64(m_data.data(), m_length);
    } catch( const std::logic_error& ) {
        throw not_a_number{};
    }
    u64_value += n;""", """    std::uint64_t u64_value;
    try {
        u64_value = to_uint64(m_data.data(), m_length);
    } catch( const std::logic_error& ) {
        throw not_a_number{};
    }
    u64_value += n;"""))
bad("d01-touch-age", "D01", (OBJH, """        m_exptime = exptime;
        m_gc_old = 0;
    }""", """        m_exptime = exptime;
    }"""))
bad("d01-data-noreset", "D01", (OBJH, """        buf.reset();
        m_file->read_contents(buf);""", """        m_file->read_contents(buf);"""))
bad("d01-write-partial", "D01", (TF, """        p += n;
        len -= n;
        m_length += n;""", """        len -= n;
        m_length += n;"""))
bad("d01-write-once", "D01", (TF, """    while( len != 0 ) {
        ssize_t n = ::write(m_fd, p, len);""", """    if( len != 0 ) {
        ssize_t n = ::write(m_fd, p, len);"""))
bad("d01-read-offset", "D01", (TF, "pread(m_fd, p, to_read, m_length - to_read);", "pread(m_fd, p, to_read, 0);"))
bad("d01-read-short", "D01", (TF, """            throw std::runtime_error("<tempfile::read_contents> unexpected EOF.");""", """            break;"""))
bad("d01-read-consume", "D01", (TF, """        to_read -= n;
        buf.consume(n);
    }""", """        to_read -= n;
    }
    buf.consume(to_read);"""))
bad("d01-clear-noseek", "D01", (TF, """    if( lseek(m_fd, 0, SEEK_SET) == (off_t)-1 )
        cybozu::throw_unix_error(errno, "lseek");
""", ""))
bad("d01-unlink", "D01", (TFH, """    ::unlink(tmpl.data());
    return fd;""", """    if( fd > 3 )
        ::unlink(tmpl.data());
    return fd;"""))
bad("d01-dynbuf-erase-shift", "D01", (DB, "std::memcpy(new_p, m_p+len, remain);", "std::memcpy(new_p, m_p, remain);"))
bad("d01-dynbuf-enlarge", "D01", (DB, "const std::size_t new_capacity = m_capacity + additional;", "const std::size_t new_capacity = std::max(m_capacity + additional/2, m_used + additional/2);"))
bad("d01-dynbuf-memcpy", "D01", (DB, "std::memmove(m_p, m_p+len, remain);", "std::memcpy(m_p, m_p+len, remain);"))
bad("d01-dynbuf-cap", "D01", (DB, """            m_p = new_p;
            m_capacity = m_default_capacity;
            m_used = remain;
            return;""", """            m_p = new_p;
            m_used = remain;
            return;"""))
bad("d01-dynbuf-swap", "D01", (DB, """        std::swap(m_capacity, other.m_capacity);
""", ""))
bad("d01-dynbuf-leak", "D01", (DB, """            if( m_erase )
                clear_memory(m_p, m_used);
            _free(m_p);
            m_p = new_p;
            m_capacity = m_default_capacity;
            m_used = remain;""", """            if( m_erase ) {
                clear_memory(m_p, m_used);
                _free(m_p);
            }
            m_p = new_p;
            m_capacity = m_default_capacity;
            m_used = remain;"""))
ok("ok-d01-object", (OBJC, """    std::size_t new_size = m_length + len;
    if( new_size > g_config.heap_data_limit() ) {
        if( m_file.get() == nullptr ) {
            m_file = std::unique_ptr<tempfile>(new tempfile);
            if( m_length > 0 )
                m_file->write(m_data.data(), m_length);
            m_data.reset();
            m_file->write(p, len);
        } else {
            m_file->write(p, len);
        }
    } else {
        m_data.append(p, len);
    }
    m_length = new_size;""", """    if( m_length + len <= g_config.heap_data_limit() ) {
        m_data.append(p, len);
    } else {
        if( ! m_file ) {
            std::unique_ptr<tempfile> f(new tempfile);
            if( ! m_data.empty() )
                f->write(m_data.data(), m_data.size());
            m_file = std::move(f);
            m_data.reset();
        }
        m_file->write(p, len);
    }
    m_length += len;"""), (OBJC, """    u64_value = (u64_value < n) ? 0 : (u64_value - n);
    char s_value[24]; // uint64 can be as large as 20 byte decimal string.
    m_length = ::snprintf(s_value, sizeof(s_value),
                          "%llu", (unsigned long long)u64_value);
    m_data.reset();
    m_data.append(s_value, m_length);""", """    if( n >= u64_value )
        u64_value = 0;
    else
        u64_value -= n;
    const std::string s = std::to_string(u64_value);
    m_data.reset();
    m_data.append(s.data(), s.size());
    m_length = s.size();"""), quiet=["D01"])
ok("ok-d01-file", (TF, """    while( len != 0 ) {
        ssize_t n = ::write(m_fd, p, len);
        if( n == -1 )
            cybozu::throw_unix_error(errno, "write");
        p += n;
        len -= n;
        m_length += n;
    }""", """    std::size_t done = 0;
    while( done < len ) {
        ssize_t n = ::write(m_fd, p + done, len - done);
        if( n == -1 ) {
            if( errno == EINTR ) continue;
            cybozu::throw_unix_error(errno, "write");
        }
        done += n;
    }
    m_length += len;"""), (TF, """    char* p = buf.prepare(m_length);

    std::size_t to_read = m_length;
    while( to_read != 0 ) {
        ssize_t n = pread(m_fd, p, to_read, m_length - to_read);
        if( n == -1 )
            cybozu::throw_unix_error(errno, "pread");
        if( n == 0 )
            throw std::runtime_error("<tempfile::read_contents> unexpected EOF.");
        p += n;
        to_read -= n;
        buf.consume(n);
    }""", """    char* const p = buf.prepare(m_length);
    for( std::size_t pos = 0; pos < m_length; ) {
        ssize_t n = pread(m_fd, p + pos, m_length - pos, pos);
        if( n == -1 )
            cybozu::throw_unix_error(errno, "pread");
        if( n == 0 )
            throw std::runtime_error("<tempfile::read_contents> unexpected EOF.");
        pos += n;
    }
    buf.consume(m_length);"""), quiet=["D01"])
ok("ok-d01-dynbuf", (DB, """        if( remain <= m_default_capacity && m_capacity != m_default_capacity ) {
            char* new_p = _malloc(m_default_capacity);
            std::memcpy(new_p, m_p+len, remain);
            if( m_erase )
                clear_memory(m_p, m_used);
            _free(m_p);
            m_p = new_p;
            m_capacity = m_default_capacity;
            m_used = remain;
            return;
        }
        std::memmove(m_p, m_p+len, remain);
        if( m_erase )
            clear_memory(m_p+remain, len);
        m_used = remain;""", """        if( m_default_capacity < remain || m_capacity == m_default_capacity ) {
            std::memmove(m_p, m_p+len, remain);
            if( m_erase )
                clear_memory(m_p+remain, m_used - remain);
            m_used -= len;
            return;
        }
        dynbuf b(m_default_capacity, m_erase);
        b.append(m_p+len, remain);
        swap(b);"""), (DB, """        const std::size_t new_capacity = m_capacity + additional;""", """        const std::size_t new_capacity = std::max(m_capacity * 2, m_used + additional);"""),
   (DB, "#include <cstddef>", "#include <algorithm>\n#include <cstddef>"), quiet=["D01"])

# ------------------------------------------------------------------ S03 erasing
bad("s03-enlarge", "S03", (DB, """                std::memcpy(new_p, m_p, m_used);
                clear_memory(m_p, m_used);
                _free(m_p);""", """                std::memcpy(new_p, m_p, m_used);
                _free(m_p);"""))
bad("s03-realloc", "S03", (DB, """        if( m_erase ) {
            char * const new_p""", """        if( m_erase && m_used > m_default_capacity ) {
            char * const new_p"""))
bad("s03-erase-part", "S03", (DB, "clear_memory(m_p+remain, len);", "clear_memory(m_p+remain, std::min(len, remain));"), (DB, "#include <cstddef>", "#include <algorithm>\n#include <cstddef>"))
bad("s03-erase-order", "S03", (DB, """            clear_memory(m_p, m_used);
        m_used = 0;
        if( m_default_capacity""", """            clear_memory(m_p, m_default_capacity);
        m_used = 0;
        if( m_default_capacity"""))
bad("s03-dtor", "S03", (DB, """            if( m_erase )
                clear_memory(m_p, m_used);
            _free(m_p);
        }
    }
    dynbuf(""", """            if( m_erase && m_capacity > m_default_capacity )
                clear_memory(m_p, m_used);
            _free(m_p);
        }
    }
    dynbuf("""))
bad("s03-move", "S03", (DB, "m_capacity(rhs.m_capacity), m_erase(rhs.m_erase), m_used(rhs.m_used)", "m_capacity(rhs.m_capacity), m_erase(false), m_used(rhs.m_used)"))
bad("s03-prepend", "S03", (OBJC, """        cybozu::dynbuf buf(new_size, g_config.secure_erase());
        buf.append(p, len);
        buf.append(m_data""", """        cybozu::dynbuf buf(new_size);
        buf.append(p, len);
        buf.append(m_data"""))
bad("s03-volatile", "S03", ("cybozu/util.cpp", "volatile unsigned char *p", "unsigned char *p"), ("cybozu/util.hpp", "(* const volatile clear_memory)", "(* const clear_memory)"), ("cybozu/util.cpp", "(* const volatile clear_memory)", "(* const clear_memory)"))
bad("s03-short", "S03", ("cybozu/util.cpp", "while( n-- ) *p++ = 0;", "while( n-- > 1 ) *p++ = 0;"))
ok("ok-s03", ("cybozu/util.cpp", "while( n-- ) *p++ = 0;", "for( std::size_t i = 0; i < n; ++i )\n        p[i] = 0;"), (DB, """        if( m_used && m_erase )
            clear_memory(m_p, m_used);
        m_used = 0;""", """        wipe();
        m_used = 0;"""), (DB, """    std::size_t freebytes() const noexcept {""", """    void wipe() noexcept {
        if( m_erase && m_used > 0 )
            clear_memory(m_p, m_used);
    }

    std::size_t freebytes() const noexcept {"""), (DB, """        if( m_p != nullptr ) {
            if( m_erase )
                clear_memory(m_p, m_used);
            _free(m_p);
        }""", """        if( m_p == nullptr ) return;
        wipe();
        _free(m_p);"""), quiet=["S03", "D01"])

# --------------------------------------------------------------------------- H01: the hash map
HM = "cybozu/hash_map.hpp"
bad("h01-gc-skips-neighbour", "H01", (HM, """                    *p = to_delete->next;
                    delete to_delete;
                } else {
                    p = &(to_delete->next);
                }""", """                    *p = to_delete->next;
                    delete to_delete;
                    if( *p == nullptr ) break;
                }
                p = &((*p)->next);"""))
bad("h01-gc-cuts-tail", "H01", (HM, """                if( pred(to_delete->key, to_delete->object) ) {
                    *p = to_delete->next;
                    delete to_delete;
                } else {
                    p = &(to_delete->next);""", """                if( pred(to_delete->key, to_delete->object) ) {
                    m_objects = to_delete->next;
                    p = &m_objects;
                    delete to_delete;
                } else {
                    p = &(to_delete->next);"""))
bad("h01-insert-drops-list", "H01", (HM, """            m_objects = new item(key, c, m_objects);
            return true;""", """            m_objects = new item(key, c, m_objects == nullptr ? nullptr : m_objects->next);
            return true;"""))
bad("h01-hash-only", "H01", (HM, """                if( p->key == key ) {
                    if( ! h ) return false;""", """                if( p->key.hash() == key.hash() ) {
                    if( ! h ) return false;"""))
bad("h01-first-only", "H01", (HM, """                if( p->key == key ) {
                    if( ! h ) return false;
                    return h(p->key, p->object);
                }
            }""", """                if( p->key == key ) {
                    if( ! h ) return false;
                    return h(p->key, p->object);
                }
                if( p->key.length() > key.length() ) break;
            }"""))
bad("h01-remove-if-keeps-result", "H01", (HM, """                    if( pred(key, to_delete->object) ) {
                        *p = to_delete->next;
                        delete to_delete;
                    }
                    return true;""", """                    if( pred(key, to_delete->object) ) {
                        *p = to_delete->next;
                        delete to_delete;
                        return true;
                    }
                    return false;"""))
bad("h01-read-after-delete", "H01", (HM, """                    item* to_delete = *p;
                    *p = to_delete->next;
                    delete to_delete;
                    if( callback )""", """                    item* to_delete = *p;
                    delete to_delete;
                    *p = to_delete->next;
                    if( callback )"""))
bad("h01-leak", "H01", (HM, """                    if( pred(key, to_delete->object) ) {
                        *p = to_delete->next;
                        delete to_delete;
                    }""", """                    if( pred(key, to_delete->object) )
                        *p = to_delete->next;"""))
bad("h01-no-lock-gc", "H01", (HM, """        void gc(const std::function<bool(const hash_key&, T&)>& pred) {
            lock_guard g(m_lock);
            for(""", """        void gc(const std::function<bool(const hash_key&, T&)>& pred) {
            { lock_guard g(m_lock); if( m_objects == nullptr ) return; }
            for("""))
bad("h01-creator-key", "H01", (HM, "key(k), object(c(key)), next(next) {}", "key(k), object(c(k)), next(next) {}"))
bad("h01-clear-keeps", "H01", (HM, """            while( m_objects ) {
                item* next = m_objects->next;
                delete m_objects;
                m_objects = next;
            }""", """            for( item* p = m_objects; p; ) {
                item* next = p->next;
                delete p;
                p = next;
            }"""))
bad("h01-size-mismatch", "H01", (HM, "m_size(nearest_prime(buckets)), m_buckets(m_size) {}", "m_size(nearest_prime(buckets)), m_buckets(buckets) {}"))
bad("h01-equal-prefix", "H01", (HM, "    return std::memcmp(lhs.m_p, rhs.m_p, lhs.m_len) == 0;", "    return std::strncmp(lhs.m_p, rhs.m_p, lhs.m_len) == 0;"))
bad("h01-equal-8", "H01", (HM, "    return std::memcmp(lhs.m_p, rhs.m_p, lhs.m_len) == 0;", "    if( lhs.m_hash != rhs.m_hash ) return false;\n    return std::memcmp(lhs.m_p, rhs.m_p, std::min<std::size_t>(lhs.m_len, 64)) == 0;"))
bad("h01-copy-keeps-pointer", "H01", (HM, "m_v(rhs.m_p, rhs.m_p+rhs.m_len), m_p(m_v.data()), m_len(m_v.size()),\n        m_hash(rhs.m_hash) {}", "m_v(rhs.m_v), m_p(m_v.empty() ? rhs.m_p : m_v.data()), m_len(rhs.m_len),\n        m_hash(rhs.m_hash) {}"))
bad("h01-move-front-loses", "H01", (HM, """            for( item* p = m_objects; p != nullptr; p = p->next ) {
                if( p->key == key ) {
                    if( ! h ) return false;
                    return h(p->key, p->object);""", """            item* prev = nullptr;
            for( item* p = m_objects; p != nullptr; prev = p, p = p->next ) {
                if( p->key == key ) {
                    if( ! h ) return false;
                    if( prev != nullptr ) { p->next = m_objects; m_objects = p; }
                    return h(p->key, p->object);"""))
ok("ok-h01-hash-first", (HM, """                if( p->key == key ) {
                    if( ! h ) return false;""", """                if( p->key.hash() == key.hash() && p->key == key ) {
                    if( ! h ) return false;"""), quiet="all")
ok("ok-h01-find", (HM, """        bool apply_nolock(const hash_key& key,
                          const handler& h, const creator& c) {
            for( item* p = m_objects; p != nullptr; p = p->next ) {
                if( p->key == key ) {
                    if( ! h ) return false;
                    return h(p->key, p->object);
                }
            }
            if( ! c ) return false;""", """        item* find_item(const hash_key& key) const {
            item* p = m_objects;
            while( p && !(key == p->key) )
                p = p->next;
            return p;
        }
        bool apply_nolock(const hash_key& key,
                          const handler& h, const creator& c) {
            if( item* p = find_item(key) ) {
                if( h == nullptr ) return false;
                return h(p->key, p->object);
            }
            if( ! c ) return false;"""), (HM, """            for( item** p = &m_objects; *p != nullptr; ) {
                item* to_delete = *p;
                if( pred(to_delete->key, to_delete->object) ) {
                    *p = to_delete->next;
                    delete to_delete;
                } else {
                    p = &(to_delete->next);
                }
            }""", """            item** link = &m_objects;
            while( item* cur = *link ) {
                if( ! pred(cur->key, cur->object) ) {
                    link = &(cur->next);
                    continue;
                }
                *link = cur->next;
                delete cur;
            }"""), quiet="all")
ok("ok-h01-move-front", (HM, """            for( item* p = m_objects; p != nullptr; p = p->next ) {
                if( p->key == key ) {
                    if( ! h ) return false;
                    return h(p->key, p->object);""", """            item* prev = nullptr;
            for( item* p = m_objects; p != nullptr; prev = p, p = p->next ) {
                if( p->key == key ) {
                    if( ! h ) return false;
                    if( prev != nullptr ) { prev->next = p->next; p->next = m_objects; m_objects = p; }
                    return h(p->key, p->object);"""), quiet=["H01"])

# --------------------------------------------------------------------------- N01: counters
CO, CS, CG = "src/counter/object.hpp", "src/counter/sockets.cpp", "src/counter/gc.cpp"
bad("n01-acquire-overflow", "N01", (CO, "if( resources > maximum || m_consumption > maximum - resources )", "if( m_consumption + resources > maximum )"))
bad("n01-acquire-limit", "N01", (CO, "m_consumption > maximum - resources )", "m_consumption >= maximum - resources + 1 + (resources == maximum ? 1 : 0) )"))
bad("n01-release-max", "N01", (CO, "            m_max_consumption = m_consumption;\n        m_last_updated = t;", "            m_max_consumption = m_consumption - resources;\n        m_last_updated = t;"))
bad("n01-release-time", "N01", (CO, "            m_max_consumption = m_consumption;\n        m_last_updated = t;", "            { m_max_consumption = m_consumption;\n        m_last_updated = t; }"))
bad("n01-acquire-max-keeps", "N01", (CO, "            m_max_consumption = m_consumption + resources;\n        else", "            m_max_consumption = resources;\n        else"))
bad("n01-max-stale", "N01", (CO, "        if( m_last_updated < nearest_boundary(now()) )\n            return m_consumption;\n        return", "        return"))
bad("n01-deletable", "N01", (CO, "return m_consumption == 0 && m_last_updated < nearest_boundary(now());", "return m_last_updated < nearest_boundary(now());"))
bad("n01-deletable2", "N01", (CO, "return m_consumption == 0 && m_last_updated < nearest_boundary(now());", "return m_consumption == 0;"))
bad("n01-boundary", "N01", (CO, "return (t / interval) * interval;", "return t - interval;"))
bad("n01-refused-changes-time", "N01", (CO, "            return false;\n\n        std::time_t t = now();\n        if( m_last_updated < nearest_boundary(t) )\n            m_max_consumption = m_consumption + resources;", "            { m_last_updated = now(); return false; }\n\n        std::time_t t = now();\n        if( m_last_updated < nearest_boundary(t) )\n            m_max_consumption = m_consumption + resources;"))
bad("n01-books-emplace", "N01", (CS, """        it->second += resources;
        return;
    }
    m_acquired""", """        return;
    }
    m_acquired"""))
bad("n01-books-set", "N01", (CS, "it->second += resources;", "it->second = resources;"))
bad("n01-books-zero", "N01", (CS, """    if( it->second == resources ) {
        m_acquired_resources.erase(it);
        return true;
    }
""", ""))
bad("n01-books-erase-early", "N01", (CS, "    if( it->second == resources ) {", "    if( it->second - resources <= 1 ) {"))
bad("n01-books-key", "N01", (CS, """    auto c = [this,resources,&r](const cybozu::hash_key& k) -> object {
        on_acquire(k, resources);""", """    cybozu::hash_key kk(cmd.name().p, cmd.name().len);
    auto c = [this,resources,&r,&kk](const cybozu::hash_key& k) -> object {
        on_acquire(kk, resources);"""))
bad("n01-create-unbooked", "N01", (CS, """        on_acquire(k, resources);
        r.acquire(resources);
        return object(resources);""", """        r.acquire(resources);
        return object(resources);"""))
bad("n01-release-order", "N01", (CS, """        if( ! on_release(k, resources) ) {
            r.error( counter::status::NotAcquired );
            return true;
        }
        if( ! obj.release(resources) ) {
            cybozu::dump_stack();
            throw std::logic_error("<counter_socket::cmd_release> bug");
        }""", """        if( ! obj.release(resources) || ! on_release(k, resources) ) {
            r.error( counter::status::NotAcquired );
            return true;
        }"""))
bad("n01-release-notfound", "N01", (CS, "        r.error( counter::status::NotFound );\n}\n\nvoid counter_socket::cmd_dump", "        r.success();\n}\n\nvoid counter_socket::cmd_dump"))
bad("n01-refused-twice", "N01", (CS, "            r.error( counter::status::ResourceNotAvailable );\n            return true;", "            r.error( counter::status::ResourceNotAvailable );\n            return false;"), (CS, "    m_hash.apply(cybozu::hash_key(cmd.name().p, cmd.name().len), h, c);", "    if( ! m_hash.apply(cybozu::hash_key(cmd.name().p, cmd.name().len), h, c) )\n        r.error( counter::status::NotFound );"))
bad("n01-acquire-reply", "N01", (CS, "        on_acquire(k, resources);\n        r.acquire(resources);\n        return true;", "        on_acquire(k, resources);\n        r.acquire(obj.consumption());\n        return true;"))
bad("n01-dump-max", "N01", (CS, "r.dump(k.data(), k.length(), obj.consumption(), obj.max_consumption());", "r.dump(k.data(), k.length(), obj.max_consumption(), obj.consumption());"))
bad("n01-no-release-reset", "N01", (CS, """                buf.reset();
                release_all();
                invalidate_and_close();
                break;
            }

            const char* head""", """                buf.reset();
                if( res == recv_result::RESET )
                    release_all();
                invalidate_and_close();
                break;
            }

            const char* head"""))
bad("n01-no-release-dtor", "N01", (CS, """    // the destructor is the safe place to release remaining resources
    release_all();""", """    m_acquired_resources.clear();"""))
bad("n01-no-clear", "N01", (CS, """    }
    m_acquired_resources.clear();
}""", """    }
}"""))
bad("n01-release-one", "N01", (CS, "            if( ! obj.release(count) ) {", "            if( ! obj.release(std::min<uint32_t>(count, obj.consumption() - 1)) ) {"))
bad("n01-gc-inverted", "N01", (CG, "        if( obj.deletable() )\n            return true;", "        if( obj.deletable() && m_objects_in_bucket > 0 )\n            return true;"))
bad("n01-gc-all", "N01", (CG, "        if( obj.deletable() )\n            return true;", "        if( obj.deletable() || obj.consumption() == 0 )\n            return true;"))
bad("n01-invalid-executed", "N01", (CS, """        r.error( cmd.status() );
        return;
    }""", """        r.error( cmd.status() );
        if( cmd.command() != counter::command::Get ) return;
    }"""))
ok("ok-n01-object", (CO, "        if( resources > maximum || m_consumption > maximum - resources )\n            return false;", "        if( (std::uint64_t)m_consumption + resources > maximum )\n            return false;"),
   (CO, """        if( m_last_updated < nearest_boundary(t) )
            m_max_consumption = m_consumption + resources;
        else
            m_max_consumption = std::max(m_max_consumption, m_consumption + resources);
        m_last_updated = t;

        m_consumption += resources;
        return true;""", """        std::uint32_t updated = m_consumption + resources;
        bool fresh = m_last_updated >= nearest_boundary(t);
        if( ! fresh || updated > m_max_consumption )
            m_max_consumption = updated;
        m_consumption = updated;
        m_last_updated = t;
        return true;"""), quiet="all")
ok("ok-n01-books", (CS, """    auto it = m_acquired_resources.find(&k);
    if( it != m_acquired_resources.end() ) {
        it->second += resources;
        return;
    }
    m_acquired_resources.emplace(&k, resources);""", """    m_acquired_resources[&k] += resources;"""),
   (CS, """    if( it == m_acquired_resources.end() )
        return false;
    if( it->second < resources )
        return false;
    if( it->second == resources ) {
        m_acquired_resources.erase(it);
        return true;
    }
    it->second -= resources;
    return true;""", """    if( it == m_acquired_resources.end() || it->second < resources )
        return false;
    it->second -= resources;
    if( it->second == 0 )
        m_acquired_resources.erase(it);
    return true;"""), quiet="all")
ok("ok-n01-release", (CS, """    for( auto& res: m_acquired_resources ) {
        uint32_t count = res.second;""", """    for( auto it = m_acquired_resources.begin(); it != m_acquired_resources.end(); ++it ) {
        const auto& res = *it;
        const uint32_t count = it->second;"""), (CS, """                buf.reset();
                release_all();
                invalidate_and_close();
                break;
            }

            const char* head""", """                close_connection(buf);
                break;
            }

            const char* head"""), (CS, """                buf.reset();
                release_all();
                invalidate_and_close();
                break;
            }
            buf.erase""", """                close_connection(buf);
                break;
            }
            buf.erase"""), (CS, "counter_socket::~counter_socket() {", """void counter_socket::close_connection(cybozu::dynbuf& buf) {
    buf.reset();
    release_all();
    invalidate_and_close();
}

counter_socket::~counter_socket() {"""), ("src/counter/sockets.hpp", "    void release_all();", "    void release_all();\n    void close_connection(cybozu::dynbuf& buf);"), quiet="all")

# ---- P01: binary requests
MC = "src/memcache/memcache.cpp"
CC = "src/counter/counter.cpp"
MQ = "src/memcache/memcache.hpp"
UT = "cybozu/util.hpp"
for n, o, w in (
        ("len-header", "    if( m_len < (BINARY_HEADER_SIZE + total_len) ) return; // incomplete", "    if( m_len < total_len ) return; // incomplete"),
        ("len-32bit", "    m_request_len = BINARY_HEADER_SIZE + total_len;", "    m_request_len = (std::uint32_t)(BINARY_HEADER_SIZE + total_len);"),
        ("len-le", "    if( m_len < (BINARY_HEADER_SIZE + total_len) ) return; // incomplete", "    if( m_len <= (BINARY_HEADER_SIZE + total_len) ) return; // incomplete"),
        ("quiet-gatkq", "                m_command == binary_command::GaTQ ||\n                m_command == binary_command::GaTKQ ||", "                m_command == binary_command::GaTQ ||"),
        ("quiet-range", "                (binary_command::SetQ <= m_command &&\n                 m_command <= binary_command::PrependQ) ||", "                (binary_command::SetQ <= m_command &&\n                 m_command < binary_command::PrependQ) ||"),
        ("quiet-keys", "                 m_command <= binary_command::RaUQ &&\n                 ((unsigned char)m_command) & 1) );", "                 m_command <= binary_command::Keys &&\n                 ((unsigned char)m_command) & 1) || m_command == binary_command::Keys );"),
        ("key-limit", "    if( key_len > MAX_KEY_LENGTH )\n        return; // invalid", "    if( key_len > MAX_KEY_LENGTH + 1 )\n        return; // invalid"),
        ("extras-signed", "    std::uint8_t extras_len = *(const unsigned char*)(m_p + 4);", "    char extras_len = *(m_p + 4);"),
        ("body-check-key-only", "    if( total_len < (key_len + extras_len) )\n        return; // invalid", "    if( total_len < key_len )\n        return; // invalid"),
        ("key-offset", "        m_key = item(m_p + (BINARY_HEADER_SIZE + extras_len), key_len);", "        m_key = item(m_p + BINARY_HEADER_SIZE, key_len);"),
        ("cas-offset", "    cybozu::ntoh(m_p + 16, m_cas_unique);", "    cybozu::ntoh(m_p + 12, m_cas_unique);"),
        ("data-len", "    std::size_t data_len = total_len - key_len - extras_len;", "    std::size_t data_len = total_len - key_len;"),
        ("data-offset", "        m_data = item(m_p + (BINARY_HEADER_SIZE + extras_len + key_len),\n                      data_len);", "        m_data = item(m_p + (BINARY_HEADER_SIZE + key_len),\n                      data_len);"),
        ("data-limit", "    if( data_len > MAX_REQUEST_LENGTH ) {", "    if( data_len > MAX_REQUEST_LENGTH * 2 ) {"),
        ("get-exptime-default", "        } else {\n            m_exptime = EXPTIME_NONE;\n        }", "        } else {\n            m_exptime = 0;\n        }"),
        ("get-data", "        if( key_len == 0 || data_len > 0 )\n            return; // invalid\n        if( extras_len == 4 ) {\n            m_exptime = binary_exptime(p_extra);\n        } else {\n            m_exptime = EXPTIME_NONE;", "        if( key_len == 0 )\n            return; // invalid\n        if( extras_len == 4 ) {\n            m_exptime = binary_exptime(p_extra);\n        } else {\n            m_exptime = EXPTIME_NONE;"),
        ("set-extras", "        if( extras_len != 8 || key_len == 0 )\n            return; // invalid", "        if( extras_len < 8 || key_len == 0 )\n            return; // invalid"),
        ("set-empty", "        if( extras_len != 8 || key_len == 0 )\n            return; // invalid", "        if( extras_len != 8 || key_len == 0 || data_len == 0 )\n            return; // invalid"),
        ("set-exptime-offset", "        m_exptime = binary_exptime(p_extra + 4);", "        m_exptime = binary_exptime(p_extra);"),
        ("incr-initial", "        cybozu::ntoh(p_extra + sizeof(std::uint64_t), m_initial);", "        cybozu::ntoh(p_extra, m_initial);"),
        ("incr-extras", "        if( extras_len != 20 || key_len == 0 || data_len > 0 )\n            return; // invalid", "        if( extras_len < 16 || key_len == 0 || data_len > 0 )\n            return; // invalid"),
        ("touch-missing-extras", "        if( key_len == 0 || extras_len != 4 || data_len != 0 )\n            return; // invalid", "        if( key_len == 0 || data_len != 0 )\n            return; // invalid"),
        ("flush-now", "            m_exptime = g_current_time.load(relaxed);\n        }\n        break;", "            m_exptime = 0;\n        }\n        break;"),
        ("append-empty", "        if( extras_len != 0 || key_len == 0 || data_len == 0 )\n            return; // invalid", "        if( extras_len != 0 || key_len == 0 )\n            return; // invalid"),
        ("lock-key", "    case binary_command::LockQ:\n    case binary_command::Unlock:\n    case binary_command::UnlockQ:\n        if( extras_len != 0 || key_len == 0 || data_len > 0 )\n            return; // invalid", "    case binary_command::LockQ:\n    case binary_command::Unlock:\n    case binary_command::UnlockQ:\n        if( extras_len != 0 || data_len > 0 )\n            return; // invalid"),
        ("stat-sizes", "            } else if( std::memcmp(p_extra, \"sizes\", 5) == 0 ) {", "            } else if( std::memcmp(p_extra, \"sizes\", 4) == 0 ) {"),
        ("stat-length", "        if( key_len == 8 &&\n            std::memcmp(p_extra, \"settings\", 8) == 0 ) {", "        if( std::memcmp(p_extra, \"settings\", 8) == 0 ) {"),
        ("gatkq-unknown", "    case binary_command::GaTKQ:\n    case binary_command::LaG:", "    case binary_command::LaG:"),
        ("unknown-accepted", "        m_command = binary_command::Unknown;\n        m_status = binary_status::UnknownCommand;\n        return;\n    }\n\n    m_status = binary_status::OK;", "        m_command = binary_command::Unknown;\n        m_status = binary_status::UnknownCommand;\n    }\n\n    m_status = binary_status::OK;"),
        ("exptime-threshold", "    if( t > EXPTIME_THRESHOLD )\n        return t;\n    return g_current_time.load(relaxed) + t;", "    if( t >= EXPTIME_THRESHOLD )\n        return t;\n    return g_current_time.load(relaxed) + t;"),
        ("exptime-none", "    if( t == 0xffffffffUL )\n        return memcache::binary_request::EXPTIME_NONE;", "    if( t > 0x7fffffffUL )\n        return memcache::binary_request::EXPTIME_NONE;"),
        ("exptime-zero", "    if( t == 0 ) return 0;\n    if( t == 0xffffffffUL )", "    if( t == 0xffffffffUL )"),
):
    bad("p01-" + n, "P01", (MC, o, w))
for n, o, w in (
        ("total-32bit", "    if( len < HEADER_SIZE + body_length ) return;  // incomplete", "    if( len < (std::uint32_t)(12 + body_length) ) return;  // incomplete"),
        ("magic", "    if( *(const std::uint8_t*)p != REQUEST_MAGIC )\n        return;  // invalid", ""),
        ("get-name", "        if( name_len == 0 || 2U + name_len > body_length )\n            return;     // invalid\n        m_name.len = name_len;\n        m_name.p = body + 2;", "        if( name_len == 0 || name_len > body_length )\n            return;     // invalid\n        m_name.len = name_len;\n        m_name.p = body + 2;"),
        ("acquire-short", "        if( body_length < 10 )\n            return;     // invalid", "        if( body_length < 8 )\n            return;     // invalid"),
        ("acquire-max", "        if( m_maximum < m_resources )\n            return;", ""),
        ("acquire-equal", "        if( m_maximum < m_resources )\n            return;", "        if( m_maximum <= m_resources )\n            return;"),
        ("acquire-zero", "        if( m_resources == 0 )\n            return;     // invalid\n", ""),
        ("release-name", "        m_name.p = body + 6;", "        m_name.p = body + 4;"),
        ("release-empty-name", "        if( name_len == 0 || 6U + name_len > body_length )", "        if( 6U + name_len > body_length )"),
        ("opaque", "    m_opaque = p + 8;", "    m_opaque = p + 4;"),
        ("dump", "    case counter::command::Stats:\n    case counter::command::Dump:\n        // no body\n        break;", "    case counter::command::Stats:\n        // no body\n        break;"),
):
    bad("p01-counter-" + n, "P01", (CC, o, w))
bad("p01-hton-32", "P01", (UT, "        n = htobe32(d);\n        std::memcpy(p, &n, 4);", "        n = d;\n        std::memcpy(p, &n, 4);"))
bad("p01-hton-length", "P01", (UT, "        n = htobe64(d);\n        std::memcpy(p, &n, 8);", "        n = htobe64(d);\n        std::memcpy(p, &n, 4);"))
bad("p01-ntoh-16", "P01", (UT, "        n = be16toh(d);", "        n = be32toh(d);"))
ok("ok-p01-helpers", (MC, "void binary_request::parse() noexcept {", """static bool lengths_fit(std::uint32_t total, std::uint16_t key, std::uint8_t extras) {
    return total >= (std::uint32_t)key + extras;
}

void binary_request::parse() noexcept {"""), (MC, "    if( total_len < (key_len + extras_len) )\n        return; // invalid", "    if( ! lengths_fit(total_len, key_len, extras_len) )\n        return; // invalid"),
   (MC, "    if( m_len < (BINARY_HEADER_SIZE + total_len) ) return; // incomplete", "    if( m_len - BINARY_HEADER_SIZE < total_len ) return; // incomplete"),
   (MC, "    std::uint8_t extras_len = *(const unsigned char*)(m_p + 4);", "    const std::size_t extras_len = (unsigned char)m_p[4];"),
   (MC, "        m_key = item(m_p + (BINARY_HEADER_SIZE + extras_len), key_len);", "        m_key = std::make_tuple(m_p + BINARY_HEADER_SIZE + extras_len, (std::size_t)key_len);"))
ok("ok-p01-ifs", (MC, """        if( extras_len != 0 && extras_len != 4 )
            return; // invalid
        if( key_len != 0 || data_len > 0 )
            return; // invalid
        if( extras_len == 4 ) { // yrmcds extension
            m_exptime = binary_exptime(p_extra);
        } else {
            m_exptime = g_current_time.load(relaxed);
        }
        break;""", """        if( key_len != 0 || data_len > 0 )
            return; // invalid
        if( extras_len == 0 ) {
            m_exptime = g_current_time.load(relaxed);
        } else if( extras_len == 4 ) { // yrmcds extension
            m_exptime = binary_exptime(p_extra);
        } else {
            return; // invalid
        }
        break;"""), (CC, """        if( m_maximum < m_resources )
            return;
        cybozu::ntoh(body + 8, name_len);
        if( name_len == 0 || 10U + name_len > body_length )
            return;     // invalid
""", """        cybozu::ntoh(body + 8, name_len);
        if( m_resources > m_maximum || name_len < 1 || name_len > body_length - 10 )
            return;     // invalid
"""), (MC, """inline std::time_t binary_exptime(const char* p) noexcept {
    std::uint32_t t;
    cybozu::ntoh(p, t);
    if( t == 0 ) return 0;
    if( t == 0xffffffffUL )
        return memcache::binary_request::EXPTIME_NONE;
    if( t > EXPTIME_THRESHOLD )
        return t;
    return g_current_time.load(relaxed) + t;""", """inline std::time_t binary_exptime(const char* p) noexcept {
    std::uint32_t t;
    cybozu::ntoh(p, t);
    switch( t ) {
    case 0: return 0;
    case 0xffffffffU: return memcache::binary_request::EXPTIME_NONE;
    default: break;
    }
    return t <= EXPTIME_THRESHOLD ? g_current_time.load(relaxed) + t : (std::time_t)t;"""))

# ---- P04
bad("p04-total-no-extras", "P04", (MQ, "std::uint32_t total_len = key_len + extras_len + data_len;", "std::uint32_t total_len = key_len + data_len;"))
bad("p04-status-ok", "P04", (MQ, "cybozu::hton((std::uint16_t)status, buf+6);", "cybozu::hton((std::uint16_t)binary_status::OK, buf+6);"))
bad("p04-opaque-offset", "P04", (MQ, "std::memcpy(buf+12, m_request.opaque(), 4);", "std::memcpy(buf+12, m_request.opaque() + 4, 4);"))
bad("p04-opaque-short", "P04", (MQ, "std::memcpy(buf+12, m_request.opaque(), 4);", "std::memcpy(buf+12, m_request.opaque(), 2);"))
bad("p04-cas-32", "P04", (MQ, "cybozu::hton(cas, buf+16);", "cybozu::hton((std::uint32_t)cas, buf+16);"))
bad("p04-magic", "P04", (MQ, "buf[0] = '\\x81';", "buf[0] = '\\x80';"))
bad("p04-datatype-unset", "P04", (MQ, "        buf[5] = '\\x00';\n", ""))
bad("p04-get-no-key", "P04", (MC, "fill_header(header, key_len, sizeof(flags), data.size(), cas);", "fill_header(header, 0, sizeof(flags), data.size(), cas);"))
bad("p04-get-segments", "P04", (MC, "m_socket.sendv(m_iov, 4, flush);", "m_socket.sendv(m_iov, 3, flush);"))
bad("p04-get-order", "P04", (MC, "        m_iov[2] = {key, key_len};\n        m_iov[3] = {data.data(), data.size()};", "        m_iov[3] = {key, key_len};\n        m_iov[2] = {data.data(), data.size()};"))
bad("p04-get-flush", "P04", (MC, "m_socket.sendv(m_iov, 3, flush);", "m_socket.sendv(m_iov, 3, false);"))
bad("p04-incdec-len", "P04", (MC, "fill_header(header, 0, 0, sizeof(value), cas);", "fill_header(header, 0, sizeof(value), 0, cas);"))
bad("p04-incdec-host-order", "P04", (MC, "cybozu::hton(value, &header[BINARY_HEADER_SIZE]);", "std::memcpy(&header[BINARY_HEADER_SIZE], &value, sizeof(value));"))
bad("p04-error-nul", "P04", (MC, "send_error(status, STATUS_EXISTS, sizeof(STATUS_EXISTS) - 1);", "send_error(status, STATUS_EXISTS, sizeof(STATUS_EXISTS));"))
bad("p04-error-other-length", "P04", (MC, "send_error(status, STATUS_LOCKED, sizeof(STATUS_LOCKED) - 1);", "send_error(status, STATUS_LOCKED, sizeof(STATUS_NOT_LOCKED) - 1);"))
bad("p04-error-case-lost", "P04", (MC, "    case binary_status::NotLocked:\n        send_error(status, STATUS_NOT_LOCKED, sizeof(STATUS_NOT_LOCKED) - 1);\n        break;\n", ""))
bad("p04-quit-open", "P04", (MC, "m_socket.send_close(header, sizeof(header));", "m_socket.send(header, sizeof(header), true);"))
bad("p04-set-unflushed", "P04", (MC, "    fill_header(header, 0, 0, 0, cas);\n    m_socket.send(header, BINARY_HEADER_SIZE, true);", "    fill_header(header, 0, 0, 0, cas);\n    m_socket.send(header, BINARY_HEADER_SIZE, false);"))
bad("p04-stat-lengths", "P04", (MC, "fill_header(header, key.size(), 0, value.size(), 0);", "fill_header(header, value.size(), 0, key.size(), 0);"))
bad("p04-stats-no-end", "P04", (MC, '              std::to_string(g_stats.objects_huge.load(relaxed)));\n    success();', '              std::to_string(g_stats.objects_huge.load(relaxed)));'))
bad("p04-stats-wrong-field", "P04", (MC, '    send_stat("curr_items", std::to_string(g_stats.objects.load(relaxed)));', '    send_stat("curr_items", std::to_string(g_stats.total_objects.load(relaxed)));'))
bad("p04-stats-wrong-op", "P04", (MC, '    SEND_TEXT_OPS("touch", TOUCH);\n    SEND_TEXT_OPS("lock", LOCK);\n    SEND_TEXT_OPS("unlock", UNLOCK);\n    SEND_TEXT_OPS("unlock_all", UNLOCK_ALL);\n    SEND_TEXT_OPS("slabs", SLABS);\n    SEND_TEXT_OPS("stats", STATS);\n    SEND_TEXT_OPS("flush_all", FLUSH_ALL);\n    SEND_TEXT_OPS("version", VERSION);\n    SEND_TEXT_OPS("verbosity", VERBOSITY);\n    SEND_TEXT_OPS("quit", QUIT);\n    SEND_TEXT_OPS("keys", KEYS);\n#undef SEND_TEXT_OPS\n\n#define SEND_BINARY_OPS(n)                                              \\\n    os', '    SEND_TEXT_OPS("touch", TOUCH);\n    SEND_TEXT_OPS("lock", UNLOCK);\n    SEND_TEXT_OPS("unlock", UNLOCK);\n    SEND_TEXT_OPS("unlock_all", UNLOCK_ALL);\n    SEND_TEXT_OPS("slabs", SLABS);\n    SEND_TEXT_OPS("stats", STATS);\n    SEND_TEXT_OPS("flush_all", FLUSH_ALL);\n    SEND_TEXT_OPS("version", VERSION);\n    SEND_TEXT_OPS("verbosity", VERBOSITY);\n    SEND_TEXT_OPS("quit", QUIT);\n    SEND_TEXT_OPS("keys", KEYS);\n#undef SEND_TEXT_OPS\n\n#define SEND_BINARY_OPS(n)                                              \\\n    os'))
bad("p04-text-stat-line", "P04", (MC, 'os << "STAT gc_count " << g_stats.gc_count.load(relaxed) << CRLF;', 'os << "STAT gc_count " << g_stats.gc_count.load(relaxed);'))
bad("p04-value-size-32", "P04", (MC, '    int length = snprintf(buf, sizeof(buf), " %u %llu\\x0d\\x0a",\n                          (unsigned int)flags,\n                          (long long unsigned int)data.size());', '    int length = snprintf(buf, sizeof(buf), " %u %d\\x0d\\x0a",\n                          (unsigned int)flags,\n                          (int)data.size());'))
bad("p04-value-buffer", "P04", (MC, '    char buf[MAX_KEY_LENGTH + 100];\n    static_assert( sizeof(unsigned int) >= sizeof(std::uint32_t),\n                   "unsigned int is smaller than std::uint32_t" );\n    int length = snprintf(buf, sizeof(buf), " %u %llu %llu', '    char buf[32];\n    static_assert( sizeof(unsigned int) >= sizeof(std::uint32_t),\n                   "unsigned int is smaller than std::uint32_t" );\n    int length = snprintf(buf, sizeof(buf), " %u %llu %llu'))
bad("p04-value-cas-order", "P04", (MC, "                          (long long unsigned int)data.size(),\n                          (long long unsigned int)cas);", "                          (long long unsigned int)cas,\n                          (long long unsigned int)data.size());"))
bad("p04-text-locked", "P04", (MQ, 'const char TEXT_LOCKED[] = "LOCKED\\x0d\\x0a";', 'const char TEXT_LOCKED[] = "LOCKED\\x0a";'))
bad("p04-text-end-size", "P04", (MQ, "m_socket.send(TEXT_END, sizeof(TEXT_END) - 1, true);", "m_socket.send(TEXT_END, sizeof(TEXT_OK) - 1, true);"))
bad("p04-text-unflushed", "P04", (MQ, "m_socket.send(TEXT_END, sizeof(TEXT_END) - 1, true);", "m_socket.send(TEXT_END, sizeof(TEXT_END) - 1, false);"))
bad("p04-counter-dump-swap", "P04", (CC, "    cybozu::hton(consumption, body);\n    cybozu::hton(max_conumption, body + 4);", "    cybozu::hton(max_conumption, body);\n    cybozu::hton(consumption, body + 4);"))
bad("p04-counter-dump-len", "P04", (CC, "fill_header(header, counter::status::OK, sizeof(body) + name_len);", "fill_header(header, counter::status::OK, name_len);"))
bad("p04-counter-status", "P04", (CC, "header[2] = (char)status;", "header[2] = 0;"))
bad("p04-counter-stat-op", "P04", (CC, 'add_stat_op(body, "command:acquire", counter::command::Acquire);', 'add_stat_op(body, "command:acquire", counter::command::Release);'))
bad("p04-counter-stat-len", "P04", (CC, "cybozu::hton((uint16_t)value.size(), buffer + 2);", "cybozu::hton((uint16_t)name.size(), buffer + 2);"))
bad("p04-gets-no-cas", "P04", (S, "                r.value(k, obj.flags(), data, obj.cas_unique());", "                r.value(k, obj.flags(), data);"))
bad("p04-append-old-cas", "P04", (S, "r.set( obj.cas_unique() );", "r.set( cmd.cas_unique() );"))

# P04, same behaviour
ok("p04-ok-memset-header", (MQ, "        buf[0] = '\\x81';\n", "        std::memset(buf, 0, 24);\n        buf[0] = '\\x81';\n"),
   (MQ, "        buf[5] = '\\x00';\n        cybozu::hton((std::uint16_t)status, buf+6);", "        cybozu::hton((std::uint16_t)status, buf+6);"), quiet="all")
ok("p04-ok-header-order", (MQ, "        cybozu::hton(key_len, buf+2);\n        buf[4] = (char)extras_len;\n", "        buf[4] = (char)extras_len;\n        cybozu::hton(key_len, buf+2);\n"),
   (MQ, "        std::memcpy(buf+12, m_request.opaque(), 4);\n        cybozu::hton(cas, buf+16);", "        cybozu::hton(cas, buf+16);\n        const char* opaque = m_request.opaque();\n        for( int i = 0; i < 4; ++i )\n            buf[12 + i] = opaque[i];"), quiet="all")
ok("p04-ok-get-contiguous", (MC, "    char header[BINARY_HEADER_SIZE];\n    fill_header(header, key_len, sizeof(flags), data.size(), cas);\n    char b_flags[sizeof(flags)];\n    cybozu::hton(flags, b_flags);\n    m_iov[0] = {header, BINARY_HEADER_SIZE};\n    m_iov[1] = {b_flags, sizeof(b_flags)};\n    if( key == nullptr ) {\n        m_iov[2] = {data.data(), data.size()};\n        m_socket.sendv(m_iov, 3, flush);\n    } else {\n        m_iov[2] = {key, key_len};\n        m_iov[3] = {data.data(), data.size()};\n        m_socket.sendv(m_iov, 4, flush);\n    }",
   "    char header[BINARY_HEADER_SIZE + 4];\n    fill_header(header, key_len, 4, data.size(), cas);\n    cybozu::hton(flags, header + BINARY_HEADER_SIZE);\n    int n = 0;\n    m_iov[n++] = {header, sizeof(header)};\n    if( key != nullptr )\n        m_iov[n++] = {key, key_len};\n    m_iov[n++] = {data.data(), data.size()};\n    m_socket.sendv(m_iov, n, flush);"), quiet="all")
ok("p04-ok-success-set", (MC, "binary_response::success() {\n    char header[BINARY_HEADER_SIZE];\n    fill_header(header, 0, 0, 0, 0);\n    m_socket.send(header, BINARY_HEADER_SIZE, true);", "binary_response::success() {\n    set(0);"), quiet="all")
ok("p04-ok-incdec-iov", (MC, "    char header[BINARY_HEADER_SIZE + sizeof(value)];\n    fill_header(header, 0, 0, sizeof(value), cas);\n    cybozu::hton(value, &header[BINARY_HEADER_SIZE]);\n    m_socket.send(header, sizeof(header), true);",
   "    char header[BINARY_HEADER_SIZE];\n    char body[8];\n    fill_header(header, 0, 0, 8, cas);\n    cybozu::hton(value, body);\n    m_iov[0] = {header, sizeof(header)};\n    m_iov[1] = {body, sizeof(body)};\n    m_socket.sendv(m_iov, 2, true);"), quiet="all")
ok("p04-ok-incdec-2sends", (MC, "    char header[BINARY_HEADER_SIZE + sizeof(value)];\n    fill_header(header, 0, 0, sizeof(value), cas);\n    cybozu::hton(value, &header[BINARY_HEADER_SIZE]);\n    m_socket.send(header, sizeof(header), true);",
   "    char header[BINARY_HEADER_SIZE];\n    char body[8];\n    fill_header(header, 0, 0, 8, cas);\n    cybozu::hton(value, body);\n    m_socket.send(header, sizeof(header), false);\n    m_socket.send(body, sizeof(body), true);"), quiet="all")
ok("p04-ok-send-error-iov", (MC, "    char header[BINARY_HEADER_SIZE + 100];\n    fill_header(header, 0, 0, len, 0, status);\n    std::memcpy(&header[BINARY_HEADER_SIZE], msg, len);\n    m_socket.send(header, BINARY_HEADER_SIZE + len, true);",
   "    char header[BINARY_HEADER_SIZE];\n    fill_header(header, 0, 0, len, 0, status);\n    m_iov[0] = {header, sizeof(header)};\n    m_iov[1] = {msg, len};\n    m_socket.sendv(m_iov, 2, true);"), quiet="all")
ok("p04-ok-error-table", (MC, "    case binary_status::NotFound:\n        send_error(status, STATUS_NOT_FOUND, sizeof(STATUS_NOT_FOUND) - 1);\n        break;\n    case binary_status::Exists:\n        send_error(status, STATUS_EXISTS, sizeof(STATUS_EXISTS) - 1);\n        break;\n",
   "    case binary_status::NotFound:\n    case binary_status::Exists: {\n        const bool nf = status == binary_status::NotFound;\n        const char* msg = nf ? STATUS_NOT_FOUND : STATUS_EXISTS;\n        send_error(status, msg, nf ? sizeof(STATUS_NOT_FOUND) - 1 : sizeof(STATUS_EXISTS) - 1);\n        break;\n    }\n"), quiet="all")
ok("p04-ok-error-strlen", (MC, "        send_error(status, STATUS_NOT_FOUND, sizeof(STATUS_NOT_FOUND) - 1);", "        send_error(status, STATUS_NOT_FOUND, std::strlen(STATUS_NOT_FOUND));"), quiet="all")
ok("p04-ok-stat-load", (MC, "              std::to_string(g_stats.objects_huge.load(relaxed)));\n    success();", "              std::to_string(g_stats.objects_huge.load()));\n    success();"), quiet="all")
ok("p04-ok-stat-local", (MC, '    send_stat("curr_items", std::to_string(g_stats.objects.load(relaxed)));', '    const auto items = g_stats.objects.load(relaxed);\n    send_stat("curr_items", std::to_string(items));'), quiet="all")
ok("p04-ok-text-split", (MC, 'os << "STAT gc_count " << g_stats.gc_count.load(relaxed) << CRLF;', 'os << "STAT " << "gc_count ";\n    os << g_stats.gc_count.load(relaxed);\n    os << CRLF;'), quiet="all")
ok("p04-ok-text-crlf", (MC, 'os << "STAT evictions on" << CRLF;', 'os << "STAT evictions on\\r\\n";'), quiet="all")
ok("p04-ok-text-helper", (MQ, "    void ok() {\n        m_socket.send(TEXT_OK, sizeof(TEXT_OK) - 1, true);\n    }", "    void line(const char* p, std::size_t n) {\n        m_socket.send(p, n, true);\n    }\n    void ok() {\n        line(TEXT_OK, sizeof(TEXT_OK) - 1);\n    }"), quiet="all")
ok("p04-ok-text-literal", (MQ, "        m_socket.send(TEXT_ERROR, sizeof(TEXT_ERROR) - 1, true);", '        m_socket.send("ERROR\\r\\n", 7, true);'), quiet="all")
ok("p04-ok-version-one", (MC, "    m_iov[0] = {TEXT_VERSION, sizeof(TEXT_VERSION) -1};\n    m_iov[1] = {VERSION, sizeof(VERSION) - 1};\n    m_iov[2] = {CRLF, sizeof(CRLF) - 1};\n    m_socket.sendv(m_iov, 3, true);", "    m_socket.send(TEXT_VERSION, sizeof(TEXT_VERSION) - 1, false);\n    m_socket.send(VERSION, sizeof(VERSION) - 1, false);\n    m_socket.send(CRLF, sizeof(CRLF) - 1, true);"), quiet="all")
ok("p04-ok-value-format", (MC, '    int length = snprintf(buf, sizeof(buf), " %u %llu %llu\\x0d\\x0a",\n                          (unsigned int)flags,\n                          (long long unsigned int)data.size(),\n                          (long long unsigned int)cas);\n    m_iov[2] = {buf, (std::size_t)length};',
   '    std::size_t length = snprintf(buf, sizeof(buf), " %u %zu %lu\\r\\n", flags, data.size(), cas);\n    m_iov[2] = {buf, length};'), quiet="all")
ok("p04-ok-counter-one-buffer", (CC, "    char header[HEADER_SIZE];\n    char body[4];\n    fill_header(header, counter::status::OK, sizeof(body));\n    cybozu::hton(consumption, body);\n    cybozu::tcp_socket::iovec iov[] = {\n        {header, HEADER_SIZE},\n        {body, sizeof(body)},\n    };\n    m_socket.sendv(iov, 2, true);",
   "    char msg[HEADER_SIZE + 4];\n    fill_header(msg, counter::status::OK, 4);\n    cybozu::hton(consumption, msg + HEADER_SIZE);\n    m_socket.send(msg, sizeof(msg), true);"), quiet="all")
ok("p04-ok-counter-iov-assign", (CC, "    cybozu::tcp_socket::iovec iov[] = {\n        {header, HEADER_SIZE},\n        {message, length},\n    };\n    m_socket.sendv(iov, 2, true);", "    cybozu::tcp_socket::iovec iov[2];\n    iov[0].p = header;\n    iov[0].len = sizeof(header);\n    iov[1].p = message;\n    iov[1].len = length;\n    m_socket.sendv(iov, 2, true);"), quiet="all")
ok("p04-ok-counter-error-if", (CC, "    case counter::status::NotFound:\n        send_error(status, STATUS_NOT_FOUND,\n                   sizeof(STATUS_NOT_FOUND) - 1);\n        break;\n", ""),
   (CC, "void response::error(counter::status status) {\n", "void response::error(counter::status status) {\n    if( status == counter::status::NotFound ) {\n        send_error(status, STATUS_NOT_FOUND, sizeof(STATUS_NOT_FOUND) - 1);\n        return;\n    }\n"), quiet="all")
ok("p04-ok-stat-insert", (CC, '    add_stat_op(body, "command:noop", counter::command::Noop);\n', '    add_stat(body, "command:noop", std::to_string(s.ops[(std::size_t)counter::command::Noop].load()));\n'), quiet="all")

# ---- T01: sending
TP = "cybozu/tcp.hpp"
PEND = "            std::get<2>(t) = sent;\n            g.unlock();"
bad("t01-resend-after-partial", "T01", (TC, PEND, "            g.unlock();"))
bad("t01-resend-offset", "T01", (TC, "::send(fd, p+sent, len-sent, 0)", "::send(fd, p+sent, len, 0)"))
bad("t01-erase-all-tmp", "T01", (TC, "m_tmpbuf.begin() + n);", "m_tmpbuf.end());"))
bad("t01-no-erase-before-eagain", "T01", (TC, "        m_tmpbuf.erase(m_tmpbuf.begin(), m_tmpbuf.begin() + n);", "        if( (std::size_t)n == m_tmpbuf.size() ) m_tmpbuf.clear();"))
bad("t01-buffer-not-returned", "T01", (TC, "            m_free_buffers.push_back(p);\n        } else {", "        } else {"))
bad("t01-recorded-room", "T01", (TC, "            std::get<1>(t) = t_len + to_write;\n", "            std::get<1>(t) = SENDBUF_SIZE;\n"))
bad("t01-no-record", "T01", (TC, "            std::get<1>(t) = t_len + to_write;\n", ""))
bad("t01-len-not-advanced", "T01", (TC, "            p += n;\n            len -= n;\n        }\n        if( len == 0 ) return true;", "            len -= n;\n        }\n        if( len == 0 ) return true;"))
bad("t01-tmpbuf-when-pending", "T01", (TC, "    while( ! can_send(len) ) {", "    while( ! m_shutdown && ! m_tmpbuf.empty() ) {"))
bad("t01-if-wait", "T01", (TC, "    while( ! can_send(len) ) {", "    if( ! can_send(len) ) {"))
bad("t01-room-unchecked", "T01", (TC, "            std::size_t to_write = std::min(room, len);\n            std::memcpy(t_p + t_len, p, to_write);\n            p +=", "            std::size_t to_write = std::min(SENDBUF_SIZE, len);\n            std::memcpy(t_p + t_len, p, to_write);\n            p +="))
bad("t01-capacity-off", "T01", (TP, "return c + SENDBUF_SIZE - std::get<1>(m_pending.back());", "return c + SENDBUF_SIZE;"))
bad("t01-notify-missing", "T01", (TC, "            // notify other threads of the new free space\n            m_cond_write.notify_all();\n", ""))
bad("t01-notify-end-missing", "T01", (TC, "    if( ! m_shutdown ) {\n        g.unlock();\n        m_cond_write.notify_all();\n        return true;", "    if( ! m_shutdown ) {\n        return true;"))
bad("t01-shutdown-ignored", "T01", (TC, "    if( m_shutdown ) return false;\n\n    if( m_pending.empty() ) {", "    if( m_pending.empty() ) {"))
bad("t01-close-early", "T01", (TC, "    // all data have been sent.\n    _flush(fd);\n", "    // all data have been sent.\n"))
bad("t01-close-never", "T01", (TC, "    // invalidate and close this socket when m_shutdown==true.\n    return false;", "    return true;"))
bad("t01-overtake", "T01", (TC, "    if( m_pending.empty() ) {\n        while( len > 0 ) {", "    if( m_pending.size() < 2 ) {\n        while( len > 0 ) {"))
bad("t01-overtake-v", "T01", (TC, "    int ind = 0;\n\n    if( m_pending.empty() ) {", "    int ind = 0;\n\n    if( m_pending.empty() || capacity() < total ) {"))
bad("t01-error-true", "T01", (TC, '''                    logger::error() << "<tcp_socket::_sendv>: ("
                                    << ecnd.value() << ") "
                                    << ecnd.message();
                return false;''', '''                    logger::error() << "<tcp_socket::_sendv>: ("
                                    << ecnd.value() << ") "
                                    << ecnd.message();
                return ecnd.value() != EPIPE;'''))
bad("t01-sendv-if-wait", "T01", (TC, "    while( ! can_send(total) ) {", "    if( ! can_send(total) ) {"))
bad("t01-free-no-clear", "T01", (TC, "    m_pending.clear();\n    for( char* p: m_free_buffers ) {", "    for( char* p: m_free_buffers ) {"))
bad("t01-free-pending-lost", "T01", (TC, '''    for( auto& t: m_pending ) {
        char* p;
        std::tie(p, std::ignore, std::ignore) = t;
        FREE(p);
    }
''', ""))
bad("t01-free-no-shutdown", "T01", (TC, "    m_tmpbuf.shrink_to_fit();\n    m_shutdown = true;", "    m_tmpbuf.shrink_to_fit();"))
bad("t01-invalidate-no-notify", "T01", (TP, "        free_buffers();\n        m_cond_write.notify_all();\n", "        free_buffers();\n"))
bad("t01-writable-ignores", "T01", (TP, "        if( write_pending_data(fd) )\n            return true;\n        return invalidate();", "        write_pending_data(fd);\n        return true;"))
bad("t01-send-close-no-shutdown", "T01", (TP, "            if( ! _send(fd, p, len, g) )\n                return false;\n            m_shutdown = true;\n            if( empty() ) {", "            if( ! _send(fd, p, len, g) )\n                return false;\n            if( empty() ) {\n                m_shutdown = true;"))
bad("t01-send-no-flush", "T01", (TP, "            if( ! _send(fd, p, len, g) )\n                return false;\n            if( flush && empty() )", "            if( ! _send(fd, p, len, g) )\n                return false;\n            if( flush && ! empty() )"))
bad("t01-sendjob-ignores", "T01", (S, "            return write_pending_data(fd);", "            write_pending_data(fd);\n            return true;"))
ok("t01-ok-send-room-helper", (TC, "        std::size_t room = SENDBUF_SIZE - t_len;\n        if( room > 0 ) {\n            std::size_t to_write = std::min(room, len);\n            std::memcpy(t_p + t_len, p, to_write);\n            p += to_write;\n            len -= to_write;\n            std::get<1>(t) = t_len + to_write;\n            if( len == 0 ) return true;\n        }",
   "        const std::size_t to_write = std::min(SENDBUF_SIZE - t_len, len);\n        std::memcpy(t_p + t_len, p, to_write);\n        std::get<1>(t) += to_write;\n        p += to_write;\n        len -= to_write;"), quiet="all")
ok("t01-ok-direct-get", (TC, "        auto& t = m_pending.back();\n        char* t_p;\n        std::size_t t_len;\n        std::tie(t_p, t_len, std::ignore) = t;\n", "        auto& t = m_pending.back();\n        char* t_p = std::get<0>(t);\n        std::size_t t_len = std::get<1>(t);\n"), quiet="all")
ok("t01-ok-switch-errno", (TC, '''                if( errno == EAGAIN || errno == EWOULDBLOCK ) break;
                if( errno == EINTR ) continue;
                auto ecnd = std::system_category().default_error_condition(errno);
                if( ecnd.value() != EPIPE )
                    logger::error() << "<tcp_socket::_send>: ("''', '''                const int e = errno;
                if( e == EINTR ) continue;
                if( e == EAGAIN ) break;
                auto ecnd = std::system_category().default_error_condition(e);
                if( ecnd.value() != EPIPE )
                    logger::error() << "<tcp_socket::_send>: ("'''), quiet="all")
ok("t01-ok-pend-offset", (TC, "        if( len == sent ) {\n            m_pending.erase(m_pending.begin());\n            m_free_buffers.push_back(p);", "        if( len == sent ) {\n            m_free_buffers.push_back(p);\n            m_pending.erase(m_pending.begin());"), quiet="all")
ok("t01-ok-pend-through-entry", (TC, "            sent += n;\n        }\n        if( len == sent ) {", "            sent += n;\n            std::get<2>(t) = sent;\n        }\n        if( len == sent ) {"), (TC, PEND, "            g.unlock();"), quiet="all")
ok("t01-ok-free-order", (TC, "    m_free_buffers.clear();\n    m_tmpbuf.clear();\n    m_tmpbuf.shrink_to_fit();\n    m_shutdown = true;", "    m_free_buffers.clear();\n    std::vector<char>().swap(m_tmpbuf);\n    m_shutdown = true;"), quiet="all")
ok("t01-ok-free-index", (TC, "    for( char* p: m_free_buffers ) {\n        FREE(p);\n    }\n    m_free_buffers.clear();\n    m_tmpbuf", "    for( std::size_t i = 0; i < m_free_buffers.size(); ++i )\n        FREE(m_free_buffers[i]);\n    m_free_buffers.clear();\n    m_tmpbuf"), quiet="all")
ok("t01-ok-send-forloop", (TC, "    while( len > 0 ) {\n        char* t_p = m_free_buffers.back();", "    for( ; len != 0; ) {\n        char* t_p = m_free_buffers.back();"), quiet="all")
ok("t01-ok-iov-helper", (TC, "    total = 0;\n    for( int i = ind; i < v_size; ++i ) {\n        total += v[i].iov_len;\n    }\n", "    auto rest = [&v, v_size](int from) {\n        std::size_t n = 0;\n        for( int i = from; i < v_size; ++i )\n            n += v[i].iov_len;\n        return n;\n    };\n    total = rest(ind);\n"), quiet="all")
ok("t01-ok-notify-locked", (TC, "            g.unlock();\n            // notify other threads of the new free space\n            m_cond_write.notify_all();\n            return true;", "            m_cond_write.notify_all();\n            return true;"), quiet="all")
ok("t01-ok-wait-shape", (TC, "    while( ! can_send(len) ) {\n        on_buffer_full();\n        m_cond_write.wait(g);\n    }", "    for(;;) {\n        if( can_send(len) ) break;\n        on_buffer_full();\n        m_cond_write.wait(g);\n    }"), quiet="all")

# ---- P02: text requests
bad("p02-key-len-off", "P02", (MC, "    m_key = item(b, key_end-b);\n    b = key_end;\n\n    while( *b == SP ) ++b;\n    if( b == e ) return;\n    const char* flags_end", "    m_key = item(b, key_end-b);\n    b = key_end + 1;\n\n    if( b == e ) return;\n    const char* flags_end"))
bad("p02-noreply-prefix", "P02", (MC, "        if( noreply_len != 7 ) return;\n        if( std::memcmp(b, \"noreply\", 7) != 0 ) return;\n        m_no_reply = true;\n        b = (we != nullptr) ? we : e;\n    }\n\n    while( *b == SP ) ++b;\n    if( b != e ) return; // garbage left\n\n    // here", "        if( noreply_len < 7 ) return;\n        if( std::memcmp(b, \"noreply\", 7) != 0 ) return;\n        m_no_reply = true;\n        b = (we != nullptr) ? we : e;\n    }\n\n    while( *b == SP ) ++b;\n    if( b != e ) return; // garbage left\n\n    // here"))
bad("p02-garbage-after", "P02", (MC, "    if( b != e ) return; // garbage left\n\n    // here", "\n    // here"))
bad("p02-crlf-unchecked", "P02", (MC, "    if( *(b+nbytes) != CR || *(b+nbytes+1) != LF )", "    if( *(b+nbytes) != CR && *(b+nbytes+1) != LF )"))
bad("p02-short-data", "P02", (MC, "    if( m_len < m_request_len ) {", "    if( m_len + 2 < m_request_len ) {"))
bad("p02-reqlen", "P02", (MC, "    m_request_len = (b - m_p) + nbytes + 2;", "    m_request_len = (b - m_p) + nbytes;"))
bad("p02-incomplete-len", "P02", (MC, "    if( m_len < m_request_len ) {\n        m_request_len = 0;\n        return;", "    if( m_len < m_request_len ) {\n        return;"))
bad("p02-no-cr", "P02", (MC, "    if( *(--eol) != CR ) return;", "    if( eol[-1] == CR ) --eol;"))
bad("p02-threshold", "P02", (MC, "        m_exptime = (t > EXPTIME_THRESHOLD) ? t :\n            (g_current_time.load(relaxed) + t);\n    b = exptime_end;\n\n    while( *b == SP ) ++b;\n    if( b == e ) return;", "        m_exptime = (t >= EXPTIME_THRESHOLD) ? t :\n            (g_current_time.load(relaxed) + t);\n    b = exptime_end;\n\n    while( *b == SP ) ++b;\n    if( b == e ) return;"))
bad("p02-touch-zero", "P02", (MC, "    if( ! result ) return;\n    if( t != 0 )\n        m_exptime = (t > EXPTIME_THRESHOLD) ? t :\n            (g_current_time.load(relaxed) + t);\n    b = exptime_end;\n\n    while( *b == SP ) ++b;\n    if( b != e ) {", "    if( ! result ) return;\n    m_exptime = (t > EXPTIME_THRESHOLD) ? t :\n            (g_current_time.load(relaxed) + t);\n    b = exptime_end;\n\n    while( *b == SP ) ++b;\n    if( b != e ) {"))
bad("p02-cas-32", "P02", (MC, "m_cas_unique = to_uint<std::uint64_t>(b, result);", "m_cas_unique = to_uint<std::uint32_t>(b, result);"))
bad("p02-uint-range", "P02", (MC, "    if( i > static_cast<unsigned long long>(std::numeric_limits<UInt>::max()) ) return 0;\n", ""))
bad("p02-digit-guard", "P02", (MC, "    if( *p < '0' || '9' < *p ) return 0;\n", ""))
bad("p02-trailing-junk", "P02", (MC, "    if( c != CR && c != LF && c != SP ) return 0;\n", ""))
bad("p02-erange", "P02", (MC, "    if( i == std::numeric_limits<unsigned long long>::max() &&\n        errno == ERANGE ) return 0;\n", ""))
bad("p02-flush-abs", "P02", (MC, "        m_exptime = (t > EXPTIME_THRESHOLD) ? t :\n            (g_current_time.load(relaxed) + t);\n        b = exp_end;", "        m_exptime = t;\n        b = exp_end;"))
bad("p02-replace-as-set", "P02", (MC, "m_command = text_command::REPLACE;", "m_command = text_command::SET;"))
bad("p02-gets-as-get", "P02", (MC, "m_command = text_command::GETS;", "m_command = text_command::GET;"))
bad("p02-prefix-command", "P02", (MC, "    if( cmd_len == 3 ) {", "    if( cmd_len >= 3 ) {"))
bad("p02-nextkey", "P02", (MQ, "        b += len;\n        while( *b == '\\x20' ) ++b;", "        b += len + 1;"))
bad("p02-nextkey-len", "P02", (MQ, "        if( key_end == nullptr ) key_end = e;\n        return item(b, key_end-b);", "        if( key_end == nullptr ) key_end = e + 1;\n        return item(b, key_end-b);"))
bad("p02-incdec-signed", "P02", (MC, "    m_value = to_uint<std::uint64_t>(b, result);", "    m_value = to_uint<std::int64_t>(b, result);"))
bad("p02-delete-noreply", "P02", (MC, "        m_no_reply = true;\n        b = (we != nullptr) ? we : e;\n    }\n\n    while( *b == SP ) ++b;\n    if( b != e ) return; // garbage left\n\n    m_valid = true;\n}\n\ninline void\ntext_request::parse_touch", "        b = (we != nullptr) ? we : e;\n    }\n\n    while( *b == SP ) ++b;\n    if( b != e ) return; // garbage left\n\n    m_valid = true;\n}\n\ninline void\ntext_request::parse_touch"))
bad("p02-stats-items", "P02", (MC, "            m_stats = stats_t::ITEMS;", "            m_stats = stats_t::SIZES;"))
bad("p02-leading", "P02", (MC, "    while( *cmd_start == SP ) ++cmd_start;\n", ""))
ok("p02-ok-skip-helper", (MC, "template<typename UInt>\ninline UInt to_uint", "inline const char* skip(const char* p) {\n    while( *p == SP ) ++p;\n    return p;\n}\n\ntemplate<typename UInt>\ninline UInt to_uint"),
   (MC, "    while( *b == SP ) ++b;", "    b = skip(b);"), quiet="all")
ok("p02-ok-noreply-helper", (MC, '''        const char* we = cfind(b, SP, e-b);
        std::size_t noreply_len = (we != nullptr) ? (we - b) : (e - b);
        if( noreply_len != 7 ) return;
        if( std::memcmp(b, "noreply", 7) != 0 ) return;
        m_no_reply = true;
        b = (we != nullptr) ? we : e;''', '''        const char* we = cfind(b, SP, e-b);
        if( we == nullptr ) we = e;
        if( (we - b) != 7 || std::memcmp("noreply", b, 7) != 0 ) return;
        b = we;
        m_no_reply = true;'''), quiet="all")
ok("p02-ok-std-find", (MC, "    const char* eol = cfind(m_p, LF, m_len);\n    if( eol == nullptr ) return; // incomplete", "    const char* eol = std::find(m_p, m_p + m_len, LF);\n    if( eol == m_p + m_len ) return; // incomplete"), quiet="all")
ok("p02-ok-isdigit", (MC, "    if( *p < '0' || '9' < *p ) return 0;", "    if( ! std::isdigit((unsigned char)*p) ) return 0;"), (MC, "#include <algorithm>", "#include <algorithm>\n#include <cctype>"), quiet="all")
ok("p02-ok-data-end", (MC, "    if( *(b+nbytes) != CR || *(b+nbytes+1) != LF )\n        return;", "    const char* const end = b + nbytes;\n    if( end[0] != CR ) return;\n    if( end[1] != LF ) return;"), quiet="all")
ok("p02-ok-incomplete-first", (MC, "    m_request_len = (b - m_p) + nbytes + 2;\n    if( m_len < m_request_len ) {\n        m_request_len = 0;\n        return;\n    }", "    const std::size_t header_len = b - m_p;\n    const std::size_t total = header_len + nbytes + 2;\n    m_request_len = (total <= m_len) ? total : 0;\n    if( m_request_len == 0 ) return;"), quiet="all")
ok("p02-ok-exptime-helper", (MC, "    if( t != 0 )\n        m_exptime = (t > EXPTIME_THRESHOLD) ? t :\n            (g_current_time.load(relaxed) + t);", "    if( t > EXPTIME_THRESHOLD ) {\n        m_exptime = t;\n    } else if( t != 0 ) {\n        m_exptime = g_current_time.load(relaxed) + t;\n    }"), quiet="all")
ok("p02-ok-command-table", (MC, '''        if( std::memcmp(cmd_start, "prepend", 7) == 0 ) {
            m_command = text_command::PREPEND;
            parse_storage(cmd_end, eol, false);
            return;
        }
        if( std::memcmp(cmd_start, "replace", 7) == 0 ) {
            m_command = text_command::REPLACE;
            parse_storage(cmd_end, eol, false);
            return;
        }''', '''        static const struct { const char* name; text_command cmd; } stores[] = {
            {"prepend", text_command::PREPEND},
            {"replace", text_command::REPLACE},
        };
        for( const auto& s: stores ) {
            if( std::memcmp(cmd_start, s.name, 7) == 0 ) {
                m_command = s.cmd;
                parse_storage(cmd_end, eol, false);
                return;
            }
        }'''), quiet="all")

# --------------------------------------------------------------------------- P03
T_SETCHK = '''        if( len > MAX_KEY_LENGTH ) {
            r.error();
            return;
        }
        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
            r.error();
            return;
        }
        h ='''
T_CAS = '''    case text_command::CAS:
        std::tie(p, len) = cmd.key();
        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
            r.error();
            return;
        }
'''
B_RAU = '''    case binary_command::RaUQ:
        std::tie(p, len) = cmd.key();
        if( len > MAX_KEY_LENGTH ) {
            r.error( binary_status::Invalid );
            return;
        }
        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
            r.error( binary_status::TooLargeValue );
            return;
        }
'''
T_GROW = '''            if( obj.size() + len2 > g_config.max_data_size() ) {
                r.error();
                return true;
            }
            obj.%s(p2, len2);'''
B_GROW = '''            if( obj.size() + len2 > g_config.max_data_size() ) {
                r.error( binary_status::TooLargeValue );
                return true;
            }
            obj.%s(p2, len2);'''
bad("p03-text-set-no-key-limit", "P03", (S, T_SETCHK, T_SETCHK.replace("len > MAX_KEY_LENGTH", "len > MAX_REQUEST_LENGTH")))
bad("p03-text-set-no-data-limit", "P03", (S, T_SETCHK, T_SETCHK.replace("g_config.max_data_size()", "MAX_REQUEST_LENGTH")))
bad("p03-text-set-off-by-one", "P03", (S, T_SETCHK, T_SETCHK.replace("> g_config.max_data_size()", ">= g_config.max_data_size()")))
bad("p03-text-set-key-off-by-one", "P03", (S, T_SETCHK, T_SETCHK.replace("len > MAX", "len > 1 + MAX")))
bad("p03-text-set-only-add", "P03", (S, T_SETCHK, T_SETCHK.replace("if( std::get", "if( cmd.command() != text_command::ADD && std::get")))
bad("p03-text-cas-no-limit", "P03", (S, T_CAS, T_CAS.split("        if(")[0]))
bad("p03-bin-rau-no-limit", "P03", (S, B_RAU, B_RAU.replace("std::get<1>(cmd.data()) > g", "len > g")))
bad("p03-bin-rau-not-quiet", "P03", (S, B_RAU, B_RAU.replace("if( std::get", "if( ! cmd.quiet() && std::get")))
bad("p03-bin-rau-status", "P03", (S, B_RAU, B_RAU.replace("TooLargeValue", "NotStored")))
for _op in ("append", "prepend"):
    for _n, _g in (("text", T_GROW), ("bin", B_GROW)):
        bad("p03-%s-%s-alone" % (_n, _op), "P03", (S, _g % _op, (_g % _op).replace("obj.size() + len2 >", "len2 >")))
        bad("p03-%s-%s-old-size" % (_n, _op), "P03", (S, _g % _op, (_g % _op).replace("obj.size() + len2 >", "obj.size() >")))
        ok("p03-ok-%s-%s-subtract" % (_n, _op), (S, _g % _op, (_g % _op).replace("obj.size() + len2 > g_config.max_data_size()", "len2 > g_config.max_data_size() || obj.size() > g_config.max_data_size() - len2")), quiet="all")
bad("p03-parser-key-limit", "P03 P01", (MC, "    if( key_len > MAX_KEY_LENGTH )\n        return; // invalid", "    if( (key_len & 0xff) > MAX_KEY_LENGTH )\n        return; // invalid"))
bad("p03-limit-const", "P03", ("src/constants.hpp", "MAX_KEY_LENGTH      = 250;", "MAX_KEY_LENGTH      = 256;"))
ok("p03-ok-early-consts", (S, T_SETCHK, '''        {
            const std::size_t limit = g_config.max_data_size();
            const bool too_long = MAX_KEY_LENGTH < len;
            if( too_long || limit < std::get<1>(cmd.data()) ) {
                r.error();
                return;
            }
        }
        h ='''), quiet="all")

# ---------------------------------------------------------------- F01
RJ_PEND = '''        if( ! m_pending.empty() ) {
            buf.append(m_pending.data(), m_pending.size());
            m_pending.reset();
        }

        while( true ) {'''
RJ_TAIL = '''        if( buf.size() > 0 )
            m_pending.append(buf.data(), buf.size());

        m_busy'''
RJ_ERASE = "            buf.erase(head - buf.data());\n"
RJ_SIZE = '''            if( len > MAX_REQUEST_LENGTH ) {
                cybozu::logger::warning() << "denied too large request of "
                                          << len << " bytes.";'''
RJ_C = '''                counter::request parser(head, len);
                std::size_t c = parser.length();
                if( c == 0 ) break;
                head += c;
                len -= c;
                execute(parser);
'''
RJ_BIN = '''                    mc::binary_request parser(head, len);
                    std::size_t c = parser.length();
                    if( c == 0 ) break;
                    head += c;
                    len -= c;
                    cmd_bin(parser);
'''
RJ_TXT = RJ_BIN.replace("binary", "text").replace("cmd_bin", "cmd_text")
RJ_LOOP = '''            while( len > 0 ) {
                if( mc::is_binary_request(head) ) {
''' + RJ_BIN + '''                } else {
''' + RJ_TXT + '''                }
            }
'''
for _f, _t in ((S, "mc"), (CS, "cnt")):
    bad("f01-%s-pending-kept" % _t, "F01", (_f, RJ_PEND, RJ_PEND.replace("            m_pending.reset();\n", "")))
    bad("f01-%s-pending-dropped" % _t, "F01", (_f, RJ_PEND, RJ_PEND.replace("            buf.append(m_pending.data(), m_pending.size());\n", "")))
    bad("f01-%s-pending-loaded-late" % _t, "F01", (_f, RJ_PEND, RJ_PEND.replace("! m_pending.empty()", "m_pending.size() > 4")))
    bad("f01-%s-rest-not-kept" % _t, "F01", (_f, RJ_TAIL, RJ_TAIL.replace("buf.size() > 0", "buf.size() > 24")))
    bad("f01-%s-rest-cut" % _t, "F01", (_f, RJ_TAIL, RJ_TAIL.replace("buf.data(), buf.size()", "buf.data(), std::min(buf.size(), MAX_RECVSIZE)")))
    bad("f01-%s-erase-only-more" % _t, "F01", (_f, RJ_ERASE, "            if( len > 0 )\n                buf.erase(head - buf.data());\n"))
    bad("f01-%s-reset-all" % _t, "F01", (_f, RJ_ERASE, "            if( head != buf.data() )\n                buf.reset();\n"))
    bad("f01-%s-limit-too-low" % _t, "F01", (_f, RJ_SIZE, RJ_SIZE.replace("len > MAX_REQUEST_LENGTH", "len > MAX_RECVSIZE")))
    bad("f01-%s-limit-before" % _t, "F01", (_f, RJ_SIZE, RJ_SIZE.replace("len > MAX_REQUEST_LENGTH", "buf.size() > MAX_REQUEST_LENGTH")))
    ok("f01-ok-%s-local-used" % _t, (_f, RJ_ERASE, "            const std::size_t used = buf.size() - len;\n            buf.erase(used);\n"), quiet="all")
    ok("f01-ok-%s-erase-if-any" % _t, (_f, RJ_ERASE, "            if( head != buf.data() )\n                buf.erase(head - buf.data());\n"), quiet="all")
    ok("f01-ok-%s-swap" % _t, (_f, RJ_PEND, RJ_PEND.replace("            buf.append(m_pending.data(), m_pending.size());\n            m_pending.reset();\n", "            buf.swap(m_pending);\n")), quiet=["F01"])
    ok("f01-ok-%s-tail" % _t, (_f, RJ_TAIL, RJ_TAIL.replace("buf.size() > 0", "! buf.empty()")), quiet="all")
    ok("f01-ok-%s-tail2" % _t, (_f, RJ_TAIL, RJ_TAIL.replace("        if( buf.size() > 0 )\n    ", "")), quiet=["F01"])
bad("f01-cnt-exec-first", "F01", (CS, RJ_C, RJ_C.replace("if( c == 0 ) break;", "if( c == 0 && len < 12 ) break;")))
bad("f01-cnt-short-len", "F01", (CS, RJ_C, RJ_C.replace("parser(head, len)", "parser(head, std::min(len, MAX_RECVSIZE))")))
bad("f01-cnt-one-per-recv", "F01", (CS, RJ_C, RJ_C.replace("execute(parser);", "execute(parser);\n                if( len < 12 ) break;")))
bad("f01-cnt-from-start", "F01", (CS, RJ_C, RJ_C.replace("parser(head, len)", "parser(buf.data(), len)")))
bad("f01-mc-proto-fixed", "F01", (S, RJ_LOOP, RJ_LOOP.replace("            while(", "            const bool binary = mc::is_binary_request(head);\n            while(").replace("if( mc::is_binary_request(head) )", "if( binary )")))
bad("f01-mc-len-not-reduced", "F01", (S, RJ_TXT, RJ_TXT.replace("len -= c;", "len -= std::min(c, MAX_RECVSIZE);")))
bad("f01-mc-text-continue", "F01", (S, RJ_TXT, RJ_TXT.replace("if( c == 0 ) break;", "if( c == 0 ) {\n                        if( len <= 2048 ) break;\n                        c = len;\n                        head += c;\n                        len = 0;\n                        continue;\n                    }")))
ok("f01-ok-mc-for", (S, RJ_LOOP, '''            for( std::size_t c = 0; len > 0; head += c, len -= c ) {
                if( mc::is_binary_request(head) ) {
                    mc::binary_request parser(head, len);
                    c = parser.length();
                    if( c == 0 ) break;
                    cmd_bin(parser);
                } else {
                    mc::text_request parser(head, len);
                    c = parser.length();
                    if( c == 0 ) break;
                    cmd_text(parser);
                }
            }
'''), quiet="all")
ok("f01-ok-mc-index", (S, RJ_LOOP, '''            std::size_t at = 0;
            while( at < buf.size() ) {
                const char* p = buf.data() + at;
                std::size_t c;
                if( ! mc::is_binary_request(p) ) {
                    mc::text_request parser(p, buf.size() - at);
                    c = parser.length();
                    if( c != 0 ) cmd_text(parser);
                } else {
                    mc::binary_request parser(p, buf.size() - at);
                    c = parser.length();
                    if( c != 0 ) cmd_bin(parser);
                }
                if( c == 0 ) break;
                at += c;
            }
            head += at;
            len -= at;
'''), quiet="all")
for _f, _t in ((S, "mc"), (CS, "cnt")):
    ok("f01-ok-%s-limit-after-erase" % _t, (_f, RJ_SIZE, RJ_ERASE + RJ_SIZE), (_f, RJ_ERASE + "        }\n", "        }\n"), quiet=["F01"])

# ---------------------------------------------------------------- R01 R02 G01 K01, from the properties' text
GCF, RPL, MHD = "src/memcache/gc.cpp", "src/memcache/replication.cpp", "src/memcache/handler.cpp"
bad("r01-flags-swapped", "R01", (RPL, "    cybozu::hton(obj.flags(), extras);\n    cybozu::hton(obj.exptime(), &extras[4]);", "    cybozu::hton(obj.exptime(), extras);\n    cybozu::hton(obj.flags(), &extras[4]);"))
bad("r01-data-len-16", "R01", (RPL, "std::uint32_t data_len, binary_command cmd", "std::uint16_t data_len, binary_command cmd"))
bad("r01-total-no-extras", "R01", (RPL, "key_len + extras_len + data_len;", "key_len + data_len + (data_len ? extras_len : 0);"))
bad("r01-total-16", "R01", (RPL, "std::uint32_t total_len = key_len", "std::uint16_t total_len = key_len"))
bad("r01-touch-extras", "R01", (RPL, "fill_header(header, key.length(), 4, 0, binary_command::Touch)", "fill_header(header, key.length(), 8, 0, binary_command::Touch)"))
bad("r01-touch-key-first", "R01", (RPL, "        {extras, sizeof(extras)},\n        {key.data(), key.length()}\n    };\n    for( cybozu::tcp_socket* s: slaves )\n        s->sendv(iov, 3, true);", "        {key.data(), key.length()},\n        {extras, sizeof(extras)}\n    };\n    for( cybozu::tcp_socket* s: slaves )\n        s->sendv(iov, 3, true);"))
bad("r01-data-not-for-flush", "R01", (RPL, "        s->sendv(iov, 4, flush);", "        s->sendv(iov, flush ? 4 : 3, flush);"))
bad("r01-first-slave-only", "R01", (RPL, "        s->sendv(iov, 4, flush);", "        if( s->sendv(iov, 4, flush) ) break;"))
bad("r01-handlers-outlive", "R01", (RPL, "    std::size_t consumed = 0;\n    while", "    std::size_t consumed = 0;\n    cybozu::hash_map<object>::creator c = nullptr;\n    while"), (RPL, "        cybozu::hash_map<object>::creator c = nullptr;\n\n", "\n"))
bad("r01-flags-kept", "R01", (RPL, "obj.set(p2, len2, parser.flags(), parser.exptime());", "obj.set(p2, len2, obj.flags(), parser.exptime());"))
bad("r01-create-no-exptime", "R01", (RPL, "return object(p2, len2, parser.flags(), parser.exptime());", "return object(p2, len2, parser.flags(), 0);"))
bad("r01-touch-expired", "R01", (RPL, "                obj.touch( parser.exptime() );", "                if( obj.expired() ) return false;\n                obj.touch( parser.exptime() );"))
bad("r01-delete-skip-if-empty", "R01", (RPL, "            hash.remove_nolock(cybozu::hash_key(key_data, key_len), nullptr);", "            if( len > 0 )\n                hash.remove_nolock(cybozu::hash_key(key_data, key_len), nullptr);"))
bad("r01-unknown-stops", "R01", (RPL, "                                    << (unsigned int)parser.command();\n", "                                    << (unsigned int)parser.command();\n            consumed -= n;\n"))
bad("r01-consumed-late", "R01", (RPL, "        len -= n;\n        consumed += n;\n", "        len -= n;\n        if( len > 0 ) consumed += n;\n"))
bad("r01-min-header", "R01", (RPL, "        if( n == 0 ) break;\n", "        if( n == 0 || n > 65536 ) break;\n"))
bad("r01-set-key-of-next", "R01", (RPL, "        binary_request parser(p, len);\n        std::size_t n = parser.length();\n        if( n == 0 ) break;\n        p += n;\n        len -= n;", "        std::size_t n = binary_request(p, len).length();\n        if( n == 0 ) break;\n        p += n;\n        len -= n;\n        binary_request parser(p, len);"))
bad("r01-client-reset", "R01", (S, "        m_recvbuf.erase(c);", "        if( c > 0 ) m_recvbuf.reset();"))
bad("r01-client-partial", "R01", (S, "repl_recv(m_recvbuf.data(), m_recvbuf.size(), m_hash);\n        m_recvbuf.erase(c);", "repl_recv(m_recvbuf.data() + m_recvbuf.size() - n, n, m_hash);\n        m_recvbuf.erase(c);"))
bad("r01-client-erase-late", "R01", (S, "        m_recvbuf.erase(c);\n\n        n_iter++;\n        if (n_iter >= MAX_ITER) {", "        n_iter++;\n        if (n_iter >= MAX_ITER) {"), (S, "            m_reactor->add_readable(*this);\n            return true;\n        }\n", "            m_reactor->add_readable(*this);\n            return true;\n        }\n        m_recvbuf.erase(c);\n"))
ok("r01-ok-header", (RPL, "        buf[0] = '\\x80';\n        buf[1] = (char)cmd;\n        cybozu::hton(key_len, buf+2);\n        buf[4] = (char)extras_len;\n        std::uint32_t total_len = key_len + extras_len + data_len;\n        cybozu::hton(total_len, buf+8);", "        cybozu::hton(std::uint32_t(extras_len + data_len + key_len), &buf[8]);\n        cybozu::hton(key_len, &buf[2]);\n        buf[4] = static_cast<char>(extras_len);\n        buf[1] = static_cast<char>(cmd);\n        buf[0] = '\\x80';"), quiet="all")
ok("r01-ok-recv-for", (RPL, "        p += n;\n        len -= n;\n        consumed += n;\n\n        const char* key_data;\n        std::size_t key_len;\n", "        std::size_t key_len;\n        const char* key_data;\n        consumed += n;\n        len -= n;\n        p += n;\n"), quiet="all")

bad("g01-flush-locked", "G01", (GCF, "if( flush && (! obj.locked()) )", "if( flush )"))
ok("g01-ok-flush-locked-2", (GCF, "if( flush && (! obj.locked()) )", "if( flush && (! obj.locked() || obj.expired()) )"), quiet=["G01"])
bad("g01-evict-always", "G01", (GCF, "unsigned int evict_age = 0;", "unsigned int evict_age = 0;\n    if( g_config.memory_limit() == 0 ) evict_age = 1;"))
bad("g01-evict-wrong-side", "G01", (GCF, "(g_stats.used_memory.load(std::memory_order_relaxed) >\n         g_config.memory_limit())", "(g_stats.used_memory.load(std::memory_order_relaxed) >\n         g_config.heap_data_limit())"))
bad("g01-evict-zero-age", "G01", (GCF, "if( evict_age > 0 && obj.age()", "if( obj.age()"))
bad("g01-flush-early", "G01", (GCF, "std::time(nullptr) >= t);", "std::time(nullptr) + 1 >= t);"))
bad("g01-expired-kept-while-joining", "G01", (GCF, "        if( obj.expired() ) {", "        if( obj.expired() && m_new_slaves.empty() ) {"))
bad("g01-expired-kept-flushed-file", "G01", (GCF, "        if( obj.expired() ) {", "        if( obj.expired() && m_flushers.empty() ) {"))
bad("g01-flush-only-old", "G01", (GCF, "if( flush && (! obj.locked()) )", "if( flush && (! obj.locked()) && obj.age() > 0 )"))
bad("g01-stop-early", "G01", (GCF, "        m_flushers.clear();\n", "        m_flushers.clear();\n        if( flush && m_objects > 0 && m_last_evictions > 0 ) break;\n"))
bad("g01-second-bucket", "G01", (GCF, "it != m_hash.end(); ++it ) {", "it != m_hash.end(); ++it ) {\n        if( evict_age > 0 && it == m_hash.begin() ) continue;"))
bad("g01-flush-cleared", "G01", (GCF, "    if( flush )\n        g_stats.flush_time.compare", "    if( t != 0 )\n        g_stats.flush_time.compare"))
bad("g01-flush-overwritten", "G01", (GCF, "g_stats.flush_time.compare_exchange_strong(t, 0);", "g_stats.flush_time.store(0);"))
bad("g01-flush-never-cleared", "G01", (GCF, "    if( flush )\n        g_stats.flush_time.compare", "    if( flush && m_last_evictions > 0 )\n        g_stats.flush_time.compare"))
ok("g01-ok-order", (GCF, "        if( flush && (! obj.locked()) ) {\n            if( ! m_slaves.empty() )\n                repl_delete(m_slaves, k);\n            return true;\n        }\n", "        const bool locked = obj.locked();\n        if( ! locked && flush ) {\n            if( ! m_slaves.empty() )\n                repl_delete(m_slaves, k);\n            return true;\n        }\n"), quiet="all")

R2S = "            repl_object(m_new_slaves, k, obj, false);"
bad("r02-new-not-small", "R02", (GCF, "        if( ! m_new_slaves.empty() )\n" + R2S, "        if( ! m_new_slaves.empty() && size > 0 )\n" + R2S))
bad("r02-old-slaves", "R02", (GCF, R2S, R2S.replace("m_new_slaves", "m_slaves")))
bad("r02-survive-early-return", "R02", (GCF, "        std::size_t size = obj.size();\n", "        std::size_t size = obj.size();\n        if( size == 0 ) return false;\n"))
bad("r02-lose-new", "R02", (MHD, "        m_new_slaves.clear();\n        m_gc_thread->start();", "        m_gc_thread->start();\n        m_new_slaves.clear();\n        m_new_slaves.shrink_to_fit();"), (MHD, "    if( gc_ready(g_current_time.load(relaxed)) ) {", "    if( m_is_slave ) m_new_slaves.clear();\n    if( gc_ready(g_current_time.load(relaxed)) ) {"))
bad("r02-clear-before", "R02", (MHD, "        m_gc_thread = std::unique_ptr<gc_thread>(\n            new gc_thread(m_hash, m_slaves, m_new_slaves));\n        m_new_slaves.clear();", "        std::vector<repl_socket*> fresh;\n        if( m_slaves.size() > 1 ) m_new_slaves.clear();\n        m_gc_thread = std::unique_ptr<gc_thread>(\n            new gc_thread(m_hash, m_slaves, m_new_slaves));\n        m_new_slaves.clear();"))
bad("r02-new-at-once", "R02", (MHD, "    m_syncer.add_request(\n        std::unique_ptr<sync_request>(\n            new sync_request([this,pt]{ m_new_slaves.push_back(pt); })\n            ));", "    m_new_slaves.push_back(pt);"))
bad("r02-slaves-late", "R02", (MHD, "    m_slaves.push_back(pt);\n    m_syncer.add_request(\n        std::unique_ptr<sync_request>(\n            new sync_request([this,pt]{ m_new_slaves.push_back(pt); })", "    m_syncer.add_request(\n        std::unique_ptr<sync_request>(\n            new sync_request([this,pt]{ m_new_slaves.push_back(pt); m_slaves.push_back(pt); })"))
bad("r02-only-one-new", "R02", (MHD, "new sync_request([this,pt]{ m_new_slaves.push_back(pt); })", "new sync_request([this,pt]{ if( m_gc_thread == nullptr ) m_new_slaves.push_back(pt); })"))
