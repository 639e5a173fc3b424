TESTS = "The 31 stable tests run a dozen fixed happy-path send_nsca/nsca-ng exchanges on a quiet loopback; "

prop("P01", "Acknowledged commands are delivered exactly once and intact",
 "Every command the server acknowledged with the second OKAY reaches the monitoring daemon exactly once and byte for byte, either directly on the command FIFO or inside a dump file named by a PROCESS_FILE command, within a bounded time once a reader has the FIFO open and drains it. This holds for any number of concurrent clients, any network fragmentation or delay, and any sequence of FIFO outages, as long as the server process keeps running, the queue limit is not exceeded and no dump-file operation fails. A command that was not acknowledged is delivered at most once, and nothing that no client sent is ever delivered. A permitted command that a client submits correctly over a connection that works is acknowledged.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "all interleavings of clients, reader restarts, FIFO back-pressure and dump-file completions",
 TESTS + "no test restarts the FIFO reader, fills the pipe, or lets the queue exceed PIPE_BUF, so queueing, dumping and reopening never execute under any interleaving.",
 ["src/server/fifo.c", "src/server/server.c", "src/common/buffer.c"],
 [("queue in memory while the FIFO is unavailable, dispatch on reopen", "src/server/fifo.c: fifo_write, dispatch_data, open_cb"),
  ("dump the queue to a file once it exceeds the atomic pipe size", "src/server/fifo.c: async_dump_data, async_cb, sync_dump_data")],
 [("output / output_buffer", "the command being written and the commands queued behind it", "src/server/fifo.c: struct fifo_state_s"),
  ("async_watcher active", "an asynchronous dump is in flight", "src/server/fifo.c")],
 ["second OKAY on each session", "bytes accepted by write(2) on the FIFO", "content of dump files named on the FIFO"])

prop("P02", "Command FIFO writes are atomic and contain whole commands",
 "Every single write the server issues to the command FIFO consists of one or more complete, newline-terminated commands and is no larger than the system's atomic pipe size. Therefore the command stream seen by the reader never contains a torn command or one mixed with the output of another local writer, whatever the load, back-pressure or reader restarts.",
 ["schedules", "inputs", "fault_sequences"],
 "all command sizes around the atomic limit, all arrival patterns, pipe fill levels and reader restarts",
 TESTS + "all test commands are far smaller than PIPE_BUF and there is never a second FIFO writer or a full pipe.",
 ["src/server/fifo.c"],
 [("only write(2) up to PIPE_BUF, dump anything larger", "src/server/fifo.c: buffers_exceed_pipe_size, dispatch_data, write_cb")],
 [("output_size", "size of the next write", "src/server/fifo.c")],
 ["write(2) calls on the FIFO descriptor"])

prop("P03", "Only authorized commands ever reach the command FIFO or a dump file",
 "Every line handed to the monitoring daemon was submitted over a session whose authenticated identity is allowed to submit it by the hosts, services or commands patterns of the authorization section for that identity (or of the `*' section if there is none), each pattern matching the whole command, host or service field. No content a client can submit (embedded newlines or NUL bytes, missing timestamps, wrong field counts, case variations, alternations in patterns, data spread over several sessions) makes a line reach the daemon that the submitting identity may not submit, and a refused command is answered with FAIL and leaves no trace.",
 ["inputs", "histories", "configurations", "schedules"],
 "all command byte strings, all authorization configurations, all mixes of identities on concurrent sessions",
 TESTS + "authorization is tested with a handful of single well-formed commands and one identity at a time.",
 ["src/server/auth.c", "src/server/conf.c", "src/server/server.c", "src/server/hash.c"],
 [("match the command against compiled patterns", "src/server/auth.c: is_authorized"),
  ("compile hosts/services/commands into anchored regular expressions", "src/server/conf.c"),
  ("remember the authenticated identity of a session", "src/server/auth.c: check_psk; src/common/tls.c: accept_ssl_cb")],
 [("tls->id", "authenticated identity of the session", "src/common/tls.h")],
 ["bytes on the FIFO and in dump files", "response to each PUSH"])

prop("P04", "A client without the right password has no effect",
 "A client that cannot prove knowledge of the password configured for the identity it claims (or of the `*' section's password for an identity that has no section of its own) never gets a protocol response and never causes a command to be queued, no matter what else it sends and what other sessions exist at the time. A client that does present the right password for its identity is accepted on a fault-free network, and acts under exactly the identity it claimed.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "all identity/password pairs and configurations, with right and wrong clients interleaved on one server, and tampered or truncated handshakes",
 TESTS + "one wrong-password case is tried on an otherwise idle server; no identity confusion, fallback or tampering is tried.",
 ["src/server/auth.c", "src/common/tls.c", "src/client/auth.c"],
 [("TLS-PSK callback looks up the claimed identity", "src/server/auth.c: check_psk"),
  ("client callback supplies identity and password", "src/client/auth.c: set_psk")],
 [], ["plaintext each peer receives", "commands queued", "server log of the session identity"])

prop("P05", "send_nsca exit status 0 exactly reports complete submission",
 "send_nsca exits with status 0 only if the server acknowledged every record found on standard input, each exactly once and in input order, and it exits non-zero in every other case: refused record, malformed record, protocol error, lost or tampered connection, timeout, failed system call. When nothing fails it does exit with status 0, and it never submits a record more than once or one that was not on standard input.",
 ["fault_sequences", "inputs", "schedules"],
 "all record lists and all failures of network, server and standard input at any point of the exchange",
 TESTS + "the failure cases tested are a wrong password and an unauthorized command; nothing fails in the middle of a batch.",
 ["src/client/client.c", "src/client/send_nsca.c", "src/client/input.c", "src/common/tls.c"],
 [("request/response state machine", "src/client/client.c: handle_*"),
  ("fatal treatment of TLS warnings", "src/common/tls.c: TLS_AUTO_DIE")],
 [("exit_code", "status to exit with", "src/client/send_nsca.c")],
 ["process exit status", "acknowledgements given by the server", "commands received by the server"])

prop("P06", "send_nsca's commands depend only on its input, not on how it arrives",
 "For a given standard input and options, the sequence of commands send_nsca submits (timestamps aside) is the documented translation of that input: records split at the separator, fields split at the delimiter, backslashes and embedded newlines escaped, empty records skipped, raw commands timestamped only if they have no timestamp. The sequence does not depend on how the input is split into reads, on pauses, interrupted or would-block reads, on the kind of input descriptor, or on network timing.",
 ["inputs", "schedules"],
 "all inputs, separators and delimiters, all splits of the input and of the network traffic",
 TESTS + "input is always one short file read in one go.",
 ["src/client/input.c", "src/client/parse.c", "src/client/client.c", "src/common/buffer.c"],
 [("incremental chunking of standard input", "src/client/input.c: read_cb; src/common/buffer.c: buffer_read_chunk"),
  ("translation into monitoring commands", "src/client/parse.c")],
 [("input->buffer", "bytes read but not yet consumed", "src/client/input.h")],
 ["commands received by the peer"])

prop("P07", "Server answers every request as the protocol specifies",
 "For any sequence of request lines and data a client sends, sequentially waiting for each response, the server's responses are those of the documented protocol: MOIN, PING, QUIT and BAIL before the session is established, PUSH, NOOP, QUIT and BAIL after it, OKAY, FAIL or the version line as documented, the session surviving every FAIL and every NOOP. Requests other than PUSH may also be sent without waiting and are answered in order. The responses do not depend on how the bytes are fragmented into TLS records or TCP segments, on letter case of the verb, or on what other sessions do at the same time.",
 ["inputs", "histories", "schedules"],
 "all request histories up to a bounded length, all fragmentations, concurrent sessions",
 TESTS + "only send_nsca talks to the server, so NOOP, PING, BAIL, malformed requests and any fragmentation are never exercised.",
 ["src/server/server.c", "src/common/tls.c", "src/common/buffer.c", "src/common/util.c"],
 [("per-session state machine", "src/server/server.c: handle_handshake, handle_connection, handle_push"),
  ("line and byte framing over TLS", "src/common/tls.c: read_line, read_bytes")],
 [("tls->read_handler", "current protocol state", "src/common/tls.h")],
 ["plaintext responses per session"])

prop("P08", "Server closes idle connections on time and never active ones",
 "A connection on which the client stays silent is closed by the server within a bounded time after the configured timeout (with a BAIL message if the session was established), whatever stage it is in: TLS handshake, session handshake, waiting for a request, in the middle of a line or of command data, or waiting for the client's TLS shutdown. A connection on which the client is never silent for as long as the timeout (and reads the responses) is not closed by it, and a timeout of 0 disables closing; other connections are not affected.",
 ["schedules", "fault_sequences", "configurations"],
 "all stages at which a client can fall silent, all timeouts, any mix of connections, stalls and half-open peers",
 TESTS + "no test waits for a timeout: real time would make that too slow and imprecise.",
 ["src/common/tls.c", "src/server/server.c"],
 [("lazy inactivity timer", "src/common/tls.c: timeout_cb, tls_on_timeout"),
  ("second timer during shutdown", "src/common/tls.c: tls_shutdown, default_timeout_handler")],
 [("last_activity", "time of the last I/O on the connection", "src/common/tls.h")],
 ["simulated time of BAIL and of the close of the server's socket"])

prop("P09", "send_nsca terminates with an error when the server stalls or vanishes",
 "Whenever the peer stops answering at any stage (connecting, TLS handshake, after any request, during shutdown), send_nsca exits with a non-zero status and an error message within a bounded time after its configured timeout. Whenever the connection is reset or closed it exits non-zero promptly; it neither hangs, nor spins, nor crashes.",
 ["fault_sequences", "schedules"],
 "all stages and all ways in which the peer can stop, reset, close or send garbage",
 TESTS + "the server never stalls or dies during a test.",
 ["src/common/tls.c", "src/client/client.c"],
 [("inactivity timer", "src/common/tls.c: timeout_cb"), ("TLS errors are fatal in the client", "src/common/tls.c: check_tls_error")],
 [], ["simulated time and status of process exit", "standard error"])

prop("P10", "No client can crash or block the server",
 "Whatever any set of clients sends or does (garbage instead of TLS, tampered or truncated records, arbitrary protocol data, resets and half-closes at any point, floods of connections), the server does not crash, exit, access memory incorrectly, or stop serving: every well-behaved session open at the same time still completes, and a new well-behaved session completes afterwards. The same holds when system calls on connections fail transiently: interrupted calls, exhausted descriptors, aborted accepts.",
 ["inputs", "schedules", "fault_sequences"],
 "all byte streams and connection events of misbehaving clients, interleaved with well-behaved ones, plus transient system-call failures",
 TESTS + "every client in the tests is well-behaved and alone.",
 ["src/common/tls.c", "src/server/server.c", "src/common/buffer.c", "src/common/util.c"],
 [("errors close only the connection concerned", "src/common/tls.c: check_tls_error, accept_tcp_cb")],
 [], ["server process state", "sanitizer reports", "completion of well-behaved sessions"])

prop("P11", "The server does not leak descriptors or memory per connection",
 "After any history of connections, however each one ended (normal exit, failed handshake, refusal, timeout, reset, error at accept time), and once they are all over and the queue has drained, the server holds no more file descriptors and no more per-connection memory than before they began. And while connections last, the memory held for each of them stays bounded (about a command of the configured maximum size plus buffers of fixed size), whatever the client sends and whether or not it reads the responses.",
 ["histories", "fault_sequences"],
 "all histories of connection outcomes, including failing system calls during accept and dump",
 TESTS + "each test server handles one or two connections and nobody looks at its resources.",
 ["src/common/tls.c", "src/server/server.c", "src/server/auth.c", "src/server/fifo.c"],
 [("tls_free releases everything", "src/common/tls.c: tls_free"), ("connection_stop", "src/server/server.c"), ("close_dump_file", "src/server/fifo.c")],
 [], ["descriptor table", "live allocations", "live TLS objects at quiescence"])

prop("P12", "A PROCESS_FILE command always names a complete dump file",
 "Whenever the server writes a PROCESS_FILE command to the FIFO, the file it names is at that moment closed, private to the server's user, located in the configured temporary directory, and holds complete acknowledged commands, byte for byte and none twice. If creating, writing or closing a dump file fails, an error is logged, the server keeps working, and no command naming that file is ever written.",
 ["schedules", "fault_sequences"],
 "all interleavings of dump completion with new commands and FIFO events, all failures of dump-file operations (short, late, failed writes, no space, no descriptors)",
 TESTS + "the dump path is not executed by any test.",
 ["src/server/fifo.c"],
 [("PROCESS_FILE is only issued after the write completed and the file was closed", "src/server/fifo.c: async_cb, sync_dump_data, close_dump_file")],
 [("dump_fd / dump_file", "dump in progress", "src/server/fifo.c")],
 ["file system state at each FIFO write"])

prop("P13", "The command queue is bounded and overflow sheds old commands, logged",
 "While the command FIFO is unavailable (or a dump file is still being written by a slow disk) the server queues no more than about the configured maximum of command data; when a command would exceed the limit the server logs that it throws data away, drops queued commands as a whole and goes on queueing newer ones, never a fragment. With a limit of 0 nothing is ever dropped, and no command is dropped while the queue stays below the limit.",
 ["histories", "configurations"],
 "all sequences of command sizes around the limit, while the FIFO is down or a dump file is being written, followed by any recovery",
 TESTS + "queue limits are never reached.",
 ["src/server/fifo.c", "src/common/buffer.c"],
 [("size check before queueing", "src/server/fifo.c: fifo_write")],
 [("output_buffer", "queued commands", "src/server/fifo.c")],
 ["commands delivered after recovery", "log"])

prop("P14", "The server recovers from every command-file outage by itself",
 "If the command file is missing, has no reader, is not a FIFO, cannot be opened, or its reader goes away at any point, the server keeps accepting commands, never writes to anything but a FIFO, and resumes delivering within a bounded time (about ten seconds) after a FIFO with a reader is available again, without needing a restart and without losing or repeating queued commands.",
 ["fault_sequences", "histories", "schedules"],
 "all sequences of outages and recoveries of the command file, at any point relative to client activity",
 TESTS + "the FIFO always exists and always has a reader.",
 ["src/server/fifo.c"],
 [("reopen timer", "src/server/fifo.c: open_cb, write_cb")],
 [("fd", "FIFO descriptor or -1", "src/server/fifo.c")],
 ["descriptors written to", "simulated time from recovery to delivery"])

prop("P15", "Commands are delivered in the order they were acknowledged",
 "As long as no dump file is needed, commands reach the command FIFO in the order in which the server accepted them; in particular the commands of one client arrive in the order that client sent them, and each dump file lists its commands in acceptance order.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of sessions, FIFO outages and back-pressure that keep the queue within the atomic pipe size, and the content order of every dump file otherwise",
 TESTS + "each test submits at most a few commands over one session and only compares the set of lines.",
 ["src/server/fifo.c", "src/common/buffer.c"],
 [("single FIFO queue; output precedes output_buffer", "src/server/fifo.c: write_cb, join_buffers")],
 [], ["order of commands on the FIFO and in dump files versus order of acceptance"])

prop("P16", "At most one server holds a PID file, which names it",
 "For any interleaving of server starts, stops, crashes and reloads that share a PID file, at most one running server has passed start-up with it at any time; a second one exits with an error without disturbing the first or its PID file. While a server runs, the file contains its process ID; after an orderly exit the file is gone, and a file left behind by a crash does not prevent a start.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings, at system-call granularity, of concurrent starts, exits, crashes and reloads",
 TESTS + "no test starts two servers with one PID file or crashes one.",
 ["lib/pidfile/pidfile.c", "lib/pidfile/flopen.c", "src/server/nsca-ng.c"],
 [("advisory lock on the PID file with re-check of its inode", "lib/pidfile/flopen.c"),
  ("verification before write/remove", "lib/pidfile/pidfile.c")],
 [("pfh", "open, locked PID file", "src/server/nsca-ng.c")],
 ["file system state", "set of servers past start-up", "exit statuses"])

prop("P17", "SIGTERM, SIGINT and SIGHUP stop or reload the server in an orderly way",
 "At whatever moment SIGTERM or SIGINT arrives while the server runs (readiness announced, no earlier signal being handled), it exits with status 0 within a bounded time, having removed its PID file, written only whole commands, and accessed no freed memory, even with sessions, queued commands or an asynchronous dump in progress. At whatever such moment SIGHUP arrives, the server re-executes itself with the original arguments, however it was started (as a daemon, in the foreground, socket activated, as another user), takes the configuration as it is then, releases the descriptors of its former self, and serves again on the same address and FIFO.",
 ["crash_points", "schedules"],
 "all points of a run at which the signal can arrive, including during dumps and signal storms",
 TESTS + "the test servers are killed with one SIGTERM while idle.",
 ["src/server/nsca-ng.c", "src/server/fifo.c", "src/common/tls.c"],
 [("signal watchers break the event loop", "src/server/nsca-ng.c: signal_cb"), ("re-execution", "src/server/nsca-ng.c: main")],
 [], ["exit status", "PID file", "sanitizer reports", "service after reload"])

prop("P18", "Watchdog and readiness notifications follow the contract",
 "When the init system configured a watchdog interval, the server announces readiness once it can serve and then sends keep-alive messages so that two successive ones are never further apart than half the interval, however busy it is with clients, dumps and FIFO outages, and however often it is reloaded meanwhile. Without a watchdog interval it sends none, and it never announces readiness if start-up fails.",
 ["schedules", "configurations", "fault_sequences"],
 "all watchdog intervals and workloads, clock changes included",
 TESTS + "there is no init system in the tests.",
 ["src/server/nsca-ng.c"],
 [("repeating keep-alive timer", "src/server/nsca-ng.c: notify_systemd, keep_alive_cb")],
 [], ["simulated times of notifications"])

prop("P19", "Perl/Python client library: success means the server took the command",
 "When the client library behind the Perl and Python bindings reports success for a submission, the server acknowledged, during that call, exactly the command requested (cut at about 1 kB, the library's buffer size); it never sends a command nobody asked for, and when it reports failure it gives a non-empty reason, which includes the server's reason if the server refused the command. A report of failure is never given when the network and the server are healthy, the command is permitted and the session was not idle beyond the server's timeout. A submission with unusable arguments (malformed timestamp, missing host or service) fails. Any response from any peer, at any moment, and arguments of any length and content are handled without memory errors and without killing the calling program.",
 ["inputs", "fault_sequences", "schedules"],
 "all submissions, argument lengths and server behaviours (delays, FAIL, BAIL, garbage, resets, closed sessions, outages) over sequences of submissions on several handles of one program",
 TESTS + "the bindings are not built or run by any stable test.",
 ["perl/client.c", "perl/Client.xs", "python/client.c", "python/nscang.c"],
 [("blocking request/response with deadline", "perl/client.c, python/client.c: nscang_client_write, nscang_client_response"),
  ("retry after a failed attempt", "perl/Client.xs: _result; python/nscang.c: nscang_host_result, nscang_svc_result")],
 [("c->state", "session state of the handle", "perl/client.h, python/client.h"),
  ("nscang_client_instances", "table mapping TLS sessions to handles (and so to identities)", "perl/client.c, python/client.c")],
 ["return values", "error messages", "commands acknowledged by the server", "sanitizer reports", "termination of the calling program"])

prop("P20", "Command size limit is enforced exactly",
 "With a non-zero maximum command size, a PUSH announcing more bytes than the maximum is refused with FAIL whatever number it spells, and a PUSH announcing between one byte and the maximum is accepted. The server reads exactly the announced number of bytes as command data, and the limit of 0 disables the check, except that numbers no buffer could hold (2147483647 and beyond) are refused even then.",
 ["inputs", "configurations"],
 "all announced numbers (including signs, leading blanks and zeros, overflowing values) and all limits",
 TESTS + "no test announces more than a few dozen bytes.",
 ["src/server/server.c", "src/common/tls.c"],
 [("comparison with the configured limit", "src/server/server.c: handle_connection"), ("exact-length read", "src/common/tls.c: read_bytes")],
 [], ["responses", "commands queued"])

prop("P21", "Request lines within the limit are served, overlong ones are cut off",
 "A request line of up to 1024 bytes is processed however it is fragmented. A client that sends a line without end gets `BAIL Request line too long' and is disconnected after a bounded number of bytes, the server never buffers more than a few kilobytes for it, and other sessions are not affected.",
 ["inputs", "schedules"],
 "all line lengths around the limits and all fragmentations",
 TESTS + "send_nsca's lines are short.",
 ["src/common/tls.c", "src/server/server.c"],
 [("limit check in the line reader", "src/common/tls.c: read_line"), ("bail", "src/server/server.c: handle_line_too_long")],
 [], ["responses", "live memory of the server"])

prop("P22", "A server reachable at any of its addresses is reached",
 "When the server name resolves to several addresses and at least one of them accepts connections, send_nsca reaches the server and submits its records even if the addresses tried before refuse the connection, immediately or after a delay.",
 ["fault_sequences", "schedules"],
 "all subsets and orders of refusing addresses and all ways of refusing",
 TESTS + "the tests connect to one literal address.",
 ["src/common/tls.c"],
 [("connection set-up", "src/common/tls.c: tls_connect, connect_cb")],
 [], ["exit status", "commands received by the server"])

prop("P23", "Perl/Python client library calls return within their timeout",
 "Every submission through the client library returns within a bounded time after its timeout, whatever the server does (stall at any stage, trickle, never accept), and makes progress as soon as the server answers, without occupying the processor while it waits and unaffected by changes of the system time. A failed submission leaves the handle usable: once the server is healthy again, at most one more submission on it fails.",
 ["fault_sequences", "schedules"],
 "all stages at which the server can stall and all sequences of failing and succeeding submissions on one handle",
 TESTS + "the bindings are not built or run by any stable test.",
 ["perl/client.c", "python/client.c"],
 [("deadline checks and sleeps between attempts", "perl/client.c, python/client.c: nscang_client_write, nscang_client_response"),
  ("disconnect resets the handle", "nscang_client_disconnect")],
 [], ["simulated duration of calls", "number of system calls", "results of later submissions"])

prop("P24", "Privileges are dropped before anything is served",
 "A server configured with `user' and/or `chroot' touches neither the network nor its PID file, command file or dump files before it has switched for good: all user and group IDs (saved ones included) and supplementary groups are those of the configured user, and its root and working directory are those of the `chroot' setting. If the user is unknown or any step fails, it exits with an error having served nobody and created nothing. After a reload it serves as that user again, and a server already running as that user serves without any privileges. Paths are taken relative to the new root directory, and everything else works as without these settings.",
 ["configurations", "fault_sequences"],
 "all combinations of user, chroot, initial credentials and reloads and all points at which one of the steps fails",
 TESTS + "the tests don't run the server with these settings.",
 ["src/server/nsca-ng.c"],
 [("order of set-up steps in main", "src/server/nsca-ng.c: main, drop_privileges"),
  ("re-execution on SIGHUP", "src/server/nsca-ng.c: main")],
 [("process credentials, root directory", "who the process is to the kernel", "src/server/nsca-ng.c: drop_privileges")],
 ["credentials and root directory at each bind, listen, accept, open, unlink, rename", "exit status", "commands delivered"])

prop("P25", "Commands and passwords stay between the two parties that share the password",
 "send_nsca and the client library submit commands only to a server that has proven to know the client's password, however it presents itself (certificates, anonymous or unencrypted cipher suites, another password, any TLS version), and treat all others as a failure. No protocol message, command or password is ever sent unencrypted by a client or the server, and passwords never appear in log messages.",
 ["inputs", "fault_sequences", "schedules"],
 "all servers not knowing the password and all faults during a session",
 TESTS + "the tests only ever let the clients talk to a genuine server.",
 ["src/common/tls.c", "src/client/client.c", "perl/client.c", "python/client.c"],
 [("TLS context set-up", "src/common/tls.c: initialize_openssl, tls_client_start; perl/client.c, python/client.c: nscang_client_init"),
  ("key exchange callbacks", "src/client/client.c: set_psk; src/server/server.c: check_psk")],
 [("password", "shared secret", "configuration, client options")],
 ["bytes on the wire", "commands seen by impostors", "log messages", "exit status"])

prop("P26", "Commands are logged truthfully, and clients cannot forge log entries",
 "At the default log level and above, the server's log holds exactly one entry for each command it queued and for each one it refused, naming the authenticated identity, the address and the session of the client which really submitted it, saying truthfully whether it was queued or refused, and quoting it (up to the length limit of messages). Nothing a client sends - identities (authenticated or not), session identifiers, requests, commands - yields additional entries, entries spread over several lines, or control characters in the log.",
 ["inputs", "schedules", "histories"],
 "all byte strings a client can send at any stage, by any mix of concurrent sessions",
 TESTS + "the tests never look at the server's log.",
 ["src/common/log.c", "src/server/server.c", "src/server/auth.c", "src/common/tls.c"],
 [("one entry per decision on a command", "src/server/server.c: handle_push"),
  ("peer designation ID@ADDRESS", "src/common/tls.c: accept_tcp_cb, accept_ssl_cb"),
  ("messages are made printable", "src/common/log.c: vlog")],
 [("tls->peer, tls->id", "whom an entry names", "src/common/tls.h")],
 ["log entries (standard error, syslog)", "responses to PUSH", "identity and address of each session"])

prop("P27", "Start-up succeeds completely or fails without a trace",
 "The server announces readiness, or detaches from its starter in daemon mode, only once it accepts connections at exactly the configured address and port (command-line options prevailing over the configuration file), so whoever sees it come up can use it at once; and with a valid configuration it does come up. If anything needed is missing or fails (configuration, temporary directory, PID file, address, port, name service, sockets, detaching) it exits soon, with a non-zero status and a logged reason, without detaching (save for a PID that cannot be written, which shows only afterwards), without having served anyone, and without leaving PID or temporary files behind or disturbing a server that is running already.",
 ["configurations", "fault_sequences", "schedules"],
 "all combinations of settings, modes of operation and failing start-up steps, with other servers running",
 TESTS + "the tests start one well-configured server in the foreground or background and look at it only later.",
 ["src/server/nsca-ng.c", "src/server/server.c", "src/server/conf.c", "lib/pidfile/pidfile.c", "src/common/tls.c"],
 [("order of set-up steps in main", "src/server/nsca-ng.c: main"),
  ("failing steps are fatal", "src/server/server.c: server_start; src/common/tls.c: tls_server_start; src/server/conf.c: conf_parse")],
 [("pfh", "the PID file held", "src/server/nsca-ng.c: main")],
 ["exit status, log", "listening sockets", "moment of detaching and of READY=1", "files present after exit"])

prop("P28", "Client library objects can come and go without crashes or leaks",
 "A program using the Perl or Python module may construct, use and destroy any number of client objects, in any order, including constructors that fail (missing or unusable arguments, unusable cipher lists, no memory): a failed constructor reports an error and has no effect on other objects, no sequence of such calls crashes or ends the program, and once all objects are gone, no memory and no descriptors of theirs are left, so a program doing this forever doesn't grow.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of constructions (successful or failing, at any allocation of the module), uses and destructions of any number of objects",
 TESTS + "only the Perl module is tested, and only with arguments it refuses.",
 ["perl/client.c", "perl/Client.xs", "python/client.c", "python/nscang.c"],
 [("construction and destruction", "perl/client.c, python/client.c: nscang_client_init, nscang_client_free"),
  ("binding objects", "perl/Client.xs: _new, DESTROY; python/nscang.c: NSCAngNotifyer_init, NSCAngNotifyer_dealloc")],
 [("nscang_client_instances", "table of the live clients", "perl/client.c, python/client.c")],
 ["result of each call", "memory and descriptors held after all objects are gone", "the program's survival"])

prop("P29", "Running out of memory ends a program cleanly or not at all",
 "If an allocation of nsca-ng's or send_nsca's own code fails, at any point of any operation, the program says so in its log and exits at once with a non-zero status (the server removing its PID file as usual) instead of crashing, hanging, or carrying on with truncated or missing data; whatever the monitoring daemon receives are complete, submitted commands, each once (commands still queued by a server which exits are lost), a server started again serves, and send_nsca reports success only if all its input was acknowledged.",
 ["fault_sequences", "schedules", "inputs"],
 "every allocation point of the programs' own code, under all schedules and inputs (allocations within OpenSSL, libconfuse, libev and the hash tables excepted)",
 TESTS + "the tests never let an allocation fail.",
 ["src/common/util.c", "src/common/buffer.c", "src/server/server.c", "src/server/fifo.c", "src/client/input.c", "src/client/client.c"],
 [("checked allocation", "src/common/util.c: xmalloc, xrealloc, xstrdup, xvasprintf"),
  ("exit on fatal errors", "src/common/log.c: die")],
 [],
 ["exit status and log after a failed allocation", "acknowledged and delivered commands", "PID file"])

# Honest not-applicable properties: no concurrency, time, I/O or multi-party behaviour.
prop("P90", "Configuration files are parsed as documented",
 "Each documented setting and quoting rule of nsca-ng.cfg and send_nsca.cfg takes effect as the manual pages say, and a malformed file is rejected with its line number.",
 ["inputs", "configurations"], "all configuration texts",
 TESTS + "a few fixed configuration files are used.",
 ["src/server/conf.c", "src/client/conf.c"], [("parsers", "src/server/conf.c, src/client/conf.c")], [], ["effective settings"])
prop("P91", "Command-line options are parsed as documented",
 "Each documented option of nsca-ng and send_nsca has its documented effect, overrides the configuration file, and a malformed option is rejected.",
 ["inputs"], "all argument vectors",
 TESTS + "a few fixed option sets are used.",
 ["src/server/nsca-ng.c", "src/client/send_nsca.c"], [("getopt loops", "get_options")], [], ["effective settings"])
