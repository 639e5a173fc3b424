S = {}
def seed(name, property, needs, breaks, edits, demo, **k): S[name] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)

seed("p14-epipe-drops-queue", "P14",
 "The reader of the command FIFO goes away while the server holds it open, then a command arrives (the write fails with EPIPE), and a reader returns later.",
 "The command whose write failed because the reader went away is thrown away instead of being kept until a reader returns: an acknowledged command is lost.",
 [("src/server/fifo.c", '''				(void)close(fifo->fd);
				fifo->fd = -1;
				ev_io_stop(EV_A_ w);
				ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);''', '''				(void)close(fifo->fd);
				fifo->fd = -1;
				free_output(fifo);
				ev_io_stop(EV_A_ w);
				ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);''')],
 '''
from kit import *
s = Server(reader=True); t = Tls(s.port).moin()
if t.push(host_cmd(1, "one")) != "OKAY": fail("refused")
wait_for(lambda: len(delivered(s.r)) >= 1, 3)
s.r.close()
if t.push(host_cmd(2, "two")) != "OKAY": fail("refused")
time.sleep(0.3)
r = Reader(s)
wait_for(lambda: any("2two" in l for l in delivered(r)), 25)
if t.push(host_cmd(3, "three")) != "OKAY": fail("refused")
wait_for(lambda: any("3three" in l for l in delivered(r)), 5)
got = [l.split(";")[-1] for l in delivered(r)]
if got != ["2two", "3three"]: fail("delivered after the outage: %r" % got)
ok()
''')

seed("p02-reopen-skips-dump", "P02",
 "More than PIPE_BUF bytes of commands are queued while the FIFO has no reader, and the reader then drains slowly, so that the pipe cannot take all of them at once.",
 "After an outage the whole queue is written to the FIFO with one big write instead of a dump file; the write is neither atomic nor complete, so commands are torn and lost.",
 [("src/server/fifo.c", '''		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}

	if (fifo->fd == -1) {''', '''		if (!buffers_are_empty(fifo))
			ev_io_start(EV_A_ &fifo->write_watcher);
	}

	if (fifo->fd == -1) {''')],
 '''
from kit import *
s = Server(); t = Tls(s.port).moin(); sent = []
for i in range(120):
    c = host_cmd(i, "-" + "x" * 990); sent.append(c[:-1])
    if t.push(c) != "OKAY": fail("refused")
r = Reader(s, drain=False)
wait_for(lambda: "Opened the command file" in s.log(), 15)
time.sleep(1); r.drain()
wait_for(lambda: len(delivered(r)) >= 120, 10)
got = delivered(r)
if sorted(got) != sorted(sent): fail("delivered %d lines, %d of them commands that were sent, of %d" % (len(got), len(set(got) & set(sent)), len(sent)))
ok()
''')

seed("p12-short-aio-write", "P12",
 "Writing a dump file asynchronously ends short (the disk is almost full), without an error.",
 "A PROCESS_FILE command is sent for a dump file that lacks the last part of the acknowledged commands.",
 [("src/server/fifo.c", '''	} else if ((n = aio_return(&fifo->async_cb))
	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */''', '''	} else if ((n = aio_return(&fifo->async_cb)) <= 0) { /* An error. */''')],
 '''
from kit import *
so = preload("short", r"""
#include <aio.h>
#include <dlfcn.h>
int aio_write(struct aiocb *cb) { static int (*f)(struct aiocb *); if (!f) f = dlsym(RTLD_NEXT, "aio_write"); cb->aio_nbytes -= 2000; int r = f(cb); return r; }
ssize_t aio_return(struct aiocb *cb) { static ssize_t (*f)(struct aiocb *); if (!f) f = dlsym(RTLD_NEXT, "aio_return"); ssize_t r = f(cb); cb->aio_nbytes += 2000; return r; }
""")
s = Server(reader=True, env={"LD_PRELOAD": so}); t = Tls(s.port).moin()
if t.push(host_cmd(1, "y" * 9000)) != "OKAY": fail("refused")
if t.push(host_cmd(2, "")) != "OKAY": fail("refused")
wait_for(lambda: any(l.endswith(";2") for l in s.r.lines()), 5); time.sleep(0.5)
for l in s.r.lines():
    if "PROCESS_FILE" in l and open(l.split(";")[1]).read() != host_cmd(1, "y" * 9000): fail("a PROCESS_FILE command names an incomplete dump file")
if not any(l.endswith(";2") for l in s.r.lines()): fail("the server doesn't go on")
ok()
''')

seed("p13-overflow-keeps-fragment", "P13",
 "The queue reaches the configured maximum while the FIFO is not available, and a reader returns afterwards.",
 "On overflow only as many bytes as the new command needs are dropped from the head of the queue, so that the first command kept is a fragment of one.",
 [("src/server/fifo.c", '''			buffer_free(fifo->output_buffer);
			fifo->output_buffer = buffer_new();
		}
		debug("Queueing %zu byte(s) for command file", size);''', '''			/* Make room for the new command. */
			if (buffer_size(fifo->output_buffer) > size) {
				unsigned char *old = xmalloc(size);

				(void)buffer_read(fifo->output_buffer, old,
				    size);
				free(old);
			}
		}
		debug("Queueing %zu byte(s) for command file", size);''')],
 '''
from kit import *
s = Server(conf="max_queue_size = 1"); t = Tls(s.port).moin(); sent = []
for i in range(130):
    c = host_cmd(i, "-" + chr(97 + i % 26) * (9000 + 17 * i)); sent.append(c[:-1])
    if t.push(c) != "OKAY": fail("refused")
r = Reader(s)
wait_for(lambda: delivered(r), 15); time.sleep(0.5)
got = delivered(r)
if not got or got[-1] != sent[-1]: fail("the newest command was not delivered")
bad = [l for l in got if l not in sent]
if bad: fail("a fragment was delivered: %r..." % bad[0][:60])
if "THROWING DATA AWAY" not in s.log(): fail("nothing logged")
ok()
''')

seed("p15-join-order", "P15",
 "A command is waiting to be written because the FIFO is full, and later commands queue up behind it until a dump file is needed.",
 "The dump file lists the command accepted first last.",
 [("src/server/fifo.c", '''	if (fifo->output != NULL)
		(void)memcpy(new_output, fifo->output, fifo->output_size);

	(void)buffer_read(fifo->output_buffer,
	    new_output + fifo->output_size,
	    new_size - fifo->output_size);
''', '''	(void)buffer_read(fifo->output_buffer, new_output,
	    new_size - fifo->output_size);

	if (fifo->output != NULL)
		(void)memcpy(new_output + new_size - fifo->output_size,
		    fifo->output, fifo->output_size);
''')],
 '''
from kit import *
s = Server(start=False)
r = Reader(s, drain=False)
s.start()
w = os.open(s.fifo, os.O_WRONLY | os.O_NONBLOCK); n = 0 # fill the pipe
try:
    while True: n += os.write(w, b"#" * 1023 + b"\\n")
except BlockingIOError: pass
try:
    while True: n += os.write(w, b"\\n")
except BlockingIOError: pass
t = Tls(s.port).moin()
for i in range(12):
    if t.push(host_cmd(i, "-" + "z" * 700)) != "OKAY": fail("refused")
time.sleep(0.5)
r.drain()
get = lambda: [l for l in delivered(r) if "PROCESS_HOST" in l]
wait_for(lambda: len(get()) >= 12, 15)
for l in r.lines():
    if "PROCESS_FILE" in l:
        o = [int(x.split(";")[-1].split("-")[0]) for x in open(l.split(";")[1]).read().split("\\n")[:-1]]
        if o != sorted(o): fail("order of the commands in a dump file: %r" % o)
if len(get()) != 12: fail("%d commands delivered" % len(get()))
ok()
''')

seed("p03-embedded-newline", "P03",
 "A client with limited permissions submits one PUSH whose data is an allowed command followed by a newline and another command.",
 "Only the last newline of the data is looked at, so a permitted service check result can smuggle any other command to the monitoring daemon.",
 [("src/server/auth.c", "if ((newline = strchr(command, '\\n')) == NULL) {", "if ((newline = strrchr(command, '\\n')) == NULL) {")],
 '''
from kit import *
s = Server(reader=True, auth='authorize "web" { password = "secret"  services = "HTTP@www" }\\n')
t = Tls(s.port, id="web").moin()
good = "[1700000000] PROCESS_SERVICE_CHECK_RESULT;www;HTTP;0;fine\\n"
if t.push(good) != "OKAY": fail("permitted command refused")
r = t.push("[1700000000] PROCESS_SERVICE_CHECK_RESULT;www;HTTP;0;fine\\n[1700000000] SHUTDOWN_PROGRAM\\n")
t.quit(); time.sleep(0.5)
if r == "OKAY" or any("SHUTDOWN" in l for l in s.r.lines()): fail("a command that isn't permitted was queued: %r" % s.r.lines())
if not r.startswith("FAIL"): fail("unexpected answer " + r)
ok()
''')

seed("p08-shutdown-keeps-handler", "P08",
 "A client falls silent in mid-session, gets the BAIL message after the timeout, and neither closes the connection nor answers the TLS close_notify for another timeout.",
 "The session's own timeout handler stays in place during the TLS shutdown; it runs a second time on a connection whose state was released, so the connection is not closed on time and the server may crash.",
 [("src/common/tls.c", '''	tls->error_handler = NULL;
	tls->timeout_handler = default_timeout_handler;

	tls_on_drain(''', '''	tls->error_handler = NULL;

	tls_on_drain(''')],
 '''
from kit import *
s = Server(conf="timeout = 1", env={"MALLOC_CHECK_": "3"}); t = Tls(s.port).moin()
l = t.line()
if l != "BAIL Connection timed out": fail("got %r" % l)
time.sleep(3.5) # TCP stays open; close_notify is not answered
if not s.alive(): fail("the server died: %r" % s.log()[-300:])
u = Tls(s.port).moin()
if u.push(host_cmd(1, "x")) != "OKAY": fail("no service")
u.quit()
time.sleep(1.2)
n = s.fds()
if s.log().count("WARNING] Connection to") > 2: fail("the connection isn't closed")
if not s.alive(): fail("the server died: %r" % s.log()[-300:])
v = Server(name="ref", conf="timeout = 1")
if n > v.fds(): fail("%d descriptors instead of %d: the silent connection is still open" % (n, v.fds()))
ok()
''')

seed("p20-short-input-length", "P20",
 "The limit is disabled or raised, and a client announces a command of 64 kilobytes or more.",
 "The announced size is kept in a 16-bit variable, so that the server reads fewer bytes than announced and takes the rest of the command for request lines.",
 [("src/server/server.c", """	size_t input_length;
} connection_state;""", """	unsigned short input_length;
} connection_state;"""), ("src/server/server.c", """			connection->input_length = (size_t)data_size;""", """			connection->input_length = (unsigned short)data_size;""")],
 '''
from kit import *
s = Server(conf="max_command_size = 200000", reader=True); t = Tls(s.port).moin()
for n in (60000, 70000, 190000):
    r = t.push(host_cmd(n, "x" * n))
    if r != "OKAY": fail("a command of %d bytes was answered with %r" % (n, r))
if not wait_for(lambda: len(list(delivered(s.r))) == 3): fail("the commands did not arrive")
ok()
''')

seed("p21-unlimited-line", "P21",
 "A client sends a request line that never ends.",
 "The check for overlong lines no longer takes the buffered bytes into account, so the server buffers without limit and never cuts the client off.",
 [("src/common/tls.c", '''		if (buffer_size(tls->input_buffer) + tls->input_size
		    > LINE_MAX_SIZE) {''', '''		if (tls->input_size > LINE_MAX_SIZE) {''')],
 '''
from kit import *
s = Server(); t = Tls(s.port, timeout=3).moin()
n = 0
for i in range(64):
    if not t.send("A" * 1024): break
    n += 1024; time.sleep(0.005)
l = t.line()
if l != "BAIL Request line too long": fail("got %r after %d bytes without a newline" % (l, n))
ok()
''')

seed("p11-partial-data-leak", "P11",
 "Clients that announce command data and then vanish after sending only a part of it.",
 "The buffer for command data that was not received completely is not released with the connection.",
 [("src/common/tls.c", '''	if (tls->input != NULL)
		free(tls->input);
	if (tls->output != NULL)''', '''	if (tls->output != NULL)''')],
 '''
from kit import *
s = Server(conf="max_command_size = 2000000")
def one():
    t = Tls(s.port).moin()
    if t.req("PUSH 1500000") != "OKAY": fail("refused")
    t.send("x" * 1400000); time.sleep(0.01); t.close()
for i in range(20): one()
time.sleep(0.5); a = s.rss()
for i in range(60): one()
time.sleep(0.5); b = s.rss()
if b - a > 20000: fail("60 aborted submissions left %d kB behind" % (b - a))
ok("%d kB -> %d kB" % (a, b))
''')

seed("p18-subsecond-watchdog", "P18",
 "The init system's watchdog interval is not a whole number of seconds, in particular if it is below one second.",
 "The interval is cut to whole seconds before it is divided, so no keep-alive messages are sent at all for an interval of, say, 900 ms.",
 [("src/server/nsca-ng.c", "(ev_tstamp)atol(usec) / 1000 / 1000) > 0.0) {", "(ev_tstamp)(atol(usec) / 1000 / 1000)) > 0.0) {")],
 '''
from kit import *
p = os.path.join(TMP, "notify"); n = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM); n.bind(p); n.settimeout(3)
s = Server(env={"NOTIFY_SOCKET": p, "WATCHDOG_USEC": "900000"}); last = time.time(); got = 0
try:
    while got < 6:
        m = n.recv(4096).decode()
        if "WATCHDOG=1" in m:
            got += 1
            if got > 2 and time.time() - last > 0.6: fail("keep-alive messages %.2f s apart" % (time.time() - last))
            last = time.time()
except socket.timeout: fail("no keep-alive messages")
ok()
''')

seed("p16-no-inode-check", "P16",
 "A second server opens the PID file just before the first one removes it on exit and locks it just after, while a third one starts.",
 "The lock may be held on a PID file that was already removed, so the file is missing while the server runs and a further server starts as well.",
 [("lib/pidfile/flopen.c", '''		if (sb.st_dev != fsb.st_dev ||
		    sb.st_ino != fsb.st_ino) {''', '''		if (sb.st_dev != fsb.st_dev) {'''),
  ("lib/pidfile/flopen.c", '''		if (stat(path, &sb) == -1) {
			/* disappeared from under our feet */
			(void)close(fd);
			continue;
		}
		if (fstat(fd, &fsb) == -1) {''', '''		if (stat(path, &sb) == -1 && fstat(fd, &sb) == -1) {
			/* disappeared from under our feet */
			(void)close(fd);
			continue;
		}
		if (fstat(fd, &fsb) == -1) {''')],
 '''
from kit import *
# Delay flock(2) of the second server until the first one is gone.
so = preload("slow", r"""
#include <dlfcn.h>
#include <unistd.h>
#include <stdlib.h>
int flock(int fd, int op) { static int (*f)(int, int); if (!f) f = dlsym(RTLD_NEXT, "flock"); char *m = getenv("DEMO_WAIT"); static int once; if (m && !once++) { close(open(m, 0101, 0600)); usleep(1500000); } return f(fd, op); }
""".replace("#include <stdlib.h>", "#include <stdlib.h>\\n#include <fcntl.h>"))
pid = os.path.join(TMP, "pid"); mark = os.path.join(TMP, "mark"); c = 'pid_file = "%s"' % pid
a = Server(c, name="a")
if open(pid).read() != str(a.p.pid): fail("first server's PID file is wrong")
b = Server(c, name="b", env={"LD_PRELOAD": so, "DEMO_WAIT": mark}, wait=False)
if not wait_for(lambda: os.path.exists(mark)): fail("second server didn't lock")
if a.stop() != 0: fail("first server didn't stop")
if not wait_for(b.up, 6) or not b.alive(): fail("second server didn't start: " + b.log())
if not os.path.exists(pid) or open(pid).read() != str(b.p.pid): fail("the second server runs, but its PID file doesn't say so")
d = Server(c, name="d"); time.sleep(0.3)
if d.alive() and b.alive(): fail("two servers run with the same PID file")
ok()
''')

seed("p17-blocking-flush", "P17",
 "SIGTERM or SIGHUP arrives while commands are queued because the FIFO is full and its reader is stuck.",
 "On exit the server tries to write the queue to the FIFO in blocking mode, so it hangs for as long as the reader is stuck instead of stopping.",
 [("src/server/fifo.c", """	buffer_free(fifo->output_buffer);

	if (fifo->output != NULL)
		free(fifo->output);""", """	/* Don't lose what's still queued. */
	if (fifo->fd != -1 && !buffers_are_empty(fifo)
	    && !buffers_exceed_pipe_size(fifo)
	    && fcntl(fifo->fd, F_SETFL, 0) != -1)
		ev_invoke(EV_DEFAULT_UC_ &fifo->write_watcher, EV_CUSTOM);

	buffer_free(fifo->output_buffer);

	if (fifo->output != NULL)
		free(fifo->output);""")],
 """
from kit import *
s = Server(start=False); r = Reader(s, drain=False); s.start()
w = os.open(s.fifo, os.O_WRONLY | os.O_NONBLOCK)
try:
    while True: os.write(w, b"#" * 1023 + b"\\n")
except BlockingIOError: pass
t = Tls(s.port).moin()
if t.push(host_cmd(1, "x")) != "OKAY": fail("refused")
t.quit(); time.sleep(0.3)
rc = s.stop(t=6)
if rc is None: fail("the server hangs after SIGTERM")
if rc != 0: fail("exit status %d" % rc)
ok()
""")

seed("p17-exec-by-name", "P17",
 "A server that was started by an absolute path outside the search path gets SIGHUP.",
 "The server is re-executed by its bare name, so the reload fails (or runs another program) unless its directory is in the search path.",
 [("src/server/nsca-ng.c", "		execvp(argv[0], argv);", "		execvp(getprogname(), argv);")],
 """
from kit import *
s = Server(reader=True)
k = s.log().count("starting up"); s.p.send_signal(signal.SIGHUP)
if not wait_for(lambda: s.log().count("starting up") > k, 6): fail("no reload: " + s.log()[-200:])
t = Tls(s.port).moin()
if t.push(host_cmd(2, "x")) != "OKAY": fail("refused after reload")
ok()
""")

seed("p09-no-handshake-timeout", "P09",
 "The server accepts the TCP connection, but never answers the TLS handshake.",
 "The timeout is only set once the TLS connection is established, so the client hangs for ever if the handshake stalls.",
 [("src/common/tls.c", """	tls_on_timeout(tls, handle_timeout);

	if ((tls->bio = BIO_new_connect((char *)server)) == NULL)""", """	if (handle_timeout != NULL)
		tls->timeout_handler = handle_timeout;

	if ((tls->bio = BIO_new_connect((char *)server)) == NULL)"""),
  ("src/common/tls.c", """		if (!(revents & EV_CUSTOM))
			ev_io_stop(EV_A_ w);
		tls->connect_handler(tls);""", """		if (!(revents & EV_CUSTOM))
			ev_io_stop(EV_A_ w);
		tls_on_timeout(tls, tls->timeout_handler);
		tls->connect_handler(tls);""")],
 """
from kit import *
def h(c, n):
    time.sleep(60)
L = Listener(h)
t0 = time.time(); rc, err = send_nsca(L.port, b"h\\t0\\tx\\n", args=["-o", "2"], timeout=12); dt = time.time() - t0
if rc is None: fail("the client hangs although its timeout is 2 s")
if rc == 0 or not err: fail("exit status %r, message %r" % (rc, err))
ok("%.1f s" % dt)
""")

seed("p05-fail-after-data", "P05",
 "The server refuses a record after its data was sent (FAIL instead of the second OKAY), and further records follow on standard input.",
 "A refusal of the last record is only logged as such: the client goes on with the next record and finally exits with status 0.",
 [("src/client/client.c", '''	if (strcasecmp("OKAY", line) == 0)
		input_read_chunk(client->input, handle_input_chunk);
	else if (!server_is_grumpy(tls, line))
		bail(tls, "Received unexpected response after sending command(s)");
''', '''	if (strcasecmp("OKAY", line) == 0)
		input_read_chunk(client->input, handle_input_chunk);
	else if (strcasecmp("FAIL", line) == 0) {
		critical("Server said: %s", line);
		input_read_chunk(client->input, handle_input_chunk);
	} else if (!server_is_grumpy(tls, line))
		bail(tls, "Received unexpected response after sending command(s)");
''')],
 '''
from kit import *
def h(c, n):
    t = Tls(sock=c, server=True); k = 0
    while True:
        l = t.line()
        if l is None: t.shutdown(); t.close(); return
        if l.startswith("MOIN"): t.send("MOIN 1\\r\\n")
        elif l.startswith("PUSH"):
            t.send("OKAY\\r\\n"); t.bytes(int(l.split()[1])); k += 1
            t.send("FAIL\\r\\n" if k == 2 else "OKAY\\r\\n")
        elif l.startswith("QUIT"): t.send("OKAY\\r\\n")
L = Listener(h)
rc, err = send_nsca(L.port, b"h\\t0\\tone\\n\\x17h\\t0\\ttwo\\n\\x17h\\t0\\tthree\\n", args=["-o", "5"], timeout=20)
if rc in (0, None): fail("a record was refused, but the client's exit status is %r" % rc)
ok()
''')

seed("p06-chunk-at-eof", "P06",
 "The last record on standard input has no terminating separator, and its length makes it end exactly where a read ends, so the end of file arrives with an incomplete record buffered that spans two blocks of the buffer.",
 "The final record is taken from the buffer only as far as its first block goes.",
 [("src/client/input.c", '''				chunk = xmalloc(len + 1);
				(void)buffer_read(input->buffer, chunk, len);
				chunk[len] = '\\0';''', '''				chunk = buffer_read_alloc(input->buffer, &len);
				chunk[len - 1] = '\\0';''')],
 '''
from kit import *
s = Server(reader=True)
rc, err = send_nsca(s.port, b"h\\t0\\tone\\n\\x17h\\t0\\tfinal text")
if rc != 0: fail("exit status %r: %s" % (rc, err))
time.sleep(0.5)
got = [l.split(";")[-1] for l in delivered(s.r)]
if got != ["one", "final text"]: fail("submitted %r" % got)
ok()
''')

seed("p07-refused-moin-advances", "P07",
 "A client whose handshake request is refused because of its version tries again on the same connection.",
 "A handshake that was answered with FAIL because the version is invalid leaves the handshake state all the same: the client's next MOIN is refused, and it may submit data without ever having completed the handshake.",
 [("src/server/server.c", """			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_handshake);""", """			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_connection);""")],
 '''
from kit import *
s = Server(); t = Tls(s.port)
t.send("MOIN 0 x\\r\\n"); l = t.line()
if l is None or not l.startswith("FAIL"): fail("MOIN 0 answered with %r" % l)
t.send("MOIN 1 x\\r\\n"); l = t.line()
if l != "MOIN 1": fail("the second handshake request was answered with %r" % l)
if t.push(host_cmd(1, "x")) != "OKAY": fail("no service")
ok()
''')

seed("p10-accept-error-fatal", "P10",
 "An accept(2) call fails because the server is out of descriptors or the connection was aborted.",
 "A transient error of accept(2) terminates the server.",
 [("src/common/tls.c", '''				log_tls_message(warning,
				    "Cannot accept connection");''', '''				log_tls_message(die,
				    "Cannot accept connection");''')],
 '''
from kit import *
s = Server(pre=["bash", "-c", 'ulimit -n 24; exec "$@"', "-"]); c = []
for i in range(40):
    try: c.append(socket.create_connection(("127.0.0.1", s.port), timeout=2))
    except OSError: pass
time.sleep(1)
if not s.alive(): fail("the server died: " + s.log()[-200:])
for x in c: x.close()
time.sleep(1.5)
t = Tls(s.port).moin()
if t.push(host_cmd(1, "x")) != "OKAY": fail("no service")
ok()
''')

seed("p04-empty-password", "P04",
 "A client claims an identity that has no section of its own, while other sections exist but no `*' section.",
 "For an unknown identity the key check goes on with an empty key instead of being refused by the callback; a client that offers some key of its own choice is let in.",
 [("src/server/auth.c", '''	password_len = MIN(strlen(configured_pw), max_password_len);
	(void)memcpy(password, configured_pw, password_len);''', '''	password_len = MIN(strlen(configured_pw), MIN(max_password_len, 32));
	(void)memcpy(password, configured_pw, password_len);''')],
 '''
from kit import *
pw = "0123456789abcdef0123456789abcdef-and-the-secret-part"
s = Server(reader=True, auth='authorize "x" { password = "%s" commands = ".+" }\\n' % pw)
t = Tls(s.port, id="x", pw=pw[:32])
if t.ok and t.req("MOIN 1 x") is not None: fail("a client that only knows the beginning of the password was accepted")
t = Tls(s.port, id="x", pw=pw)
if not t.ok or t.req("MOIN 1 x") != "MOIN 1": fail("the right password was refused")
ok()
''')
S["p04-empty-password"].update(needs="A password of more than 32 characters and a client that knows only its first 32.", breaks="Only the first 32 characters of the password are used as the key: a client that does not know the whole password is accepted, one that does is refused.")
S["p04-long-password-cut"] = S.pop("p04-empty-password")

seed("p01-second-dump-lost", "P01",
 "While one dump file is being written asynchronously, so many further commands arrive that a second one is needed, and then no command arrives for a while.",
 "When an asynchronous write has finished, data that piled up meanwhile is not dispatched; acknowledged commands stay in the queue until some later command triggers it.",
 [("src/server/fifo.c", '''	if (buffers_exceed_pipe_size(fifo))
		dispatch_data(fifo);
}

#else''', '''}

#else'''),
  ("src/server/fifo.c", '''		char *command = make_process_file_command(fifo);

		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
		if (close_dump_file(fifo))
			fifo_write(fifo, command, strlen(command), free);
	}
''', '''		char *command = make_process_file_command(fifo);

		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
		if (close_dump_file(fifo)) {
			if (buffers_are_empty(fifo))
				fifo_write(fifo, command, strlen(command),
				    free);
			else { /* It goes along with the queued data. */
				buffer_append(fifo->output_buffer, command,
				    strlen(command));
				free(command);
			}
		}
	}
''')],
 '''
from kit import *
so = preload("slowaio", r"""
#include <unistd.h>
#include <dlfcn.h>
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { static ssize_t (*f)(int, const void *, size_t, off_t); if (!f) f = dlsym(RTLD_NEXT, "pwrite64"); usleep(1000000); return f(fd, b, n, o); }
#include <aio.h>
#include <pthread.h>
static void *w(void *p) { struct aiocb *cb = p; static int (*f)(struct aiocb *); if (!f) f = dlsym(RTLD_NEXT, "aio_write"); usleep(1000000); f(cb); return 0; }
int aio_write(struct aiocb *cb) { pthread_t t; return pthread_create(&t, 0, w, cb) ? -1 : 0; }
""")
s = Server(reader=True, env={"LD_PRELOAD": so}); t = Tls(s.port).moin(); sent = []
for n, k in [(1, 9000), (2, 6000), (3, 200)]:
    c = host_cmd(n, "-" + "q" * k); sent.append(c[:-1])
    if t.push(c) != "OKAY": fail("refused")
wait_for(lambda: len(delivered(s.r)) >= 3, 12)
if sorted(delivered(s.r)) != sorted(sent): fail("%d of 3 acknowledged commands delivered within 12 s" % len(delivered(s.r)))
ok()
''')

seed("p19-first-handle-identity", "P19",
 "A program with two handles for different identities; the second one connects (or reconnects) while the first one exists.",
 "The PSK callback of the Python library uses the first handle of the program whatever connection it is called for, so the other handles present the wrong identity and password, and submissions fail although all is healthy.",
 [("python/client.c", '''		HASH_FIND_PTR(nscang_client_instances, &ssl, c);
''', '''		c = nscang_client_instances;
		if (c != NULL && c->ssl_ctx == NULL)
			HASH_FIND_PTR(nscang_client_instances, &ssl, c);
''')],
 '''
from kit import *
s = Server(reader=True, auth='authorize "a" { password = "pa" commands = ".+" }\\nauthorize "b" { password = "pb" hosts = "h" }\\n')
rc, out = py_run("""
a = nscang.NSCAngNotifyer("127.0.0.1", %d, "a", "pa")
b = nscang.NSCAngNotifyer("127.0.0.1", %d, "b", "pb")
a.host_result("one", 0, "first")
b.host_result("h", 0, "second")
try:
    b.host_result("x", 0, "third"); print("identity b was allowed to submit for host x")
except RuntimeError as e: print("refused:", e)
a.host_result("two", 0, "fourth")
print("end")
""" % (s.port, s.port))
if rc != 0 or "end" not in out: fail("submissions failed although all is healthy: " + out)
if "refused:" not in out: fail(out)
ok()
''')

seed("p23-handle-stuck-after-timeout", "P23",
 "A server that accepts the connection but does not answer (or stalls in the TLS handshake) while a Python program submits a result, and is healthy later.",
 "disconnect only resets the connection if a session had been established, so after a submission timed out before that, the handle keeps using the dead connection: all later submissions fail, too.",
 [("python/client.c", '''	if (c->state == NSCANG_STATE_MOIN)
		nscang_client_send_quit(c);
''', '''	if (c->state == NSCANG_STATE_NEW && SSL_in_init(c->ssl))
		return;	/* Nothing to shut down. */

	if (c->state == NSCANG_STATE_MOIN)
		nscang_client_send_quit(c);
''')],
 '''
from kit import *
held = []
l = Listener(lambda c, n: held.append(c)); port = l.port
s = Server(reader=True, start=False)
def serve(c, n): # forwards to the real server once it runs
    if n <= 2 or s.p is None: held.append(c); return
    u = socket.create_connection(("127.0.0.1", s.port))
    while True:
        r, _, _ = select.select([c, u], [], [], 20)
        if not r: return
        for x in r:
            d = x.recv(65536)
            if not d: c.close(); u.close(); return
            (u if x is c else c).sendall(d)
s.p = None; l.h = serve
s.start()
rc, out = py_run("""
a = nscang.NSCAngNotifyer("127.0.0.1", %d, "client", "secret")
for n in range(3):
    try: a.host_result("h", 0, "result %%d" %% n, 1); print("success", n)
    except RuntimeError as e: print("failure", n, e)
""" % port)
if "success 2" not in out: fail("the handle did not recover: " + out)
ok()
''')

seed("p19-signed-timestamp", "P19",
 "A Perl program submitting a command whose timestamp has a blank or a sign in front of the digits.",
 "Malformed timestamps are not rejected by the Perl client but sent to the server.",
 [("perl/client.c", '''   if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
''', '''   if(*s == ']') return -1;
''')],
 '''
from kit import *
s = Server(reader=True)
rc, out = perl_run(r"""
my $c = Net::NSCAng::Client->new("127.0.0.1", "client", "secret", port => %d, node_name => "h");
for my $t ("1", " 1", "+1", "-1", "") { print eval { $c->command("[$t] PROCESS_HOST_CHECK_RESULT;h;0;x"); 1 } ? "ok" : "bad", ";"; }
print "end";
""" % s.port)
if out != "ok;bad;bad;bad;bad;end": fail("malformed timestamps: " + out)
ok()
''')

seed("p12-close-error-ignored", "P12",
 "Commands queue up for longer than the dump interval, and the file system reports the failure to store the dump file only when it is closed (NFS, quota).",
 "A PROCESS_FILE command is issued for a dump file which couldn't be closed, i.e. isn't known to be complete.",
 [("src/server/fifo.c", '''	free(fifo->dump_file);
	fifo->dump_file = NULL;
	return (bool)(result == 0);
''', '''	free(fifo->dump_file);
	fifo->dump_file = NULL;
	return (bool)(result == 0 || errno != EBADF);
''')],
 '''
from kit import *
so = preload("closefail", r"""
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static int bad(int fd) { char l[64], t[4096]; ssize_t n; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  if ((n = readlink(l, t, sizeof t - 1)) < 0) return 0; t[n] = 0; return strstr(t, "/dump/nsca.") != NULL; }
int close(int fd) { int (*r)(int) = dlsym(RTLD_NEXT, "close"); int b = bad(fd), rc = r(fd); if (b && rc == 0) { errno = ENOSPC; return -1; } return rc; }
""")
s = Server(env={"LD_PRELOAD": so}); r = Reader(s, drain=False)
t = Tls(s.port)
t.send("MOIN 1 abcdefghijk\\r\\n"); t.line()
for n in range(3000):
    c = host_cmd(n, "x" * 200)
    t.send("PUSH %d\\n" % len(c))
    l = t.line()
    if l is None or not l.startswith("OKAY"): fail("PUSH refused: %s" % l)
    t.send(c)
    l = t.line()
    if l is None or not l.startswith("OKAY"): fail("command refused: %s" % l)
    if "Cannot close" in s.log(): break
wait_for(lambda: "Cannot close" in s.log(), 20)
r.drain(); time.sleep(2)
if not s.alive(): fail("the server died")
if b"PROCESS_FILE" in r.data: fail("a file that could not be closed was announced")
ok()
''')

_privs_shim = r'''
so = preload("privs", r"""
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/socket.h>
static void ev(const char *f, ...) { va_list a; char b[4200]; int n, (*op)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  int fd = op(getenv("PRIVS_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600); va_start(a, f); n = vsnprintf(b, sizeof b, f, a); va_end(a); write(fd, b, n);
  ((int (*)(int))dlsym(RTLD_NEXT, "close"))(fd); }
static unsigned u[3], g[3];
static void st(void) { ev("ids %u %u %u %u %u %u\n", u[0], u[1], u[2], g[0], g[1], g[2]); }
static struct passwd pw = { "svc", "x", 4321, 4322, "", "/", "/bin/false" };
struct passwd *getpwnam(const char *n) { return strcmp(n, "svc") == 0 ? &pw : NULL; }
int initgroups(const char *n, gid_t x) { ev("groups\n"); return 0; }
int setgroups(size_t n, const gid_t *l) { ev("groups\n"); return 0; }
int chroot(const char *p) { ev("chroot %s\n", p); return 0; }
int chdir(const char *p) { ev("chdir %s\n", p); return 0; }
int setuid(uid_t x) { if (u[1] == 0) u[0] = u[2] = x; u[1] = x; st(); return 0; }
int seteuid(uid_t x) { u[1] = x; st(); return 0; }
int setreuid(uid_t a, uid_t b) { if (a != -1) u[0] = a; if (b != -1) u[1] = b; u[2] = u[1]; st(); return 0; }
int setresuid(uid_t a, uid_t b, uid_t c) { if (a != -1) u[0] = a; if (b != -1) u[1] = b; if (c != -1) u[2] = c; st(); return 0; }
int setgid(gid_t x) { if (u[1] == 0) g[0] = g[2] = x; g[1] = x; st(); return 0; }
int setegid(gid_t x) { g[1] = x; st(); return 0; }
int setregid(gid_t a, gid_t b) { if (a != -1) g[0] = a; if (b != -1) g[1] = b; g[2] = g[1]; st(); return 0; }
int setresgid(gid_t a, gid_t b, gid_t c) { if (a != -1) g[0] = a; if (b != -1) g[1] = b; if (c != -1) g[2] = c; st(); return 0; }
uid_t getuid(void) { return u[0]; }
uid_t geteuid(void) { return u[1]; }
gid_t getgid(void) { return g[0]; }
gid_t getegid(void) { return g[1]; }
#define OPENS(name) int name(const char *p, int fl, ...) { va_list a; int m; va_start(a, fl); m = va_arg(a, int); va_end(a); \
  ev("open %s\n", p); return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name))(p, fl, m); }
OPENS(open) OPENS(open64)
int bind(int s, const struct sockaddr *a, socklen_t l) { ev("bind\n"); return ((int (*)(int, const struct sockaddr *, socklen_t))dlsym(RTLD_NEXT, "bind"))(s, a, l); }
""")
L = os.path.join(TMP, "privs.log"); pid = os.path.join(TMP, "pid")
s = Server('user = "svc"\nchroot = "/"\npid_file = "%s"\n' % pid, env={"LD_PRELOAD": so, "PRIVS_LOG": L}, reader=True)
if not s.alive(): fail("the server did not start: " + s.log())
evs = open(L).read().splitlines()
good = "ids 4321 4321 4321 4322 4322 4322"
'''
seed("p24-effective-only", "P24",
 "A server configured with `user' (nothing in its normal operation depends on the real and saved user IDs).",
 "Only the effective IDs are switched, so the process can get its root privileges back.",
 [("src/server/nsca-ng.c", '''	    && (setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))
''', '''	    && (setegid(pw->pw_gid) == -1 || seteuid(pw->pw_uid) == -1))
''')],
 "\nfrom kit import *\n" + _privs_shim + '''
if good not in evs: fail("privileges not dropped for good: %s" % evs)
ok()
''')
seed("p24-pidfile-first", "P24",
 "A server configured with `user'/`chroot' and `pid_file'.",
 "The PID file is opened (created, locked) with root's privileges, before they are dropped.",
 [("src/server/nsca-ng.c", '''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);

''', ""), ("src/server/nsca-ng.c", '''	server = server_start(
	    cfg_getstr(cfg, "listen"),
''', '''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);

	server = server_start(
	    cfg_getstr(cfg, "listen"),
''')],
 "\nfrom kit import *\n" + _privs_shim + '''
if good not in evs: fail("privileges not dropped: %s" % evs)
for x in ("open " + pid, "bind", "open " + s.fifo):
    if x not in evs: fail("the server did not get to: " + x)
    if evs.index(x) < evs.index(good): fail("before dropping privileges: " + x)
if "groups" not in evs or evs.index("groups") > evs.index(good): fail("groups")
ok()
''')

seed("p25-long-password-logged", "P25",
 "A password which is longer than what the TLS library accepts (256 or 512 bytes).",
 "The password is written to the log.",
 [("src/server/auth.c", '''	password_len = MIN(strlen(configured_pw), max_password_len);
	(void)memcpy(password, configured_pw, password_len);
''', '''	password_len = strlen(configured_pw);
	if (password_len > max_password_len) {
		notice("Using %u characters of overlong password `%s'",
		    max_password_len, configured_pw);
		password_len = max_password_len;
	}
	(void)memcpy(password, configured_pw, password_len);
''')],
 '''
from kit import *
pw = "0123456789abcdef" * 40
s = Server(auth='authorize "*" {\\n password = "%s"\\n commands = ".+"\\n}\\n' % pw, reader=True)
for tls12 in (False, True):
    for n in (256, 512): Tls(s.port, pw=pw[:n], tls12=tls12).s.close()
time.sleep(0.5)
if not s.alive(): fail("the server died")
if pw[:32] in s.log(): fail("the password was logged")
ok()
''')

seed("p25-verify-none", "P25",
 "An impostor which presents a certificate instead of proving that it knows the password.",
 "send_nsca submits its commands to any TLS server.",
 [("src/common/tls.c", '''	SSL_set_bio(tls->ssl, tls->bio, tls->bio);
	SSL_set_psk_client_callback(tls->ssl, set_psk);
''', '''	SSL_set_bio(tls->ssl, tls->bio, tls->bio);
	SSL_set_verify(tls->ssl, SSL_VERIFY_NONE, NULL); /* We use PSKs. */
	SSL_set_psk_client_callback(tls->ssl, set_psk);
''')],
 '''
from kit import *
import ssl
key = os.path.join(TMP, "key"); crt = os.path.join(TMP, "crt")
subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-subj", "/CN=x", "-keyout", key, "-out", crt], stderr=subprocess.DEVNULL)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(crt, key); got = []
def serve(c, n):
    try:
        t = ctx.wrap_socket(c, server_side=True)
        while True:
            d = t.recv(4096)
            if not d: break
            got.append(d); t.sendall(b"MOIN 1\\r\\n" if d[:4] == b"MOIN" else b"OKAY\\r\\n")
    except (OSError, ssl.SSLError): pass
l = Listener(serve)
p = send_nsca(l.port, b"h\\t0\\tsecret result\\n")
if got: fail("send_nsca talked to an impostor: %s" % got)
ok()
''')

seed("p22-early-refusal", "P22",
 "A server name with several addresses, the first of which refuses the connection after a delay (not immediately).",
 "send_nsca gives up instead of trying the next address.",
 [("src/common/tls.c", '''	int result;

	note_activity(EV_A_ tls);
	ERR_clear_error(); /* See the SSL_get_error() man page. */
	result = SSL_connect(tls->ssl);
''', '''	int result, error = 0;
	socklen_t len = sizeof(error);

	note_activity(EV_A_ tls);
	/* Report a failed connection attempt right away. */
	if (revents & EV_WRITE
	    && getsockopt(tls->fd, SOL_SOCKET, SO_ERROR, &error, &len) == 0
	    && (errno = error) != 0)
		die("Cannot connect to %s: %m", tls->peer);

	ERR_clear_error(); /* See the SSL_get_error() man page. */
	result = SSL_connect(tls->ssl);
''')],
 '''
from kit import *
so = preload("refuse", r"""
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
static int refused[65536];
int connect(int s, const struct sockaddr *a, socklen_t l) { int (*r)(int, const struct sockaddr *, socklen_t) = dlsym(RTLD_NEXT, "connect"); int rc = r(s, a, l);
  refused[s] = 0; if (rc == -1 && errno == ECONNREFUSED) { refused[s] = 1; errno = EINPROGRESS; } return rc; }
int getsockopt(int s, int lv, int o, void *v, socklen_t *l) { int (*r)(int, int, int, void *, socklen_t *) = dlsym(RTLD_NEXT, "getsockopt");
  if (lv == SOL_SOCKET && o == SO_ERROR && refused[s]) { refused[s] = 0; *(int *)v = ECONNREFUSED; return 0; } return r(s, lv, o, v, l); }
int getaddrinfo(const char *n, const char *sv, const struct addrinfo *h, struct addrinfo **res) {
  int (*r)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo"); struct addrinfo *b;
  if (n == NULL || strcmp(n, "many.example") != 0) return r(n, sv, h, res);
  int e = r("127.0.0.9", sv, h, res); if (e) return e;
  e = r("127.0.0.1", sv, h, &b); if (e) return e;
  struct addrinfo *p = *res; while (p->ai_next) p = p->ai_next; p->ai_next = b; return 0; }
void freeaddrinfo(struct addrinfo *a) {}
""")
s = Server(reader=True)
cfg = os.path.join(TMP, "cli"); open(cfg, "w").write('identity = "client"\\npassword = "%s"\\nserver = "many.example"\\nport = "%d"\\n' % (PW, s.port)); os.chmod(cfg, 0o600)
p = subprocess.run([CLIENT, "-S", "-c", cfg], input=b"h\\t0\\tokay\\n", capture_output=True, env=dict(os.environ, LD_PRELOAD=so), timeout=60)
if p.returncode != 0: fail("send_nsca failed although the second address works: %s" % p.stderr)
if not wait_for(lambda: b"okay" in s.r.data): fail("not delivered")
ok()
''')

# ---- P26: the log as an audit trail
seed("p26-address-of-latest", "P26",
 "Two clients at different addresses; one of them connects, the other one connects too, and only then the first one's TLS handshake completes.",
 "The entries for a client's commands name the address of whichever client connected last.",
 [("src/common/tls.c", '''		tls->addr = xmalloc(INET6_ADDRSTRLEN);
''', '''		tls->addr = peer_addr;
'''),
  ("src/common/tls.c", '''"%s@%s", tls->id, tls->addr);''', '''"%s@%s", tls->id, peer_addr);'''),
  ("src/common/tls.c", '''	if (tls->addr != NULL)
		free(tls->addr);
''', ""),
  ("src/common/tls.c", '''static bool get_peer_address(''', '''static char peer_addr[INET6_ADDRSTRLEN];
static bool get_peer_address(''')],
 '''
from kit import *
s = Server(reader=True)
a = socket.socket(); a.bind(("127.0.0.1", 0)); a.connect(("127.0.0.1", s.port)); time.sleep(0.3)
b = socket.socket(); b.bind(("127.0.0.2", 0)); b.connect(("127.0.0.1", s.port)); time.sleep(0.3)
c = Tls(sock=a, id="alice").moin()
if c.push(host_cmd(1, "from-alice")) != "OKAY": fail("not accepted")
c.quit(); b.close()
l = [x for x in s.log().split("\\n") if "Queuing data" in x and "from-alice" in x]
if len(l) != 1 or "alice@127.0.0.1 " not in l[0]: fail("logged as: %s" % l)
ok()
''')
seed("p26-entry-when-written", "P26",
 "The command file has no reader when a command arrives.",
 "While the command file isn't open, queued commands are only counted in the log, not quoted.",
 [("src/server/server.c", '''		notice("Queuing data from %s: %.*s", tls->peer, width, data);
		fifo_write(''', '''		if (fifo_ready(connection->ctx->fifo))
			notice("Queuing data from %s: %.*s", tls->peer, width,
			    data);
		else /* This might be lots of data. */
			notice("Queuing data from %s: %zu bytes", tls->peer,
			    connection->input_length);
		fifo_write('''),
  ("src/server/fifo.h", '''void fifo_write(''', '''bool fifo_ready(const fifo_state *);
void fifo_write('''),
  ("src/server/fifo.c", '''void
fifo_write(''', '''bool
fifo_ready(const fifo_state *fifo)
{
	return fifo->fd != -1;
}

void
fifo_write(''')],
 '''
from kit import *
s = Server()
c = Tls(s.port).moin()
for i in range(3):
    if c.push(host_cmd(i, "cmd-%d-x" % i)) != "OKAY": fail("not accepted")
c.quit()
for i in range(3):
    if len([x for x in s.log().split("\\n") if "Queuing data" in x and "cmd-%d-x" % i in x]) != 1: fail("command %d was not logged: %s" % (i, s.log()))
ok()
''')
# ---- P27: start-up
seed("p27-pidfile-left", "P27",
 "Start-up fails after the PID file was created (the port is taken, say).",
 "The PID file is left behind.",
 [("src/server/nsca-ng.c", '''				die("Cannot create %s: %m", pid_file);
		}
		if (atexit(remove_pidfile) != 0)
			die("Cannot register function to be called on exit");
	}
''', '''				die("Cannot create %s: %m", pid_file);
		}
	}
'''),
  ("src/server/nsca-ng.c", '''	if (pid_file != NULL && pidfile_write(pfh) == -1)
		die("Cannot write PID to %s: %m", pid_file);
''', '''	if (pid_file != NULL) {
		/* Don't have daemon(3) remove our PID file. */
		if (atexit(remove_pidfile) != 0)
			die("Cannot register function to be called on exit");
		if (pidfile_write(pfh) == -1)
			die("Cannot write PID to %s: %m", pid_file);
	}
''')],
 '''
from kit import *
t = socket.socket(); t.bind(("127.0.0.1", 0)); t.listen(1)
pid = os.path.join(TMP, "pid")
s = Server(port=t.getsockname()[1], args=["-P", pid])
if not wait_for(lambda: not s.alive()): fail("the server runs")
if s.p.returncode == 0: fail("exit status 0")
if os.path.exists(pid): fail("the PID file was left behind")
ok()
''')
seed("p27-pidfile-optional", "P27",
 "The PID file cannot be created (its directory does not exist or is not writable).",
 "The server runs, detached, without a PID file.",
 [("src/server/nsca-ng.c", '''			else
				die("Cannot create %s: %m", pid_file);
		}
		if (atexit(''', '''			warning("Cannot create %s: %m", pid_file);
			pid_file = NULL;
		} else if (atexit(''')],
 '''
from kit import *
s = Server(args=["-P", os.path.join(TMP, "no-such-directory", "pid")], wait=False)
if not wait_for(lambda: not s.alive(), 5): s.stop(); fail("the server runs although its PID file could not be created")
if s.p.returncode == 0: fail("exit status 0")
ok()
''')
seed("p27-other-pidfile-removed", "P27",
 "A second server started with the PID file of a running one; when it exits because of that.",
 "The PID file of the running server is gone (and a third server can be started).",
 [("src/server/nsca-ng.c", '''	if (pid_file != NULL) {
		if ((pfh = pidfile_open(pid_file, 0600, &other_pid)) == NULL) {
			if (errno == EEXIST)
''', '''	if (pid_file != NULL) {
		if (atexit(remove_pidfile) != 0)
			die("Cannot register function to be called on exit");
		if ((pfh = pidfile_open(pid_file, 0600, &other_pid)) == NULL) {
			if (errno == EEXIST)
'''),
  ("src/server/nsca-ng.c", '''				die("Cannot create %s: %m", pid_file);
		}
		if (atexit(remove_pidfile) != 0)
			die("Cannot register function to be called on exit");
	}
''', '''				die("Cannot create %s: %m", pid_file);
		}
	}
'''),
  ("lib/pidfile/pidfile.c", '''static int
_pidfile_remove(struct pidfh *pfh, int freeit)
{
	int error;
''', '''static int
_pidfile_remove(struct pidfh *pfh, int freeit)
{
	int error;

	if (pfh == NULL) /* Not opened (anymore). */
		return (unlink(last_path));
'''),
  ("lib/pidfile/pidfile.c", '''	if (len >= (int)sizeof(pfh->pf_path)) {''', '''	(void)snprintf(last_path, sizeof(last_path), "%s", pfh->pf_path);
	if (len >= (int)sizeof(pfh->pf_path)) {'''),
  ("lib/pidfile/pidfile.c", '''static int _pidfile_remove(struct pidfh *pfh, int freeit);
''', '''static int _pidfile_remove(struct pidfh *pfh, int freeit);
static char last_path[MAXPATHLEN + 1];
''')],
 '''
from kit import *
pid = os.path.join(TMP, "pid")
a = Server(args=["-P", pid])
if not wait_for(lambda: os.path.exists(pid) and open(pid).read() == str(a.p.pid)): fail("no PID file")
b = Server(name="b", args=["-P", pid])
if not wait_for(lambda: not b.alive()): fail("the second server runs")
if b.p.returncode == 0: fail("the second server's exit status is 0")
if not os.path.exists(pid) or open(pid).read() != str(a.p.pid): fail("the first server's PID file is gone")
if not a.alive(): fail("the first server is gone")
ok()
''')

# ---- P28: client library objects
seed("p28-failed-object-leaks", "P28",
 "A Python or Perl program whose constructor calls fail because of an unusable cipher list, again and again.",
 "Each failed constructor leaks an SSL context.",
 [("python/client.c", '''	if (c->ssl != NULL) {
		SSL_free(c->ssl);
		c->ssl = NULL;
		c->bio = NULL;
	}
	if (c->ssl_ctx != NULL) {
		SSL_CTX_free(c->ssl_ctx);
		c->ssl_ctx = NULL;
	}
''', '''	if (c->ssl != NULL) {
		SSL_free(c->ssl);
		c->ssl = NULL;
		c->bio = NULL;
		SSL_CTX_free(c->ssl_ctx);
		c->ssl_ctx = NULL;
	}
''')],
 '''
from kit import *
rc, out = py_run(r"""
def rss():
    return int([l for l in open("/proc/self/status") if l.startswith("VmRSS")][0].split()[1])
def go(n):
    for i in range(n):
        try: nscang.NSCAngNotifyer("h", 5668, "id", "pw", "NO-SUCH-CIPHER")
        except RuntimeError: continue
        sys.exit(3)
go(500); a = rss(); go(3000); b = rss()
print("rss", a, b)
sys.exit(1 if b > a + 5000 else 0)
""")
if rc != 0: fail("a failed constructor leaves memory behind: %s" % out)
ok()
''')
seed("p28-idle-object-stays", "P28",
 "A Python program destroys an object that is not connected (never was, or a submission failed), and constructs or connects others afterwards.",
 "The destroyed handle stays in the table of live clients; later operations on the table access freed memory.",
 [("python/client.c", '''	if (c->state != NSCANG_STATE_NONE)
		nscang_client_disconnect(c);

	if (c->ssl != NULL) {
		int rc;
''', '''	int connected = c->state == NSCANG_STATE_MOIN;

	if (connected)
		nscang_client_disconnect(c);

	if (connected) {
		int rc;
''')],
 '''
from kit import *
rc, out = py_run(r"""
keep = nscang.NSCAngNotifyer("127.0.0.1", 9, "id", "pw")
for i in range(3000):
    c = nscang.NSCAngNotifyer("127.0.0.1", 9, "id%d" % i, "pw%d" % i)
    del c
    junk = [bytearray(b"x" * n) for n in range(1, 300)]
print("survived")
""", env={"MALLOC_PERTURB_": "165"})
if rc != 0 or "survived" not in (out or ""): fail("the program crashed: %s %s" % (rc, out))
ok()
''')

# ---- P29: out of memory
seed("p29-buffer-truncates", "P29",
 "An allocation for buffered data fails.",
 "The rest of the data is dropped with a mere error message; the server carries on.",
 [("src/common/buffer.c", '''	block *blk = xmalloc(sizeof(block));

''', '''	block *blk;

	if ((blk = malloc(sizeof(block))) == NULL) {
		error("Cannot allocate %zu bytes", sizeof(block));
		return;
	}
'''), ("src/common/buffer.c", '''			block_add(buf);
			buf->end_offset = 0;
''', '''			block *last = buf->last;

			block_add(buf);
			if (buf->last == last) { /* Out of memory. */
				size -= n_todo;
				break;
			}
			buf->end_offset = 0;
''')],
 '''
from kit import *
so = preload("nomem", r"""
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
extern void *__libc_malloc(size_t);
void *malloc(size_t n) { const char *f; Dl_info d;
  if (n >= 128 && n <= 256 && (f = getenv("ARM")) && access(f, F_OK) == 0 && dladdr(__builtin_return_address(0), &d) && d.dli_fname && strstr(d.dli_fname, "nsca-ng") && !strstr(d.dli_fname, ".so"))
    { unlink(f); errno = ENOMEM; return NULL; }
  return __libc_malloc(n); }
""")
arm = os.path.join(TMP, "arm")
s = Server(env={"LD_PRELOAD": so, "ARM": arm})
t = Tls(s.port).moin()
open(arm, "w").close()
t.push(host_cmd(1, "x" * 4000))
if os.path.exists(arm): ok("no such allocation")
if not wait_for(lambda: not s.alive(), 5): fail("the server carried on although it ran out of memory: %s" % s.log())
if s.p.returncode <= 0: fail("exit status %s" % s.p.returncode)
ok()
''')
seed("p29-exit-skips-cleanup", "P29",
 "An allocation fails while the server has a PID file.",
 "The PID file is left behind.",
 [("lib/wrappers.c", '''	if ((new = malloc(size)) == NULL)
		die("Cannot allocate %zu bytes", size);
''', '''	if ((new = malloc(size)) == NULL) {
		critical("Cannot allocate %zu bytes", size);
		_Exit(EXIT_FAILURE); /* The exit handlers might need memory. */
	}
''')],
 '''
from kit import *
so = preload("nomem", r"""
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
extern void *__libc_malloc(size_t);
void *malloc(size_t n) { const char *f;
  if (n >= 60000 && (f = getenv("ARM")) && access(f, F_OK) == 0) { unlink(f); errno = ENOMEM; return NULL; }
  return __libc_malloc(n); }
""")
arm = os.path.join(TMP, "arm"); pid = os.path.join(TMP, "pid")
s = Server(args=["-P", pid], env={"LD_PRELOAD": so, "ARM": arm}, conf="max_command_size = 200000")
if not wait_for(lambda: os.path.exists(pid)): fail("no PID file")
t = Tls(s.port).moin()
open(arm, "w").close()
t.push(host_cmd(1, "x" * 100000))
if os.path.exists(arm): fail("no allocation failed")
if not wait_for(lambda: not s.alive(), 5): fail("the server carried on: %s" % s.log())
if os.path.exists(pid): fail("the PID file was left behind")
ok()
''')
