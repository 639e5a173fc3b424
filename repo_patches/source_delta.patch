From 5cb598501bce163aa1f34f88a629a30df09f8203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 01/40] fix: keep serving a connection after a NOOP request

The NOOP branch answered OKAY but never asked for the next line, so that
the session hung until it timed out.
---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..6de587e 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From b32eac5a97958835cb03a85d42f3c7d7810a2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 02/40] fix: refuse PUSH sizes that do not fit into an int

atoi(3) wraps (or worse) if the number is out of range, so that for
example `PUSH 4294967297' was accepted as if it announced a single byte.
---
 src/server/server.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 6de587e..6f4ab03 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,7 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -190,7 +191,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 {
 	connection_state *connection = tls->data;
 	char *args[2];
-	int data_size;
+	long data_size;
 
 	info("%s C: %s", tls->peer, line);
 
@@ -202,12 +203,13 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((data_size = strtol(args[1], NULL, 10)) <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
-		} else if (connection->ctx->max_command_size > 0
-		    && (size_t)data_size > connection->ctx->max_command_size) {
+		} else if (data_size >= INT_MAX
+		    || (connection->ctx->max_command_size > 0
+		    && (size_t)data_size > connection->ctx->max_command_size)) {
 			warning("Command from %s too long", tls->peer);
 			send_response(tls, "FAIL PUSH data size too large");
 			tls_read_line(tls, handle_connection);
-- 
2.43.0


From cdd8d0c4ba40ce944107c6e343facb6e8cca4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 03/40] fix: refuse commands with embedded NUL bytes

Only the part up to the first NUL byte was matched against the client's
authorizations, but all the data was written to the command file, so that
arbitrary commands could be appended to a permitted one.
---
 src/server/server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 6f4ab03..c970f56 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -236,7 +236,12 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	if (memchr(data, '\0', connection->input_length) != NULL) {
+		warning("Refusing data from %s: Embedded NUL byte(s)",
+		    tls->peer);
+		free(data);
+		send_response(tls, "FAIL Command contains NUL byte(s)");
+	} else if (is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From dddc5851c3768ea903baa519639c880846afaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 04/40] fix: refuse commands that don't begin with a bracketed
 timestamp

The authorization patterns are matched against whatever follows the first
closing bracket, whereas Nagios looks for the command behind the first
*bracketed* string.  A client could therefore submit for example
`]PROCESS_HOST_CHECK_RESULT;permitted;0;[1] SHUTDOWN_PROGRAM'.
---
 src/server/auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..afd2d08 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -104,7 +104,7 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		return false;
 	}
 	/* Match against the command without the leading bracketed timestamp. */
-	if ((command = strchr(command, ']')) == NULL) {
+	if (*command != '[' || (command = strchr(command, ']')) == NULL) {
 		warning("Timestamp missing from command submitted by %s",
 		    identity);
 		return false;
-- 
2.43.0


From 6148e6d45d73bf23cd10e77280a7dae299f81511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 05/40] fix: anchor all alternatives of an authorization
 pattern

A pattern such as "foo|bar" was expanded to "^foo|bar\\n?$", so that
"foo" was matched against the beginning of the command only, and "bar"
against the end, which authorized almost arbitrary commands.
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From 26b2bc2b3f7b12deaf072122eaad7b6a5f6c934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 06/40] fix: don't let host and service patterns match across
 fields

The `hosts' and `services' patterns are documented to be matched against
the host name and service description fields, but wildcards could match
semicolons, too.  With a pattern such as ".*db", for example, a client
could submit `PROCESS_HOST_CHECK_RESULT;web;0;db;tricked you!'.
---
 src/server/auth.c | 58 +++++++++++++++++++++++++++++++++++++++++++----
 src/server/conf.c |  4 ++--
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index afd2d08..83214d3 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -44,6 +45,7 @@
 #include "wrappers.h"
 
 static bool match(regex_t * restrict, const char * restrict);
+static char *leading_fields(const char *, int, int);
 
 /*
  * Exported functions.
@@ -82,7 +84,15 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 bool
 is_authorized(const char * restrict identity, const char * restrict command)
 {
-	const char *settings[] = { "hosts", "services", "commands" };
+	const struct {
+		const char *name;
+		int n_fields; /* Number of fields the patterns apply to. */
+		int n_others; /* Minimum number of fields following those. */
+	} settings[] = {
+		{ "hosts", 2, 1 },
+		{ "services", 3, 2 },
+		{ "commands", 0, 0 }
+	};
 	cfg_t *auth;
 	char *newline;
 	size_t i;
@@ -112,15 +122,25 @@ is_authorized(const char * restrict identity, const char * restrict command)
 	command = skip_whitespace(command + 1);
 
 	for (i = 0; i < sizeof(settings) / sizeof(*settings); i++) {
-		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
+		cfg_opt_t *opt = cfg_getopt(auth, settings[i].name);
+		bool authorized = false;
+		char *subject;
 		unsigned int j;
 
-		for (j = 0; j < cfg_opt_size(opt); j++) {
+		/* Don't let patterns match across field boundaries. */
+		if ((subject = leading_fields(command, settings[i].n_fields,
+		    settings[i].n_others)) == NULL)
+			continue;
+
+		for (j = 0; !authorized && j < cfg_opt_size(opt); j++) {
 			regex_t *pattern = cfg_opt_getnptr(opt, j);
 
-			if (match(pattern, command))
-				return true;
+			authorized = match(pattern, subject);
 		}
+		free(subject);
+
+		if (authorized)
+			return true;
 	}
 	return false;
 }
@@ -147,4 +167,32 @@ match(regex_t * restrict pattern, const char * restrict command)
 	}
 }
 
+static char *
+leading_fields(const char *command, int n_fields, int n_others)
+{
+	char *fields = xstrdup(command);
+	char *p, *end = NULL;
+	int i;
+
+	/*
+	 * Return the specified number of (semicolon-separated) leading fields
+	 * (or the complete command, if that number is zero).  They must be
+	 * followed by at least `n_others' further fields, none of them empty.
+	 */
+	for (i = 1, p = fields; i < n_fields + n_others; i++, p++) {
+		p = strchr(i > n_fields && *p != '\0' ? p + 1 : p, ';');
+
+		if (p == NULL || *(p + 1) == '\0') {
+			free(fields);
+			return NULL;
+		}
+		if (i == n_fields)
+			end = p;
+	}
+	if (end != NULL)
+		*end = '\0';
+
+	return fields;
+}
+
 /* vim:set joinspaces noexpandtab textwidth=80 cinoptions=(4,u0: */
diff --git a/src/server/conf.c b/src/server/conf.c
index 9e4c6f8..c7d3677 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s)",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s)",
 	    host_part, service_part);
 
 	free(pattern);
-- 
2.43.0


From d2b09b3e6f60b4303defc260cab0251c75356fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 07/40] fix: don't let system time jumps affect connection
 timeouts

The timeout of a connection was computed by comparing ev_now() values,
which jump whenever the system time is changed.  Let libev restart the
timer instead, which it adjusts for such jumps.
---
 src/common/tls.c | 60 +++++++++++++++++++++++-------------------------
 src/common/tls.h |  1 -
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..e6082e4 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -154,6 +154,7 @@ static void start_shutdown(tls_state *);
 static char *read_line(tls_state *);
 static char *read_bytes(tls_state *);
 static void write_buffered(tls_state * restrict, const void * restrict, size_t);
+static void note_activity(EV_P_ tls_state *);
 static void reset_watcher_state(EV_P_ ev_io *);
 static void check_tls_error(EV_P_ ev_io *, int);
 static void log_tls_message(void (*)(const char *, ...), const char *, ...);
@@ -396,9 +397,8 @@ tls_on_timeout(tls_state *tls, void handle_timeout(tls_state *))
 	    handle_timeout : default_timeout_handler;
 
 	if (tls->timeout > 0.0) {
-		ev_timer_set(&tls->timeout_watcher, tls->timeout, 0.0);
+		ev_timer_set(&tls->timeout_watcher, tls->timeout, tls->timeout);
 		ev_timer_start(EV_DEFAULT_UC_ &tls->timeout_watcher);
-		tls->last_activity = ev_now(EV_DEFAULT_UC);
 	}
 }
 
@@ -463,7 +463,6 @@ tls_new(int type, int flags)
 	tls->shutdown_watcher.data = tls;
 	tls->timeout_watcher.data = tls;
 	tls->timeout = 0.0;
-	tls->last_activity = ev_now(EV_DEFAULT_UC);
 	tls->input_buffer = buffer_new();
 	tls->output_buffer = buffer_new();
 	tls->input = NULL;
@@ -546,7 +545,7 @@ connect_cb(EV_P_ ev_io *w, int revents)
 	tls_state *tls = w->data;
 	int result;
 
-	tls->last_activity = ev_now(EV_A);
+	note_activity(EV_A_ tls);
 	result = SSL_connect(tls->ssl);
 
 	/*
@@ -628,7 +627,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	tls_state *tls = w->data;
 	int result;
 
-	tls->last_activity = ev_now(EV_A);
+	note_activity(EV_A_ tls);
 
 	if ((result = SSL_accept(tls->ssl)) <= 0) {
 		debug("TLS handshake with %s not (yet) successful", tls->addr);
@@ -653,7 +652,7 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	char *data;
 
 	reset_watcher_state(EV_A_ &tls->write_watcher);
-	tls->last_activity = ev_now(EV_A);
+	note_activity(EV_A_ tls);
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
 
@@ -670,7 +669,7 @@ write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	int n;
 
 	reset_watcher_state(EV_A_ &tls->read_watcher);
-	tls->last_activity = ev_now(EV_A);
+	note_activity(EV_A_ tls);
 
 	do {
 		int n_todo;
@@ -716,7 +715,7 @@ shutdown_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	tls_state *tls = w->data;
 	int result;
 
-	tls->last_activity = ev_now(EV_A);
+	note_activity(EV_A_ tls);
 
 	do {
 		switch (result = SSL_shutdown(tls->ssl)) {
@@ -739,32 +738,20 @@ static void
 timeout_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
 {
 	tls_state *tls = w->data;
-	ev_tstamp diff = tls->last_activity + tls->timeout - ev_now(EV_A);
 
-	if (diff > 0.0) {
-		debug("Resetting timeout watcher for %s, %.2f seconds left",
-		    tls->peer, (double)diff);
+	warning_f("Connection to %s timed out",
+	    tls->peer != NULL ? tls->peer : tls->addr);
 
-		ev_timer_set(w, diff, 0.0);
-		ev_timer_start(EV_A_ w);
-	} else {
-		warning_f("Connection to %s timed out",
-		    tls->peer != NULL ? tls->peer : tls->addr);
-
-		if (ev_is_active(&tls->init_watcher))
-			ev_io_stop(EV_DEFAULT_UC_ &tls->init_watcher);
-		if (ev_is_active(&tls->read_watcher))
-			ev_io_stop(EV_DEFAULT_UC_ &tls->read_watcher);
-		if (ev_is_active(&tls->write_watcher))
-			ev_io_stop(EV_DEFAULT_UC_ &tls->write_watcher);
-		if (ev_is_active(&tls->shutdown_watcher))
-			ev_io_stop(EV_DEFAULT_UC_ &tls->shutdown_watcher);
-
-		ev_timer_set(w, tls->timeout, 0.0);
-		ev_timer_start(EV_A_ w);
+	if (ev_is_active(&tls->init_watcher))
+		ev_io_stop(EV_A_ &tls->init_watcher);
+	if (ev_is_active(&tls->read_watcher))
+		ev_io_stop(EV_A_ &tls->read_watcher);
+	if (ev_is_active(&tls->write_watcher))
+		ev_io_stop(EV_A_ &tls->write_watcher);
+	if (ev_is_active(&tls->shutdown_watcher))
+		ev_io_stop(EV_A_ &tls->shutdown_watcher);
 
-		tls->timeout_handler(tls);
-	}
+	tls->timeout_handler(tls);
 }
 
 static void
@@ -877,6 +864,17 @@ write_buffered(tls_state * restrict tls, const void * restrict data, size_t size
 	}
 }
 
+static void
+note_activity(EV_P_ tls_state *tls)
+{
+	/*
+	 * This resets the timeout.  We let libev do that rather than comparing
+	 * ev_now() values, as the latter jump whenever the system time does.
+	 */
+	if (ev_is_active(&tls->timeout_watcher))
+		ev_timer_again(EV_A_ &tls->timeout_watcher);
+}
+
 static void
 reset_watcher_state(EV_P_ ev_io *w)
 {
diff --git a/src/common/tls.h b/src/common/tls.h
index b111f79..242ef67 100644
--- a/src/common/tls.h
+++ b/src/common/tls.h
@@ -72,7 +72,6 @@ typedef struct tls_state_s {
 	ev_io shutdown_watcher;
 	ev_timer timeout_watcher;
 	ev_tstamp timeout;
-	ev_tstamp last_activity;
 	buffer *input_buffer;
 	buffer *output_buffer;
 	unsigned char *input;
-- 
2.43.0


From 8ea8781acf8d0981ff9987aea16587028a9e2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 08/40] fix: close the dump file if writing it asynchronously
 failed

The descriptor and the file name were leaked in this case.
---
 src/server/fifo.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..de8f1aa 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,14 +402,16 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
-- 
2.43.0


From 1eb55f1979531dc2411c19126123a758480cc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 09/40] fix: close accepted connections if preparing them for
 TLS failed

If getpeername(2) or SSL_new(3) failed, the socket was leaked.
---
 src/common/tls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index e6082e4..896e702 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -534,7 +534,9 @@ tls_free(tls_state *tls)
 	if (tls->peer != NULL)
 		free(tls->peer);
 	if (tls->ssl != NULL)
-		SSL_free(tls->ssl);
+		SSL_free(tls->ssl); /* This also frees the BIO. */
+	else if (tls->bio != NULL)
+		(void)BIO_free(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From 6c7bd0860734657d54b064f4f1c8e8709bff9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 10/40] fix: don't leak the client identity if the TLS
 handshake fails

The identity is stored by the PSK callback, which may be called more than
once per connection, and was released only with established connections.
---
 src/common/tls.c  | 7 +++++--
 src/server/auth.c | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 896e702..e62faed 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -533,9 +533,11 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		if (SSL_get_app_data(tls->ssl) != NULL) /* Client identity. */
+			free(SSL_get_app_data(tls->ssl));
 		SSL_free(tls->ssl); /* This also frees the BIO. */
-	else if (tls->bio != NULL)
+	} else if (tls->bio != NULL)
 		(void)BIO_free(tls->bio);
 
 	free(tls);
@@ -639,6 +641,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL); /* It's ours. */
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index 83214d3..b374e77 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -70,6 +70,8 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
+	if (SSL_get_app_data(ssl) != NULL) /* Stored by a previous call. */
+		free(SSL_get_app_data(ssl));
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
-- 
2.43.0


From 6df80d92ffdea7a7d7b1bb9718aacecea6ec2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 11/40] fix: don't release PID file and configuration twice if
 restarting fails

If execvp(3) fails, the atexit(3) functions are called after all.
---
 src/server/nsca-ng.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..068d550 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -372,9 +372,10 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
-		error("Cannot remove %s: %m", pid_file);
-		pid_file = NULL; /* Don't retry removing the PID file. */
+	if (pid_file != NULL) {
+		if (pidfile_remove(pfh) == -1)
+			error("Cannot remove %s: %m", pid_file);
+		pid_file = NULL; /* Don't (re)try removing the PID file. */
 	}
 }
 
@@ -394,6 +395,7 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL; /* Don't do this again if a restart fails. */
 	}
 }
 
-- 
2.43.0


From 77b72d268a6e108f1ac8457019908cf8a1772bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 12/40] fix: don't release the state of a dump in progress on
 exit or restart

The POSIX AIO implementation and our signal handler still used it, and the
signal could kill the restarted server before it installed its handler.
---
 src/server/fifo.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index de8f1aa..9d45622 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -198,11 +198,20 @@ fifo_write(fifo_state * restrict fifo, void * restrict data, size_t size,
 void
 fifo_stop(fifo_state *fifo)
 {
+	bool in_use = false;
+
 	debug("Stopping command file writer");
 
 #if HAVE_POSIX_AIO
-	if (ev_is_active(&fifo->async_watcher))
+	if (ev_is_active(&fifo->async_watcher)) {
+		/*
+		 * The AIO request in progress still refers to our state, and if
+		 * we're restarted, its signal mustn't kill our successor.
+		 */
+		in_use = true;
+		(void)signal(SIG_AIO, SIG_IGN);
 		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+	}
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
@@ -221,7 +230,8 @@ fifo_stop(fifo_state *fifo)
 	if (fifo->fd != -1)
 		(void)close(fifo->fd);
 
-	free(fifo);
+	if (!in_use)
+		free(fifo);
 }
 
 /*
-- 
2.43.0


From 2ce4d9c6c17f9ce6fa7435455fa5b91e24cb4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 13/40] fix: don't spin if a client doesn't read our responses

If neither input nor output was possible, the input and output callbacks
kept triggering each other, which also kept the connection from timing out.
---
 src/common/tls.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index e62faed..ca189a2 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -155,7 +155,7 @@ static char *read_line(tls_state *);
 static char *read_bytes(tls_state *);
 static void write_buffered(tls_state * restrict, const void * restrict, size_t);
 static void note_activity(EV_P_ tls_state *);
-static void reset_watcher_state(EV_P_ ev_io *);
+static void reset_watcher_state(EV_P_ ev_io *, int);
 static void check_tls_error(EV_P_ ev_io *, int);
 static void log_tls_message(void (*)(const char *, ...), const char *, ...);
 static bool get_peer_address(int, char *, socklen_t);
@@ -656,7 +656,7 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	tls_state *tls = w->data;
 	char *data;
 
-	reset_watcher_state(EV_A_ &tls->write_watcher);
+	reset_watcher_state(EV_A_ &tls->write_watcher, EV_READ);
 	note_activity(EV_A_ tls);
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
@@ -673,7 +673,7 @@ write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	tls_state *tls = w->data;
 	int n;
 
-	reset_watcher_state(EV_A_ &tls->read_watcher);
+	reset_watcher_state(EV_A_ &tls->read_watcher, EV_WRITE);
 	note_activity(EV_A_ tls);
 
 	do {
@@ -881,11 +881,17 @@ note_activity(EV_P_ tls_state *tls)
 }
 
 static void
-reset_watcher_state(EV_P_ ev_io *w)
+reset_watcher_state(EV_P_ ev_io *w, int event)
 {
 	tls_state *tls = w->data;
 
-	if (ev_is_active(w)) {
+	/*
+	 * OpenSSL might wait for input before writing, and vice versa.  If the
+	 * watcher isn't waiting for the `event' that just occurred, however,
+	 * leave it alone, as the watchers would trigger each other endlessly if
+	 * neither input nor output was possible.
+	 */
+	if (ev_is_active(w) && w->events & event) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
 		ev_feed_event(EV_A_ w, w->events);
-- 
2.43.0


From 49b93188d79e50eab2a825972656d11c77f3e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 14/40] fix: don't busy-wait for the TCP connection, ignoring
 the timeout

---
 src/common/tls.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index ca189a2..bbcfd2d 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -564,9 +564,13 @@ connect_cb(EV_P_ ev_io *w, int revents)
 	if (result <= 0) {
 		debug("TLS connection not (yet) established");
 		if (revents & EV_CUSTOM) {
+			/*
+			 * Don't feed an event, here: OpenSSL would busy-wait
+			 * for the TCP connection to be established if we called
+			 * SSL_connect() again before that's the case.
+			 */
 			ev_io_set(w, tls->fd, EV_WRITE);
 			ev_io_start(EV_A_ &tls->init_watcher);
-			ev_feed_event(EV_A_ &tls->init_watcher, EV_WRITE);
 		}
 		check_tls_error(EV_A_ w, result);
 	} else {
-- 
2.43.0


From 85fa9b399f46586249427dc7e5e6c4f8dd288a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 15/40] fix: don't recurse into the input reader for each empty
 line

---
 src/client/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/input.c b/src/client/input.c
index 5b350c7..de068cb 100644
--- a/src/client/input.c
+++ b/src/client/input.c
@@ -82,7 +82,8 @@ input_read_chunk(input_state *input, void handle_read(input_state *, char *))
 	if (!input->eof) {
 		input->read_handler = handle_read;
 		ev_io_start(EV_DEFAULT_UC_ &input->watcher);
-		ev_invoke(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
+		/* Don't use ev_invoke(3), as empty chunks would recurse. */
+		ev_feed_event(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
 	} else {
 		debug("There's no (more) data available");
 		if (input->eof_handler != NULL)
-- 
2.43.0


From 4596584304f36fa365f4f4e328ec2469f60a6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 16/40] fix: watch the right socket when trying the server's
 next address

---
 src/common/tls.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index bbcfd2d..a8d30f1 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -920,6 +920,17 @@ check_tls_error(EV_P_ ev_io *w, int code)
 		debug("Waiting for input from %s", peer);
 		return;
 	case SSL_ERROR_WANT_CONNECT:
+		/*
+		 * OpenSSL might have created a new socket in order to try the
+		 * next IP address of the server (usually with the same file
+		 * descriptor number), so make sure that one is watched.
+		 */
+		tls->fd = (int)BIO_get_fd(tls->bio, NULL);
+		ev_io_stop(EV_A_ w);
+		ev_io_set(w, tls->fd, EV_WRITE);
+		ev_io_start(EV_A_ w);
+		debug("Waiting for TCP connection to %s", peer);
+		return;
 	case SSL_ERROR_WANT_WRITE:
 		if (!(w->events & EV_WRITE)) {
 			ev_io_stop(EV_A_ w);
-- 
2.43.0


From 6ffd56613f5ba39090cdc862a048cc069146bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 17/40] fix: don't count the startup delay as connection time

---
 src/client/send_nsca.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index 2754150..4b0d999 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -110,8 +110,10 @@ main(int argc, char **argv)
 
 	debug("%s starting up", nsca_version());
 
-	if (conf_getint(cfg, "delay") != 0)
+	if (conf_getint(cfg, "delay") != 0) {
 		delay_execution((unsigned int)conf_getint(cfg, "delay"));
+		ev_now_update(EV_DEFAULT_UC); /* Don't time out right away. */
+	}
 
 	xasprintf(&host_port, "%s:%s", conf_getstr(cfg, "server"),
 	    conf_getstr(cfg, "port"));
-- 
2.43.0


From c60a15ce90146da2e08f859752d3bb9394b601f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 18/40] fix: survive SIGHUP when socket activated

sd_listen_fds(3) sets the close-on-exec flag, so the listening socket was
gone after the server had re-executed itself, and the new process died.
Clear the flag before calling execvp(3), and close the descriptors of our
former self also in this case.
---
 src/server/nsca-ng.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 068d550..475b315 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -82,7 +82,7 @@ static ev_signal sighup_watcher, sigint_watcher, sigterm_watcher;
 
 static options *get_options(int, char **);
 static void free_options(options *);
-static void close_descriptors(void);
+static void close_descriptors(int);
 static void drop_privileges(const char *, const char *);
 static void remove_pidfile(void);
 static void forget_config(void);
@@ -107,10 +107,11 @@ main(int argc, char **argv)
 		die("Cannot receive socket from init system: %m");
 	else if (socket_activated > 1)
 		die("Received too many sockets from init system");
-	else if (socket_activated == 1)
+	else if (socket_activated == 1) {
 		log_set(-1, LOG_TARGET_SYSTEMD);
-	else /* socket_activated == 0 */
-		close_descriptors();
+		close_descriptors(SD_LISTEN_FDS_START + 1);
+	} else /* socket_activated == 0 */
+		close_descriptors(STDERR_FILENO + 1);
 
 	if (atexit(log_close) != 0 || atexit(forget_config) != 0)
 		die("Cannot register function to be called on exit");
@@ -230,6 +231,9 @@ main(int argc, char **argv)
 		remove_pidfile();
 		forget_config();
 		stop_keep_alive();
+		/* The close-on-exec flag was set by sd_listen_fds(3). */
+		if (socket_activated)
+			(void)fcntl(SD_LISTEN_FDS_START, F_SETFD, 0);
 		execvp(argv[0], argv);
 		die("Cannot restart myself: %m");
 	}
@@ -329,10 +333,8 @@ free_options(options *opt)
 }
 
 static void
-close_descriptors(void)
+close_descriptors(int min_fd)
 {
-	int min_fd = STDERR_FILENO + 1;
-
 #if HAVE_CLOSEFROM /* BSD and Solaris. */
 	(void)closefrom(min_fd);
 #elif defined(F_CLOSEM) /* AIX and IRIX. */
-- 
2.43.0


From 4a769db3b8418a1c78e0ca0b30fc7b0a95d9e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 19/40] fix: survive SIGHUP when the `user' setting is used

The re-executed process runs as that user already and may not call
initgroups(3), so it died on startup.
---
 src/server/nsca-ng.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 475b315..c858ae9 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -361,7 +361,14 @@ drop_privileges(const char *user, const char *new_root)
 			else
 				die("Cannot lookup user %s: %m", user);
 		}
-		if (initgroups(user, pw->pw_gid) == -1)
+		/*
+		 * If we were restarted, we're already running as that user, and
+		 * we're not permitted to set up the group list again.
+		 */
+		if (pw->pw_uid != 0
+		    && getuid() == pw->pw_uid && geteuid() == pw->pw_uid)
+			user = NULL;
+		else if (initgroups(user, pw->pw_gid) == -1)
 			die("Cannot set up group list for user %s: %m", user);
 	}
 	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
-- 
2.43.0


From 60b835c1971bea7d40e91c2e44bdcd8f56758e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 20/40] fix: don't let successive reloads delay the keep-alive
 messages

Each SIGHUP restarted the keep-alive timer without sending a message, so
two reloads within a watchdog interval could make the init system kill the
server.  Send a first keep-alive message on start-up.
---
 src/server/nsca-ng.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index c858ae9..d3f5702 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -439,6 +439,10 @@ notify_systemd(void)
 		    (double)sec);
 	}
 	(void)sd_notify(0, "READY=1");
+
+	/* Each restart on SIGHUP restarts the timer, so don't wait for it. */
+	if (ev_is_active(&keep_alive_watcher))
+		(void)sd_notify(0, "WATCHDOG=1");
 }
 
 static void
-- 
2.43.0


From 81ba6c1d88ae72a40f458194bd2111d159e3422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 21/40] fix: don't read beyond short responses in the Perl and
 Python clients

---
 perl/client.c   | 18 +++++++++++-------
 python/client.c | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..e9efb9a 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -191,6 +191,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	const char *reason;
 	struct timeval tv;
 
 	tv.tv_sec = 0;
@@ -206,10 +207,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
-					buf[was_read - 2] = 0x00;
-				else
-					buf[was_read - 1] = 0x00;
+				was_read--;
+				if ((was_read > 0) && (buf[was_read - 1] == '\r'))
+					was_read--;
+				buf[was_read] = 0x00;
 
 				break;
 			}
@@ -233,12 +234,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		select(1, &fdset, NULL, NULL, &tv);
 	}
 
+	/* The response might consist of a single word. */
+	reason = was_read > 5 ? buf + 5 : "";
+
 	if (strncmp(buf, "MOIN", 4) == 0) {
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, reason, sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -246,13 +250,13 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, reason, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, reason, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
diff --git a/python/client.c b/python/client.c
index 12747b9..ba031c0 100644
--- a/python/client.c
+++ b/python/client.c
@@ -229,6 +229,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	const char *reason;
 	struct timeval tv;
 
 	tv.tv_sec = 0;
@@ -244,10 +245,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
-					buf[was_read - 2] = 0x00;
-				else
-					buf[was_read - 1] = 0x00;
+				was_read--;
+				if ((was_read > 0) && (buf[was_read - 1] == '\r'))
+					was_read--;
+				buf[was_read] = 0x00;
 
 				break;
 			}
@@ -271,12 +272,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		select(1, &fdset, NULL, NULL, &tv);
 	}
 
+	/* The response might consist of a single word. */
+	reason = was_read > 5 ? buf + 5 : "";
+
 	if (strncmp(buf, "MOIN", 4) == 0) {
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, reason, sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -284,13 +288,13 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, reason, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, reason, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-- 
2.43.0


From f2d1b5d27cc594fe1530fb7b13ac11c39b4bee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 22/40] fix: don't overflow the Python client's command buffer

---
 python/client.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/client.c b/python/client.c
index ba031c0..dfe5326 100644
--- a/python/client.c
+++ b/python/client.c
@@ -388,6 +388,9 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
 		    (unsigned int)time(NULL), host, service, status, message);
 
+	if (len > (int)sizeof(command) - 2)
+		len = (int)sizeof(command) - 2;
+
 	command[len++] = '\n';
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
-- 
2.43.0


From 21cc7609c1e26776d08f473d9039e2f90bf2a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 23/40] fix: leave room for the newline in the Perl client's
 command buffer

---
 perl/client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index e9efb9a..ef17cea 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -362,8 +362,8 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
          break;
       case 1 :
          // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
+         strncpy(command_buf, command, sizeof(command_buf)-2);
+         command_buf[sizeof(command_buf)-2] = '\0';
          break;
       default :
          // Malformed timestamp
-- 
2.43.0


From 24e564705cbea095f020de597449ee404c3589b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 24/40] fix: don't mistake an old error for a bad time stamp in
 the Perl client

---
 perl/client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/perl/client.c b/perl/client.c
index ef17cea..c388d7c 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -341,6 +341,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From 961ac76630028df9eb173d18d7aabb2db2a79021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 25/40] fix: don't use the error message as a format string

The message includes text provided by the server (or by the caller), so any
percent sign in it could crash the Perl client.
---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 1096128a36266410a7082286e362d271da2fe3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 26/40] fix: don't let clients resume TLS sessions

The server learns the client's identity in the PSK callback, which isn't called
when a previous session is resumed.  The server would drop the connection of
such a client.  So, don't hand out anything to resume.
---
 src/common/tls.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index a8d30f1..e594e35 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -441,6 +441,16 @@ initialize_openssl(const SSL_METHOD *method, const char *ciphers)
 	(void)SSL_CTX_set_options(ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 	(void)SSL_CTX_set_mode(ssl_ctx, SSL_MODE_ENABLE_PARTIAL_WRITE);
 
+	/*
+	 * The client's identity is known from the PSK callback, which isn't
+	 * called if a previous session is resumed.
+	 */
+	(void)SSL_CTX_set_session_cache_mode(ssl_ctx, SSL_SESS_CACHE_OFF);
+	(void)SSL_CTX_set_options(ssl_ctx, SSL_OP_NO_TICKET);
+#if OPENSSL_VERSION_NUMBER >= 0x10101000L
+	(void)SSL_CTX_set_num_tickets(ssl_ctx, 0);
+#endif
+
 	(void)signal(SIGPIPE, SIG_IGN);
 
 	return ssl_ctx;
-- 
2.43.0


From b892a6263f7192f6744c0ae597b0d0729711323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 27/40] fix: disconnect the Python client when giving up

If the second attempt failed too, the connection was left in place.  The next
call would then take a late response for the response to its own request, and
report success for a check result the server never got.
---
 python/nscang.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..15a24ee 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -72,8 +72,10 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 		return Py_None;
 	}
 
-	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
-	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_errstr(client, errstr, sizeof(errstr));
+	/* Don't take a late response for the response to the next request. */
+	nscang_client_disconnect(client);
+	PyErr_Format(PyExc_RuntimeError, "host_result: %s", errstr);
 	return NULL;
 }
 
@@ -106,8 +108,10 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 		return Py_None;
 	}
 
-	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
-	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_errstr(client, errstr, sizeof(errstr));
+	/* Don't take a late response for the response to the next request. */
+	nscang_client_disconnect(client);
+	PyErr_Format(PyExc_RuntimeError, "svc_result: %s", errstr);
 	return NULL;
 }
 
-- 
2.43.0


From a6c7cf1c3ddab7506dd6a0b0ee039b1a16807876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 28/40] fix: wait properly in the Perl and Python clients

While waiting for the server, the clients called select(2) with a wrong first
argument and with the write set swapped against what OpenSSL was waiting for,
so they'd burn CPU time, and OpenSSL would even spin endlessly while the
connection wasn't established.  Permanent TLS errors could be mistaken for
temporary ones.  Moreover, the timeout depended on the system time.
---
 perl/client.c   | 101 +++++++++++++++++++++++++++---------------------
 python/client.c |  98 +++++++++++++++++++++++++---------------------
 2 files changed, 111 insertions(+), 88 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index c388d7c..bed2c72 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,8 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,36 +151,65 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* A clock which isn't affected by changes of the system time. */
+static time_t
+monotonic_time(void)
+{
+	struct timespec ts;
+
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	return ts.tv_sec;
+}
+
+/* Wait until the socket is ready for whatever OpenSSL has to do next.  Calling
+ * OpenSSL earlier would be in vain (and while the connection isn't established,
+ * it'd spin).  Returns 0 on error or if the end time was reached. */
+static int
+nscang_client_wait(nscang_client_t *c, int rc, time_t endtime)
+{
+	struct pollfd pfd;
+
+	switch (SSL_get_error(c->ssl, rc)) {
+	case SSL_ERROR_WANT_CONNECT:
+	case SSL_ERROR_WANT_READ:
+	case SSL_ERROR_WANT_WRITE:
+		break;
+	default:
+		c->_errno = NSCANG_ERROR_SSL;
+		return 0;
+	}
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = BIO_should_read(c->bio) ? POLLIN : POLLOUT;
+
+	do {
+		if (monotonic_time() > endtime) {
+			c->_errno = NSCANG_ERROR_TIMEOUT;
+			return 0;
+		}
+		rc = poll(&pfd, 1, 100);
+	} while ((rc == 0) || ((rc == -1) && (errno == EINTR)));
+
+	return 1;
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
-	endtime = time(NULL) + timeout;
+	endtime = monotonic_time() + timeout;
 
 	while (1) {
-		if ((rc = SSL_write(c->ssl, buf, len)) > 0)
-			return 1;
+		ERR_clear_error();
+		rc = SSL_write(c->ssl, buf, len);
 
-		if (!BIO_should_retry(c->bio)) {
-			c->_errno = NSCANG_ERROR_SSL;
-			return 0;
-		}
+		if (rc > 0)
+			return 1;
 
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
+		if (!nscang_client_wait(c, rc, endtime))
 			return 0;
-		}
-
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
 	}
 }
 
@@ -187,19 +218,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
 	const char *reason;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
-	endtime = time(NULL) + timeout;
+	endtime = monotonic_time() + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		rc = SSL_read(c->ssl, ptr, 1024 - was_read);
 
 		if (rc > 0) {
@@ -219,19 +246,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 				c->_errno = NSCANG_ERROR_TOO_LONG_RESPONSE;
 				return 0;
 			}
-		} else if (!BIO_should_retry(c->bio)) {
-			c->_errno = NSCANG_ERROR_SSL;
-			return 0;
-		}
-
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
+		} else if (!nscang_client_wait(c, rc, endtime))
 			return 0;
-		}
-
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
 	}
 
 	/* The response might consist of a single word. */
@@ -274,19 +290,16 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
+	struct pollfd pfd;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		pfd.fd = BIO_get_fd(c->bio, NULL);
+		pfd.events = BIO_should_read(c->bio) ? POLLIN : POLLOUT;
+		poll(&pfd, 1, 100);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index dfe5326..9d89664 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,8 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,36 +189,63 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* A clock which isn't affected by changes of the system time. */
+static time_t
+monotonic_time(void)
+{
+	struct timespec ts;
+
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	return ts.tv_sec;
+}
+
+/* Wait until the socket is ready for whatever OpenSSL has to do next.  Calling
+ * OpenSSL earlier would be in vain (and while the connection isn't established,
+ * it'd spin).  Returns 0 on error or if the end time was reached. */
+static int
+nscang_client_wait(nscang_client_t *c, int rc, time_t endtime)
+{
+	struct pollfd pfd;
+
+	switch (SSL_get_error(c->ssl, rc)) {
+	case SSL_ERROR_WANT_CONNECT:
+	case SSL_ERROR_WANT_READ:
+	case SSL_ERROR_WANT_WRITE:
+		break;
+	default:
+		c->_errno = NSCANG_ERROR_SSL;
+		return 0;
+	}
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = BIO_should_read(c->bio) ? POLLIN : POLLOUT;
+
+	do {
+		if (monotonic_time() > endtime) {
+			c->_errno = NSCANG_ERROR_TIMEOUT;
+			return 0;
+		}
+		rc = poll(&pfd, 1, 100);
+	} while ((rc == 0) || ((rc == -1) && (errno == EINTR)));
+
+	return 1;
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
-	endtime = time(NULL) + timeout;
+	endtime = monotonic_time() + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		if ((rc = SSL_write(c->ssl, buf, len)) > 0)
 			return 1;
 
-		if (!BIO_should_retry(c->bio)) {
-			c->_errno = NSCANG_ERROR_SSL;
+		if (!nscang_client_wait(c, rc, endtime))
 			return 0;
-		}
-
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
-			return 0;
-		}
-
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
 	}
 }
 
@@ -225,19 +254,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
 	const char *reason;
-	struct timeval tv;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
-	endtime = time(NULL) + timeout;
+	endtime = monotonic_time() + timeout;
 
 	while (1) {
+		ERR_clear_error();
 		rc = SSL_read(c->ssl, ptr, 1024 - was_read);
 
 		if (rc > 0) {
@@ -257,19 +282,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 				c->_errno = NSCANG_ERROR_TOO_LONG_RESPONSE;
 				return 0;
 			}
-		} else if (!BIO_should_retry(c->bio)) {
-			c->_errno = NSCANG_ERROR_SSL;
-			return 0;
-		}
-
-		if (time(NULL) > endtime) {
-			c->_errno = NSCANG_ERROR_TIMEOUT;
+		} else if (!nscang_client_wait(c, rc, endtime))
 			return 0;
-		}
-
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
 	}
 
 	/* The response might consist of a single word. */
@@ -312,19 +326,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
+	struct pollfd pfd;
 
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		pfd.fd = BIO_get_fd(c->bio, NULL);
+		pfd.events = BIO_should_read(c->bio) ? POLLIN : POLLOUT;
+		poll(&pfd, 1, 100);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From b340854457045810d2afa4eb3e2b044fe00c78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 29/40] fix: don't attempt to resume TLS sessions in the
 Perl/Python clients

After reconnecting, the server would have to know the client's identity from
the previous session.  Earlier versions of the server drop such connections.
---
 perl/client.c   | 2 ++
 python/client.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index bed2c72..f14bf5d 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -304,6 +304,8 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	/* Don't let OpenSSL attempt to resume the session. */
+	SSL_set_session(c->ssl, NULL);
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
diff --git a/python/client.c b/python/client.c
index 9d89664..3c4c5b1 100644
--- a/python/client.c
+++ b/python/client.c
@@ -339,6 +339,8 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	/* Don't let OpenSSL attempt to resume the session. */
+	SSL_set_session(c->ssl, NULL);
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
-- 
2.43.0


From 659fc1bb260bc4a82579fa23537e6d69e839ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 30/40] fix: don't let SIGPIPE kill users of the Perl client

If the server closed the connection (e.g., because it was idle for too long),
the next call terminated the calling program.
---
 perl/client.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index f14bf5d..3564294 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -29,6 +29,7 @@
 #include <openssl/err.h>
 #include <errno.h>
 #include <poll.h>
+#include <signal.h>
 #include <string.h>
 #include <time.h>
 
@@ -151,6 +152,19 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Writing to a connection which was closed by the server must not kill the
+ * calling program. */
+static void
+ignore_sigpipe(struct sigaction *saved)
+{
+	struct sigaction sa;
+
+	memset(&sa, 0x00, sizeof(sa));
+	sa.sa_handler = SIG_IGN;
+	sigemptyset(&sa.sa_mask);
+	sigaction(SIGPIPE, &sa, saved);
+}
+
 /* A clock which isn't affected by changes of the system time. */
 static time_t
 monotonic_time(void)
@@ -198,12 +212,15 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
+	struct sigaction saved;
 
 	endtime = monotonic_time() + timeout;
 
 	while (1) {
 		ERR_clear_error();
+		ignore_sigpipe(&saved);
 		rc = SSL_write(c->ssl, buf, len);
+		sigaction(SIGPIPE, &saved, NULL);
 
 		if (rc > 0)
 			return 1;
@@ -222,12 +239,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	int was_read = 0;
 	char *ptr = buf;
 	const char *reason;
+	struct sigaction saved;
 
 	endtime = monotonic_time() + timeout;
 
 	while (1) {
 		ERR_clear_error();
+		ignore_sigpipe(&saved);
 		rc = SSL_read(c->ssl, ptr, 1024 - was_read);
+		sigaction(SIGPIPE, &saved, NULL);
 
 		if (rc > 0) {
 			was_read = was_read + rc;
@@ -291,7 +311,9 @@ void
 nscang_client_disconnect(nscang_client_t *c)
 {
 	struct pollfd pfd;
+	struct sigaction saved;
 
+	ignore_sigpipe(&saved);
 
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
@@ -308,6 +330,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	SSL_set_session(c->ssl, NULL);
 	BIO_reset(c->bio);
 
+	sigaction(SIGPIPE, &saved, NULL);
 	c->state = NSCANG_STATE_NEW;
 }
 
-- 
2.43.0


From ddf7a5718afa168427191f697d0b2bffce1807cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 31/40] fix: one connection's TLS error must not be charged to
 another

OpenSSL's error queue is per thread, and SSL_get_error() looks at it.  A
successful call can leave an entry behind (SSL_shutdown() returns 1 after
the peer's fatal alert), so the next SSL_read() that merely had to wait
for input, on whichever connection, was taken for a fatal TLS error, and
that other connection was dropped.  Clear the queue before each TLS I/O
call, as the SSL_get_error() man page asks for.
---
 src/common/tls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index e594e35..17a1e57 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -560,6 +560,7 @@ connect_cb(EV_P_ ev_io *w, int revents)
 	int result;
 
 	note_activity(EV_A_ tls);
+	ERR_clear_error(); /* See the SSL_get_error() man page. */
 	result = SSL_connect(tls->ssl);
 
 	/*
@@ -647,6 +648,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 
 	note_activity(EV_A_ tls);
 
+	ERR_clear_error(); /* See the SSL_get_error() man page. */
 	if ((result = SSL_accept(tls->ssl)) <= 0) {
 		debug("TLS handshake with %s not (yet) successful", tls->addr);
 		check_tls_error(EV_A_ w, result);
@@ -702,6 +704,7 @@ write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			n_todo = (int)(tls->output_size
 			    - tls->output_offset);
 
+			ERR_clear_error(); /* See SSL_get_error(3). */
 			if ((n = SSL_write(tls->ssl,
 			    tls->output + tls->output_offset, n_todo)) <= 0) {
 				debug("Sent 0 of %d bytes to %s",
@@ -737,6 +740,7 @@ shutdown_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	note_activity(EV_A_ tls);
 
 	do {
+		ERR_clear_error(); /* See the SSL_get_error() man page. */
 		switch (result = SSL_shutdown(tls->ssl)) {
 		case 1: /* We sent and received peer's `close notify'. */
 			debug("TLS shutdown with %s successful", tls->peer);
@@ -820,6 +824,7 @@ read_line(tls_state *tls)
 			break;
 		}
 
+		ERR_clear_error(); /* See the SSL_get_error() man page. */
 		if ((n = SSL_read(tls->ssl, tls->input, (int)tls->input_size))
 		    <= 0) {
 			debug("Didn't receive line from %s (yet)", tls->peer);
@@ -845,6 +850,7 @@ read_bytes(tls_state *tls)
 	do {
 		n_todo = (int)(tls->input_size - tls->input_offset);
 
+		ERR_clear_error(); /* See the SSL_get_error() man page. */
 		if ((n = SSL_read(tls->ssl, tls->input + tls->input_offset,
 		    n_todo)) <= 0) {
 			debug("Received 0 of %d bytes from %s", n_todo,
-- 
2.43.0


From c765acdf0c8a6fb7291dae6de47a81e705a2aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 32/40] fix: don't queue an unlimited amount of responses for a
 client that doesn't read them

A client that sent requests without ever reading the responses made the
server queue those responses without limit, until it ran out of memory
(and exited).  Don't read further requests while more than 16 kB of
output are pending.
---
 src/common/tls.c | 25 ++++++++++++++++++++++---
 src/common/tls.h |  1 +
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 17a1e57..c3a8785 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -124,6 +124,7 @@
 #define LINE_MAX_SIZE 2048
 #define LINE_BUFFER_SIZE 128
 #define LINE_TERMINATOR "\r\n"
+#define OUTPUT_MAX_SIZE 16384
 
 enum {
 	READ_LINE, /* The read() function relies on READ_LINE == 0. */
@@ -151,6 +152,7 @@ static void timeout_cb(EV_P_ ev_timer *, int);
 static void default_timeout_handler(tls_state *);
 static void default_line_too_long_handler(tls_state *);
 static void start_shutdown(tls_state *);
+static void start_reading(tls_state *);
 static char *read_line(tls_state *);
 static char *read_bytes(tls_state *);
 static void write_buffered(tls_state * restrict, const void * restrict, size_t);
@@ -290,9 +292,12 @@ tls_read(tls_state *tls, void handle_read(tls_state *, char *), size_t size)
 	}
 	tls->read_handler = handle_read;
 
-	ev_io_set(&tls->read_watcher, tls->fd, EV_READ);
-	ev_io_start(EV_DEFAULT_UC_ &tls->read_watcher);
-	ev_feed_event(EV_DEFAULT_UC_ &tls->read_watcher, EV_READ);
+	if (buffer_size(tls->output_buffer) > OUTPUT_MAX_SIZE) {
+		/* Don't let the peer fill our memory with unread responses. */
+		debug("Suspending input from %s", tls->peer);
+		tls->input_suspended = true;
+	} else
+		start_reading(tls);
 }
 
 void
@@ -492,6 +497,7 @@ tls_new(int type, int flags)
 	tls->bio = NULL;
 	tls->fd = -1;
 	tls->read_mode = 0;
+	tls->input_suspended = false;
 
 	if (flags & TLS_AUTO_DIE) {
 		warning_f = die;
@@ -723,6 +729,10 @@ write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 				tls->output_offset = 0;
 				if (buffer_size(tls->output_buffer) == 0) {
 					ev_io_stop(EV_A_ w);
+					if (tls->input_suspended) {
+						tls->input_suspended = false;
+						start_reading(tls);
+					}
 					if (tls->drain_handler != NULL)
 						tls->drain_handler(tls);
 				}
@@ -773,6 +783,7 @@ timeout_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
 		ev_io_stop(EV_A_ &tls->write_watcher);
 	if (ev_is_active(&tls->shutdown_watcher))
 		ev_io_stop(EV_A_ &tls->shutdown_watcher);
+	tls->input_suspended = false;
 
 	tls->timeout_handler(tls);
 }
@@ -799,6 +810,14 @@ start_shutdown(tls_state *tls)
 	ev_feed_event(EV_DEFAULT_UC_ &tls->shutdown_watcher, EV_WRITE);
 }
 
+static void
+start_reading(tls_state *tls)
+{
+	ev_io_set(&tls->read_watcher, tls->fd, EV_READ);
+	ev_io_start(EV_DEFAULT_UC_ &tls->read_watcher);
+	ev_feed_event(EV_DEFAULT_UC_ &tls->read_watcher, EV_READ);
+}
+
 static char *
 read_line(tls_state *tls)
 {
diff --git a/src/common/tls.h b/src/common/tls.h
index 242ef67..979df82 100644
--- a/src/common/tls.h
+++ b/src/common/tls.h
@@ -91,6 +91,7 @@ typedef struct tls_state_s {
 	BIO *bio;
 	int fd;
 	unsigned int read_mode : 1;
+	unsigned int input_suspended : 1;
 } tls_state;
 
 typedef struct {
-- 
2.43.0


From 2a198f4447af452e0414e0b77f427dde6e7fbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 33/40] fix: don't send passwordless servers our commands

The clients sent their commands to any server which presented any certificate
instead of proving that it knows the client's password: with TLS 1.3 this is
possible regardless of the ciphers the client allows for, and the Perl and the
Python client allow for certificates with older protocol versions, too.
---
 perl/client.c    | 4 ++++
 python/client.c  | 4 ++++
 src/common/tls.c | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 3564294..8ab86de 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -84,6 +84,10 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 
 	SSL_CTX_set_options(c->ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 
+	/* The server must prove that it knows our password.  No certificate
+	 * will do instead. */
+	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
+
 	c->bio = BIO_new(BIO_s_connect());
 	if (c->bio == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
diff --git a/python/client.c b/python/client.c
index 3c4c5b1..40cee57 100644
--- a/python/client.c
+++ b/python/client.c
@@ -97,6 +97,10 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 
 	SSL_CTX_set_options(c->ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 
+	/* The server must prove that it knows our password.  No certificate
+	 * will do instead. */
+	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
+
 	c->bio = BIO_new(BIO_s_connect());
 	if (c->bio == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
diff --git a/src/common/tls.c b/src/common/tls.c
index c3a8785..d629a9e 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -174,6 +174,11 @@ tls_client_start(const char *ciphers)
 	debug("Starting TLS client");
 
 	ctx->ssl = initialize_openssl(SSLv23_client_method(), ciphers);
+	/*
+	 * The server must prove that it knows our password.  No certificate
+	 * will do instead (TLS 1.3 would allow for that with any ciphers).
+	 */
+	SSL_CTX_set_verify(ctx->ssl, SSL_VERIFY_PEER, NULL);
 	return ctx;
 }
 
-- 
2.43.0


From b6340621a44e3f7f4dc698c232a1ad1498528555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 34/40] fix: name dump files as seen from outside of the
 chroot(2) directory

The monitoring daemon couldn't find the file named in a PROCESS_FILE command
if the server was configured to use a "chroot", so that the commands in that
file were lost.
---
 src/server/fifo.c    | 9 ++++++---
 src/server/fifo.h    | 3 ++-
 src/server/nsca-ng.c | 1 +
 src/server/server.c  | 4 +++-
 src/server/server.h  | 2 +-
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index 9d45622..e7542bf 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -83,6 +83,7 @@ struct fifo_state_s { /* This is typedef'd to `fifo_state' in fifo.h. */
 	buffer *output_buffer;
 	char *dump_file;
 	const char *dump_dir;
+	const char *root_dir; /* See chroot(2). */
 	const char *path;
 	unsigned char *output;
 	size_t output_size;
@@ -118,7 +119,7 @@ static void free_output(fifo_state *);
 
 fifo_state *
 fifo_start(const char * restrict path, const char * restrict dump_dir,
-           size_t max_queue_size)
+           const char * restrict root_dir, size_t max_queue_size)
 {
 	fifo_state *fifo = xmalloc(sizeof(fifo_state));
 #if HAVE_POSIX_AIO
@@ -146,6 +147,7 @@ fifo_start(const char * restrict path, const char * restrict dump_dir,
 	fifo->output_buffer = buffer_new();
 	fifo->dump_file = NULL;
 	fifo->dump_dir = dump_dir;
+	fifo->root_dir = root_dir;
 	fifo->path = path;
 	fifo->output = NULL;
 	fifo->output_size = 0;
@@ -540,8 +542,9 @@ make_process_file_command(fifo_state *fifo)
 {
 	char *command;
 
-	xasprintf(&command, "[%lu] PROCESS_FILE;%s;1\n",
-	    (unsigned long)time(NULL), fifo->dump_file);
+	/* The reader of the command file isn't subject to our chroot(2) call. */
+	xasprintf(&command, "[%lu] PROCESS_FILE;%s%s;1\n",
+	    (unsigned long)time(NULL), fifo->root_dir, fifo->dump_file);
 
 	return command;
 }
diff --git a/src/server/fifo.h b/src/server/fifo.h
index ddb5e2a..60fa53e 100644
--- a/src/server/fifo.h
+++ b/src/server/fifo.h
@@ -36,7 +36,8 @@
 
 typedef struct fifo_state_s fifo_state;
 
-fifo_state *fifo_start(const char * restrict, const char * restrict, size_t);
+fifo_state *fifo_start(const char * restrict, const char * restrict,
+                       const char * restrict, size_t);
 void fifo_write(fifo_state * restrict, void * restrict, size_t,
                 void (*)(void *));
 void fifo_stop(fifo_state *);
diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index d3f5702..69c09a0 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -195,6 +195,7 @@ main(int argc, char **argv)
 	    cfg_getstr(cfg, "tls_ciphers"),
 	    cfg_getstr(cfg, "command_file"),
 	    cfg_getstr(cfg, "temp_directory"),
+	    cfg_size(cfg, "chroot") > 0 ? cfg_getstr(cfg, "chroot") : "",
 	    (size_t)cfg_getint(cfg, "max_command_size"),
 	    (size_t)cfg_getint(cfg, "max_queue_size"),
 	    cfg_getfloat(cfg, "timeout"));
diff --git a/src/server/server.c b/src/server/server.c
index c970f56..f99a9b4 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -84,6 +84,7 @@ server_start(const char * restrict listen,
              const char * restrict ciphers,
              const char * restrict command_file,
              const char * restrict temp_directory,
+             const char * restrict root_directory,
              size_t max_command_size,
              size_t max_queue_size,
              ev_tstamp timeout)
@@ -117,7 +118,8 @@ server_start(const char * restrict listen,
 	aio_init(&ai);
 #endif
 	ctx->max_command_size = max_command_size;
-	ctx->fifo = fifo_start(command_file, temp_directory, max_queue_size);
+	ctx->fifo = fifo_start(command_file, temp_directory, root_directory,
+	    max_queue_size);
 	ctx->tls_server = tls_server_start(listen, ciphers, timeout,
 	    handle_connect, check_psk);
 	ctx->tls_server->data = ctx;
diff --git a/src/server/server.h b/src/server/server.h
index 9eaa47f..f1a88d2 100644
--- a/src/server/server.h
+++ b/src/server/server.h
@@ -40,7 +40,7 @@ typedef struct server_state_s server_state;
 
 server_state *server_start(const char * restrict, const char * restrict,
                            const char * restrict, const char * restrict,
-                           size_t, size_t, ev_tstamp);
+                           const char * restrict, size_t, size_t, ev_tstamp);
 void server_stop(server_state *);
 
 #endif
-- 
2.43.0


From 2a9836081dfa8b27dd9b2b6ee15bd7e79edd82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:03 +0000
Subject: [PATCH 35/40] fix: let the client libraries use passwords of the
 maximum length

OpenSSL accepts keys of up to (currently) 512 bytes, and the server and
send_nsca(8) use all of them, whereas the libraries cut off the last one.
---
 perl/client.c   | 9 ++++++---
 python/client.c | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 8ab86de..5b46375 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -43,6 +43,7 @@ set_psk(SSL *ssl, const char *hint, char *identity,
         unsigned int max_identity_length, unsigned char *psk,
         unsigned int max_psk_length)
 {
+	size_t psk_length;
 	nscang_client_t *c = NULL;
 
    HASH_FIND_PTR(nscang_client_instances, &ssl, c);
@@ -50,10 +51,12 @@ set_psk(SSL *ssl, const char *hint, char *identity,
 		strncpy(identity, c->identity, max_identity_length);
 		identity[max_identity_length - 1] = 0x00;
 
-		strncpy((char *)psk, c->psk, max_psk_length);
-		psk[max_psk_length - 1] = 0x00;
+		psk_length = strlen(c->psk);
+		if (psk_length > max_psk_length)
+			psk_length = max_psk_length;
+		memcpy(psk, c->psk, psk_length); /* Not NUL-terminated. */
 
-		return strlen((char *)psk);
+		return (unsigned int)psk_length;
 	}
 	identity[0] = 0x00;
 	psk[0] = 0x00;
diff --git a/python/client.c b/python/client.c
index 40cee57..fa75aae 100644
--- a/python/client.c
+++ b/python/client.c
@@ -47,6 +47,7 @@ set_psk(SSL *ssl, const char *hint, char *identity,
         unsigned int max_psk_length)
 {
 	int rc;
+	size_t psk_length;
 	nscang_client_t *c = NULL;
 
 	while (1) {
@@ -62,10 +63,12 @@ set_psk(SSL *ssl, const char *hint, char *identity,
 		strncpy(identity, c->identity, max_identity_length);
 		identity[max_identity_length - 1] = 0x00;
 
-		strncpy((char *)psk, c->psk, max_psk_length);
-		psk[max_psk_length - 1] = 0x00;
+		psk_length = strlen(c->psk);
+		if (psk_length > max_psk_length)
+			psk_length = max_psk_length;
+		memcpy(psk, c->psk, psk_length); /* Not NUL-terminated. */
 
-		return strlen((char *)psk);
+		return (unsigned int)psk_length;
 	}
 	identity[0] = 0x00;
 	psk[0] = 0x00;
-- 
2.43.0


From 0cc7e3122c9e3db51273118d0ded44968e7f4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 36/40] fix: don't let clients forge log entries

Commands and other text received from clients were logged as is, including
carriage returns and other control characters (and, since a multi-line
command is legal input for the checks of an embedded newline, line feeds),
so that an authenticated client could make entries look as if they were
somebody else's.
---
 src/common/log.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/log.c b/src/common/log.c
index c6b191e..ccc1aa1 100644
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -29,6 +29,7 @@
 # include <config.h>
 #endif
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdarg.h>
 #include <stdio.h>
@@ -73,7 +74,7 @@ void
 vlog(int level, const char *in_fmt, va_list ap)
 {
 	size_t in_pos, out_pos;
-	char message[LOG_BUFFER_SIZE], out_fmt[512];
+	char message[LOG_BUFFER_SIZE], out_fmt[512], *c;
 	enum {
 		STATE_NORMAL,
 		STATE_PERCENT
@@ -122,6 +123,11 @@ vlog(int level, const char *in_fmt, va_list ap)
 	    > (int)sizeof(message) - 1)
 		(void)memcpy(message + sizeof(message) - 7, " [...]", 7);
 
+	/* Don't let peers forge log entries by sending us control characters. */
+	for (c = message; *c != '\0'; c++)
+		if (iscntrl((unsigned char)*c) && *c != '\t')
+			*c = '?';
+
 	if (log_target & LOG_TARGET_SYSTEMD) {
 		(void)fprintf(stderr, "<%d>%s\n", level, message);
 		(void)fflush(stderr);
-- 
2.43.0


From 03e5a081095aedc8b03e48fd059f2bf0781e2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 37/40] fix: don't delete a client from the table it was never
 added to

When one of the allocations failed, nscang_client_free() removed a client
from the hash table which it wasn't part of.
---
 perl/client.c   | 16 ++++++++--------
 python/client.c | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 5b46375..ee32e4b 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -72,6 +72,14 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 	snprintf(port_str, sizeof(port_str), "%d", port);
 	memset(c, 0x00, sizeof(nscang_client_t));
 
+	c->identity = malloc(strlen(identity) + 1);
+	c->psk = malloc(strlen(psk) + 1);
+
+	if ((c->identity == NULL) || (c->psk == NULL)) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
 	c->ssl_ctx = SSL_CTX_new(SSLv23_client_method());
 	if (c->ssl_ctx == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_CTX_CREATE;
@@ -111,14 +119,6 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 	SSL_set_connect_state(c->ssl);
 	SSL_set_psk_client_callback(c->ssl, set_psk);
 
-	c->identity = malloc(strlen(identity) + 1);
-	c->psk = malloc(strlen(psk) + 1);
-
-	if ((c->identity == NULL) || (c->psk == NULL)) {
-		c->_errno = NSCANG_ERROR_MALLOC;
-		return 0;
-	}
-
 	strcpy(c->identity, identity);
 	strcpy(c->psk, psk);
 
diff --git a/python/client.c b/python/client.c
index fa75aae..1357667 100644
--- a/python/client.c
+++ b/python/client.c
@@ -85,6 +85,14 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 	snprintf(port_str, sizeof(port_str), "%d", port);
 	memset(c, 0x00, sizeof(nscang_client_t));
 
+	c->identity = malloc(strlen(identity) + 1);
+	c->psk = malloc(strlen(psk) + 1);
+
+	if ((c->identity == NULL) || (c->psk == NULL)) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
 	c->ssl_ctx = SSL_CTX_new(SSLv23_client_method());
 	if (c->ssl_ctx == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_CTX_CREATE;
@@ -124,14 +132,6 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 	SSL_set_connect_state(c->ssl);
 	SSL_set_psk_client_callback(c->ssl, set_psk);
 
-	c->identity = malloc(strlen(identity) + 1);
-	c->psk = malloc(strlen(psk) + 1);
-
-	if ((c->identity == NULL) || (c->psk == NULL)) {
-		c->_errno = NSCANG_ERROR_MALLOC;
-		return 0;
-	}
-
 	strcpy(c->identity, identity);
 	strcpy(c->psk, psk);
 
-- 
2.43.0


From 5d21e2a1f40a5820dc6f21bb0eaa0a79d6bab5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 38/40] fix: let Python clients be destroyed without crash or
 leak

Destroying an object whose constructor had failed dereferenced NULL, and the
client structure was never freed.
---
 python/nscang.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/nscang.c b/python/nscang.c
index 15a24ee..d3763dd 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -153,7 +153,10 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	if (self->client != NULL) { /* The constructor might have failed. */
+		nscang_client_free(self->client);
+		free(self->client);
+	}
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 84c146b70525ab41e82923e3bef507e8b6e81307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:55 +0000
Subject: [PATCH 39/40] fix: don't leak a Perl client whose constructor failed

---
 perl/Client.xs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 2d992d3..fd713a0 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -57,19 +57,17 @@ static int init_object(
    return 0;
 }
 
-static void init_client(nscang_object_t *o)
+static int init_client(nscang_object_t *o, char *errstr, size_t len)
 {
 
    // Initialize the client library
    if(!nscang_client_init(&o->client, o->host, o->port, o->ciphers, o->identity, o->psk)) {
-      char errstr[1024];
-
       nscang_client_free(&o->client);
-      croak("nscang_client_init: %s",
-            nscang_client_errstr(&o->client, errstr, sizeof(errstr))
-           );
+      nscang_client_errstr(&o->client, errstr, len);
+      return 0;
    }
    o->client_initialized = 1;
+   return 1;
 }
 
 static void free_object(nscang_object_t *o) {
@@ -102,6 +100,8 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
    int timeout
 
    CODE:
+      char errstr[1024];
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
@@ -114,10 +114,16 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
                SV_OR_NULL(svc_description), timeout)
         ) {
          free_object(RETVAL);
+         Safefree(RETVAL);
          croak("no memory for object");
       }
 
-      init_client(RETVAL);
+      // There's no Perl object yet that would be destroyed
+      if(!init_client(RETVAL, errstr, sizeof(errstr))) {
+         free_object(RETVAL);
+         Safefree(RETVAL);
+         croak("nscang_client_init: %s", errstr);
+      }
    OUTPUT:
       RETVAL
 
@@ -146,8 +152,8 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    char errstr[1024];
    nscang_client_t *client = &self->client;
 
-   if(!self->client_initialized)
-      init_client(self);
+   if(!self->client_initialized && !init_client(self, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 
    if(SvOK(node_name))
       cnode_name = SvPV_nolen(node_name);
@@ -197,8 +203,8 @@ command(self, command)
    char *ccommand;
    nscang_client_t *client = &self->client;
 
-   if(!self->client_initialized)
-      init_client(self);
+   if(!self->client_initialized && !init_client(self, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 
    if(SvOK(command)) {
       ccommand = SvPV_nolen(command);
-- 
2.43.0


From 5ed25fcbbf5bfcf330a2a1d49415367b3761435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 40/40] fix: keep a copy of the host name in Python clients

The host attribute pointed to the storage of the constructor's argument.
---
 python/nscang.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/nscang.c b/python/nscang.c
index d3763dd..721f81d 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -29,6 +29,8 @@
 #include <Python.h>
 #include "structmember.h"
 
+#include <string.h>
+
 #include <openssl/ssl.h>
 
 #include "client.h"
@@ -130,8 +132,18 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
 	    &self->host, &self->port, &self->identity,
-	    &self->psk, &self->ciphers))
+	    &self->psk, &self->ciphers)) {
+		self->host = NULL;
 		return -1;
+	}
+
+	/* The arguments might be gone by the time our attribute is read. */
+	self->host = strdup(self->host);
+	if (self->host == NULL) {
+		PyErr_Format(PyExc_MemoryError,
+		    "Can't allocate memory for NSCAng connection state");
+		return -1;
+	}
 
 	self->client = malloc(sizeof(nscang_client_t));
 	if (self->client == NULL) {
@@ -157,6 +169,7 @@ NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 		nscang_client_free(self->client);
 		free(self->client);
 	}
+	free(self->host);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0

