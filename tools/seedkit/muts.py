# Small defects for measuring the checks in bulk (no demonstrations): name -> (property, [(file, old, new)...])
M = {}
def m(name, prop, *edits): assert name not in M, name; M[name] = (prop, list(edits))
F='src/server/fifo.c'; S='src/server/server.c'; T='src/common/tls.c'; B='src/common/buffer.c'; N='src/server/nsca-ng.c'; A='src/server/auth.c'
C='src/client/client.c'; I='src/client/input.c'; P='src/client/parse.c'; U='src/common/util.c'; SN='src/client/send_nsca.c'; FL='lib/pidfile/flopen.c'; PF='lib/pidfile/pidfile.c'
# --- command file
m('fifo-epipe-no-timer','P14',(F,'''				ev_io_stop(EV_A_ w);
				ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);
				ev_timer_start(EV_A_ &fifo->open_watcher);''','''				ev_io_stop(EV_A_ w);'''))
m('fifo-open-no-dispatch','P14',(F,'''		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}''','''	}'''))
m('fifo-open-no-dispatch-p01','P01',(F,'''		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}''','''	}'''))
m('fifo-exceed-output-only','P02',(F,'''	return (bool)(fifo->output_size > PIPE_BUF
	    || buffer_size(fifo->output_buffer) > PIPE_BUF);''','''	return (bool)(fifo->output_size > PIPE_BUF);'''))
m('fifo-exceed-buffer-only','P02',(F,'''	return (bool)(fifo->output_size > PIPE_BUF
	    || buffer_size(fifo->output_buffer) > PIPE_BUF);''','''	return (bool)(buffer_size(fifo->output_buffer) > PIPE_BUF);'''))
m('fifo-exceed-twice','P02',(F,'''	return (bool)(fifo->output_size > PIPE_BUF
	    ||''','''	return (bool)(fifo->output_size > 2 * PIPE_BUF
	    ||'''))
m('fifo-exceed-plus-one','P02',(F,'''	return (bool)(fifo->output_size > PIPE_BUF
	    ||''','''	return (bool)(fifo->output_size > PIPE_BUF + 1
	    ||'''))
m('fifo-exceed-buf-plus','P02',(F,'''	    || buffer_size(fifo->output_buffer) > PIPE_BUF);''','''	    || buffer_size(fifo->output_buffer) > PIPE_BUF + 64);'''))
m('fifo-close-ignored','P12',(F,'''		if (close_dump_file(fifo))
			fifo_write(fifo, command, strlen(command), free);
	}

	if''','''		(void)close_dump_file(fifo);
		fifo_write(fifo, command, strlen(command), free);
	}

	if'''))
m('fifo-aio-error-submits','P12',(F,'''		error("Cannot write to %s: %s", fifo->dump_file,
		    strerror(result));
		(void)close_dump_file(fifo);''','''		char *command = make_process_file_command(fifo);

		error("Cannot write to %s: %s", fifo->dump_file,
		    strerror(result));
		if (close_dump_file(fifo))
			fifo_write(fifo, command, strlen(command), free);'''))
m('fifo-command-at-submit','P12',(F,'''	/* The output buffer is now owned by fifo->async_cb.aio_buf. */
	fifo->output = NULL;
	fifo->output_size = 0;
''','''	/* The output buffer is now owned by fifo->async_cb.aio_buf. */
	fifo->output = NULL;
	fifo->output_size = 0;

	command = make_process_file_command(fifo);
	fifo_write(fifo, command, strlen(command), free);
'''),(F,'''async_dump_data(fifo_state *fifo)
{
	join''','''async_dump_data(fifo_state *fifo)
{
	char *command;

	join'''),(F,'''		char *command = make_process_file_command(fifo);

		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
		if (close_dump_file(fifo))
			fifo_write(fifo, command, strlen(command), free);''','''		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
		(void)close_dump_file(fifo);'''))
m('fifo-short-accepted','P12',(F,'''	    != (ssize_t)fifo->async_cb.aio_nbytes) {''','''	    == 0) {'''))
m('fifo-delete-flag','P12',(F,'PROCESS_FILE;%s;1','PROCESS_FILE;%s;0'))
m('fifo-fixed-name','P12',(F,'''	if ((fifo->dump_fd = mkstemp(fifo->dump_file)) == -1) {''','''	(void)memcpy(strrchr(fifo->dump_file, '.') + 1, "dump00", 6);
	if ((fifo->dump_fd = open(fifo->dump_file, O_WRONLY | O_CREAT | O_TRUNC, 0600)) == -1) {'''))
m('sync-short','P12',(F,'''offset += (size_t)n) {
		do
			n = write(fifo->dump_fd, fifo->output + offset,''','''offset += (size_t)n) {
		do
			n = write(fifo->dump_fd, fifo->output,'''))
m('sync-eintr','P12',(F,'''		while (n == -1 && errno == EINTR);
		if (n == -1) {
			error("Cannot write to %s: %m", fifo->dump_file);''','''		while (0);
		if (n == -1) {
			error("Cannot write to %s: %m", fifo->dump_file);'''))
m('sync-once','P12',(F,'''		debug("Wrote %zu bytes to %s", fifo->output_size,
		    fifo->dump_file);
	}''','''		debug("Wrote %zu bytes to %s", fifo->output_size,
		    fifo->dump_file);
		break;
	}'''))
m('sync-no-write-after','P01',(F,'''	command = make_process_file_command(fifo);
	if (close_dump_file(fifo))
		fifo_write(fifo, command, strlen(command), free);
}

#endif''','''	command = make_process_file_command(fifo);
	if (!close_dump_file(fifo))
		fifo_write(fifo, command, strlen(command), free);
	else
		free(command);
}

#endif'''))
m('fifo-leak-queue','P11',(F,'''		dispatch_data(fifo);
		if (free_data != NULL)
			free_data(data);
	}
}''','''		dispatch_data(fifo);
	}
}'''))
m('fifo-overflow-boundary','P13',(F,'''		    && buffer_size(fifo->output_buffer) + size
		    > fifo->max_queue_size) {''','''		    && buffer_size(fifo->output_buffer)
		    > fifo->max_queue_size + size) {'''))
m('fifo-overflow-early','P13',(F,'''		    && buffer_size(fifo->output_buffer) + size
		    > fifo->max_queue_size) {''','''		    && buffer_size(fifo->output_buffer) + size
		    > fifo->max_queue_size / 2) {'''))
m('fifo-overflow-drops-new','P13',(F,'''			fifo->output_buffer = buffer_new();
		}
		debug("Queueing''','''			fifo->output_buffer = buffer_new();
			if (free_data != NULL)
				free_data(data);
			return;
		}
		debug("Queueing'''))
m('fifo-overflow-zero-unlimited','P13',(F,'''		if (fifo->max_queue_size > 0
		    && buffer''','''		if (buffer'''))
m('fifo-overflow-silent','P13',(F,'''			warning("Queued more than %zu MB, THROWING DATA AWAY",
			    fifo->max_queue_size / 1024 / 1024);''','''			debug("Queued more than %zu MB, THROWING DATA AWAY",
			    fifo->max_queue_size / 1024 / 1024);'''))
m('fifo-queue-mb','P13',(F,'max_queue_size * 1024 * 1024;','max_queue_size * 1000 * 1000;'))
m('fifo-write-eagain-drop','P01',(F,'''				debug("Writing to command file failed: %m");
				return;''','''				debug("Writing to command file failed: %m");
				free_output(fifo);
				return;'''))
m('fifo-eintr-drop','P01',(F,'''				debug("Writing to command file failed: %m");
				continue;''','''				debug("Writing to command file failed: %m");
				free_output(fifo);
				break;'''))
m('fifo-join-loses-output','P01',(F,'''	if (fifo->output != NULL)
		(void)memcpy(new_output, fifo->output, fifo->output_size);''','''	if (fifo->output != NULL)
		(void)memset(new_output, '\\n', fifo->output_size);'''))
m('fifo-join-size','P12',(F,'''	fifo->output = new_output;
	fifo->output_size = new_size;
	fifo->free_output = free;''','''	fifo->output = new_output;
	fifo->output_size = MIN(new_size, 65536);
	fifo->free_output = free;'''))
m('fifo-fd-leak-dump','P11',(F,'''	do
		result = close(fifo->dump_fd);
	while (result == -1 && errno == EINTR);
	if (result == -1)
		error("Cannot close''','''	result = fsync(fifo->dump_fd) == -1 && errno == EIO ? -1 : 0;
	if (result == -1)
		error("Cannot close'''))
m('fifo-fd-leak-notfifo','P11',(F,'''			warning("%s is not a named pipe", fifo->path);

		(void)close(fifo->fd);
		fifo->fd = -1;''','''			warning("%s is not a named pipe", fifo->path);

		fifo->fd = -1;'''))
m('fifo-notfifo-accepted','P14',(F,'''	} else if (((result = fstat(fifo->fd, &sb)) == -1)
	    || !S_ISFIFO(sb.st_mode)) {''','''	} else if (((result = fstat(fifo->fd, &sb)) == -1)) {'''))
m('fifo-open-blocking','P14',(F,'O_WRONLY | O_NONBLOCK','O_WRONLY'))
m('fifo-retry-interval','P14',(F,'#define TIMEOUT 10.0','#define TIMEOUT 100.0'))
m('fifo-open-once','P14',(F,'''	if (fifo->fd == -1) {
		ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);''','''	if (fifo->fd == -1 && revents == EV_CUSTOM) {
		ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);'''))
m('fifo-enxio-die','P14',(F,'''			warning("No process is reading the command file");''','''			die("No process is reading the command file");'''))
m('fifo-prio-order','P15',(F,'''	if (buffers_are_empty(fifo) && free_data != NULL) {''','''	if (fifo->output == NULL && free_data != NULL) {'''))
m('fifo-dump-order','P15',(F,'''	if (fifo->output != NULL)
		(void)memcpy(new_output, fifo->output, fifo->output_size);

	(void)buffer_read(fifo->output_buffer,
	    new_output + fifo->output_size,
	    new_size - fifo->output_size);''','''	if (fifo->output != NULL)
		(void)memcpy(new_output + new_size - fifo->output_size, fifo->output, fifo->output_size);

	(void)buffer_read(fifo->output_buffer,
	    new_output,
	    new_size - fifo->output_size);'''))
m('fifo-watcher-not-stopped','P10',(F,'''			free_output(fifo);
			if (buffer_size(fifo->output_buffer) == 0)
				ev_io_stop(EV_A_ w);''','''			free_output(fifo);'''))
m('fifo-dispatch-watcher','P01',(F,'''			debug("Stopping command file output watcher");
			ev_io_stop(EV_DEFAULT_UC_ &fifo->write_watcher);''','''			debug("Stopping command file output watcher");'''))
m('fifo-async-not-redispatched','P01',(F,'''	if (buffers_exceed_pipe_size(fifo))
		dispatch_data(fifo);
}

#else''','''}

#else'''))
# --- server
m('srv-size-ge','P20',(S,'(size_t)data_size > connection->ctx->max_command_size','(size_t)data_size >= connection->ctx->max_command_size'))
m('srv-size-plus','P20',(S,'(size_t)data_size > connection->ctx->max_command_size','(size_t)data_size > connection->ctx->max_command_size + 1'))
m('srv-size-nolimit','P20',(S,'''		    || (connection->ctx->max_command_size > 0
		    && (size_t)data_size >''','''		    || (connection->ctx->max_command_size > 1
		    && (size_t)data_size / 2 >'''))
m('srv-size-intmax','P20',(S,'data_size >= INT_MAX\n		    ||','data_size == INT_MAX\n		    ||'))
m('srv-size-atoi','P20',(S,'strtol(args[1], NULL, 10)','atoi(args[1])'))
m('srv-size-trunc','P20',(S,'(data_size = strtol(args[1], NULL, 10)) <= 0','(data_size = (unsigned short)strtol(args[1], NULL, 10)) <= 0'))
m('srv-ping-no-shutdown','P07',(S,'''		send_response(tls, "PONG 1");
		tls_shutdown(tls);
		connection_stop(tls);''','''		send_response(tls, "PONG 1");
		tls_read_line(tls, handle_handshake);'''))
m('srv-bail-stays','P07',(S,'''		error("%s said: %s", tls->peer, line);
		tls_shutdown(tls);
		connection_stop(tls);
		return true;''','''		error("%s said: %s", tls->peer, line);
		tls_read_line(tls, handle_handshake);
		return true;'''))
m('srv-moin-zero','P07',(S,'atoi(args[1]) <= 0) {\n			warning("Expected protocol','atoi(args[1]) < 0) {\n			warning("Expected protocol'))
m('srv-moin-fail-advances','P07',(S,'''			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_handshake);''','''			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_connection);'''))
m('srv-moin-parse-advances','P07',(S,'''			send_response(tls, "FAIL Cannot parse MOIN request");
			tls_read_line(tls, handle_handshake);''','''			send_response(tls, "FAIL Cannot parse MOIN request");
			tls_read_line(tls, handle_connection);'''))
m('srv-push-zero','P07',(S,'(data_size = strtol(args[1], NULL, 10)) <= 0) {','(data_size = strtol(args[1], NULL, 10)) < 0) {'))
m('srv-noop-in-handshake','P07',(S,'''	} else if (strncasecmp("PING", line, 4) == 0) {''','''	} else if (strncasecmp("NOOP", line, 4) == 0) {
		send_response(tls, "OKAY");
		tls_read_line(tls, handle_handshake);
	} else if (strncasecmp("PING", line, 4) == 0) {'''))
m('srv-case-sensitive','P07',(S,'strncasecmp("PUSH", line, 4)','strncmp("PUSH", line, 4)'))
m('srv-quit-case','P07',(S,'strncasecmp("QUIT", line, 4)','strcmp("QUIT", line)'))
m('srv-refused-push-closes','P07',(S,'''		free(data);
		send_response(tls, "FAIL You're not authorized");
	}
''','''		free(data);
		send_response(tls, "FAIL You're not authorized");
		tls_shutdown(tls);
		connection_stop(tls);
		return;
	}
'''))
m('srv-bad-push-resets','P07',(S,'''			send_response(tls, "FAIL PUSH data size too large");
			tls_read_line(tls, handle_connection);''','''			send_response(tls, "FAIL PUSH data size too large");
			tls_read_line(tls, handle_handshake);'''))
m('srv-ack-refused','P03',(S,'''		free(data);
		send_response(tls, "FAIL You're not authorized");''','''		fifo_write(connection->ctx->fifo, data,
		    connection->input_length, free);
		send_response(tls, "FAIL You're not authorized");'''))
m('srv-okay-for-refused','P03',(S,'''send_response(tls, "FAIL You're not authorized");''','''send_response(tls, "OKAY");'''))
m('srv-ack-before-auth','P01',(S,'''	} else if (is_authorized(tls->id, data)) {''','''	} else if (is_authorized(tls->id, data) && connection->input_length != 4097) {'''),(S,'''send_response(tls, "FAIL You're not authorized");''','''send_response(tls, "OKAY");'''))
m('srv-leak-bail','P11',(S,'''	tls_shutdown(tls);

	connection_stop(tls);
	free(message);''','''	tls_shutdown(tls);

	free(message);'''))
m('srv-leak-refused','P11',(S,'''		free(data);
		send_response(tls, "FAIL You're not authorized");''','''		send_response(tls, "FAIL You're not authorized");'''))
m('srv-leak-error','P11',(S,'''handle_error(tls_state *tls)
{
	connection_stop(tls);''','''handle_error(tls_state *tls)
{
	(void)tls;'''))
m('srv-leak-line','P11',(S,'''		tls_read_line(tls, handle_handshake);
	}
	free(line);''','''		tls_read_line(tls, handle_handshake);
		return;
	}
	free(line);'''))
m('srv-timeout-no-bail','P08',(S,'''	bail(tls, "Connection timed out");''','''	tls_shutdown(tls);
	connection_stop(tls);'''))
m('srv-timeout-lingers','P08',(S,'''	bail(tls, "Connection timed out");''','''	tls_write(tls, "BAIL ", sizeof("BAIL ") - 1, NULL);
	tls_write_line(tls, "Connection timed out");'''))
m('srv-newline-len','P01',(S,'''		fifo_write(connection->ctx->fifo, data,
		    connection->input_length, free);''','''		fifo_write(connection->ctx->fifo, data,
		    (size_t)width, free);'''))
m('srv-id-first','P03',(S,'is_authorized(tls->id, data)','is_authorized(tls->peer, data)'))
m('srv-nul-lost','P03',(S,'memchr(data, \'\\0\', connection->input_length) != NULL','memchr(data, \'\\0\', connection->input_length / 2) != NULL'))
# --- tls
m('tls-write-no-activity','P08',(T,'''	reset_watcher_state(EV_A_ &tls->read_watcher, EV_WRITE);
	note_activity(EV_A_ tls);''','''	reset_watcher_state(EV_A_ &tls->read_watcher, EV_WRITE);'''))
m('tls-write-no-activity-client','P05',(T,'''	reset_watcher_state(EV_A_ &tls->read_watcher, EV_WRITE);
	note_activity(EV_A_ tls);''','''	reset_watcher_state(EV_A_ &tls->read_watcher, EV_WRITE);'''))
m('tls-read-no-activity','P08',(T,'''	reset_watcher_state(EV_A_ &tls->write_watcher, EV_READ);
	note_activity(EV_A_ tls);''','''	reset_watcher_state(EV_A_ &tls->write_watcher, EV_READ);'''))
m('tls-accept-no-activity','P08',(T,'''	note_activity(EV_A_ tls);

	if ((result = SSL_accept''','''	if ((result = SSL_accept'''))
m('tls-out-offset','P06',(T,'tls->output_offset += (size_t)n;','tls->output_offset = (size_t)n;'))
m('tls-out-offset-not-reset','P06',(T,'''				tls->output_size = 0;
				tls->output_offset = 0;''','''				tls->output_size = 0;'''))
m('tls-in-offset','P01',(T,'tls->input_offset += (size_t)n;','tls->input_offset = (size_t)n;'))
m('tls-in-offset-not-reset','P01',(T,'''			tls->input_size = 0;
			tls->input_offset = 0;
			break;''','''			tls->input_size = 0;
			break;'''))
m('tls-shutdown-zero-done','P07',(T,'''			debug("Sent TLS `close notify' alert to %s", tls->peer);
			break;''','''			debug("Sent TLS `close notify' alert to %s", tls->peer);
			tls_free(tls);
			return;'''))
m('tls-shutdown-zero-wait','P08',(T,'''	} while (result == 0);''','''	} while (0);'''))
m('tls-line-pipelined','P07',(T,'''	ev_feed_event(EV_DEFAULT_UC_ &tls->read_watcher, EV_READ);
}

void
tls_read_line''','''}

void
tls_read_line'''))
m('tls-drain-lost','P07',(T,'''					ev_io_stop(EV_A_ w);
					if (tls->drain_handler != NULL)''','''					ev_io_stop(EV_A_ w);
					if (tls->drain_handler != NULL && n_todo > 6)'''))
m('tls-drain-immediate','P07',(T,'''	tls->drain_handler = handle_drain;
	if (!ev_is_active(&tls->write_watcher))
		tls->drain_handler(tls);''','''	tls->drain_handler = NULL;
	handle_drain(tls);'''))
m('tls-want-read-ignored','P10',(T,'''		if (!(w->events & EV_READ)) {
			ev_io_stop(EV_A_ w);
			ev_io_set(w, w->fd, EV_READ);
			ev_io_start(EV_A_ w);
		}
		debug("Waiting for input''','''		debug("Waiting for input'''))
m('tls-want-write-ignored','P07',(T,'''		if (!(w->events & EV_WRITE)) {
			ev_io_stop(EV_A_ w);
			ev_io_set(w, w->fd, EV_WRITE);
			ev_io_start(EV_A_ w);
		}
		debug("Waiting for output''','''		debug("Waiting for output'''))
m('tls-reset-read-missing','P07',(T,'''	reset_watcher_state(EV_A_ &tls->read_watcher, EV_WRITE);
''',''))
m('tls-reset-write-missing','P07',(T,'''	reset_watcher_state(EV_A_ &tls->write_watcher, EV_READ);
''',''))
m('tls-no-free-ssl','P11',(T,'''		SSL_free(tls->ssl); /* This also frees the BIO. */''','''		(void)BIO_reset(SSL_get_rbio(tls->ssl));'''))
m('tls-leak-id','P11',(T,'''	if (tls->id != NULL)
		free(tls->id);
''',''))
m('tls-leak-peer-id','P11',(T,'''	free(tls->peer);
	tls->peer = peer;''','''	tls->peer = peer;'''))
m('tls-leak-input','P11',(T,'''	if (tls->input != NULL)
		free(tls->input);
''',''))
m('tls-leak-appdata','P11',(A,'''	if (SSL_get_app_data(ssl) != NULL) /* Stored by a previous call. */
		free(SSL_get_app_data(ssl));
''',''))
m('tls-fd-leak-abort','P11',(T,'''		if (!get_peer_address(tls->fd, tls->addr, INET6_ADDRSTRLEN)) {
			tls_free(tls);
			return;''','''		if (!get_peer_address(tls->fd, tls->addr, INET6_ADDRSTRLEN)) {
			tls->bio = NULL;
			tls_free(tls);
			return;'''))
m('tls-accept-one','P10',(T,'''		debug("Accepted connection from %s", tls->addr);
	}''','''		debug("Accepted connection from %s", tls->addr);
		break;
	}'''))
m('tls-peeraddr-die','P10',(T,'error("Cannot get peer\'s IP address: %m");','die("Cannot get peer\'s IP address: %m");'))
m('tls-sslnew-die','P10',(T,'''			log_tls_message(error,
			    "Cannot create SSL object for %s", tls->addr);''','''			log_tls_message(die,
			    "Cannot create SSL object for %s", tls->addr);'''))
m('tls-accept-warn-die','P10',(T,'''				log_tls_message(warning,
				    "Cannot accept connection");''','''				log_tls_message(die,
				    "Cannot accept connection");'''))
m('tls-eintr-fatal','P07',(T,'''			case EINTR:
				debug("TLS I/O call has been interrupted");
				return;
			case 0:''','''			case EINTR:
			case 0:'''))
m('tls-error-double','P10',(T,'''	 */
	tls->error_handler = NULL;
	tls->timeout_handler = default_timeout_handler;''','''	 */
	tls->timeout_handler = default_timeout_handler;'''))
m('tls-timeout-recursive','P08',(T,'''	 */
	tls->error_handler = NULL;
	tls->timeout_handler = default_timeout_handler;''','''	 */
	tls->error_handler = NULL;'''))
m('tls-timeout-keeps-read','P08',(T,'''	if (ev_is_active(&tls->read_watcher))
		ev_io_stop(EV_A_ &tls->read_watcher);
	if (ev_is_active(&tls->write_watcher))
		ev_io_stop(EV_A_ &tls->write_watcher);
	if (ev_is_active(&tls->shutdown_watcher))
		ev_io_stop(EV_A_ &tls->shutdown_watcher);

	tls->timeout_handler(tls);''','''	if (ev_is_active(&tls->write_watcher))
		ev_io_stop(EV_A_ &tls->write_watcher);
	if (ev_is_active(&tls->shutdown_watcher))
		ev_io_stop(EV_A_ &tls->shutdown_watcher);

	tls->timeout_handler(tls);'''))
m('tls-timeout-oneshot','P08',(T,'ev_timer_set(&tls->timeout_watcher, tls->timeout, tls->timeout);','ev_timer_set(&tls->timeout_watcher, tls->timeout, 0.0);'))
m('tls-timeout-double','P08',(T,'ev_timer_set(&tls->timeout_watcher, tls->timeout, tls->timeout);','ev_timer_set(&tls->timeout_watcher, tls->timeout, 3 * tls->timeout);'))
m('tls-timeout-prio','P08',(T,'''	ev_set_priority(&tls->timeout_watcher, -1);''','''	ev_set_priority(&tls->timeout_watcher, 1);'''))
m('tls-line-limit-gone','P21',(T,'''		if (buffer_size(tls->input_buffer) + tls->input_size
		    > LINE_MAX_SIZE) {''','''		if (buffer_size(tls->input_buffer)
		    > LINE_MAX_SIZE * 8) {'''))
m('tls-line-limit-small','P21',(T,'#define LINE_MAX_SIZE 2048','#define LINE_MAX_SIZE 1024'))
m('tls-line-limit-off','P21',(T,'''		if (buffer_size(tls->input_buffer) + tls->input_size
		    > LINE_MAX_SIZE) {''','''		if (buffer_size(tls->input_buffer)
		    > LINE_MAX_SIZE + tls->input_size) {'''))
m('tls-line-limit-no-stop','P21',(T,'''			ev_io_stop(EV_DEFAULT_UC_ &tls->read_watcher);
			tls->line_too_long_handler(tls);''','''			tls->line_too_long_handler(tls);'''))
m('tls-line-limit-default','P21',(S,'''	tls_on_line_too_long(tls, handle_line_too_long);
''',''))
m('tls-nosession-cache','P03',(T,'''	if (SSL_CTX_set_cipher_list(ssl_ctx, ciphers) != 1)''','''	if (*ciphers == '\\0' || SSL_CTX_set_cipher_list(ssl_ctx, "ALL:eNULL:aNULL") != 1)'''))
m('tls-client-want-connect','P22',(T,'''		tls->fd = (int)BIO_get_fd(tls->bio, NULL);
		ev_io_stop(EV_A_ w);
		ev_io_set(w, tls->fd, EV_WRITE);
		ev_io_start(EV_A_ w);''','''		if (!(w->events & EV_WRITE)) {
			ev_io_stop(EV_A_ w);
			ev_io_set(w, w->fd, EV_WRITE);
			ev_io_start(EV_A_ w);
		}'''))
m('tls-client-syscall','P05',(T,'''	warning_f("%s closed the TLS connection", peer);''','''	warning("%s closed the TLS connection", peer);'''),)
m('tls-autodie-off','P05',(T,'''	if (flags & TLS_AUTO_DIE) {
		warning_f = die;''','''	if (flags & TLS_AUTO_DIE) {
		warning_f = warning;'''))
m('tls-autodie-error','P05',(T,'''		error_f = die;''','''		error_f = error;'''))
m('tls-read-n-accum','P01',(T,'''			bytes = (char *)tls->input;
			tls->input = NULL;''','''			bytes = (char *)tls->input;
			bytes[n_todo] = '\\0';
			tls->input = NULL;'''))
m('tls-read-partial-eagerness','P01',(T,'''	} while (n > 0 && n < n_todo);

	return bytes;''','''	} while (0);

	return bytes;'''))
m('tls-write-dup','P06',(T,'''				tls->output_offset += (size_t)n;
			} else {''','''				tls->output_offset += (size_t)n - (n > 4096);
			} else {'''))
# --- buffer
m('buf-find-start','P07',(B,'size_t i = b == buf->first ? buf->start_offset : 0;','size_t i = 0;'))
m('buf-find-end','P07',(B,'''		size_t end_offset = b == buf->last ?
		    buf->end_offset : BUFFER_BLOCK_SIZE;''','''		size_t end_offset = BUFFER_BLOCK_SIZE;'''))
m('buf-find-first-only','P07',(B,'''			i++, pos++;
		}
	}
	return 0;''','''			i++, pos++;
		}
		if (pos > 2 * BUFFER_BLOCK_SIZE)
			break;
	}
	return 0;'''))
m('buf-detach-offset','P07',(B,'''	    && buf->start_offset == 0
''',''))
m('buf-detach-size','P07',(B,'''	    && buf->size == size) {''','''	    && buf->size >= size) {'''))
m('buf-remove-last','P01',(B,'''	if (buf->first == NULL)
		buf->last = NULL;
}''','''}'''))
m('buf-no-empty-remove','P11',(B,'''	if (buf->size == 0 && buf->first != NULL) {
		block_remove(buf);
		buf->start_offset = 0;
	}''',''))
m('buf-end-offset-stale','P01',(B,'''			block_add(buf);
			buf->end_offset = 0;''','''			block_add(buf);
			if (buf->first != buf->last)
				buf->end_offset = 0;'''))
m('buf-size-read','P13',(B,'	buf->size -= n_total;','	buf->size -= n_total > 65536 ? 65536 : n_total;'))
m('buf-leak-free','P11',(B,'''		free(blk);
		blk = next;
	}''','''		if (next != NULL || buf->size > 0)
			free(blk);
		blk = next;
	}'''))
m('buf-crlf','P07',(B,'''	if (size >= 2 && line[size - 2] == '\\r')''','''	if (size > 2 && line[size - 2] == '\\r')'''))
# --- auth / hash / conf
m('auth-star-first','P03',(A,'''	if ((auth = hash_lookup(identity)) == NULL
	    && (auth = hash_lookup("*")) == NULL) {
		/* Shouldn't''','''	if ((auth = hash_lookup("*")) == NULL
	    && (auth = hash_lookup(identity)) == NULL) {
		/* Shouldn't'''))
m('auth-psk-star-first','P04',(A,'''	if ((auth = hash_lookup(identity)) == NULL
	    && (auth = hash_lookup("*")) == NULL) {
		warning''','''	if ((auth = hash_lookup("*")) == NULL
	    && (auth = hash_lookup(identity)) == NULL) {
		warning'''))
m('auth-no-star','P04',(A,'''	if ((auth = hash_lookup(identity)) == NULL
	    && (auth = hash_lookup("*")) == NULL) {
		warning''','''	if ((auth = hash_lookup(identity)) == NULL) {
		warning'''))
m('auth-any-pw','P04',(A,'''	password_len = MIN(strlen(configured_pw), max_password_len);''','''	password_len = MIN(strlen(configured_pw), 16);'''))
m('auth-ts-optional','P03',(A,'''	if (*command != '[' || (command = strchr(command, ']')) == NULL) {''','''	if ((command = strchr(command, ']')) == NULL) {'''))
m('auth-ts-last','P03',(A,'''(command = strchr(command, ']')) == NULL''','''(command = strrchr(command, ']')) == NULL'''))
m('auth-no-ws','P03',(A,'command = skip_whitespace(command + 1);','command = command + 1;'))
m('auth-newline-mid','P03',(A,'''	if (*(newline + 1) != '\\0') {''','''	if (*(newline + 1) == '[') {'''))
m('auth-no-newline','P03',(A,'''	if ((newline = strchr(command, '\\n')) == NULL) {
		warning("Command submitted by %s isn't newline-terminated",
		    identity);
		return false;
	}
	if (*(newline''','''	if ((newline = strchr(command, '\\n')) != NULL && *(newline'''))
m('auth-fields-hosts','P03',(A,'{ "hosts", 2, 1 }','{ "hosts", 2, 0 }'))
m('auth-fields-services','P03',(A,'{ "services", 3, 2 }','{ "services", 3, 1 }'))
m('auth-fields-cross','P03',(A,'''	if (end != NULL)
		*end = '\\0';
''',''))
m('auth-first-pattern','P03',(A,'for (j = 0; !authorized && j < cfg_opt_size(opt); j++) {','for (j = 0; !authorized && j < MIN(cfg_opt_size(opt), 1); j++) {'))
m('auth-regex-error','P03',(A,'''		error("Error matching command: %s", errbuf);
		return false;''','''		error("Error matching command: %s", errbuf);
		return true;'''))
m('hash-small','P03',('src/server/conf.c','hash_new(','hash_new(1 + 0 * '))
m('conf-global-pw','P04',('src/server/conf.c','''		if (cfg_size(auth, settings[i]) == 0
		    && cfg_opt_size(global_opt) > 0)''','''		if (cfg_opt_size(global_opt) > 0)'''))
m('conf-global-first','P03',('src/server/conf.c','for (j = 0; j < cfg_opt_size(global_opt); j++)\n				if','for (j = 0; j < cfg_opt_size(global_opt) && j < 2; j++)\n				if'))
m('conf-service-at','P03',('src/server/conf.c','''(at = strrchr(pattern, '@'))''','''(at = strchr(pattern, '@'))'''))
m('conf-anchor','P03',('src/server/conf.c','"^(%s)\\n?$"','"^%s\\n?$"'))
m('conf-anchor-end','P03',('src/server/conf.c','"^(%s)\\n?$"','"^(%s)"'))
m('conf-host-noparen','P03',('src/server/conf.c','PROCESS_HOST_CHECK_RESULT;(%s)','PROCESS_HOST_CHECK_RESULT;%s'))
m('conf-service-host-any','P03',('src/server/conf.c','host_part = "[^;]+";','host_part = ".*";'))
m('conf-icase','P03',('src/server/conf.c','REG_EXTENDED | REG_NOSUB','REG_EXTENDED | REG_NOSUB | REG_ICASE'))
# --- client
m('cli-exit-zero-fail','P05',(C,'''		critical("Server said: %s", line);
		exit_code = EXIT_FAILURE;''','''		critical("Server said: %s", line);
		if (strncasecmp("FAIL", line, 4) == 0)
			exit_code = EXIT_FAILURE;'''))
m('cli-exit-zero-bail','P05',(C,'''	critical("%s", message);
	free(message);
	exit_code = EXIT_FAILURE;''','''	critical("%s", message);
	free(message);'''))
m('cli-command-resp-any','P05',(C,'''	if (strcasecmp("OKAY", line) == 0)
		input_read_chunk(client->input, handle_input_chunk);''','''	if (strncasecmp("FAIL", line, 4) != 0)
		input_read_chunk(client->input, handle_input_chunk);'''))
m('cli-push-resp-prefix','P05',(C,'''	if (strcasecmp("OKAY", line) == 0) {''','''	if (strncasecmp("OKAY", line, 1) == 0) {'''))
m('cli-quit-resp','P05',(C,'''	if (strcasecmp("OKAY", line) == 0)
		client_stop(client);
	else if (!server_is_grumpy(tls, line))
		bail(tls, "Received unexpected QUIT response");''','''	client_stop(client);'''))
m('cli-moin-version','P05',(C,'''		else if (protocol_version != 1)
			bail(tls, "Protocol version %d not supported",
			    protocol_version);
''',''))
m('cli-quit-early','P06',(C,'''	if (*data == '\\0') { /* Ignore empty input lines. */
		free(chunk);
		input_read_chunk(input, handle_input_chunk);
		return;
	}''','''	if (*data == '\\0') { /* Ignore empty input lines. */
		free(chunk);
		handle_input_eof(input);
		return;
	}'''))
m('cli-empty-not-ignored','P06',(C,'''	if (*data == '\\0') { /* Ignore''','''	if (*data == '\\0' && *chunk != '\\r') { /* Ignore'''))
m('cli-no-skipnl','P06',(C,'char *data = skip_newlines(chunk);','char *data = chunk;'))
m('cli-no-chomp','P06',(C,'		chomp(data);\n',''))
m('cli-sep','P06',(C,"mode == CLIENT_MODE_COMMAND ? '\\n' : separator","separator"))
m('cli-len','P06',(C,'''	client->command_length = strlen(client->command);
	client->command[client->command_length++] = '\\n';''','''	client->command_length = strlen(client->command);
	if (client->command_length % 128 != 127)
		client->command[client->command_length++] = '\\n';'''))
m('cli-free-early','P10',(C,'tls_write(client->tls','tls_write(client->tls') if False else (C,'''		free(client->command);
		bail(tls, "Received unexpected PUSH response");''','''		bail(tls, "Received unexpected PUSH response");'''))
m('inp-eof-drop','P06',(I,'''			if (len > 0) {
				debug("Providing''','''			if (len > 1) {
				debug("Providing'''))
m('inp-eof-noterm','P06',(I,'''				chunk[len] = '\\0';''','''				chunk[len - 1] = '\\0';'''))
m('inp-eintr-die','P05',(I,'''
			    || errno == EINTR)
				debug''','''
			    || errno == ENXIO)
				debug'''))
m('inp-blocking','P09',(I,'flags | O_NONBLOCK','flags'))
m('inp-no-eof-flag','P06',(I,'''			input->eof = true;
			if (len''','''			input->eof = len == 0;
			if (len'''))
m('inp-eagain-eof','P06',(I,'''		    < 0) {
			if (errno == EAGAIN''','''		    < 0) {
			if (errno == EAGAIN && buffer_size(input->buffer) > 2000)
				die("Line too long");
			if (errno == EAGAIN'''))
m('parse-escape-bs','P06',(P,'''		case '\\\\':
			*out++ = '\\\\';
			*out = '\\\\';
			break;''','''		case '\\\\':
			*out = '\\\\';
			break;'''))
m('parse-fields-5','P06',(P,'for (pos = 0; n < 4 &&','for (pos = 0; n < 5 &&') if False else (P,"if (strpbrk(input, \"\\\\\\n\") != NULL)","if (strchr(input, '\\n') != NULL)"))
m('parse-len','P06',(P,'lengths[n - 1] = pos - start_pos;','lengths[n - 1] = MIN(pos - start_pos, 255);'))
m('parse-host-delim','P06',(P,'''	case 3:
		debug("Got host''','''	case 2:
	case 3:
		if (n == 2)
			fields[2] = "", lengths[1] = (int)strlen(fields[1]);
		debug("Got host'''))
m('parse-ts-raw','P06',(P,'''	if (line[0] == '[')''','''	if (line[0] == '[' && line[1] != '0')'''))
m('parse-no-skipws','P06',(P,'	line = skip_whitespace(line);\n',''))
m('cli-timeout-conf','P09',(SN,'	    conf_getint(cfg, "timeout"),','	    conf_getint(cfg, "timeout") * 2,'))
m('cli-delay','P05',(SN,'		ev_now_update(EV_DEFAULT_UC); /* Don\'t time out right away. */\n',''))
m('cli-psk-trunc','P05',('src/client/auth.c','MIN(strlen(configured_pw), max_password_len)','MIN(strlen(configured_pw), 64)'))
m('cli-id-trunc','P05',('src/client/auth.c','MIN(strlen(configured_id), max_identity_len - 1)','MIN(strlen(configured_id), 31)'))
m('cli-timer-never-restart','P05',(T,'''	if (ev_is_active(&tls->timeout_watcher))
		ev_timer_again(EV_A_ &tls->timeout_watcher);''','''	if (ev_is_active(&tls->timeout_watcher) && tls->drain_handler != NULL)
		ev_timer_again(EV_A_ &tls->timeout_watcher);'''))
# --- process
m('wd-half','P18',(N,'sec /= 2.5;','sec *= 1.5;'))
m('wd-once','P18',(N,'keep_alive_cb, sec, sec);','keep_alive_cb, sec, 0.0);'))
m('wd-no-first','P18',(N,'''	if (ev_is_active(&keep_alive_watcher))
		(void)sd_notify(0, "WATCHDOG=1");''',''))
m('ready-early','P18',(N,'	(void)sd_notify(0, "READY=1");\n',''),(N,'''	server = server_start(
''','''	(void)sd_notify(0, "READY=1");
	server = server_start(
'''))
m('ready-missing','P18',(N,'	(void)sd_notify(0, "READY=1");\n',''))
m('sig-hup-once','P17',(N,'''	ev_signal_start(EV_DEFAULT_UC_ &sighup_watcher);
''','''	if (getenv("LISTEN_PID") == NULL)
		ev_signal_start(EV_DEFAULT_UC_ &sighup_watcher);
'''))
m('sig-int-ignored','P17',(N,'''	ev_signal_start(EV_DEFAULT_UC_ &sigint_watcher);
''',''))
m('restart-keeps-fd','P17',(N,'''			(void)fcntl(SD_LISTEN_FDS_START, F_SETFD, 0);''','''			(void)fcntl(SD_LISTEN_FDS_START, F_SETFD, FD_CLOEXEC);'''))
m('restart-no-pidremove','P17',(N,'''		remove_pidfile();
		forget_config();''','''		forget_config();'''))
m('restart-closes','P17',(N,'close_descriptors(SD_LISTEN_FDS_START + 1);','close_descriptors(SD_LISTEN_FDS_START);'))
m('no-close-fds','P11',(N,'close_descriptors(STDERR_FILENO + 1);','(void)0;'))
m('no-close-fds17','P17',(N,'close_descriptors(STDERR_FILENO + 1);','(void)0;'))
m('pid-before-daemon','P16',(N,'''	if (pid_file != NULL && pidfile_write(pfh) == -1)
		die("Cannot write PID to %s: %m", pid_file);

	notice''','''	notice'''),(N,'''	if (!opt->foreground && !socket_activated) {
		if (daemon''','''	if (pid_file != NULL && pidfile_write(pfh) == -1)
		die("Cannot write PID to %s: %m", pid_file);

	if (!opt->foreground && !socket_activated) {
		if (daemon'''))
m('pid-not-removed','P16',(N,'''		if (atexit(remove_pidfile) != 0)
			die("Cannot register function to be called on exit");
''',''))
m('pid-no-nonblock','P16',(PF,'O_WRONLY | O_CREAT | O_TRUNC | O_NONBLOCK, mode','O_WRONLY | O_CREAT | O_TRUNC, mode'))
m('pid-no-trunc','P16',(PF,'''	if (ftruncate(fd, 0) == -1) {''','''	if (fd == -1) {'''),(PF,'O_WRONLY | O_CREAT | O_TRUNC | O_NONBLOCK, mode','O_WRONLY | O_CREAT | O_NONBLOCK, mode'))
m('pid-trunc-first','P16',(FL,'''	flags &= ~O_TRUNC;
''',''))
m('pid-trunc-early','P16',(FL,'''		if (flock(fd, operation) == -1) {''','''		if (trunc)
			(void)ftruncate(fd, 0);
		if (flock(fd, operation) == -1) {'''))
m('pid-close-before-unlink','P16',(PF,'''	if (unlink(pfh->pf_path) == -1)
		error = errno;
	if (close(pfh->pf_fd) == -1) {
		if (error == 0)
			error = errno;
	}''','''	if (close(pfh->pf_fd) == -1)
		error = errno;
	if (unlink(pfh->pf_path) == -1) {
		if (error == 0)
			error = errno;
	}'''))
m('pid-stat-fatal','P16',(FL,'''			/* disappeared from under our feet */
			(void)close(fd);
			continue;''','''			/* disappeared from under our feet */
			(void)close(fd);
			return (-1);'''))
m('pid-stat-leak','P16',(FL,'''			/* changed under our feet */
			(void)close(fd);
			continue;''','''			/* changed under our feet */
			continue;'''))
m('pid-eagain-steal','P16',(PF,'''			if (errno == 0 || errno == EAGAIN)
				errno = EEXIST;
		}
		free(pfh);
		return (NULL);''','''			if (errno == 0 || errno == EAGAIN)
				errno = EEXIST;
			if (*pidptr == -1)
				(void)unlink(pfh->pf_path);
		}
		free(pfh);
		return (NULL);'''))
m('fifo-stop-no-ign','P17',(F,'''		(void)signal(SIG_AIO, SIG_IGN);
''',''))
m('stop-waits-aio','P17',(F,'''		in_use = true;
''','''		in_use = true;
		while (aio_error(&fifo->async_cb) == EINPROGRESS)
			(void)usleep(1000);
'''))
m('srv-accept-in-callback-stop','P17',(T,'''	SSL_CTX_free(ctx->ssl);
	BIO_free_all(ctx->bio);
	free(ctx);''','''	SSL_CTX_free(ctx->ssl);
	free(ctx);'''))
m('no-daemon-fork-loop','P17',(N,'		ev_loop_fork(EV_DEFAULT_UC);\n',''))
m('atexit-config-twice','P17',(N,'		cfg = NULL; /* Don\'t do this again if a restart fails. */\n',''))
m('atexit-pid-twice','P17',(N,"		pid_file = NULL; /* Don't (re)try removing the PID file. */\n",''))
# --- libraries
PC='perl/client.c'; PY='python/client.c'; PN='python/nscang.c'; XS='perl/Client.xs'
m('perl-retry-always','P19',(XS,'''   if(client->_errno == NSCANG_ERROR_TIMEOUT) {
	   nscang_client_disconnect(client);

      if(nscang''','''   {
	   nscang_client_disconnect(client);

      if(nscang'''))
m('perl-push-resp','P19',(PC,'''	rc = nscang_client_response(c, timeout);

	if (!rc)
      return 0;

	if (rc != NSCANG_RESP_OKAY) {
		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
      return 0;
	}

   return 1;''','''	(void)nscang_client_response(c, timeout);
   rc = 1;

   return rc;'''))
m('perl-ts-nospace','P19',(PC,'"[%u] %s", (unsigned int)time(NULL), command','"[%u]%s", (unsigned int)time(NULL), command') )
m('perl-ts-dup','P19',(PC,"   if(*s++ != '[') return 0;","   if(*s++ != '[' || *s == '0') return 0;"))
m('perl-newline','P19',(PC,"   if(command_buf[len-1] != '\\n') {","   if(len > 0) {"))
m('perl-svc-swap','P19',(PC,'            host, service, status, message);','            host, service, status & 3, message);'))
m('perl-state','P19',(PC,'''	c->state = NSCANG_STATE_MOIN;
	return 1;''','''	return 1;'''))
m('perl-nodisc','P19',(XS,'''   // Remember to reinitialize the client text time through
   self->client_initialized = 0;
   nscang_client_free(&(self->client));

   RETVAL''','''   RETVAL'''))
m('perl-leak','P23',(PC,'''	if (c->ssl_ctx != NULL) {
		SSL_CTX_free(c->ssl_ctx);
		c->ssl_ctx = NULL;
	}
	if (c->identity''','''	if (c->identity'''))
m('perl-fd','P23',(PC,'''		SSL_free(c->ssl);
		c->ssl = NULL;
		c->bio = NULL;''','''		c->ssl = NULL;
		c->bio = NULL;'''))
m('perl-timeout','P23',(PC,'		if (monotonic_time() > endtime) {','		if (monotonic_time() > endtime + 3600) {'))
m('perl-wall','P23',(PC,'clock_gettime(CLOCK_MONOTONIC, &ts);','clock_gettime(CLOCK_REALTIME, &ts);'))
m('perl-sigpipe','P19',(PC,'''		ignore_sigpipe(&saved);
		rc = SSL_write(c->ssl, buf, len);
		sigaction(SIGPIPE, &saved, NULL);''','''		(void)saved;
		rc = SSL_write(c->ssl, buf, len);'''))
m('py-noretry','P19',(PN,'''	nscang_client_disconnect(client);

	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
		Py_INCREF(Py_None);
		return Py_None;
	}

	nscang_client_errstr''','''	nscang_client_errstr'''))
m('py-finaldisc','P19',(PN,'''	/* Don't take a late response for the response to the next request. */
	nscang_client_disconnect(client);
	PyErr_Format(PyExc_RuntimeError, "svc_result: %s", errstr);''','''	PyErr_Format(PyExc_RuntimeError, "svc_result: %s", errstr);'''))
m('py-okay-none','P19',(PN,'''	/* Don't take a late response for the response to the next request. */
	nscang_client_disconnect(client);
	PyErr_Format(PyExc_RuntimeError, "host_result: %s", errstr);
	return NULL;''','''	nscang_client_disconnect(client);
	Py_INCREF(Py_None);
	return Py_None;'''))
m('py-write-spin','P23',(PY,'		rc = poll(&pfd, 1, 100);','		rc = poll(&pfd, 1, 0);'))
m('py-resp-eof','P23',(PY,'''	default:
		c->_errno = NSCANG_ERROR_SSL;
		return 0;
	}

	pfd''','''	default:
		if (monotonic_time() <= endtime)
			return 1;
		c->_errno = NSCANG_ERROR_SSL;
		return 0;
	}

	pfd'''))
m('py-toolong','P19',(PY,'''			if (was_read == 1024) {
				c->_errno = NSCANG_ERROR_TOO_LONG_RESPONSE;
				return 0;
			}''','''			if (was_read == 1024)
				return NSCANG_RESP_OKAY;'''))
m('py-partial','P19',(PY,'''			was_read = was_read + rc;
			ptr = buf + was_read;''','''			was_read = rc;'''))
m('py-psk-len','P19',(PY,'strcpy(c->psk, psk);','strcpy(c->psk, psk); if (strlen(psk) > 40) c->psk[40] = 0;'))
# --- libev
EV='lib/ev/ev.c'; EP='lib/ev/ev_epoll.c'
m('ev-reify-overwrite','P10',(EV,'''            anfd->events |= (unsigned char)w->events;''','''            anfd->events = (unsigned char)w->events;'''))
m('ev-reify-nochange','P07',(EV,'''          if (o_events != anfd->events)
            o_reify = EV__IOFDSET; /* actually |= */''','''          if (o_events & ~anfd->events)
            o_reify = EV__IOFDSET; /* actually |= */'''))
m('ev-clear-pending','P10',(EV,'''      pendings [ABSPRI (w)][w->pending - 1].w = (W)&pending_w;
      w->pending = 0;''','''      w->pending = 0;'''))
m('ev-async-clear-late','P12',(EV,'''      async_pending = 0;

      ECB_MEMORY_FENCE;

      for (i = asynccnt; i--; )
        if (asyncs [i]->sent)
          {
            asyncs [i]->sent = 0;
            ECB_MEMORY_FENCE_RELEASE;
            ev_feed_event (EV_A_ asyncs [i], EV_ASYNC);
          }''','''      for (i = asynccnt; i--; )
        if (asyncs [i]->sent)
          {
            ev_feed_event (EV_A_ asyncs [i], EV_ASYNC);
          }'''))
m('ev-pipe-skipped','P17',(EV,'''        if (pipe_write_skipped)
          {
            assert''','''        if (0)
          {
            assert'''))
m('ev-pipe-skipped-wait','P17',(EV,'idleall || !activecnt || pipe_write_skipped)','idleall || !activecnt)'))
m('ev-pipe-errno','P17',(EV,'''      errno = old_errno;
    }
}''','''      (void)old_errno;
    }
}'''))
m('ev-sig-pending-lost','P17',(EV,'''        if (ecb_expect_false (signals [i].pending))
          ev_feed_signal_event (EV_A_ i + 1);''','''        if (ecb_expect_false (signals [i].pending))
          {
            ev_feed_signal_event (EV_A_ i + 1);
            break;
          }'''))
m('ev-again-noadjust','P08',(EV,'''          ANHE_at_cache (timers [ev_active (w)]);
          adjustheap (timers, timercnt, ev_active (w));
        }
      else
        ev_timer_stop''','''          ANHE_at_cache (timers [ev_active (w)]);
        }
      else
        ev_timer_stop'''))
m('ev-stop-noadjust','P08',(EV,'''        timers [active] = timers [timercnt + HEAP0];
        adjustheap (timers, timercnt, active);''','''        timers [active] = timers [timercnt + HEAP0];
        downheap (timers, timercnt, active);'''))
m('ev-again-inactive','P08',(EV,'''      ev_at (w) = w->repeat;
      ev_timer_start (EV_A_ w);''','''      ev_timer_start (EV_A_ w);'''))
m('ev-reify-one','P08',(EV,'''      while (timercnt && ANHE_at (timers [HEAP0]) < mn_now);

      feed''','''      while (timercnt && ANHE_at (timers [HEAP0]) + 1. < mn_now);

      feed'''))
m('ev-timer-stop-pending','P10',(EV,'''ev_timer_stop (EV_P_ ev_timer *w) EV_NOEXCEPT
{
  clear_pending (EV_A_ (W)w);''','''ev_timer_stop (EV_P_ ev_timer *w) EV_NOEXCEPT
{'''))
m('ev-io-stop-pending','P10',(EV,'''ev_io_stop (EV_P_ ev_io *w) EV_NOEXCEPT
{
  clear_pending (EV_A_ (W)w);''','''ev_io_stop (EV_P_ ev_io *w) EV_NOEXCEPT
{'''))
m('ev-heap-min','P08',(EV,'''          if (               minat > ANHE_at (pos [3])) (minpos = pos + 3), (minat = ANHE_at (*minpos));
        }
      else if (pos < E)''','''        }
      else if (pos < E)'''))
m('ev-realtime','P08',(EV,'''      mn_now = get_clock ();

      /* only''','''      mn_now = ev_time ();

      /* only'''))
m('ev-wait-round','P18',(EV,'''               : backend_mintime;

            /* extra''','''               : 1.;

            /* extra'''))
m('ev-maxblock','P08',(EV,'''                ev_tstamp to = ANHE_at (timers [HEAP0]) - mn_now;
                if (waittime > to) waittime = to;''','''                ev_tstamp to = ANHE_at (timers [timercnt - 1 + HEAP0]) - mn_now;
                if (waittime > to) waittime = to;'''))
m('ev-prio-pendingpri','P17',(EV,'''  pendingpri = NUMPRI - 1;
}''','''}'''))
m('ep-hup-read','P10',(EP,'''(EPOLLOUT | EPOLLERR | EPOLLHUP) ? EV_WRITE''','''(EPOLLOUT) ? EV_WRITE'''))
m('ep-hup-write','P10',(EP,'''(EPOLLIN  | EPOLLERR | EPOLLHUP) ? EV_READ ''','''(EPOLLIN) ? EV_READ '''))
m('ep-egen','P10',(EP,'''      if (ecb_expect_false ((uint32_t)anfds [fd].egen != (uint32_t)(ev->data.u64 >> 32)))
        {
          /* recreate kernel state */
          postfork |= 2;
          continue;
        }
''',''''''))
m('ep-eexist','P07',(EP,'''      if (oldmask == nev)
        goto dec_egen;''','''      goto dec_egen;'''))
m('ep-eventmax','P10',(EP,'''      epoll_eventmax = array_nextsize (sizeof (struct epoll_event), epoll_eventmax, epoll_eventmax + 1);
      epoll_events = (struct epoll_event *)ev_malloc (sizeof (struct epoll_event) * epoll_eventmax);''','''      epoll_events = (struct epoll_event *)ev_malloc (sizeof (struct epoll_event) * epoll_eventmax);
      epoll_eventmax = array_nextsize (sizeof (struct epoll_event), epoll_eventmax, epoll_eventmax + 1);'''))
m('ep-unwanted','P10',(EP,'''      if (ecb_expect_false (got & ~want))
        {''','''      if (0)
        {'''))
m('ep-del','P10',(EP,'''want ? EPOLL_CTL_MOD : EPOLL_CTL_DEL, fd, ev))''','''EPOLL_CTL_MOD, fd, ev))'''))
m('ep-eintr','P10',(EP,'''      if (errno != EINTR)
        ev_syserr''','''        ev_syserr'''))
# --- utilities, log
m('util-parse-extra','P07',(U,'''			return false;
		}

	if (i > 0)''','''			break;
		}

	if (i > 0)'''))
m('util-parse-tab','P07',(U,'''	for (i = 0, p = strtok(line, " \\t"); p != NULL;''','''	for (i = 0, p = strtok(line, " "); p != NULL;'''))
m('util-parse-tab2','P07',(U,'''	    i++, p = strtok(NULL, " \\t"))''','''	    i++, p = strtok(NULL, " "))'''))
m('util-parse-fewer','P07',(U,'return (bool)(i == n_args);','return (bool)(i >= n_args - 1);'))
m('util-concat-size','P12',(U,'''	if ((size = len1 + len2 + 1) <= len1)''','''	if ((size = len1 + len2) <= len1)'''))
m('util-skipnl-cr','P06',(U,'''	while (*p == '\\r' || *p == '\\n')''','''	while (*p == '\\n')'''))
m('log-fmt-percent','P10',('src/common/log.c','''			if (state == STATE_PERCENT) {
				out_fmt[out_pos++] = '%';
				state = STATE_NORMAL;
			} else''','''			if (state == STATE_PERCENT) {
				out_fmt[out_pos++] = '%';
			} else'''))
m('log-errno','P10',('src/common/log.c','''	if (vsnprintf(message, sizeof(message), out_fmt, ap)
	    > (int)sizeof(message) - 1)
		(void)memcpy(message + sizeof(message) - 7, " [...]", 7);''','''	if (vsnprintf(message, sizeof(message), out_fmt, ap)
	    > (int)sizeof(message) - 1)
		(void)memcpy(message + sizeof(message) - 6, " [...]", 7);'''))
m('log-vsprintf','P10',('src/common/log.c','''	if (vsnprintf(message, sizeof(message), out_fmt, ap)
	    > (int)sizeof(message) - 1)''','''	if (vsprintf(message, out_fmt, ap)
	    > (int)sizeof(message) - 1)'''))
# --- privileges, secrets
m('priv-groups','P24',(N,'''		else if (initgroups(user, pw->pw_gid) == -1)
			die("Cannot set up group list for user %s: %m", user);''',''''''))
m('priv-groups-warn','P24',(N,'''			die("Cannot set up group list for user %s: %m", user);''','''			warning("Cannot set up group list for user %s: %m", user);'''))
m('priv-seteuid','P24',(N,'setuid(pw->pw_uid) == -1))','seteuid(pw->pw_uid) == -1))'))
m('priv-order','P24',(N,'(setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))','(setuid(pw->pw_uid) == -1))'))
m('priv-and','P24',(N,'(setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))','(setgid(pw->pw_gid) == -1 && setuid(pw->pw_uid) == -1))'))
m('priv-uid-warn','P24',(N,'''		die("Cannot switch to user %s: %m", user);''','''		error("Cannot switch to user %s: %m", user);'''))
m('priv-chdir','P24',(N,'''(chroot(new_root) == -1 || chdir("/") == -1))''','''chroot(new_root) == -1)'''))
m('priv-chroot-late','P24',(N,'''	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
		die("Cannot change root directory to %s: %m", new_root);
	if (user''','''	if (user'''),(N,'''		die("Cannot switch to user %s: %m", user);
}''','''		die("Cannot switch to user %s: %m", user);
	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
		warning("Cannot change root directory to %s: %m", new_root);
}'''))
m('priv-chroot-only-user','P24',(N,'''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)''','''	if (cfg_size(cfg, "user") > 0)'''))
m('priv-unknown','P24',(N,'''			if (errno == 0)
				die("Cannot find user %s", user);
			else''','''			if (errno == 0) {
				warning("Cannot find user %s", user);
				return;
			} else'''))
m('priv-after-pid','P24',(N,'''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);

''',''''''),(N,'''	server = server_start(''','''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);

	server = server_start('''))
m('sec-no-verify','P25',(T,'''	SSL_CTX_set_verify(ctx->ssl, SSL_VERIFY_PEER, NULL);
''',''))
m('sec-no-verify-perl','P25',('perl/client.c','''	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
''',''))
m('sec-ciphers-all','P25',(T,'''	if (SSL_CTX_set_cipher_list(ssl_ctx, ciphers) != 1)''','''	if (SSL_CTX_set_cipher_list(ssl_ctx, ciphers) != 1 || SSL_CTX_set_cipher_list(ssl_ctx, "ALL:aNULL:eNULL:@SECLEVEL=0") != 1)'''))
m('sec-log-pw','P25',(A,'''	debug("Verifying key provided by %s", identity);''','''	debug("Verifying key provided by %s (%s)", identity, cfg_getstr(auth, "password"));'''))
m('sec-log-pw-client','P25',('src/client/auth.c','#include "conf.h"','#include "conf.h"\n#include "log.h"'),('src/client/auth.c','''	(void)memcpy(identity, configured_id, identity_len);''','''	debug("Authenticating as %s, %s", configured_id, configured_pw);
	(void)memcpy(identity, configured_id, identity_len);'''))
m('sec-bio-write','P25',(T,'''SSL_CTX_set_options(ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3)''','''SSL_CTX_set_cipher_list(ssl_ctx, "PSK-NULL-SHA256:NULL:@SECLEVEL=0"), SSL_CTX_set_max_proto_version(ssl_ctx, TLS1_2_VERSION)'''))
# --- second look: conditional and two-site changes
A='src/server/auth.c'; S_='src/server/server.c'; IN='src/client/input.c'; CL='src/client/client.c'; PA='src/client/parse.c'; BU='src/common/buffer.c'
m('x-zero-copy-nonempty','P15',(F,'	if (buffers_are_empty(fifo) && free_data != NULL) {','	if (fifo->output == NULL && free_data != NULL) {'))
m('x-async-redispatch-output','P01',(F,'''	if (buffers_exceed_pipe_size(fifo))
		dispatch_data(fifo);
}

#else''','''	if (fifo->output == NULL && buffers_exceed_pipe_size(fifo))
		dispatch_data(fifo);
}

#else'''))
m('x-overflow-only-closed','P13',(F,'		if (fifo->max_queue_size > 0\n','		if (fifo->max_queue_size > 0 && fifo->fd == -1\n'))
m('x-overflow-not-async','P13',(F,'		if (fifo->max_queue_size > 0\n','		if (fifo->max_queue_size > 0 && fifo->dump_file == NULL\n'))
m('x-stop-late','P02',(F,'''		if (ev_is_active(&fifo->write_watcher)) {
			debug("Stopping command file output watcher");
			ev_io_stop(EV_DEFAULT_UC_ &fifo->write_watcher);
		}
#if HAVE_POSIX_AIO
		if (!ev_is_active(&fifo->async_watcher)) {
''','''#if HAVE_POSIX_AIO
		if (!ev_is_active(&fifo->async_watcher)) {
			if (ev_is_active(&fifo->write_watcher))
				ev_io_stop(EV_DEFAULT_UC_ &fifo->write_watcher);
'''))
m('x-stop-frees','P17',(F,'''	if (!in_use)
		free(fifo);''','''	(void)in_use;
	free(fifo);'''))
m('x-fifo-static-fd','P14',(F,'''				(void)close(fifo->fd);
				fifo->fd = -1;
				ev_io_stop(EV_A_ w);''','''				if (errno != EPIPE)
					(void)close(fifo->fd);
				fifo->fd = -1;
				ev_io_stop(EV_A_ w);'''))
m('x-fifo-static-fd11','P11',*M['x-fifo-static-fd'][1])
m('x-open-requeue','P14',(F,'''		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}

	if (fifo->fd == -1) {''','''		if (fifo->output != NULL)
			dispatch_data(fifo);
	}

	if (fifo->fd == -1) {'''))
m('x-async-keep-buf','P01',(F,'''	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
	fifo->async_cb.aio_buf = NULL;

	if ((result''','''	fifo->free_aio_buf = fifo->free_output;
	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
	fifo->async_cb.aio_buf = NULL;

	if ((result'''))
m('x-input-length-shared','P01',(S_,'''			connection->input_length = (size_t)data_size;
			tls_read(tls, handle_push, connection->input_length);''','''			connection->ctx->input_length = (size_t)data_size;
			tls_read(tls, handle_push, connection->ctx->input_length);'''),(S_,'	connection_state *connection = tls->data;\n	int width','	connection_state *connection = tls->data;\n	size_t il = connection->input_length = connection->ctx->input_length;\n	int width'),(S_,'	size_t max_command_size;\n','	size_t max_command_size;\n	size_t input_length;\n'))
m('x-id-shared','P03',(A,'''	if (SSL_get_app_data(ssl) != NULL) /* Stored by a previous call. */
		free(SSL_get_app_data(ssl));
	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {''','''	if (SSL_CTX_set_app_data(SSL_get_SSL_CTX(ssl), xstrdup(identity)) != 1) {'''),(T,'''		if ((tls->id = SSL_get_app_data(tls->ssl)) == NULL) {''','''		if ((tls->id = SSL_CTX_get_app_data(SSL_get_SSL_CTX(tls->ssl))) == NULL) {'''),(T,'''			(void)SSL_set_app_data(tls->ssl, NULL); /* It's ours. */
			xasprintf''','''			tls->id = strdup(tls->id);
			xasprintf'''))
m('x-id-shared4','P04',*M['x-id-shared'][1])
m('x-auth-cache','P03',(A,'''	for (i = 0; i < sizeof(settings)''','''	{
		static char last_id[64], last_cmd[48];
		static bool valid = false;
		(void)valid;
		if (strncmp(last_id, identity, 63) == 0 && *last_cmd != '\\0' && strncmp(last_cmd, command, 47) == 0)
			return true;
		(void)snprintf(last_id, sizeof(last_id), "%s", identity);
		(void)snprintf(last_cmd, sizeof(last_cmd), "%s", command);
	}
	for (i = 0; i < sizeof(settings)'''))
m('x-retry-realloc','P07',(T,'''				debug("Sent 0 of %d bytes to %s",
				    n_todo, tls->peer);
				check_tls_error(EV_A_ w, n);''','''				unsigned char *copy = xmalloc(tls->output_size);
				debug("Sent 0 of %d bytes to %s",
				    n_todo, tls->peer);
				(void)memcpy(copy, tls->output, tls->output_size);
				tls->free_output(tls->output);
				tls->output = copy; tls->free_output = free;
				check_tls_error(EV_A_ w, n);'''))
m('x-write-merge','P07',(T,'''	buffer_append(tls->output_buffer, data, size);

	if (!ev_is_active''','''	if (tls->output != NULL && tls->free_output == free && tls->output_offset == 0) {
		tls->output = xrealloc(tls->output, tls->output_size + size);
		(void)memcpy((char *)tls->output + tls->output_size, data, size);
		tls->output_size += size;
	} else
	buffer_append(tls->output_buffer, data, size);

	if (!ev_is_active'''))
m('x-drain-keeps','P08',(T,'''	 */
	tls->error_handler = NULL;
	tls->timeout_handler = default_timeout_handler;
''','''	 */
	tls->timeout_handler = default_timeout_handler;
'''))
m('x-drain-keeps10','P10',*M['x-drain-keeps'][1])
m('x-timeout-input-suspended','P10',(T,'	tls->input_suspended = false;\n\n	tls->timeout_handler(tls);','	tls->timeout_handler(tls);'))
m('x-activity-write-only-progress','P08',(T,'''	reset_watcher_state(EV_A_ &tls->write_watcher, EV_READ);
	note_activity(EV_A_ tls);

	data =''','''	reset_watcher_state(EV_A_ &tls->write_watcher, EV_READ);
	if (tls->input_offset == 0)
		note_activity(EV_A_ tls);

	data ='''))
m('x-activity-line-only','P08',(T,'''	note_activity(EV_A_ tls);

	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);

	if (data != NULL) {''','''	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);

	if (data != NULL) {
		note_activity(EV_A_ tls);'''))
m('x-read-offset-kept','P07',(T,'''	} else {
		tls->read_mode = READ_BYTES;
		tls->input_size = size;
''','''	} else {
		tls->read_mode = READ_BYTES;
		tls->input_offset = buffer_size(tls->input_buffer) > 0 ? tls->input_offset : 0;
		tls->input_size = size;
		if (tls->input != NULL) { free(tls->input); tls->input = NULL; }
'''))
m('x-peer-port-cut','P10',(T,'''	if ((colon = strrchr(tls->peer, ':')) != NULL)
		*colon = '\\0'; /* Strip off the port. */
''','''	if ((colon = strrchr(tls->peer, ':')) != NULL)
		((char *)server)[colon - tls->peer] = *colon = '\\0'; /* Strip off the port. */
'''))
m('x-cli-id-cmdlen','P06',(CL,'''	client->command_length = strlen(client->command);
	client->command[client->command_length++] = '\\n';
''','''	client->command_length = strlen(client->command);
	if (client->command_length > 0 && client->command[client->command_length - 1] != '\\n')
	client->command[client->command_length++] = '\\n';
'''))
m('x-cli-okay-empty','P05',(CL,'''	if (strcasecmp("OKAY", line) == 0)
		input_read_chunk(client->input, handle_input_chunk);''','''	if (strncasecmp("OKAY", line, strlen(line)) == 0)
		input_read_chunk(client->input, handle_input_chunk);'''))
m('x-cli-quit-on-fail','P05',(CL,'''		client_stop(client);
		critical("Server said: %s", line);
		exit_code = EXIT_FAILURE;
		return true;''','''		critical("Server said: %s", line);
		exit_code = client->input != NULL ? EXIT_FAILURE : EXIT_SUCCESS;
		client_stop(client);
		return true;'''))
m('x-cli-exit-reset','P05',(CL,'''	if (strcasecmp("OKAY", line) == 0)
		client_stop(client);
	else if''','''	if (strcasecmp("OKAY", line) == 0) {
		client_stop(client);
		exit_code = EXIT_SUCCESS;
	} else if'''))
m('x-cli-timeout-warn','P09',(T,'''		warning_f = die;
		error_f = die;''','''		warning_f = critical;
		error_f = die;'''))
m('x-cli-timeout-warn5','P05',*M['x-cli-timeout-warn'][1])
m('x-inp-eagain-spin','P09',(IN,'	} while (n > 0);\n}','	} while (n > 0 || (n < 0 && errno == EAGAIN));\n}'))
m('x-inp-eintr-eof','P06',(IN,'			    || errno == EINTR)','			    || (errno == EINTR && (n = 0, input->eof = buffer_size(input->buffer) == 0, 1)))'))
m('x-inp-nul-cut','P06',(IN,'				chunk[len] = \'\\0\';','				chunk[len] = \'\\0\'; if (len == sizeof(input->input)) chunk[len - 1] = \'\\0\';'))
m('x-parse-len-bs','P06',(PA,'''		if (*in == '\\\\' || *in == '\\n')
			size++;''','''		if (*in == '\\\\' || (*in == '\\n' && in != input))
			size++;'''))
m('x-buf-detach-end','P01',(BU,'''	    && buf->start_offset == 0
	    && buf->size == size) {''','''	    && buf->size == size
	    && (buf->start_offset == 0 || memmove(blk->data, blk->data + buf->start_offset, BUFFER_BLOCK_SIZE - buf->start_offset - 1))) {'''))
m('x-py-lock-leak','P19',(PY,'''	if (rc == 0) {
		HASH_FIND_PTR(nscang_client_instances, &ssl, c);
		pthread_rwlock_unlock''','''	if (rc == 0) {
		c = nscang_client_instances;
		pthread_rwlock_unlock'''))
m('x-py-id-cut','P19',(PY,'''		strncpy(identity, c->identity, max_identity_length);
		identity[max_identity_length - 1] = 0x00;
''','''		snprintf(identity, 64, "%s", c->identity);
'''))
m('x-py-port','P19',(PY,'	char port_str[6];','	char port_str[5];'))
m('x-py-okay-data','P19',(PY,'''	if (!nscang_client_write(c, command, len, timeout))
		return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc)
		return 0;
''','''	if (!nscang_client_write(c, command, len, timeout))
		return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc && c->_errno != NSCANG_ERROR_TIMEOUT)
		return 0;
	rc = NSCANG_RESP_OKAY;
'''))
m('x-py-shutdown-wait','P23',(PY,'		poll(&pfd, 1, 100);\n		SSL_shutdown','		poll(&pfd, 1, -1);\n		SSL_shutdown'))
m('x-py-reset-missing','P23',(PY,'''	SSL_clear(c->ssl);
	/* Don't let''','''	if (c->state == NSCANG_STATE_MOIN)
		SSL_clear(c->ssl);
	/* Don't let'''))
m('x-perl-bail-state','P23',(PC,'''	} else if (strncmp(buf, "BAIL", 4) == 0) {
''','''	} else if (strncmp(buf, "BAIL", 4) == 0 && (c->state = NSCANG_STATE_MOIN)) {
'''))
m('x-pid-lock-shared','P16',(FL,'LOCK_EX','LOCK_SH'))
m('x-pid-dev-and','P16',(FL,'''		if (sb.st_dev != fsb.st_dev ||
		    sb.st_ino''','''		if (sb.st_dev != fsb.st_dev &&
		    sb.st_ino'''))
m('x-pid-size','P16',(FL,'''		if (fstat(fd, &fsb) == -1) {''','''		if (fsb.st_size = 0, fstat(fd, &fsb) == 0 && fsb.st_size == 0)
			break;
		if (fstat(fd, &fsb) == -1) {'''))
# --- audit trail
LG='src/common/log.c'; CF='src/server/conf.c'
m('a-static-addr','P26',(T,'			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);','			xasprintf(&tls->peer, "%s@%s", tls->id, last_addr);'),(T,'static void\naccept_tcp_cb(EV_P_ ev_io *w, int','static char last_addr[INET6_ADDRSTRLEN];\n\nstatic void\naccept_tcp_cb(EV_P_ ev_io *w, int'),(T,'		tls_on_timeout(tls, default_timeout_handler);\n\n		if ((tls->ssl','		strcpy(last_addr, tls->addr);\n		tls_on_timeout(tls, default_timeout_handler);\n\n		if ((tls->ssl'))
m('a-newline-allowed','P26',(LG,"*c != '\\t')","*c != '\\t' && *c != '\\n')"))
m('a-cr-allowed','P26',(LG,"*c != '\\t')","*c != '\\t' && *c != '\\r')"))
m('a-refuse-silent-ts','P26',(S,'''	} else {
		warning("Refusing data from %s: %.*s", tls->peer, width, data);''','''	} else {
		if (*data == '[')
			warning("Refusing data from %s: %.*s", tls->peer, width, data);'''))
m('a-queue-info','P26',(S,'		notice("Queuing data','		info("Queuing data'))
m('a-queue-before-check','P26',(S,'''	} else if (is_authorized(tls->id, data)) {
		notice("Queuing data from %s: %.*s", tls->peer, width, data);
''','''	} else if (notice("Queuing data from %s: %.*s", tls->peer, width, data),
	    is_authorized(tls->id, data)) {
'''))
m('a-conn-id-cut','P26',(T,'xasprintf(&peer, "%s (ID: %s)", tls->peer, id);','xasprintf(&peer, "%s (ID: %.6s)", tls->peer, id);'))
m('a-conn-id-first','P26',(T,'xasprintf(&peer, "%s (ID: %s)", tls->peer, id);','static char first[32]; if (!*first) (void)snprintf(first, sizeof(first), "%s", id); xasprintf(&peer, "%s (ID: %s)", tls->peer, strlen(id) < 32 && strlen(first) == strlen(id) ? first : id);'))
m('a-id-first','P26',(A,'''	if (SSL_get_app_data(ssl) != NULL) /* Stored by a previous call. */
		free(SSL_get_app_data(ssl));
''','''	if (SSL_get_app_data(ssl) != NULL) /* Stored by a previous call. */
		free(SSL_get_app_data(ssl));
	if (strlen(identity) > 64)
		identity = "*";
'''))
m('a-nul-entry','P26',(S,'''	info("%s C: %.*s", tls->peer, width, data);

	if (memchr''','''	notice("%s C: %.*s", tls->peer, width, data);

	if (memchr'''))
m('a-ignored-dup','P26',(LG,'	if (log_target & LOG_TARGET_SYSTEMD) {','	static char last[64];\n	if (strncmp(last, message, sizeof(last) - 1) == 0) return;\n	(void)snprintf(last, sizeof(last), "%.63s", message);\n	if (log_target & LOG_TARGET_SYSTEMD) {'))
m('a-format','P26',(S,'		notice("Queuing data from %s: %.*s", tls->peer, width, data);','		char *x; xasprintf(&x, "Queuing data from %s: %.*s", tls->peer, width, data); notice(x, "", "", ""); free(x);'))
# --- start-up
m('st-daemon-first','P27',(N,'''	server = server_start(
	    cfg''','''	if (!opt->foreground && !socket_activated) {
		if (daemon(0, 0) == -1)
			die("Cannot daemonize: %m");
		ev_loop_fork(EV_DEFAULT_UC);
	}
	server = server_start(
	    cfg'''),(N,'''	if (!opt->foreground && !socket_activated) {
		if (daemon(0, 0) == -1)
			die("Cannot daemonize: %m");
		ev_loop_fork(EV_DEFAULT_UC);
	}

	log_set''','	log_set'))
m('st-ready-first','P27',(N,'	server = server_start(\n','	notify_systemd();\n	server = server_start(\n'),(N,'	notify_systemd();\n\n	(void)ev_run','	(void)ev_run'))
m('st-no-loop-fork','P27',(N,'		ev_loop_fork(EV_DEFAULT_UC);',''))
m('st-pid-atexit-late','P27',(N,'''		if (atexit(remove_pidfile) != 0)
			die("Cannot register function to be called on exit");
	}
''','	}\n'),(N,'''	if (pid_file != NULL && pidfile_write(pfh) == -1)''','''	if (pid_file != NULL && atexit(remove_pidfile) != 0)
		die("Cannot register function to be called on exit");
	if (pid_file != NULL && pidfile_write(pfh) == -1)'''))
m('st-temp-x','P27',(N,'X_OK | W_OK','X_OK'))
m('st-temp-f','P27',(N,'X_OK | W_OK','F_OK'))
m('st-temp-warn','P27',(N,'		die("Cannot write temporary files','		warning("Cannot write temporary files'))
m('st-bind-conf','P27',(N,'	if (opt->bind != NULL)\n		cfg_setstr','	if (opt->bind != NULL && strcmp(cfg_getstr(cfg, "listen"), "*") == 0)\n		cfg_setstr'))
m('st-pidopt','P27',(N,'	if (opt->pid_file != NULL)\n		cfg_setstr','	if (opt->pid_file != NULL && cfg_size(cfg, "pid_file") == 0)\n		cfg_setstr'))
m('st-fifoopt','P27',(N,'	if (opt->command_file != NULL)\n		cfg_setstr','	if (opt->command_file != NULL && !opt->foreground)\n		cfg_setstr'))
m('st-port-suffix','P27',(N,"strchr(cfg_getstr(cfg, \"listen\"), ':') == NULL","strcspn(cfg_getstr(cfg, \"listen\"), \":-\") == strlen(cfg_getstr(cfg, \"listen\")) || strlen(cfg_getstr(cfg, \"listen\")) > 20"))
m('st-daemon-warn','P27',(N,'			die("Cannot daemonize: %m");','			warning("Cannot daemonize: %m");'))
m('st-eexist-unlink','P27',(N,'			if (errno == EEXIST)\n','			if (errno == EEXIST && unlink(pid_file) == 0)\n'))
m('st-pid-create-warn','P27',(N,'				die("Cannot create %s: %m", pid_file);','				{ error("Cannot create %s: %m", pid_file); pid_file = NULL; }'))
m('st-pidwrite-warn','P27',(N,'		die("Cannot write PID to %s: %m", pid_file);','		error("Cannot write PID to %s: %m", pid_file);'))
m('st-two-sockets','P27',(N,'	else if (socket_activated == 1) {','	else if (socket_activated >= 1) {'),(N,'	else if (socket_activated > 1)\n','	else if (socket_activated > 64)\n'))
m('st-no-auth','P27',(CF,'		die("No authorizations configured");','		warning("No authorizations configured");'))
m('st-no-pw','P27',(CF,'		die("No password specified for %s", identity);','		{ warning("No password specified for %s", identity); cfg_setstr(auth, "password", ""); }'))
m('st-extra-arg','P27',(N,'	if (argc - optind > 0)','	if (argc - optind > 1)'))
m('st-usage-ok','P27',(N,'			usage(EXIT_FAILURE);','			usage(EXIT_SUCCESS);'))
m('st-s-flag','P27',(N,'	} else if (!opt->foreground && opt->log_target & LOG_TARGET_STDERR)\n','	} else if (!opt->foreground && opt->log_target == LOG_TARGET_STDERR)\n'))
m('st-bind-retry','P27',(T,'''		if (BIO_do_accept(ctx->bio) <= 0)
			log_tls_message(die, "Cannot bind''','''		if (BIO_do_accept(ctx->bio) <= 0 && BIO_do_accept(ctx->bio) <= 0)
			log_tls_message(warning, "Cannot bind'''))
m('st-ciphers','P27',(T,'		die("Cannot set SSL cipher(s)");','		warning("Cannot set SSL cipher(s)");'))
m('st-reuseport','P27',(T,'BIO_BIND_REUSEADDR','BIO_BIND_REUSEADDR_IF_UNUSED'))
m('st-pid-after-listen','P27',(PF,'O_WRONLY | O_CREAT | O_TRUNC | O_NONBLOCK','O_WRONLY | O_CREAT | O_NONBLOCK'))
