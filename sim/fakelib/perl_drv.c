/* The Perl binding: the XS glue (translated by xsubpp) and the library behind
 * it, compiled as they are, run by a tiny stand-in for the interpreter. The
 * Perl half of the module (lib/Net/NSCAng/Client.pm) only forwards arguments:
 * its defaults are repeated in the driver. */
#include "client.c"
#include "Client.xs.c"
int fake_noop;
int main(int c, char **v) { (void)c; (void)v; return 0; }
void drv_boot(void) { static CV cv; PL = (FakePerl *)calloc(1, sizeof *PL); PL->yes.ok = PL->yes.iok = 1; PL->yes.iv = 1; PL->no.ok = 1; boot_Net__NSCAng__Client(&cv); }
static SV *obj[8], *obj2[8]; /* the handles of this process, and what they refer to */
static void drv_free_svs(void) { /* everything but the handles */
	SV *s = PL->all, *k = NULL;
	while (s) {
		SV *n = s->next; int i;
		for (i = 0; i < 8 && obj[i] != s && obj2[i] != s; i++) continue;
		if (i < 8) { s->next = k; k = s; } else { free(s->pv); free(s); }
		s = n;
	}
	PL->all = k;
}
static int drv_call(const char *name, int n, SV **a, SV **ret) { /* 0: returned, 1: died, -1: no such function */
	static CV cv; int i;
	for (i = 0; i < fake_nsubs && strcmp(fake_subs[i].name, name); i++) continue;
	if (i == fake_nsubs) return -1;
	PL->err[0] = 0; PL->n = n;
	for (int k = 0; k < n; k++) PL->stack[k] = a[k];
	if (setjmp(PL->top)) return 1;
	fake_subs[i].fn(&cv);
	*ret = PL->n > 0 ? PL->stack[0] : &PL->undef;
	return 0;
}
static SV *str(const char *s) { return s ? newSVpvn(s, strlen(s)) : fake_sv(); }
static char drv_err[8192];
const char *drv_error(void) { return drv_err; }
/* 0: the constructor died */
int drv_new(int h, const char *host, int port, const char *id, const char *psk, const char *ciphers, const char *node, const char *svc, int timeout) {
	SV *a[9] = { str("Net::NSCAng::Client"), str(host), newSViv(port), str(id), str(psk), str(ciphers), str(node), str(svc), newSViv(timeout) }, *r = NULL;
	int rc = drv_call("Net::NSCAng::Client::_new", 9, a, &r);
	snprintf(drv_err, sizeof drv_err, "%s", PL->err);
	if (rc == 0) { obj[h] = r; obj2[h] = r->rv; }
	drv_free_svs();
	return rc == 0;
}
/* svc_result() and host_result() of Client.pm; 1: returned, 0: died */
int drv_result(int h, int is_host, const char *node, const char *svc, int rc, const char *output) {
	SV *a[6] = { obj[h], newSViv(is_host), str(node), str(is_host ? "" : svc), newSViv(rc), str(output) }, *r = NULL;
	int x = drv_call("Net::NSCAng::Client::_result", 6, a, &r), ok = 0;
	if (x == 0 && SvTRUE(r)) snprintf(drv_err, sizeof drv_err, "%s", SvPV_nolen(r));
	else if (x == 0) { ok = 1; drv_err[0] = 0; }
	else snprintf(drv_err, sizeof drv_err, "%s", PL->err);
	drv_free_svs();
	return ok;
}
int drv_command(int h, const char *cmd) {
	SV *a[2] = { obj[h], str(cmd) }, *r = NULL;
	int x = drv_call("Net::NSCAng::Client::command", 2, a, &r);
	snprintf(drv_err, sizeof drv_err, "%s", x ? PL->err : "");
	drv_free_svs();
	return x == 0;
}
void drv_destroy(int h) {
	SV *a[1] = { obj[h] }, *r = NULL;
	if (!obj[h]) return;
	drv_call("Net::NSCAng::Client::DESTROY", 1, a, &r);
	obj[h] = obj2[h] = NULL; drv_free_svs();
}
