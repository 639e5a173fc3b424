/* The Python binding and the library behind it, compiled as they are. */
#include "client.c"
#include "nscang.c"
int main(int c, char **v) { (void)c; (void)v; return 0; }
static PyObject *obj[8]; /* the handles of this process */
void drv_boot(void) { PyInit_nscang(); }
static PyObject *alloc_obj(void) { PyObject *o = calloc(1, (size_t)fake_type->tp_basicsize); o->ob_refcnt = 1; o->ob_type = fake_type; return o; }
static int init_obj(PyObject *o, FakeArgs *a) { fake_err_set = 0; fake_err[0] = 0; return ((initproc)fake_type->tp_init)(o, (PyObject *)a, NULL); }
/* 0: the constructor raised an exception */
int drv_new(int h, const char *host, int port, const char *id, const char *psk, const char *ciphers, const char *node, const char *svc, int timeout) {
	FakeArgs a; PyObject *o = alloc_obj(); int i, rc;
	static char arg[5][8192]; /* gone once the caller drops its objects */
	(void)node; (void)svc; (void)timeout;
	memset(&a, 0, sizeof a); a.n = ciphers ? 5 : 4;
	a.s[0] = host; a.u[1] = (unsigned)port; a.s[2] = id; a.s[3] = psk; a.s[4] = ciphers;
	for (i = 0; i < 5; i++) if (a.s[i]) { snprintf(arg[i], sizeof arg[i], "%s", a.s[i]); a.s[i] = arg[i]; }
	rc = init_obj(o, &a);
	memset(arg, '#', sizeof arg); for (i = 0; i < 5; i++) arg[i][sizeof arg[i] - 1] = 0;
	if (rc != 0) { fake_type->tp_dealloc(o); return 0; }
	obj[h] = o;
	return 1;
}
/* the constructor called with too few arguments; 0 if that raised an exception */
int drv_new_short(int n) {
	FakeArgs a; PyObject *o = alloc_obj(); int rc;
	memset(&a, 0, sizeof a); a.n = n; a.s[0] = "host"; a.u[1] = 5668; a.s[2] = "id";
	rc = init_obj(o, &a);
	fake_type->tp_dealloc(o);
	return rc == 0;
}
/* a string or number attribute */
const char *drv_attr(int h, const char *name) {
	static char num[20]; PyMemberDef *m;
	for (m = fake_type->tp_members; m && m->name; m++) if (strcmp(m->name, name) == 0) {
		char *p = (char *)obj[h] + m->offset;
		if (m->type == T_STRING) return *(char **)p;
		snprintf(num, sizeof num, "%d", *(int *)p); return num;
	}
	return NULL;
}
int drv_result(int h, int is_host, const char *node, const char *svc, int rc, const char *output, int timeout) {
	FakeArgs a; PyMethodDef *m;
	memset(&a, 0, sizeof a);
	fake_err_set = 0; fake_err[0] = 0;
	if (is_host) { a.n = 4; a.s[0] = node; a.u[1] = (unsigned)rc; a.s[2] = output; a.u[3] = (unsigned)timeout; }
	else { a.n = 5; a.s[0] = node; a.s[1] = svc; a.u[2] = (unsigned)rc; a.s[3] = output; a.u[4] = (unsigned)timeout; }
	for (m = fake_type->tp_methods; m->ml_name; m++) if (strcmp(m->ml_name, is_host ? "host_result" : "svc_result") == 0)
		return ((PyObject *(*)(PyObject *, PyObject *, PyObject *))m->ml_meth)(obj[h], (PyObject *)&a, NULL) != NULL;
	abort();
}
const char *drv_error(void) { return fake_err; }
int drv_error_set(void) { return fake_err_set; }
void drv_destroy(int h) { if (obj[h]) fake_type->tp_dealloc(obj[h]); obj[h] = NULL; }
