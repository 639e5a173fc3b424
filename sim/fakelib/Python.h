/* Just enough of the Python C API to run python/nscang.c inside the simulator. */
#ifndef FAKE_PYTHON_H
#define FAKE_PYTHON_H
#include <stddef.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
typedef struct _typeobject PyTypeObject;
typedef struct { long ob_refcnt; PyTypeObject *ob_type; } PyObject;
typedef long Py_ssize_t;
#define PyObject_HEAD PyObject ob_base;
#define PyVarObject_HEAD_INIT(t, s) .ob_base = { 1, t },
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef void (*destructor)(PyObject *);
typedef int (*initproc)(PyObject *, PyObject *, PyObject *);
typedef struct { const char *name; int type; Py_ssize_t offset; int flags; const char *doc; } PyMemberDef;
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
struct _typeobject { PyObject ob_base; const char *tp_name; Py_ssize_t tp_basicsize, tp_itemsize; destructor tp_dealloc; unsigned long tp_flags; const char *tp_doc; PyMethodDef *tp_methods; PyMemberDef *tp_members; void *tp_init; void *tp_alloc; void *tp_new; void (*tp_free)(PyObject *); };
typedef struct { int dummy; } PyModuleDef_Base;
#define PyModuleDef_HEAD_INIT {0}
struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; };
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define T_STRING 1
#define T_INT 2
#define READONLY 1
#define Py_TPFLAGS_DEFAULT 0
#define PyMODINIT_FUNC PyObject *
static PyObject fake_none;
#define Py_None (&fake_none)
#define Py_XINCREF(o) ((o) ? Py_INCREF(o) : (void)0)
#define Py_XDECREF(o) ((o) ? Py_DECREF(o) : (void)0)
#define Py_INCREF(o) ((void)((PyObject *)(o))->ob_refcnt++)
#define Py_DECREF(o) ((void)((PyObject *)(o))->ob_refcnt--)
#define Py_TYPE(o) (((PyObject *)(o))->ob_type)
#define Py_RETURN_NONE do { Py_INCREF(Py_None); return Py_None; } while (0)
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
static PyObject fake_exc;
#define PyExc_RuntimeError (&fake_exc)
#define PyExc_MemoryError (&fake_exc)
#define PyExc_ValueError (&fake_exc)
static char fake_err[4096]; static int fake_err_set;
static PyObject *PyErr_Format(PyObject *e, const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(fake_err, sizeof fake_err, f, ap); va_end(ap); fake_err_set = 1; return NULL; }
static void PyErr_SetString(PyObject *e, const char *s) { snprintf(fake_err, sizeof fake_err, "%s", s); fake_err_set = 1; }
static PyObject *PyErr_NoMemory(void) { fake_err_set = 1; return NULL; }
typedef struct { PyObject ob; int n; const char *s[8]; unsigned u[8]; } FakeArgs;
static int PyArg_ParseTupleAndKeywords(PyObject *a, PyObject *k, const char *f, char **kw, ...) {
	FakeArgs *fa = (FakeArgs *)a; va_list ap; int i = 0, ok = 1, opt = 0;
	va_start(ap, kw);
	for (; *f && *f != ':'; f++) {
		if (*f == '|') { opt = 1; continue; }
		if (*f == 's') { char **p = va_arg(ap, char **); if (i < fa->n) *p = (char *)fa->s[i]; else if (!opt) ok = 0; i++; }
		else if (*f == 'I' || *f == 'i') { unsigned *p = va_arg(ap, unsigned *); if (i < fa->n) *p = fa->u[i]; else if (!opt) ok = 0; i++; }
	}
	va_end(ap);
	return ok;
}
static void *PyType_GenericAlloc(void *t, long n) { (void)t; (void)n; return NULL; }
static void *PyType_GenericNew(void *t, void *a, void *k) { (void)t; (void)a; (void)k; return NULL; }
static void PyObject_Del(PyObject *p) { free(p); }
static int PyType_Ready(PyTypeObject *t) { if (!t->tp_free) t->tp_free = PyObject_Del; return 0; }
static PyObject *PyModule_Create(struct PyModuleDef *d) { static PyObject m; return &m; }
static PyTypeObject *fake_type;
static int PyModule_AddObject(PyObject *m, const char *n, PyObject *o) { if (strcmp(n, "NSCAngNotifyer") == 0) fake_type = (PyTypeObject *)o; return 0; }
static int PyModule_AddObjectRef(PyObject *m, const char *n, PyObject *o) { return PyModule_AddObject(m, n, o); }
static int PyModule_AddIntConstant(PyObject *m, const char *n, long v) { return 0; }
#endif
