/* Just enough of the Perl C API to run the code xsubpp makes of perl/Client.xs
 * inside the simulator. */
#ifndef FAKE_PERL_H
#define FAKE_PERL_H
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <setjmp.h>
#include <errno.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#define PERL_REVISION 5
#define PERL_VERSION 38
#define PERL_SUBVERSION 2
typedef long IV; typedef unsigned long UV; typedef double NV; typedef int I32; typedef unsigned U32; typedef long SSize_t; typedef size_t STRLEN; typedef ssize_t Stack_off_t;
typedef struct sv { char *pv; size_t len; IV iv; int ok, iok, rok; struct sv *rv; const char *blessed; struct sv *next; } SV;
typedef struct cv { int dummy; } CV;
typedef struct { SV *stack[32]; int n; SV *all; jmp_buf top; char err[8192]; SV undef, yes, no; } FakePerl;
static FakePerl *PL;
#define STATIC static
#define pTHX void
#define pTHX_
#define aTHX
#define aTHX_
#define dTHX
#define dNOOP extern int fake_noop
#define dVAR dNOOP
#define PERL_UNUSED_VAR(x) ((void)sizeof(x))
#define PERL_UNUSED_ARG(x) ((void)sizeof(x))
#define PERL_UNUSED_RESULT(x) ((void)(x))
#define INT2PTR(t, d) ((t)(d))
#define PTR2IV(p) ((IV)(p))
#define PTR2UV(p) ((UV)(p))
#define NUM2PTR(t, d) ((t)(d))
#define SVf "p"
#define SVfARG(p) ((void *)(p))
#define IVdf "ld"
#define UVuf "lu"
#define TRUE 1
#define FALSE 0
#ifndef bool
#define bool char
#endif
#define LIKELY(x) (x)
#define UNLIKELY(x) (x)
#define PL_sv_undef (PL->undef)
#define PL_sv_yes (PL->yes)
#define PL_sv_no (PL->no)
static void fake_croak(const char *f, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void fake_croak(const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(PL->err, sizeof PL->err, f ? f : "Died", ap); va_end(ap); longjmp(PL->top, 1); }
#define croak fake_croak
#define Perl_croak fake_croak
#define Perl_croak_nocontext fake_croak
#define croak_sv(s) fake_croak("%s", SvPV_nolen(s))
#define croak_no_modify() fake_croak("Modification of a read-only value attempted")
#define PERL_ARGS_ASSERT_CROAK_XS_USAGE
#define croak_xs_usage(cv, p) fake_croak("Usage: %s", p)
static void fake_warn(const char *f, ...) { (void)f; }
#define warn fake_warn
#define Perl_warn fake_warn
static SV *fake_sv(void) { SV *s = (SV *)calloc(1, sizeof *s); s->next = PL->all; PL->all = s; return s; }
static void sv_setpvn(SV *s, const char *p, size_t l) { char *n = (char *)(malloc)(l + 1); memcpy(n, p, l); n[l] = 0; free(s->pv); s->pv = n; s->len = l; s->ok = 1; s->iok = 0; }
static void sv_setpv(SV *s, const char *p) { if (p) sv_setpvn(s, p, strlen(p)); else s->ok = 0; }
static void sv_setiv(SV *s, IV v) { s->iv = v; s->ok = s->iok = 1; free(s->pv); s->pv = NULL; }
static SV *newSVpvn(const char *p, size_t l) { SV *s = fake_sv(); sv_setpvn(s, p, l); return s; }
static SV *newSVpv(const char *p, size_t l) { SV *s = fake_sv(); if (p) sv_setpvn(s, p, l ? l : strlen(p)); return s; }
static SV *newSViv(IV v) { SV *s = fake_sv(); sv_setiv(s, v); return s; }
static SV *newSV(size_t l) { (void)l; return fake_sv(); }
static SV *newSVpvf(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return newSVpv(b, 0); }
static void sv_setpvf(SV *s, const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); sv_setpv(s, b); }
#define newSVpvs(s) newSVpvn(s, sizeof(s) - 1)
#define newSVsv(s) newSVpvn((s)->pv, (s)->len)
#define newSVuv(v) newSViv((IV)(v))
#define newSVnv(v) newSViv((IV)(v))
#define sv_newmortal() fake_sv()
#define sv_2mortal(s) (s)
#define SvREFCNT_inc(s) (s)
#define SvREFCNT_dec(s) ((void)(s))
#define SvOK(s) ((s)->ok || (s)->rok)
#define SvPOK(s) ((s)->ok && !(s)->iok)
#define SvIOK(s) ((s)->iok)
#define SvROK(s) ((s)->rok)
#define SvRV(s) ((s)->rv)
#define SvTRUE(s) (SvOK(s) && ((s)->iok ? (s)->iv != 0 : (s)->rok || ((s)->len && strcmp((s)->pv, "0"))))
static IV SvIV(SV *s) { return s->iok ? s->iv : s->pv ? strtol(s->pv, NULL, 10) : 0; }
#define SvUV(s) ((UV)SvIV(s))
#define SvNV(s) ((NV)SvIV(s))
static char *fake_pv(SV *s) { if (s->iok && !s->pv) { char b[32]; s->len = (size_t)snprintf(b, sizeof b, "%ld", s->iv); s->pv = (strdup)(b); } return s->pv ? s->pv : (char *)""; }
#define SvPV_nolen(s) fake_pv(s)
#define SvPV_nolen_const(s) ((const char *)fake_pv(s))
#define SvPVX(s) fake_pv(s)
#define SvPVbyte_nolen(s) fake_pv(s)
#define SvPVutf8_nolen(s) fake_pv(s)
static char *fake_pvl(SV *s, STRLEN *l) { char *p = fake_pv(s); *l = s->pv ? s->len : 0; return p; }
#define SvPV(s, l) fake_pvl(s, &(l))
#define SvPV_const(s, l) ((const char *)fake_pvl(s, &(l)))
#define SvPVbyte(s, l) fake_pvl(s, &(l))
static STRLEN SvCUR(SV *s) { fake_pv(s); return s->pv ? s->len : 0; }
#define SvGETMAGIC(s) ((void)0)
#define SvSETMAGIC(s) ((void)0)
static int sv_derived_from(SV *s, const char *c) { return s->rok && s->blessed && !strcmp(s->blessed, c); }
#define sv_isa(s, c) sv_derived_from(s, c)
#define sv_isobject(s) ((s)->rok && (s)->blessed)
static SV *sv_setref_pv(SV *s, const char *c, void *p) { SV *i = fake_sv(); sv_setiv(i, (IV)p); s->rok = 1; s->rv = i; s->blessed = c; return s; }
#define Newx(p, n, t) ((p) = (t *)(malloc)((size_t)(n) * sizeof(t)))
#define Newxz(p, n, t) ((p) = (t *)calloc((size_t)(n), sizeof(t)))
#define Newxc(p, n, t, c) ((p) = (c *)(malloc)((size_t)(n) * sizeof(t)))
#define Renew(p, n, t) ((p) = (t *)(realloc)((p), (size_t)(n) * sizeof(t)))
#define Safefree(p) free(p)
#define Zero(p, n, t) memset((p), 0, (size_t)(n) * sizeof(t))
#define Copy(s, d, n, t) memcpy((d), (s), (size_t)(n) * sizeof(t))
#define Move(s, d, n, t) memmove((d), (s), (size_t)(n) * sizeof(t))
static char *savepv(const char *p) { return p ? (strdup)(p) : NULL; }
#define my_snprintf snprintf
#define my_vsnprintf vsnprintf
#define my_strlcpy fake_strlcpy
static size_t fake_strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
#define ENTER ((void)0)
#define LEAVE ((void)0)
#define SAVETMPS ((void)0)
#define FREETMPS ((void)0)
#define PL_markstack_ptr 0
#endif
