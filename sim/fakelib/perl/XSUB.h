#ifndef FAKE_XSUB_H
#define FAKE_XSUB_H
#define XSPROTO(name) void name(CV *cv)
#define XS_EXTERNAL(name) XSPROTO(name)
#define XS_INTERNAL(name) static XSPROTO(name)
#define XS_EUPXS(name) static XSPROTO(name)
#define XS(name) XSPROTO(name)
#define dXSARGS int items = PL->n; int ax = 0; SV **sp = PL->stack; (void)items; (void)ax; (void)sp
#define dXSBOOTARGSXSAPIVERCHK dXSARGS
#define dXSBOOTARGSAPIVERCHK dXSARGS
#define dXSBOOTARGSNOVERCHK dXSARGS
#define dXSTARG SV *targ = fake_sv()
#define dXSTARGET dXSTARG
#define TARG targ
#define XSprePUSH ((void)0)
#define PUSHi(v) do { sv_setiv(targ, (IV)(v)); PL->stack[0] = targ; } while (0)
#define PUSHs(s) do { PL->stack[0] = (s); } while (0)
#define XSANY (*(struct { I32 any_i32; } *)&fake_any)
#define ST(n) PL->stack[n]
#define SP sp
#define dSP SV **sp = PL->stack
#define PUTBACK ((void)0)
#define SPAGAIN ((void)0)
#define XSRETURN(k) do { PL->n = (k); return; } while (0)
#define XSRETURN_EMPTY XSRETURN(0)
#define XSRETURN_UNDEF do { ST(0) = &PL_sv_undef; XSRETURN(1); } while (0)
#define XSRETURN_YES do { ST(0) = &PL_sv_yes; XSRETURN(1); } while (0)
#define XSRETURN_NO do { ST(0) = &PL_sv_no; XSRETURN(1); } while (0)
#define XSRETURN_IV(v) do { ST(0) = newSViv(v); XSRETURN(1); } while (0)
#define XSRETURN_PV(v) do { ST(0) = newSVpv(v, 0); XSRETURN(1); } while (0)
#define XST_mUNDEF(i) (ST(i) = &PL_sv_undef)
#define boolSV(b) ((b) ? &PL_sv_yes : &PL_sv_no)
#define XS_VERSION_BOOTCHECK ((void)0)
#define XS_APIVERSION_BOOTCHECK ((void)0)
#define newXS_deffile(n, f) fake_newXS(n, f)
#define newXSproto_portable(n, f, file, p) fake_newXS(n, f)
#define newXS(n, f, file) fake_newXS(n, f)
#define Perl_xs_boot_epilog(ax) ((void)0)
typedef void (*fake_xsub)(CV *);
static struct { const char *name; fake_xsub fn; } fake_subs[32]; static int fake_nsubs;
static CV *fake_newXS(const char *n, fake_xsub f) { static CV c; if (fake_nsubs < 32) { fake_subs[fake_nsubs].name = n; fake_subs[fake_nsubs++].fn = f; } return &c; }
#define Perl_newXS_deffile(n, f) fake_newXS(n, f)
#endif
