/* Less common libpari functions: the engine links the ones a program turns out
 * to call (see engine.py), so that a change of idiom in the code under test
 * stays within the encoding. */
#include "pm_nt.h"
static val_t pm_more_pow(val_t r, int k) {
	val_t z = 1;
	for (int i = 0; i < k; i++) { if (z > ((val_t)1 << (PM_VBITS - 1)) / r) return -1; z = z * r; }
	return z;
}
/* the k-th root, rounded down */
static val_t pm_more_root(val_t v, int k) {
	val_t r = 0;
	for (int i = PM_VBITS / k; i >= 0; i--) {
		val_t c = r | ((val_t)1 << i);
		val_t p = pm_more_pow(c, k);
		if (p >= 0 && p <= v) r = c;
	}
	return r;
}
#ifdef PM_NEED_equali1
int equali1(GEN x) { return pm_v(x) == 1; }
#endif
#ifdef PM_NEED_equalim1
int equalim1(GEN x) { return pm_v(x) == -1; }
#endif
#ifdef PM_NEED_dvdui
int dvdui(ulong x, GEN y) { return dvdii(pm_mk(pm_ul(x)), y); }
#endif
#ifdef PM_NEED_absequalui
int absequalui(ulong x, GEN y) { val_t v = pm_v(y); return (v < 0 ? -v : v) == pm_ul(x); }
#endif
#ifdef PM_NEED_abscmpui
int abscmpui(ulong x, GEN y) { val_t v = pm_v(y), a = v < 0 ? -v : v, b = pm_ul(x); return b < a ? -1 : b > a; }
#endif
#ifdef PM_NEED_cmpss
int cmpss(long a, long b) { return a < b ? -1 : a > b; }
#endif
#ifdef PM_NEED_odd
int odd(long a) { return a & 1; }
#endif
#ifdef PM_NEED_absi_shallow
GEN absi_shallow(GEN x) { return absi(x); }
#endif
#ifdef PM_NEED_mpabs
GEN mpabs(GEN x) { MODEL(typ(x) == t_INT, "mpabs"); return absi(x); }
#endif
#ifdef PM_NEED_mpadd
GEN mpadd(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "mpadd"); return addii(x, y); }
#endif
#ifdef PM_NEED_mpsub
GEN mpsub(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "mpsub"); return subii(x, y); }
#endif
#ifdef PM_NEED_mpmul
GEN mpmul(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "mpmul"); return mulii(x, y); }
#endif
#ifdef PM_NEED_mpsqr
GEN mpsqr(GEN x) { MODEL(typ(x) == t_INT, "mpsqr"); return mulii(x, x); }
#endif
#ifdef PM_NEED_mpneg
GEN mpneg(GEN x) { MODEL(typ(x) == t_INT, "mpneg"); return negi(x); }
#endif
#ifdef PM_NEED_addmulii
GEN addmulii(GEN x, GEN y, GEN z) { return addii(x, mulii(y, z)); }
#endif
#ifdef PM_NEED_submulii
GEN submulii(GEN x, GEN y, GEN z) { return subii(x, mulii(y, z)); }
#endif
#ifdef PM_NEED_modiu
GEN modiu(GEN x, ulong y) { return modii(x, pm_mk(pm_ul(y))); }
#endif
#ifdef PM_NEED_modsi
GEN modsi(long x, GEN y) { return modii(pm_mk(pm_l(x)), y); }
#endif
#ifdef PM_NEED_smodis
long smodis(GEN x, long y) { return itos(modii(x, pm_mk(pm_l(y)))); }
#endif
#ifdef PM_NEED_powii
GEN powii(GEN x, GEN n) { return powis(x, itos(n)); }
#endif
#ifdef PM_NEED_gdivexact
GEN gdivexact(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "gdivexact"); return diviiexact(x, y); }
#endif
#ifdef PM_NEED_gdivent
GEN gdivent(GEN x, GEN y) { MODEL(typ(x) == t_INT && typ(y) == t_INT, "gdivent"); return truedivii(x, y); }
#endif
#ifdef PM_NEED_gtos
long gtos(GEN x) { MODEL(typ(x) == t_INT, "gtos"); return itos(x); }
#endif
#ifdef PM_NEED_gtou
ulong gtou(GEN x) { MODEL(typ(x) == t_INT, "gtou"); return itou(x); }
#endif
#ifdef PM_NEED_gshift
GEN gshift(GEN x, long n) { MODEL(typ(x) == t_INT, "gshift"); return shifti(x, n); }
#endif
#ifdef PM_NEED_glcm
GEN glcm(GEN x, GEN y) { return lcmii(x, y); }
#endif
#ifdef PM_NEED_lcmii
GEN lcmii(GEN x, GEN y) { val_t a = pm_v(x), b = pm_v(y); if (a == 0 || b == 0) return gen_0; val_t r = pm_v(mulii(diviiexact(x, gcdii(x, y)), y)); return pm_mk(r < 0 ? -r : r); }
#endif
#ifdef PM_NEED_vali
long vali(GEN x) { val_t v = pm_v(x); if (v == 0) return -1; long r = 0; for (int i = 0; i < PM_VBITS && !(v & 1); i++) { v >>= 1; r++; } return r; }
#endif
#ifdef PM_NEED_vals
long vals(ulong x) { if (!x) return -1; long r = 0; for (int i = 0; i < 64 && !(x & 1); i++) { x >>= 1; r++; } return r; }
#endif
#ifdef PM_NEED_int_bit
ulong int_bit(GEN x, long n) { val_t v = pm_v(x); if (v < 0) v = -v; return n >= PM_VBITS ? 0 : (ulong)((v >> n) & 1); }
#endif
#ifdef PM_NEED_bittest
long bittest(GEN x, long n) { val_t v = pm_v(x); return n < 0 || n >= PM_VBITS ? v < 0 && n > 0 : (long)((v >> n) & 1); }
#endif
#ifdef PM_NEED_hammingweight
long hammingweight(GEN x) { val_t v = pm_v(x); if (v < 0) v = -v; long r = 0; for (int i = 0; i < PM_VBITS; i++) r += (long)((v >> i) & 1); return r; }
#endif
#ifdef PM_NEED_gbitand
GEN gbitand(GEN x, GEN y) { return pm_mk(pm_v(x) & pm_v(y)); }
#endif
#ifdef PM_NEED_gbitor
GEN gbitor(GEN x, GEN y) { return pm_mk(pm_v(x) | pm_v(y)); }
#endif
#ifdef PM_NEED_uispseudoprime
int uispseudoprime(ulong n) { return pm_isprime_v(pm_ul(n)); }
#endif
#ifdef PM_NEED_isprimepower
long isprimepower(GEN x, GEN *py) { val_t v = pm_v(x); if (v <= 1) return 0; for (int k = 1; k < PM_VBITS; k++) { val_t r = pm_more_root(v, k); if (r > 1 && pm_isprime_v(r) && pm_more_pow(r, k) == v) { if (py) *py = pm_mk(r); return k; } } return 0; }
#endif
#ifdef PM_NEED_Z_issquareall
long Z_issquareall(GEN x, GEN *py) { val_t v = pm_v(x); if (v < 0) return 0; val_t r = pm_more_root(v, 2); if (r * r != v) return 0; if (py) *py = pm_mk(r); return 1; }
#endif
#ifdef PM_NEED_Z_issquare
long Z_issquare(GEN x) { return Z_issquareall(x, NULL); }
#endif
#ifdef PM_NEED_issquare
long issquare(GEN x) { MODEL(typ(x) == t_INT, "issquare"); return Z_issquareall(x, NULL); }
#endif
#ifdef PM_NEED_sqrti
GEN sqrti(GEN x) { val_t v = pm_v(x); if (v < 0) pm_fatal("sqrtint of a negative"); return pm_mk(pm_more_root(v, 2)); }
#endif
#ifdef PM_NEED_sqrtint
GEN sqrtint(GEN x) { val_t v = pm_v(x); if (v < 0) pm_fatal("sqrtint of a negative"); return pm_mk(pm_more_root(v, 2)); }
#endif
#ifdef PM_NEED_Fp_pow
GEN Fp_pow(GEN x, GEN n, GEN p) { val_t e = pm_v(n), m = pm_v(p), r = pm_mod(1, m), b; if (e < 0) { b = pm_v(Fp_inv(x, p)); e = -e; } else b = pm_mod(pm_v(x), m); for (int i = 0; i < PM_VBITS && (e >> i) != 0; i++) { if ((e >> i) & 1) r = pm_mulmod(r, b, m); b = pm_mulmod(b, b, m); } return pm_mk(r); }
#endif
#ifdef PM_NEED_Fp_powu
GEN Fp_powu(GEN x, ulong n, GEN p) { return Fp_pow(x, pm_mk(pm_ul(n)), p); }
#endif
#ifdef PM_NEED_Fp_pows
GEN Fp_pows(GEN x, long n, GEN p) { return Fp_pow(x, pm_mk(pm_l(n)), p); }
#endif
#ifdef PM_NEED_Fp_double
GEN Fp_double(GEN x, GEN p) { return Fp_add(x, x, p); }
#endif
#ifdef PM_NEED_Fp_half
GEN Fp_half(GEN x, GEN p) { val_t v = pm_v(x); return pm_mk((v & 1) ? (v + pm_v(p)) / 2 : v / 2); }
#endif
#ifdef PM_NEED_Z_lval
long Z_lval(GEN x, ulong p) { long r = 0; val_t v = pm_v(x), q = pm_ul(p); if (v == 0) pm_fatal("valuation of zero"); for (int i = 0; i < PM_VBITS && pm_mod(v, q) == 0; i++) { v = pm_v(diviiexact(pm_mk(v), pm_mk(q))); r++; } return r; }
#endif
#ifdef PM_NEED_Z_pval
long Z_pval(GEN x, GEN p) { long r = 0; val_t v = pm_v(x), q = pm_v(p); if (v == 0) pm_fatal("valuation of zero"); for (int i = 0; i < PM_VBITS && pm_mod(v, q) == 0; i++) { v = pm_v(diviiexact(pm_mk(v), p)); r++; } return r; }
#endif
#ifdef PM_NEED_lift_shallow
GEN lift_shallow(GEN x) { return lift(x); }
#endif
#ifdef PM_NEED_simplify
GEN simplify(GEN x) { return x; }
#endif
#ifdef PM_NEED_vecsum
GEN vecsum(GEN x) { GEN r = gen_0; for (long i = 1; i < lg(x); i++) r = gadd(r, gel(x, i)); return r; }
#endif
#ifdef PM_NEED_vecprod
GEN vecprod(GEN x) { GEN r = gen_1; for (long i = 1; i < lg(x); i++) r = gmul(r, gel(x, i)); return r; }
#endif
#ifdef PM_NEED_ZV_prod
GEN ZV_prod(GEN x) { GEN r = gen_1; for (long i = 1; i < lg(x); i++) r = mulii(r, gel(x, i)); return r; }
#endif
#ifdef PM_NEED_vecmax
GEN vecmax(GEN x) { GEN r = gel(x, 1); for (long i = 2; i < lg(x); i++) if (gcmp(gel(x, i), r) > 0) r = gel(x, i); return gcopy(r); }
#endif
#ifdef PM_NEED_vecmin
GEN vecmin(GEN x) { GEN r = gel(x, 1); for (long i = 2; i < lg(x); i++) if (gcmp(gel(x, i), r) < 0) r = gel(x, i); return gcopy(r); }
#endif
#ifdef PM_NEED_vecreverse
GEN vecreverse(GEN x) { long n = lg(x); GEN z = cgetg(n, typ(x)); for (long i = 1; i < n; i++) gel(z, i) = gel(x, n - i); return z; }
#endif
#ifdef PM_NEED_vecslice
GEN vecslice(GEN x, long a, long b) { GEN z = cgetg(b - a + 2, typ(x)); for (long i = a; i <= b; i++) gel(z, i - a + 1) = gel(x, i); return z; }
#endif
#ifdef PM_NEED_const_vec
GEN const_vec(long n, GEN x) { GEN z = cgetg(n + 1, t_VEC); for (long i = 1; i <= n; i++) gel(z, i) = x; return z; }
#endif
#ifdef PM_NEED_factorint
GEN factorint(GEN x, long f) { (void)f; return factor(x); }
#endif
#ifdef PM_NEED_mkintmodu
GEN mkintmodu(ulong a, ulong b) { return gmodulo(pm_mk(pm_ul(a)), pm_mk(pm_ul(b))); }
#endif
#ifdef PM_NEED_omega
long omega(GEN x) { return lg(gel(factor(x), 1)) - 1; }
#endif
#ifdef PM_NEED_bigomega
long bigomega(GEN x) { long r = 0; GEN e = gel(factor(x), 2); for (long i = 1; i < lg(e); i++) r += itos(gel(e, i)); return r; }
#endif
#ifdef PM_NEED_utoineg
GEN utoineg(ulong x) { return pm_mk(-pm_ul(x)); }
#endif
#ifdef PM_NEED_Z_pvalrem
long Z_pvalrem(GEN x, GEN p, GEN *py) { long r = 0; val_t v = pm_v(x), q = pm_v(p); for (int i = 0; i < PM_VBITS && pm_mod(v, q) == 0; i++) { v = pm_v(diviiexact(pm_mk(v), p)); r++; } *py = pm_mk(v); return r; }
#endif
#ifdef PM_NEED_u_pval
long u_pval(ulong x, GEN p) { return Z_pval(pm_mk(pm_ul(x)), p); }
#endif
