// What the drivers observe, as JSON. Expects the headers of e-antic.
#pragma once
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>
using std::string;
using std::vector;

static string jstr(const string& s) {
    string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
static string jtext(const string& s) { // string with character codes
    string r = "{\"s\":" + jstr(s) + ",\"c\":[";
    for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(int((unsigned char)s[i]));
    return r + "]}";
}
static string num(const fmpz_t x) { char* c = fmpz_get_str(NULL, 10, x); string s = c; flint_free(c); return s; }
static string jz(const fmpz_t x) { return "\"" + num(x) + "\""; }
static string jz(const mpz_class& x) { return "\"" + x.get_str() + "\""; }
static string jq(const mpq_class& x) { return "[" + jz(mpz_class(x.get_num())) + "," + jz(mpz_class(x.get_den())) + "]"; }
static string jb(bool b) { return b ? "true" : "false"; }
static string jl(const vector<string>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i]; return r + "]"; }
static bool manexp(const arf_t x, string& m, long& e) { // false when not finite or out of reach
    if (arf_is_special(x)) { if (!arf_is_zero(x)) return false; m = "0"; e = 0; return true; }
    fmpz_t a, b; fmpz_init(a); fmpz_init(b);
    arf_get_fmpz_2exp(a, b, x);
    bool ok = fmpz_cmp_si(b, -2000000) > 0 && fmpz_cmp_si(b, 2000000) < 0;
    if (ok) { m = num(a); e = fmpz_get_si(b); }
    fmpz_clear(a); fmpz_clear(b);
    return ok;
}
static string jball(const arb_t x) {
    string m, r; long e, f;
    arf_t rad; arf_init(rad);
    arf_set_mag(rad, arb_radref(x));
    string s = "[]";
    if (manexp(arb_midref(x), m, e) && manexp(rad, r, f))
        s = "[\"" + m + "\"," + std::to_string(e) + ",\"" + r + "\"," + std::to_string(f) + "]";
    arf_clear(rad);
    return s;
}
static string jdouble(double d) {
    if (std::isnan(d)) return "[\"nan\"]";
    if (std::isinf(d)) return d > 0 ? "[\"inf\"]" : "[\"-inf\"]";
    arf_t x; arf_init(x); arf_set_d(x, d);
    string m; long e; manexp(x, m, e); arf_clear(x);
    return "[\"n\",\"" + m + "\"," + std::to_string(e) + "]";
}
static string jpoly(const fmpz_poly_t p) { vector<string> v; for (slong i = 0; i < p->length; i++) v.push_back(jz(p->coeffs + i)); return jl(v); }
static string jvec(const fmpz* p, slong n) { vector<string> v; for (slong i = 0; i < n; i++) v.push_back(jz(p + i)); return jl(v); }
static string jnd(const fmpq_poly_t p) { // numerator coefficients and denominator
    slong n = fmpq_poly_length(p);
    while (n > 0 && fmpz_is_zero(fmpq_poly_numref(p) + n - 1)) n--;
    return "\"n\":" + jvec(fmpq_poly_numref(p), n) + ",\"d\":" + jz(fmpq_poly_denref(p));
}

static string jelem(const renf_elem_t a, const renf_t nf) {
    fmpq_poly_t p; fmpq_poly_init(p);
    nf_elem_get_fmpq_poly(p, a->elem, nf->nf);
    string s = jnd(p) + ",\"b\":" + jball(a->emb);
    fmpq_poly_clear(p);
    return s;
}
