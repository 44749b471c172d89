// Looks at the objects behind the Python interface; loaded with ctypes into the
// Python process, so that observations do not go through what is being checked.
#include <e-antic/renfxx.h>
#include <e-antic/renf_elem.h>
#include "json.hpp"

using eantic::renf_class;
using eantic::renf_elem_class;
static string buf;
static const char* give(const string& s) { buf = s; return buf.c_str(); }
extern "C" {
const void* obs_q() { return &renf_class::make(); }
const void* obs_parent(const renf_elem_class* x) { return &x->parent(); }
const char* obs_elem(const renf_elem_class* x) { return give(jelem(x->renf_elem_t(), x->parent().renf_t())); }
const char* obs_field(const renf_class* k) {
    auto* f = k->renf_t();
    return give(jnd(f->nf->pol) + ",\"name\":" + jstr(k->gen_name()) + ",\"prec\":" + std::to_string(f->prec) + ",\"b\":" + jball(f->emb) + ",\"deg\":" + std::to_string(k->degree()));
}
const char* obs_fball(const renf_class* k) { return give(jball(k->renf_t()->emb)); }
const char* obs_text_ball(const char* s, long prec) {
    arb_t b; arb_init(b);
    string r = arb_set_str(b, s, prec) ? "[\"bad\"]" : jball(b);
    arb_clear(b);
    return give(r);
}
const char* obs_double(double d) { return give(jdouble(d)); }
int obs_equal(const renf_class* a, const renf_class* b) { return renf_equal(a->renf_t(), b->renf_t()); }
// 1 zero, 2 rational, 4 integer
int obs_kind(const renf_elem_class* x) {
    auto* e = x->renf_elem_t()->elem; auto* nf = x->parent().renf_t()->nf;
    return (nf_elem_is_zero(e, nf) ? 1 : 0) | (nf_elem_is_rational(e, nf) ? 2 : 0) | (nf_elem_is_integer(e, nf) ? 4 : 0);
}
unsigned long obs_bits(const renf_elem_class* x) {
    fmpq_poly_t p; fmpq_poly_init(p);
    nf_elem_get_fmpq_poly(p, x->renf_elem_t()->elem, x->parent().renf_t()->nf);
    ulong n = fmpz_bits(fmpq_poly_denref(p)); for (slong i = 0; i < fmpq_poly_length(p); i++) n += fmpz_bits(fmpq_poly_numref(p) + i);
    fmpq_poly_clear(p);
    return n;
}
}
