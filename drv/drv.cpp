// Script interpreter for e-antic: reads one command per line, executes it on
// the real library and writes one JSON event per line to the trace file: the
// command, its result or exception, and every change of the observable state
// (registers with elements, handles and fields, balls).
//
//   drv SCRIPT TRACE
//
// Tokens: rN register, kN field handle, TYPE:NUMBER number of a C++/FLINT
// type, v:a,b/c,.. coefficient list, b:m,e,r,f ball m*2^e +/- r*2^f,
// s:TEXT string (percent-encoded), #N plain integer, anything else a word.
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <variant>
#include <vector>
#include <algorithm>
#include <malloc.h>
#include <memory>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <sys/time.h>

#include <e-antic/renfxx.h>
#include <e-antic/cereal.hpp>
#include <e-antic/fmpq_poly_extra.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/renf_elem.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/fmpz_vec.h>
#include <flint/fmpq_vec.h>
#include <cereal/archives/json.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/vector.hpp>

using eantic::renf_class;
using eantic::renf_elem_class;
using std::string;
using std::vector;
using Handle = boost::intrusive_ptr<const renf_class>;

// ---------------------------------------------------------------- liveness of fields
// All heap blocks that have the size of a field; blocks seen as a field are marked.
static void forget(void* q); // this field is gone, its address may be used again
struct Live {
    static constexpr int N = 4096;
    void* p[N]; bool mark[N]; long total = 0;
    void add(void* q) { for (int i = 0; i < N; i++) if (!p[i]) { p[i] = q; mark[i] = false; return; } }
    void del(void* q) { for (int i = 0; i < N; i++) if (p[i] == q) { p[i] = nullptr; if (mark[i]) forget(q); return; } }
    bool has(const void* q) { for (int i = 0; i < N; i++) if (p[i] == q) return true; return false; }
    void seen(const void* q) { for (int i = 0; i < N; i++) if (p[i] == q) mark[i] = true; }
    int count() { int c = 0; for (int i = 0; i < N; i++) if (p[i] && mark[i]) c++; return c; }
    int unmarked() { int c = 0; for (int i = 0; i < N; i++) if (p[i] && !mark[i]) c++; return c; }
};
static Live live;
// not a std::mutex: the thread sanitizer would take it for synchronization by the library
struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) {} } void unlock() { f.clear(std::memory_order_release); } };
static Spin live_mutex;
void* operator new(size_t n) {
    void* q = malloc(n ? n : 1);
    if (!q) throw std::bad_alloc();
    if (n == sizeof(renf_class)) { std::lock_guard<Spin> l(live_mutex); live.add(q); }
    return q;
}
void operator delete(void* q) noexcept { if (q) { if (malloc_usable_size(q) >= sizeof(renf_class)) { std::lock_guard<Spin> l(live_mutex); live.del(q); } free(q); } }
void operator delete(void* q, size_t) noexcept { operator delete(q); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete[](void* q, size_t) noexcept { operator delete(q); }

// Bytes in use, to notice leaks (of this thread's program; the sanitizers have their own allocator).
static std::atomic<long> inuse{0};
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(UNDER_TSAN)
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
static void* got(void* q) { if (q) inuse.fetch_add(malloc_usable_size(q), std::memory_order_relaxed); return q; }
static void gone(void* q) { if (q) inuse.fetch_sub(malloc_usable_size(q), std::memory_order_relaxed); }
void* malloc(size_t n) { return got(__libc_malloc(n)); }
void free(void* q) { gone(q); __libc_free(q); }
void* calloc(size_t n, size_t m) { return got(__libc_calloc(n, m)); }
void* realloc(void* q, size_t n) { gone(q); return got(__libc_realloc(q, n)); }
}
#endif

#include "json.hpp"

// ---------------------------------------------------------------- state
constexpr int NR = 12, NK = 12;
static thread_local std::optional<renf_elem_class> R[NR];
static thread_local Handle K[NK];
static vector<Handle> shared; // only changes while there are no other threads
static thread_local bool movedout[NR];
static thread_local std::map<int, string> blobs;
static thread_local std::map<long, string> blobsig;
static thread_local FILE* out;
static thread_local auto& ids = *new std::map<const renf_class*, int>;        // known fields; never destroyed, the last fields go after the thread's variables
static thread_local std::map<int, string> lastball;
static thread_local string lastR[NR], lastK[NK];
static thread_local int nextid = 1;
static thread_local vector<string> newf, fballs;

static void forget(void* q) { ids.erase(static_cast<const renf_class*>(q)); }
static int fid(const renf_class& k) {
    auto it = ids.find(&k);
    if (it != ids.end()) return it->second;
    int id = nextid++;
    ids[&k] = id;
    { std::lock_guard<Spin> l(live_mutex); live.seen(&k); }
    auto* f = k.renf_t();
    string b = jball(f->emb);
    lastball[id] = b;
    newf.push_back("{\"id\":" + std::to_string(id) + "," + jnd(f->nf->pol) + ",\"name\":" + jstr(k.gen_name()) +
        ",\"prec\":" + std::to_string(f->prec) + ",\"b\":" + b + ",\"deg\":" + std::to_string(k.degree()) + "}");
    return id;
}
// Whether an element has been moved from, i.e., its pointer to the parent is null.
static bool null_parent(const renf_elem_class& x) {
    static int offset = -1;
    if (offset == -1) {
        static renf_elem_class probe;
        const void* p = &probe.parent();
        for (size_t i = 0; i + sizeof(void*) <= sizeof(probe); i += sizeof(void*))
            if (memcmp(reinterpret_cast<const char*>(&probe) + i, &p, sizeof(void*)) == 0) { offset = int(i); break; }
        if (offset == -1) offset = -2;
    }
    if (offset < 0) return false;
    const void* q; memcpy(&q, reinterpret_cast<const char*>(&x) + offset, sizeof(void*));
    return q == nullptr;
}
static string jreg(int i) {
    if (!R[i]) return "{\"f\":-2}";
    if (movedout[i]) return "{\"f\":-1}";
    const renf_elem_class& x = *R[i];
    return "{\"f\":" + std::to_string(fid(x.parent())) + "," + jelem(x.renf_elem_t(), x.parent().renf_t()) + "}";
}

// ---------------------------------------------------------------- tokens
struct Num { string type; mpq_class q; };
static string unpercent(const string& s) {
    string r;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size()) { r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
        else r += s[i];
    return r;
}
static vector<string> split(const string& s, char c) {
    vector<string> v; string t; std::istringstream is(s);
    while (std::getline(is, t, c)) v.push_back(t);
    return v;
}
struct Tok {
    string raw;
    bool isr() const { return raw.size() > 1 && raw[0] == 'r' && isdigit(raw[1]); }
    bool isk() const { return raw.size() > 1 && raw[0] == 'k' && isdigit(raw[1]); }
    bool isstr() const { return raw.rfind("s:", 0) == 0; }
    bool isvec() const { return raw.rfind("v:", 0) == 0; }
    bool isball() const { return raw.rfind("b:", 0) == 0; }
    bool isint() const { return raw[0] == '#'; }
    bool isnum() const { return !isstr() && !isvec() && !isball() && raw != ":" && raw.find(':') != string::npos; }
    int r() const { int i = atoi(raw.c_str() + 1); if (!isr() || i >= NR) throw std::runtime_error("script: register " + raw); return i; }
    int k() const { int i = atoi(raw.c_str() + 1); if (!isk() || i >= NK) throw std::runtime_error("script: handle " + raw); return i; }
    long n() const { if (!isint()) throw std::runtime_error("script: integer " + raw); return atol(raw.c_str() + 1); }
    string s() const { if (!isstr()) throw std::runtime_error("script: string " + raw); return unpercent(raw.substr(2)); }
    Num num() const { auto p = raw.find(':'); mpq_class q(raw.substr(p + 1)); q.canonicalize(); return {raw.substr(0, p), q}; }
    vector<mpq_class> v() const { vector<mpq_class> w; for (auto& t : split(raw.substr(2), ',')) { mpq_class q(t); q.canonicalize(); w.push_back(q); } return w; }
    void ball(arb_t x) const {
        auto p = split(raw.substr(2), ',');
        fmpz_t m, e; fmpz_init(m); fmpz_init(e);
        arf_t rad; arf_init(rad);
        fmpz_set_str(m, p[0].c_str(), 10); fmpz_set_str(e, p[1].c_str(), 10);
        arf_set_fmpz_2exp(arb_midref(x), m, e);
        fmpz_set_str(m, p[2].c_str(), 10); fmpz_set_str(e, p[3].c_str(), 10);
        arf_set_fmpz_2exp(rad, m, e);
        arf_get_mag(arb_radref(x), rad); // rounds up unless the radius has at most 30 bits
        arf_clear(rad); fmpz_clear(m); fmpz_clear(e);
    }
    string json() const {
        if (isr()) return "{\"r\":" + std::to_string(r()) + "}";
        if (isk()) return "{\"k\":" + std::to_string(k()) + "}";
        if (isint()) return "{\"i\":" + std::to_string(n()) + "}";
        if (isstr()) return jtext(s());
        if (isball()) { arb_t x; arb_init(x); ball(x); string t = "{\"b\":" + jball(x) + "}"; arb_clear(x); return t; }
        if (isvec()) { vector<string> w; for (auto& q : v()) w.push_back(jq(q)); return "{\"v\":" + jl(w) + "}"; }
        if (isnum()) { auto q = num(); return "{\"q\":" + jq(q.q) + ",\"t\":" + jstr(q.type) + "}"; }
        return "{\"w\":" + jstr(raw) + "}";
    }
};
static thread_local vector<Tok> T; // current command
static string signature(const vector<Tok>& t) { string r = t[2].raw; for (size_t i = 3; i < t.size(); i++) r += t[i].isr() ? 'r' : 'k'; return r; } // of an archive
static renf_elem_class& reg(const Tok& t) { int i = t.r(); if (!R[i] || movedout[i]) throw std::runtime_error("script: empty register " + t.raw); return *R[i]; }
static const renf_class& fld(const Tok& t) { int i = t.k(); if (!K[i]) throw std::runtime_error("script: empty handle " + t.raw); return *K[i]; }
static renf_elem_srcptr C(const Tok& t) { return reg(t).renf_elem_t(); }
static void put(int i, renf_elem_class&& x) { if (R[i]) *R[i] = std::move(x); else R[i].emplace(std::move(x)); movedout[i] = false; }

// FLINT temporaries; what is to be written to has some content already
static const char* const OLD = "-340282366920938463463374607431768211507";
struct Z { fmpz_t z; Z() { fmpz_init(z); fmpz_set_str(z, OLD, 10); } Z(const mpz_class& x) { fmpz_init(z); fmpz_set_mpz(z, x.get_mpz_t()); } ~Z() { fmpz_clear(z); } };
struct Q { fmpq_t q; Q(const mpq_class& x) { fmpq_init(q); fmpq_set_mpq(q, x.get_mpq_t()); } ~Q() { fmpq_clear(q); } };
struct PZ { fmpz_poly_t p; PZ() { fmpz_poly_init(p); Z z; for (slong i = 0; i < 20; i += 3) fmpz_poly_set_coeff_fmpz(p, i, z.z); } PZ(const vector<mpq_class>& v) { fmpz_poly_init(p); for (size_t i = 0; i < v.size(); i++) { Z c(mpz_class(v[i].get_num())); fmpz_poly_set_coeff_fmpz(p, i, c.z); } } ~PZ() { fmpz_poly_clear(p); } };
struct PQ { fmpq_poly_t p; PQ() { fmpq_poly_init(p); Z z; for (slong i = 0; i < 20; i += 3) fmpq_poly_set_coeff_fmpz(p, i, z.z); fmpq_poly_scalar_div_si(p, p, 12); } PQ(const vector<mpq_class>& v) { fmpq_poly_init(p); for (size_t i = 0; i < v.size(); i++) { Q c(v[i]); fmpq_poly_set_coeff_fmpq(p, i, c.q); } } ~PQ() { fmpq_poly_clear(p); }
    string str(const string& var) { char* c = fmpq_poly_get_str_pretty(p, var.c_str()); string s = c; flint_free(c); return s; } };
struct A { arb_t a; A() { arb_init(a); arf_set_si_2exp_si(arb_midref(a), -98765, 77); mag_set_ui_2exp_si(arb_radref(a), 3, -50); } A(const Tok& t) { arb_init(a); t.ball(a); } ~A() { arb_clear(a); } };
struct AF { arf_t a; AF() { arf_init(a); arf_set_si_2exp_si(a, -98765, 77); } ~AF() { arf_clear(a); } };

template <class T> static T from_mpz(const mpz_class& z) {
    __int128 v = 0;
    string s = z.get_str(); bool neg = s[0] == '-';
    for (char c : s) if (isdigit(c)) v = v * 10 + (c - '0');
    return T(neg ? -v : v);
}
// call f with a value of the C++ type the number token names
template <class F> static void with_number(const Tok& t, F f) {
    Num q = t.num();
    mpz_class z = q.q.get_num();
    if (q.type == "short") f(from_mpz<short>(z));
    else if (q.type == "ushort") f(from_mpz<unsigned short>(z));
    else if (q.type == "int") f(from_mpz<int>(z));
    else if (q.type == "uint") f(from_mpz<unsigned int>(z));
    else if (q.type == "long") f(from_mpz<long>(z));
    else if (q.type == "ulong") f(from_mpz<unsigned long>(z));
    else if (q.type == "llong") f(from_mpz<long long>(z));
    else if (q.type == "ullong") f(from_mpz<unsigned long long>(z));
    else if (q.type == "mpz") f(z);
    else if (q.type == "mpq") f(q.q);
    else throw std::runtime_error("script: number type " + q.type);
}
template <class X, class Y> static bool relop(const string& op, const X& x, const Y& y) {
    if (op == "==") return x == y;
    if (op == "!=") return x != y;
    if (op == "<") return x < y;
    if (op == "<=") return x <= y;
    if (op == ">") return x > y;
    if (op == ">=") return x >= y;
    throw std::runtime_error("script: relop " + op);
}
template <class X, class Y> static renf_elem_class arith(const string& op, const X& x, const Y& y) {
    if (op == "+") return x + y;
    if (op == "-") return x - y;
    if (op == "*") return x * y;
    if (op == "/") return x / y;
    throw std::runtime_error("script: operator " + op);
}
template <class Y> static void inplace(const string& op, renf_elem_class& x, const Y& y) {
    if (op == "+") x += y;
    else if (op == "-") x -= y;
    else if (op == "*") x *= y;
    else if (op == "/") x /= y;
    else throw std::runtime_error("script: operator " + op);
}
static int sign(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static arf_rnd_t rnd(long m) { return m == 0 ? ARF_RND_DOWN : m == 1 ? ARF_RND_UP : m == 2 ? ARF_RND_FLOOR : m == 3 ? ARF_RND_CEIL : ARF_RND_NEAR; }

template <class Ar> static string save_items(size_t from) {
    std::ostringstream os;
    { Ar ar(os);
      for (size_t i = from; i < T.size(); i++)
        if (T[i].isr()) ar(reg(T[i])); else { Handle h(&fld(T[i])); ar(h); } }
    return os.str();
}
template <class Ar> static void load_items(const string& s, size_t from) {
    std::istringstream is(s);
    Ar ar(is);
    for (size_t i = from; i < T.size(); i++)
        if (T[i].isr()) { renf_elem_class x; ar(x); put(T[i].r(), std::move(x)); } else { Handle h; ar(h); K[T[i].k()] = h; }
}
static void close_archives();
static void reset() {
    close_archives();
    for (auto& r : R) r.reset();
    for (auto& k : K) k.reset();
    for (auto& m : movedout) m = false;
    blobs.clear(); blobsig.clear();
}

// Archives that are written and read step by step.
struct Archive {
    virtual ~Archive() {}
    virtual void put(const Tok&) {}
    virtual void get(const Tok&) {}
};
template <class Ar> struct Writer : Archive {
    std::ostringstream os; long blob; std::unique_ptr<Ar> ar;
    Writer(long b) : blob(b), ar(new Ar(os)) {}
    ~Writer() { ar.reset(); blobs[blob] = os.str(); }
    void put(const Tok& t) override { if (t.isr()) (*ar)(reg(t)); else { Handle h(&fld(t)); (*ar)(h); } }
};
template <class Ar> struct Reader : Archive {
    std::istringstream is; Ar ar;
    Reader(const string& s) : is(s), ar(is) {}
    void get(const Tok& t) override {
        if (t.raw == "re") { renf_elem_class x; ar(x); }      // read and forget
        else if (t.raw == "kf") { Handle h; ar(h); }
        else if (t.isr()) { int i = t.r(); if (!R[i] || movedout[i]) { renf_elem_class x; ar(x); ::put(i, std::move(x)); } else ar(*R[i]); }
        else ar(K[t.k()]);
    }
};
static thread_local std::unique_ptr<Archive> aout, ain;
static thread_local string aoutsig, ainsig; static thread_local long ainat; static thread_local long aoutblob;
static void close_archives() { aout.reset(); ain.reset(); }
template <template <class> class W, class... X> static std::unique_ptr<Archive> open_out(const string& f, X&&... x) {
    if (f == "json") return std::unique_ptr<Archive>(new W<cereal::JSONOutputArchive>(x...));
    if (f == "bin") return std::unique_ptr<Archive>(new W<cereal::BinaryOutputArchive>(x...));
    if (f == "xml") return std::unique_ptr<Archive>(new W<cereal::XMLOutputArchive>(x...));
    return std::unique_ptr<Archive>(new W<cereal::PortableBinaryOutputArchive>(x...));
}
template <template <class> class W, class... X> static std::unique_ptr<Archive> open_in(const string& f, X&&... x) {
    if (f == "json") return std::unique_ptr<Archive>(new W<cereal::JSONInputArchive>(x...));
    if (f == "bin") return std::unique_ptr<Archive>(new W<cereal::BinaryInputArchive>(x...));
    if (f == "xml") return std::unique_ptr<Archive>(new W<cereal::XMLInputArchive>(x...));
    return std::unique_ptr<Archive>(new W<cereal::PortableBinaryInputArchive>(x...));
}
// The JSON text that releases before 1.0.0 wrote: "shared" instead of "id", class versions of elements.
static string legacy(const string& s, long how) {
    string r; std::istringstream is(s); string l;
    while (std::getline(is, l)) {
        auto i = l.find("\"id\":"), j = l.find("\"parent\":");
        if (j != string::npos && (how & 2)) r += l.substr(0, j) + "\"cereal_class_version\": 0,\n";
        if (i != string::npos && (how & 1)) l.replace(i, 4, "\"shared\"");
        r += l + "\n";
    }
    return r;
}
// What f prints to the standard output.
template <class F> static string captured(F f) {
    fflush(stdout);
    FILE* t = tmpfile(); int o = dup(1); dup2(fileno(t), 1);
    f(); fflush(stdout);
    dup2(o, 1); close(o);
    string r; rewind(t); for (int c; (c = fgetc(t)) != EOF;) r += char(c);
    fclose(t);
    return r;
}
struct Rand { flint_rand_t s; Rand(ulong a) { flint_randinit(s); flint_randseed(s, a, a * 7 + 1); } ~Rand() { flint_randclear(s); } };

using Fn = std::function<string()>;
static std::map<string, Fn> ops;
#define OP(name) ops[name] = []() -> string
static string nil = "0";

static void def_ops() {
    OP("reset") { reset(); return nil; };
    // ------------------------------------------------------------ fields
    OP("mk") { // mk kI v:pol s:name s:embedding #prec [str|fun|nostr]
        PQ p(T[2].v()); string name = T[3].s(), emb = T[4].s(); slong prec = T[5].n();
        string mode = T.size() > 6 ? T[6].raw : "str";
        string pol = p.str(name);
        if (mode == "fun") K[T[1].k()] = renf_class::make(pol, name, [&](slong) { return emb; }, prec);
        else K[T[1].k()] = renf_class::make(pol, name, emb, prec);
        return nil;
    };
    OP("expect") { return nil; }; // expect rI CLASS kJ FIELD ..: the state that the model predicts
    OP("mks") { // mks kI s:pol s:name s:embedding #prec   (text of the polynomial given)
        K[T[1].k()] = renf_class::make(T[2].s(), T[3].s(), T[4].s(), T[5].n()); return nil;
    };
    OP("mkfun") { // mkfun kI v:pol s:name s:emb1 s:emb2 .. #prec: embeddings for increasing precision
        PQ p(T[2].v()); size_t n = 0; vector<string> e; for (size_t i = 4; i + 1 < T.size(); i++) e.push_back(T[i].s());
        vector<string> asked;
        K[T[1].k()] = renf_class::make(p.str(T[3].s()), T[3].s(), [&](slong pr) { asked.push_back(std::to_string(pr)); if (n < e.size()) n++; else throw std::domain_error("no more embeddings"); return e[n - 1]; }, T.back().n());
        return std::to_string(n);
    };
    OP("c_mk") { // c_mk kI v:pol s:name b:ball #prec   C constructor, then made unique
        PQ p(T[2].v()); A b(T[4]); renf_t nf;
        if (!fmpq_poly_check_unique_real_root(p.p, b.a, T[5].n())) return "-1";
        renf_init(nf, p.p, b.a, T[5].n());
        try { K[T[1].k()] = renf_class::make(nf, T[3].s()); } catch (...) { renf_clear(nf); throw; }
        renf_clear(nf);
        return nil;
    };
    OP("c_mkn") { // without the check
        PQ p(T[2].v()); A b(T[4]); renf_t nf;
        renf_init(nf, p.p, b.a, T[5].n());
        K[T[1].k()] = renf_class::make(nf, T[3].s());
        renf_clear(nf);
        return nil;
    };
    OP("nth") { // nth kI mpq:d #n s:name #prec
        Q d(T[2].num().q); renf_t nf;
        renf_init_nth_root_fmpq(nf, d.q, (ulong)T[3].n(), T[5].n());
        K[T[1].k()] = renf_class::make(nf, T[4].s());
        renf_clear(nf);
        return nil;
    };
    OP("embs") { // embs v:pol s:name #prec #lim kA kB ...
        PZ p(T[1].v()); slong lim = T[4].n(); vector<renf> nf(lim + 1);
        slong n = renf_set_embeddings_fmpz_poly(nf.data(), p.p, lim, T[3].n());
        for (slong i = 0; i < std::min(n, lim); i++) { if (5 + i < (slong)T.size()) K[T[5 + i].k()] = renf_class::make(&nf[i], T[2].s()); renf_clear(&nf[i]); }
        return std::to_string(n);
    };
    OP("share") { K[T[1].k()] = shared.at(T[2].n()); return nil; }; // a field that all threads use
    OP("mkq") { K[T[1].k()] = Handle(&renf_class::make()); return nil; };
    OP("mkh") { K[T[1].k()] = K[T[2].k()]; return nil; };
    OP("mkmv") { K[T[1].k()] = std::move(K[T[2].k()]); return nil; };
    OP("mkp") { K[T[1].k()] = Handle(&reg(T[2]).parent()); return nil; };
    OP("mkcopy") { K[T[1].k()] = renf_class::make(fld(T[2]).renf_t(), T[3].s()); return nil; };
    OP("c_copy") { // through renf_init_set, refined
        renf_t nf; renf_init_set(nf, fld(T[2]).renf_t()); renf_refine_embedding(nf, T[4].n());
        K[T[1].k()] = renf_class::make(nf, T[3].s()); renf_clear(nf); return nil;
    };
    OP("mkcon") { auto c = fld(T[2]).construction(); K[T[1].k()] = renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); return jtext(std::get<2>(c)); };
    OP("con") { // construction data of a field: polynomial text, embedding text and its ball
        auto c = fld(T[1]).construction(); A b; arb_set_str(b.a, std::get<2>(c).c_str(), std::get<3>(c));
        return "{\"pol\":" + jtext(std::get<0>(c)) + ",\"name\":" + jtext(std::get<1>(c)) + ",\"b\":" + jball(b.a) + ",\"prec\":" + std::to_string(std::get<3>(c)) + "}";
    };
    OP("dropk") { K[T[1].k()].reset(); return nil; };
    OP("refine") { renf_refine_embedding(fld(T[1]).renf_t(), T[2].n()); return nil; };
    OP("immut") { return std::to_string(renf_set_immutable(fld(T[1]).renf_t(), T[2].n())); };
    OP("feq") { auto& x = fld(T[1]); auto& y = fld(T[2]);
        return jl({jb(x == y), jb(x != y), jb(&x == &y), jb(renf_equal(x.renf_t(), y.renf_t())), jb(std::hash<renf_class>()(x) == std::hash<renf_class>()(y))}); };
    OP("fhash") { return jstr(std::to_string(std::hash<renf_class>()(fld(T[1])))); };
    OP("finfo") { auto& x = fld(T[1]);
        return "{\"deg\":" + std::to_string(x.degree()) + ",\"cdeg\":" + std::to_string(renf_degree(x.renf_t())) + ",\"name\":" + jtext(x.gen_name()) +
            ",\"zero\":{" + jelem(x.zero().renf_elem_t(), x.renf_t()) + "},\"one\":{" + jelem(x.one().renf_elem_t(), x.renf_t()) + "},\"gen\":{" + jelem(x.gen().renf_elem_t(), x.renf_t()) + "}}"; };
    OP("fstr") { auto& x = fld(T[1]); string s = x.to_string(); std::ostringstream os; os << x;
        char* c = renf_get_str(x.renf_t(), x.gen_name().c_str(), 64); string cs = c; flint_free(c);
        // text inside [...] or the number at the end, read back with FLINT
        A b; auto i = s.find(", "); string e = i == string::npos ? "" : s.substr(i + 2, s.size() - i - 3);
        int err = arb_set_str(b.a, e.c_str(), 300);
        PQ p; string body = i == string::npos ? "" : s.substr(12, i - 12);
        return "{\"s\":" + jtext(s) + ",\"same\":" + jb(os.str() == s && cs == s) + ",\"pol\":" + jtext(body) + ",\"err\":" + std::to_string(err) + ",\"b\":" + jball(b.a) + "}"; };
    // ------------------------------------------------------------ construction of elements
    OP("new") { put(T[1].r(), renf_elem_class(fld(T[2]))); return nil; };
    OP("newd") { R[T[1].r()].reset(); R[T[1].r()].emplace(); movedout[T[1].r()] = false; return nil; };
    OP("newn") { // newn rI kJ number
        auto& k = fld(T[2]); int i = T[1].r(); auto n = T[3].num();
        if (n.type == "fmpz") { Z z(mpz_class(n.q.get_num())); put(i, renf_elem_class(k, z.z)); }
        else if (n.type == "fmpq") { Q q(n.q); put(i, renf_elem_class(k, q.q)); }
        else with_number(T[3], [&](auto v) { put(i, renf_elem_class(k, v)); });
        return nil;
    };
    OP("newq") { // newq rI number
        int i = T[1].r(); auto n = T[2].num();
        if (n.type == "fmpz") { Z z(mpz_class(n.q.get_num())); put(i, renf_elem_class(z.z)); }
        else if (n.type == "fmpq") { Q q(n.q); put(i, renf_elem_class(q.q)); }
        else with_number(T[2], [&](auto v) { put(i, renf_elem_class(v)); });
        return nil;
    };
    OP("newv") { // newv rI kJ TYPE v:coefficients
        auto& k = fld(T[2]); int i = T[1].r(); auto v = T[4].v(); string t = T[3].raw;
        auto conv = [&](auto x) { vector<decltype(x)> w; for (auto& q : v) w.push_back(from_mpz<decltype(x)>(mpz_class(q.get_num()))); put(i, renf_elem_class(k, w)); };
        if (t == "int") conv(int()); else if (t == "uint") conv((unsigned)0); else if (t == "long") conv(long()); else if (t == "ulong") conv((unsigned long)0);
        else if (t == "mpz") { vector<mpz_class> w; for (auto& q : v) w.push_back(q.get_num()); put(i, renf_elem_class(k, w)); }
        else if (t == "mpq") put(i, renf_elem_class(k, v));
        else throw std::runtime_error("script: vector type");
        return nil;
    };
    OP("news") { put(T[1].r(), renf_elem_class(fld(T[2]), T[3].s())); return nil; };
    OP("newe") { put(T[1].r(), renf_elem_class(fld(T[2]), reg(T[3]))); return nil; };
    OP("newc") { int i = T[1].r(), j = T[2].r(); if (i == j) return nil; auto& y = reg(T[2]); R[i].reset(); R[i].emplace(y); movedout[i] = false; return nil; };
    OP("newm") { int i = T[1].r(), j = T[2].r(); if (i == j) return nil; auto& y = reg(T[2]); R[i].reset(); R[i].emplace(std::move(y)); movedout[i] = false; movedout[j] = null_parent(*R[j]); return nil; };
    OP("zero") { put(T[1].r(), renf_elem_class(fld(T[2]).zero())); return nil; };
    OP("one") { put(T[1].r(), renf_elem_class(fld(T[2]).one())); return nil; };
    OP("gen") { put(T[1].r(), renf_elem_class(fld(T[2]).gen())); return nil; };
    // assignments; the target may be moved-out
    OP("asg") { int i = T[1].r(); if (!R[i]) throw std::runtime_error("script: asg"); *R[i] = reg(T[2]); movedout[i] = false; return nil; };
    OP("asgm") { int i = T[1].r(), j = T[2].r(); if (!R[i]) throw std::runtime_error("script: asgm"); auto& y = reg(T[2]); *R[i] = std::move(y); movedout[i] = null_parent(*R[i]); movedout[j] = null_parent(*R[j]); return nil; };
    OP("asgn") { int i = T[1].r(); if (!R[i]) throw std::runtime_error("script: asgn"); auto n = T[2].num();
        if (n.type == "fmpz") { Z z(mpz_class(n.q.get_num())); *R[i] = z.z; }
        else if (n.type == "fmpq") { Q q(n.q); *R[i] = q.q; }
        else with_number(T[2], [&](auto v) { *R[i] = v; });
        movedout[i] = false; return nil; };
    OP("swap") { int i = T[1].r(), j = T[2].r(); if (!R[i] || !R[j]) throw std::runtime_error("script: swap"); swap(*R[i], *R[j]); std::swap(movedout[i], movedout[j]); return nil; };
    OP("stdswap") { int i = T[1].r(), j = T[2].r(); if (!R[i] || !R[j]) throw std::runtime_error("script: swap"); if (i != j) { std::swap<renf_elem_class>(*R[i], *R[j]); std::swap(movedout[i], movedout[j]); } return nil; };
    OP("drop") { R[T[1].r()].reset(); movedout[T[1].r()] = false; return nil; };
    // ------------------------------------------------------------ arithmetic, C++
    OP("bin") { // bin OP rI a b
        string op = T[1].raw; int i = T[2].r();
        if (T[3].isr() && T[4].isr()) put(i, arith(op, reg(T[3]), reg(T[4])));
        else if (T[3].isr()) with_number(T[4], [&](auto v) { put(i, arith(op, reg(T[3]), v)); });
        else with_number(T[3], [&](auto v) { put(i, arith(op, v, reg(T[4]))); });
        return nil;
    };
    OP("inp") { // inp OP rI b
        string op = T[1].raw; auto& x = reg(T[2]);
        if (T[3].isr()) inplace(op, x, reg(T[3])); else with_number(T[3], [&](auto v) { inplace(op, x, v); });
        return nil;
    };
    OP("neg") { put(T[1].r(), -reg(T[2])); return nil; };
    OP("pos") { put(T[1].r(), +reg(T[2])); return nil; };
    OP("pow") { put(T[1].r(), reg(T[2]).pow(int(T[3].n()))); return nil; };
    OP("powf") { put(T[1].r(), pow(reg(T[2]), int(T[3].n()))); return nil; };
    // ------------------------------------------------------------ arithmetic, C
    #define NF(t) (reg(t).parent().renf_t())
    OP("c_bin") { // c_bin OP rI rB (rC | number of type si/ui/fmpz/fmpq)
        string op = T[1].raw; auto* nf = NF(T[2]); auto a = C(T[2]), b = C(T[3]);
        #define CB(o, name) if (op == o) { \
            if (T[4].isr()) renf_elem_##name(a, b, C(T[4]), nf); \
            else { auto n = T[4].num(); mpz_class z = n.q.get_num(); \
                if (n.type == "si") renf_elem_##name##_si(a, b, from_mpz<slong>(z), nf); \
                else if (n.type == "ui") renf_elem_##name##_ui(a, b, from_mpz<ulong>(z), nf); \
                else if (n.type == "fmpz") { Z c(z); renf_elem_##name##_fmpz(a, b, c.z, nf); } \
                else { Q c(n.q); renf_elem_##name##_fmpq(a, b, c.q, nf); } } }
        CB("+", add) CB("-", sub) CB("*", mul) CB("/", div)
        return nil;
    };
    OP("c_qbin") { // c_qbin OP rI fmpq:q rB    q - b, q / b
        Q q(T[3].num().q);
        if (T[1].raw == "-") renf_elem_fmpq_sub(C(T[2]), q.q, C(T[4]), NF(T[2])); else renf_elem_fmpq_div(C(T[2]), q.q, C(T[4]), NF(T[2]));
        return nil;
    };
    OP("c_neg") { renf_elem_neg(C(T[1]), C(T[2]), NF(T[1])); return nil; };
    OP("c_inv") { renf_elem_inv(C(T[1]), C(T[2]), NF(T[1])); return nil; };
    OP("c_set") { renf_elem_set(C(T[1]), C(T[2]), NF(T[1])); return nil; };
    OP("c_pow") { renf_elem_pow(C(T[1]), C(T[2]), (ulong)T[3].n(), NF(T[1])); return nil; };
    OP("c_zero") { renf_elem_zero(C(T[1]), NF(T[1])); return nil; };
    OP("c_one") { renf_elem_one(C(T[1]), NF(T[1])); return nil; };
    OP("c_gen") { renf_elem_gen(C(T[1]), NF(T[1])); return nil; };
    OP("c_swap") { renf_elem_swap(C(T[1]), C(T[2])); return nil; };
    OP("c_setn") { auto n = T[2].num(); mpz_class z = n.q.get_num(); auto a = C(T[1]); auto* nf = NF(T[1]);
        if (n.type == "si") renf_elem_set_si(a, from_mpz<slong>(z), nf);
        else if (n.type == "ui") renf_elem_set_ui(a, from_mpz<ulong>(z), nf);
        else if (n.type == "mpz") renf_elem_set_mpz(a, z.get_mpz_t(), nf);
        else if (n.type == "mpq") renf_elem_set_mpq(a, n.q.get_mpq_t(), nf);
        else if (n.type == "fmpz") { Z c(z); renf_elem_set_fmpz(a, c.z, nf); }
        else { Q c(n.q); renf_elem_set_fmpq(a, c.q, nf); }
        return nil; };
    OP("c_setpoly") { PQ p(T[2].v()); renf_elem_set_fmpq_poly(C(T[1]), p.p, NF(T[1])); return nil; };
    OP("c_setnf") { // set_nf_elem from the algebraic part of rB, then evaluation at precision
        nf_elem_t e; nf_elem_init(e, NF(T[1])->nf); nf_elem_set(e, C(T[2])->elem, NF(T[1])->nf);
        renf_elem_set_nf_elem(C(T[1]), e, NF(T[1]), T[3].n()); nf_elem_clear(e, NF(T[1])->nf); return nil; };
    OP("c_eval") { renf_elem_set_evaluation(C(T[1]), NF(T[1]), T[2].n()); return nil; };
    OP("c_check") { renf_elem_check_embedding(C(T[1]), NF(T[1]), T[2].n()); return nil; };
    // ------------------------------------------------------------ queries
    OP("rel") { // rel OP a b
        bool b = false; string op = T[1].raw;
        if (T[2].isr() && T[3].isr()) b = relop(op, reg(T[2]), reg(T[3]));
        else if (T[2].isr()) with_number(T[3], [&](auto v) { b = relop(op, reg(T[2]), v); });
        else with_number(T[2], [&](auto v) { b = relop(op, v, reg(T[3])); });
        return jb(b);
    };
    OP("is") { auto& x = reg(T[1]); auto* nf = NF(T[1]); auto c = C(T[1]);
        return jl({jb(x.is_zero()), jb(x.is_one()), jb(x.is_integer()), jb(x.is_rational()), jb(bool(x)),
                   jb(renf_elem_is_zero(c, nf)), jb(renf_elem_is_one(c, nf)), jb(renf_elem_is_integer(c, nf)), jb(renf_elem_is_rational(c, nf))}); };
    OP("sgn") { return std::to_string(sign(reg(T[1]).sgn())); };
    OP("c_sgn") { return std::to_string(renf_elem_sgn(C(T[1]), NF(T[1]))); };
    OP("c_cmp") { auto* nf = NF(T[1]); auto a = C(T[1]); int r;
        if (T[2].isr()) r = renf_elem_cmp(a, C(T[2]), nf);
        else { auto n = T[2].num(); mpz_class z = n.q.get_num();
            if (n.type == "si") r = renf_elem_cmp_si(a, from_mpz<slong>(z), nf);
            else if (n.type == "ui") r = renf_elem_cmp_ui(a, from_mpz<ulong>(z), nf);
            else if (n.type == "fmpz") { Z c(z); r = renf_elem_cmp_fmpz(a, c.z, nf); }
            else { Q c(n.q); r = renf_elem_cmp_fmpq(a, c.q, nf); } }
        return std::to_string(sign(r)); };
    OP("c_eq") { auto* nf = NF(T[1]); auto a = C(T[1]); int r;
        if (T[2].isr()) r = renf_elem_equal(a, C(T[2]), nf);
        else { auto n = T[2].num(); mpz_class z = n.q.get_num();
            if (n.type == "si") r = renf_elem_equal_si(a, from_mpz<slong>(z), nf);
            else if (n.type == "ui") r = renf_elem_equal_ui(a, from_mpz<ulong>(z), nf);
            else if (n.type == "fmpz") { Z c(z); r = renf_elem_equal_fmpz(a, c.z, nf); }
            else { Q c(n.q); r = renf_elem_equal_fmpq(a, c.q, nf); } }
        return jb(r != 0); };
    OP("floor") { return jz(reg(T[1]).floor()); };
    OP("ceil") { return jz(reg(T[1]).ceil()); };
    OP("floorf") { return jz(eantic::floor(reg(T[1]))); };
    OP("ceilf") { return jz(eantic::ceil(reg(T[1]))); };
    OP("floordiv") { return jz(reg(T[1]).floordiv(reg(T[2]))); };
    OP("c_floor") { Z z; renf_elem_floor(z.z, C(T[1]), NF(T[1])); return jz(z.z); };
    OP("c_ceil") { Z z; renf_elem_ceil(z.z, C(T[1]), NF(T[1])); return jz(z.z); };
    OP("c_fdiv") { Z z; renf_elem_fdiv(z.z, C(T[1]), C(T[2]), NF(T[1])); return jz(z.z); };
    OP("c_cfrac") { // c_cfrac rA rRem #n
        slong n = T[3].n(); fmpz* c = _fmpz_vec_init(n + 1); for (slong i = 0; i <= n; i++) fmpz_set_str(c + i, OLD, 10);
        slong k = renf_elem_get_cfrac(c, C(T[2]), C(T[1]), n, NF(T[1]));
        string s = jvec(c, std::min(k, n)); _fmpz_vec_clear(c, n + 1); return s; };
    OP("dbl") { return jdouble(static_cast<double>(reg(T[1]))); };
    OP("c_getd") { return jdouble(renf_elem_get_d(C(T[1]), NF(T[1]), rnd(T[2].n()))); };
    OP("c_getarb") { A x; renf_elem_get_arb(x.a, C(T[1]), NF(T[1]), T[2].n()); return jball(x.a); };
    OP("parts") { auto& x = reg(T[1]); vector<string> v; for (auto& z : x.num_vector()) v.push_back(jz(z));
        return "{\"nv\":" + jl(v) + ",\"den\":" + jz(x.den()) + ",\"content\":" + jz(x.num_content()) + "}"; };
    OP("num") { return jz(reg(T[1]).num()); };
    OP("tompz") { return jz(static_cast<mpz_class>(reg(T[1]))); };
    OP("tompq") { return jq(static_cast<mpq_class>(reg(T[1]))); };
    OP("hash") { return jstr(std::to_string(std::hash<renf_elem_class>()(reg(T[1])))); };
    OP("cond") { slong c = 0; int r = renf_elem_relative_condition_number_2exp(&c, C(T[1]), NF(T[1])); return jl({std::to_string(r), std::to_string(c)}); };
    // ------------------------------------------------------------ text
    OP("str") { return jtext(reg(T[1]).to_string(int(T[2].n()))); };
    OP("strx") { auto& x = reg(T[1]); std::ostringstream os; os << x; return jl({jtext(os.str()), jtext(x.to_string()), jtext(static_cast<string>(x))}); };
    OP("c_str") { // c_str rA s:var #digits #flags
        char* c = renf_elem_get_str_pretty(C(T[1]), T[2].s().c_str(), NF(T[1]), T[3].n(), int(T[4].n())); string s = c; flint_free(c);
        return jtext(s); };
    OP("read") { // read rI kJ s:text ...: several elements from one stream
        std::istringstream is(T.back().s());
        #pragma GCC diagnostic push
        #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        if (T.size() % 2) fld(T[1]).set_pword(is); else fld(T[1]).set_istream(is);
        #pragma GCC diagnostic pop
        for (size_t i = 2; i + 1 < T.size(); i++) { if (i > 2) is.get(); int r = T[i].r(); if (!R[r] || movedout[r]) { R[r].reset(); R[r].emplace(); movedout[r] = false; } is >> *R[r]; }
        string rest; std::getline(is, rest, '\0');
        return jtext(rest); };
    OP("print") { // the functions that print to stdout: print rA s:var #digits #flags
        string v = T[2].s(); auto& x = reg(T[1]); string s = captured([&]() { renf_elem_print_pretty(x.renf_elem_t(), v.c_str(), x.parent().renf_t(), T[3].n(), int(T[4].n())); });
        return jtext(s); };
    OP("fprint") { auto& x = fld(T[1]); string s = captured([&]() { renf_print(x.renf_t()); }); return jtext(s); };
    OP("depr") { // deprecated accessors next to their replacement
        #pragma GCC diagnostic push
        #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        auto& x = reg(T[1]); vector<string> v;
        v.push_back(jb(x.get_str(int(T[2].n())) == x.to_string(int(T[2].n()))));
        v.push_back(jb(x.get_den() == x.den()));
        v.push_back(jb(x.get_num_vector() == x.num_vector()));
        v.push_back(jb(x.get_d() == static_cast<double>(x)));
        v.push_back(jb(!x.is_rational() || (x.get_num() == x.num() && x.get_rational() == static_cast<mpq_class>(x))));
        v.push_back(jb(static_cast<const void*>(x.get_renf_elem()) == static_cast<const void*>(x.renf_elem_t())));
        v.push_back(jb(static_cast<const void*>(x.parent().get_renf()) == static_cast<const void*>(x.parent().renf_t())));
        #pragma GCC diagnostic pop
        return jl(v); };
    OP("frand") { // a random field: frand kI #seed #len #prec #bits s:name
        Rand r(T[2].n()); renf_t nf; renf_randtest(nf, r.s, T[3].n(), T[4].n(), T[5].n());
        K[T[1].k()] = renf_class::make(nf, T[6].s()); renf_clear(nf); return nil; };
    OP("erand") { Rand r(T[2].n()); auto& x = reg(T[1]); renf_elem_randtest(x.renf_elem_t(), r.s, T[3].n(), x.parent().renf_t()); return nil; };
    OP("prand") { Rand r(T[1].n()); PZ p; fmpz_poly_randtest_irreducible(p.p, r.s, T[2].n(), T[3].n()); fmpz_poly_factor_t f; fmpz_poly_factor_init(f); fmpz_poly_factor(f, p.p); slong n = 0; for (slong i = 0; i < f->num; i++) n += f->exp[i]; fmpz_poly_factor_clear(f);
        return "{\"p\":" + jpoly(p.p) + ",\"n\":" + std::to_string(n) + "}"; };
    OP("strrt") { // print rJ with flags and read it back into rI
        auto& y = reg(T[2]); string s = y.to_string(int(T[3].n()));
        if (!s.empty() && s[0] == '(') s = s.substr(1, s.size() - 2);
        put(T[1].r(), renf_elem_class(y.parent(), s)); return jtext(s); };
    OP("streamrt") { // write registers to a stream, separated by blanks, and read them back: streamrt rA rB : rC rD
        std::stringstream ss; size_t i = 1; const renf_class* k = nullptr;
        for (; i < T.size() && T[i].isr(); i++) { k = &reg(T[i]).parent(); ss << (i > 1 ? " " : "") << reg(T[i]); }
        Handle h(k);
        #pragma GCC diagnostic push
        #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        k->set_pword(ss);
        #pragma GCC diagnostic pop
        string s = ss.str();
        for (i++; i < T.size(); i++) { renf_elem_class x; ss >> x; ss.get(); put(T[i].r(), std::move(x)); }
        return jtext(s); };
    // ------------------------------------------------------------ serialization
    OP("save") { blobsig[T[1].n()] = signature(T); string f = T[2].raw; long b = T[1].n();
        blobs[b] = f == "json" ? save_items<cereal::JSONOutputArchive>(3) : f == "bin" ? save_items<cereal::BinaryOutputArchive>(3) : f == "xml" ? save_items<cereal::XMLOutputArchive>(3) : save_items<cereal::PortableBinaryOutputArchive>(3);
        return nil; };
    OP("load") { string f = T[2].raw; long b = T[1].n(); const string& s = blobs.at(b);
        if (f == "json") load_items<cereal::JSONInputArchive>(s, 3); else if (f == "bin") load_items<cereal::BinaryInputArchive>(s, 3); else if (f == "xml") load_items<cereal::XMLInputArchive>(s, 3); else load_items<cereal::PortableBinaryInputArchive>(s, 3);
        return nil; };
    OP("aopen") { aout = open_out<Writer>(T[2].raw, T[1].n()); aoutblob = T[1].n(); aoutsig = T[2].raw; return nil; };
    OP("aput") { aout->put(T[1]); aoutsig += T[1].isr() ? 'r' : 'k'; return nil; };
    OP("aclose") { aout.reset(); blobsig[aoutblob] = aoutsig; return nil; };
    OP("ropen") { ain = open_in<Reader>(T[2].raw, blobs.at(T[1].n())); ainsig = blobsig.at(T[1].n()).substr(T[2].raw.size()); ainat = 0; return nil; };
    OP("rget") { ain->get(T[1]); ainat++; return nil; };
    OP("rclose") { ain.reset(); return nil; };
    OP("legacy") { blobs[T[1].n()] = legacy(blobs.at(T[1].n()), T[2].n()); return nil; };
    OP("vecrt") { // vecrt FMT rA rB .. : rC rD ..  a std::vector through an archive
        vector<renf_elem_class> v, w; size_t i = 2; for (; i < T.size() && T[i].isr(); i++) v.push_back(reg(T[i]));
        std::stringstream ss;
        if (T[1].raw == "json") { { cereal::JSONOutputArchive ar(ss); ar(v); } cereal::JSONInputArchive in(ss); in(w); }
        else { { cereal::BinaryOutputArchive ar(ss); ar(v); } cereal::BinaryInputArchive in(ss); in(w); }
        for (size_t j = 0; ++i < T.size(); j++) put(T[i].r(), renf_elem_class(w.at(j)));
        return std::to_string(w.size()); };
    // ------------------------------------------------------------ containers
    OP("sort") { vector<renf_elem_class> v; for (size_t i = 1; i < T.size(); i++) v.push_back(reg(T[i]));
        std::sort(v.begin(), v.end()); for (size_t i = 1; i < T.size(); i++) reg(T[i]) = v[i - 1]; return nil; };
    OP("rot") { // through a growing std::vector, rotated by one
        vector<renf_elem_class> v; for (size_t i = 1; i < T.size(); i++) v.push_back(std::move(reg(T[i])));
        v.insert(v.begin(), v.back()); v.pop_back();
        for (size_t i = 1; i < T.size(); i++) { *R[T[i].r()] = std::move(v[i - 1]); movedout[T[i].r()] = false; }
        return nil; };
    OP("uset") { // uset rA rB : rC rD  -> size and membership
        std::unordered_set<renf_elem_class> s; std::unordered_map<renf_elem_class, int> m; size_t i = 1; int n = 0;
        for (; i < T.size() && T[i].isr(); i++) { s.insert(reg(T[i])); m[reg(T[i])] = n++; }
        vector<string> v; for (i++; i < T.size(); i++) v.push_back(jb(s.count(reg(T[i])) == 1 && m.count(reg(T[i])) == 1));
        return "{\"size\":" + std::to_string(s.size()) + ",\"in\":" + jl(v) + "}"; };
    // ------------------------------------------------------------ polynomial utilities
    #define PCOUNT(name, fn) OP(name) { PZ p(T[1].v()); slong r = fn(p.p); string post = jpoly(p.p); return "{\"n\":" + std::to_string(r) + ",\"post\":" + post + "}"; };
    PCOUNT("p_sturm", fmpz_poly_num_real_roots_0_1_sturm)
    PCOUNT("p_vca01", fmpz_poly_num_real_roots_0_1_vca)
    PCOUNT("p_n01", fmpz_poly_num_real_roots_0_1)
    PCOUNT("p_nvca", fmpz_poly_num_real_roots_vca)
    PCOUNT("p_nub", fmpz_poly_num_real_roots_upper_bound)
    PCOUNT("p_has", fmpz_poly_has_real_root)
    OP("p_ub") { PZ p(T[1].v()); slong r = fmpz_poly_positive_root_upper_bound_2exp(p.p); slong r2 = p.p->length ? _fmpz_poly_positive_root_upper_bound_2exp(p.p->coeffs, p.p->length) : r; slong r3 = p.p->length ? _fmpz_poly_positive_root_upper_bound_2exp_local_max(p.p->coeffs, p.p->length) : r;
        auto j = [](slong x) { return x == WORD_MIN ? string("[]") : "[" + std::to_string(x) + "]"; };
        return jl({j(r), j(r2), j(r3)}); };
    OP("p_desc") { PZ p(T[1].v()); slong r = _fmpz_poly_descartes_bound_0_1(p.p->coeffs, p.p->length, T[2].n()); return r == WORD_MAX ? "-1" : std::to_string(r); };
    OP("p_iso") { PZ p(T[1].v()); slong n = fmpz_poly_degree(p.p) + 1, ne = 0, ni = 0;
        fmpq* ex = _fmpq_vec_init(n); fmpz* c = _fmpz_vec_init(n); vector<slong> k(n + 1, -77);
        for (slong i = 0; i < n; i++) { fmpz_set_str(c + i, OLD, 10); fmpq_set_si(ex + i, -7, 5); }
        bool zo = T.size() > 2;
        if (!zo) ne = ni = 9;
        if (zo) _fmpz_poly_isolate_real_roots_0_1_vca(ex, &ne, c, k.data(), &ni, p.p->coeffs, p.p->length); else fmpz_poly_isolate_real_roots(ex, &ne, c, k.data(), &ni, p.p);
        vector<string> e, v; for (slong i = 0; i < ne; i++) e.push_back("[" + jz(fmpq_numref(ex + i)) + "," + jz(fmpq_denref(ex + i)) + "]");
        for (slong i = 0; i < ni; i++) v.push_back("[" + jz(c + i) + "," + std::to_string(k[i]) + "]");
        string post = jpoly(p.p); _fmpq_vec_clear(ex, n); _fmpz_vec_clear(c, n);
        return "{\"ex\":" + jl(e) + ",\"iv\":" + jl(v) + ",\"post\":" + post + "}"; };
    OP("p_sqf") { PZ p(T[1].v()), q; fmpz_poly_squarefree_part(q.p, p.p); string s = jpoly(q.p); fmpz_poly_squarefree_part(p.p, p.p); return jl({s, jpoly(p.p)}); };
    OP("p_abs") { PZ p(T[1].v()), q; fmpz_poly_abs(q.p, p.p); string s = jpoly(q.p); fmpz_poly_abs(p.p, p.p); return jl({s, jpoly(p.p)}); };
    OP("p_at1") { PZ p(T[1].v()); Z z; fmpz_poly_evaluate_at_one(z.z, p.p->coeffs, p.p->length); return jz(z.z); };
    OP("p_scale") { PZ p(T[1].v()); Q a(T[2].num().q), b(T[3].num().q); _fmpz_poly_scale_0_1_fmpq(p.p->coeffs, p.p->length, a.q, b.q); return jvec(p.p->coeffs, p.p->length); };
    OP("p_uniq") { PQ p(T[1].v()); A b(T[2]); return std::to_string(fmpq_poly_check_unique_real_root(p.p, b.a, T[3].n())); };
    OP("p_newton") { PZ p(T[1].v()), d; fmpz_poly_derivative(d.p, p.p); A a(T[2]), r; int x = fmpz_poly_newton_step_arb(r.a, p.p, d.p, a.a, T[3].n());
        return "{\"ok\":" + std::to_string(x != 0) + ",\"b\":" + jball(r.a) + ",\"in\":" + jball(a.a) + "}"; };
    OP("p_bisect") { PZ p(T[1].v()); A a(T[2]), r; int x = fmpz_poly_bisection_step_arb(r.a, p.p, a.a, T[3].n());
        return "{\"ok\":" + std::to_string(x != 0) + ",\"b\":" + jball(r.a) + ",\"in\":" + jball(a.a) + "}"; };
    OP("p_steps") { // the same step again and again, as refining an embedding does, every other time in place; until it reports no progress
        PZ p(T[1].v()), d; fmpz_poly_derivative(d.p, p.p); A a(T[2]); std::vector<string> l;
        for (int i = 0; i < 40; i++) {
            A in, r; arb_set(in.a, a.a); bool alias = i % 2; arb_struct *o = alias ? a.a : r.a;
            int x = T[4].n() ? fmpz_poly_bisection_step_arb(o, p.p, a.a, T[3].n()) : fmpz_poly_newton_step_arb(o, p.p, d.p, a.a, T[3].n());
            l.push_back("{\"ok\":" + std::to_string(x != 0) + ",\"b\":" + jball(o) + ",\"in\":" + jball(in.a) + ",\"same\":" + std::to_string(alias || arb_equal(in.a, a.a)) + "}");
            if (!x) break;
            if (!alias) arb_set(a.a, r.a);
        }
        return jl(l); };
    OP("p_bisarf") { // bisection on the exact interval [l, r]
        PZ p(T[1].v()); A a(T[2]); AF l, r, t; arf_set_mag(t.a, arb_radref(a.a)); arf_sub(l.a, arb_midref(a.a), t.a, ARF_PREC_EXACT, ARF_RND_DOWN); arf_add(r.a, arb_midref(a.a), t.a, ARF_PREC_EXACT, ARF_RND_DOWN);
        auto sg = [&](arf_t x) { A y, v; arb_set_arf(y.a, x); { A w; arb_zero(v.a); for (slong i = p.p->length - 1; i >= 0; i--) { arb_mul(v.a, v.a, y.a, ARF_PREC_EXACT); arb_add_fmpz(v.a, v.a, p.p->coeffs + i, ARF_PREC_EXACT); } } return arf_sgn(arb_midref(v.a)); };
        int sl = sg(l.a), sr = sg(r.a); string m1, m2; long e1, e2;
        _fmpz_poly_bisection_step_arf(l.a, r.a, p.p->coeffs, p.p->length, sl, sr, T[3].n());
        if (!manexp(l.a, m1, e1) || !manexp(r.a, m2, e2)) return "[]";
        return "[\"" + m1 + "\"," + std::to_string(e1) + ",\"" + m2 + "\"," + std::to_string(e2) + "]"; };
    OP("p_eval") { // p_eval v:pol b:ball #prec
        auto v = T[1].v(); bool integral = true; for (auto& q : v) integral = integral && q.get_den() == 1;
        A a(T[2]), r, r2, r3; slong prec = T[3].n();
        PQ q(v); fmpq_poly_evaluate_arb(r.a, q.p, a.a, prec);
        vector<string> o{jball(r.a)};
        if (integral) { PZ p(v); fmpz_poly_evaluate_arb(r2.a, p.p, a.a, prec); o.push_back(jball(r2.a)); A c; arb_set(c.a, a.a); fmpz_poly_evaluate_arb(c.a, p.p, c.a, prec); o.push_back(jball(c.a)); }
        arb_set(r3.a, a.a); fmpq_poly_evaluate_arb(r3.a, q.p, r3.a, prec); o.push_back(jball(r3.a));
        return jl(o); };
    OP("p_evalf") { // value at the midpoint with arf arithmetic: with the result aside, aliased, as integer polynomial
        auto v = T[1].v(); A a(T[2]); slong prec = T[3].n(); vector<string> o; string m; long e;
        auto add = [&](arf_t x) { o.push_back(manexp(x, m, e) ? "[\"" + m + "\"," + std::to_string(e) + "]" : "[]"); };
        PQ q(v); { AF x; fmpq_poly_evaluate_arf(x.a, q.p, arb_midref(a.a), prec); add(x.a); } { AF x; arf_set(x.a, arb_midref(a.a)); fmpq_poly_evaluate_arf(x.a, q.p, x.a, prec); add(x.a); }
        bool integral = true; for (auto& c : v) integral = integral && c.get_den() == 1;
        if (integral) { PZ p(v); { AF x; fmpz_poly_evaluate_arf(x.a, p.p, arb_midref(a.a), prec); add(x.a); } { AF x; arf_set(x.a, arb_midref(a.a)); fmpz_poly_evaluate_arf(x.a, p.p, x.a, prec); add(x.a); } }
        return jl(o); };
    OP("p_cond") { PZ p(T[1].v()); A a(T[2]); slong c = 0; int r = fmpz_poly_relative_condition_number_2exp(&c, p.p, a.a, T[3].n()); return jl({std::to_string(r), std::to_string(c)}); };
    OP("p_str") { // p_str v:previous s:text s:var   both parsers into a target with previous content
        PQ p(T[1].v()); int e1 = fmpq_poly_set_str_pretty(p.p, T[2].s().c_str(), T[3].s().c_str());
        PZ z(T[1].v()); int e2 = fmpz_poly_set_str_pretty(z.p, T[2].s().c_str(), T[3].s().c_str());
        return "{\"e\":" + std::to_string(e1 != 0) + "," + jnd(p.p) + ",\"ez\":" + std::to_string(e2 != 0) + ",\"z\":" + jpoly(z.p) + "}"; };
}

// ---------------------------------------------------------------- domain of the interface
// Commands outside of the documented domain are not executed (event "skip").
static bool obj(const Tok& t) { return R[t.r()] && !movedout[t.r()]; }
static bool zero(const Tok& t) { if (!t.isr()) return t.num().q == 0; auto& x = *R[t.r()]; return nf_elem_is_zero(x.renf_elem_t()->elem, x.parent().renf_t()->nf); }
static bool rational(const Tok& t) { auto& x = *R[t.r()]; return nf_elem_is_rational(x.renf_elem_t()->elem, x.parent().renf_t()->nf); }
static bool integer(const Tok& t) { auto& x = *R[t.r()]; return nf_elem_is_integer(x.renf_elem_t()->elem, x.parent().renf_t()->nf); }
static ulong bits(const renf_elem_class& x) { // size of the exact representation
    PQ p; nf_elem_get_fmpq_poly(p.p, x.renf_elem_t()->elem, x.parent().renf_t()->nf);
    ulong n = fmpz_bits(fmpq_poly_denref(p.p)); for (slong i = 0; i < fmpq_poly_length(p.p); i++) n += fmpz_bits(fmpq_poly_numref(p.p) + i);
    return n;
}
static const std::set<string> t1{"new", "newd", "newn", "newq", "newv", "news", "newe", "newc", "newm", "zero", "one", "gen", "neg", "pos", "pow", "powf", "drop", "strrt"};
static const std::set<string> k1{"mk", "mks", "mkfun", "c_mk", "c_mkn", "nth", "share", "mkq", "mkh", "mkmv", "mkp", "mkcopy", "c_copy", "mkcon", "dropk", "frand"};
static const std::set<string> texts{"str", "strx", "c_str", "print", "strrt", "streamrt", "depr", "save", "vecrt", "aput"};
static bool parallel = false;
static bool in_domain(const string& op) {
    if (parallel && op == "print") return false; // the driver looks at what arrives in stdout
    if (op == "expect") return true;
    if (op == "load") { auto it = blobsig.find(T[1].n()); if (it == blobsig.end() || it->second != signature(T)) return false; }
    bool after = false;
    const renf_class* parent = nullptr; bool same = true, comparable = true; const renf_class* nonrat = nullptr;
    for (size_t i = 1; i < T.size(); i++) {
        if (T[i].raw == ":") after = true;
        if (T[i].isr()) {
            bool target = (i == 1 && t1.count(op)) || (i == 2 && op == "bin") || op == "read" || op == "load" || op == "rget" || (after && (op == "streamrt" || op == "vecrt"));
            bool exists = (i == 1 && (op == "asg" || op == "asgm" || op == "asgn")) || op == "swap" || op == "stdswap";
            if (exists) { if (!R[T[i].r()]) return false; }
            else if (!target) {
                if (!obj(T[i])) return false;
                if (bits(*R[T[i].r()]) > (texts.count(op) ? 4000 : 40000)) return false; // takes too long to check
                auto* p = &R[T[i].r()]->parent();
                if (parent && parent != p) same = false;
                parent = p;
                if (!rational(T[i])) { if (nonrat && nonrat != p) comparable = false; nonrat = p; }
            }
        } else if (T[i].isk()) {
            bool target = (i == 1 && k1.count(op)) || op == "embs" || op == "load" || op == "rget";
            if (!target && !K[T[i].k()]) return false;
        }
    }
    if (op == "refine" && K[T[1].k()]->renf_t()->immutable) return false;
    if (op == "aopen" && aout) return false;
    if ((op == "aput" || op == "aclose") && !aout) return false;
    if (op == "aopen" || op == "legacy" || op == "save") { if (ain && op == "legacy") return false; }
    if (op == "ropen" && (ain || !blobsig.count(T[1].n()) || blobsig[T[1].n()].rfind(T[2].raw, 0) != 0 || blobsig[T[1].n()] == T[2].raw || (aout && aoutblob == T[1].n()))) return false;
    if ((op == "load" || op == "legacy") && aout && aoutblob == T[1].n()) return false;
    if (op == "legacy" && (!blobsig.count(T[1].n()) || blobsig[T[1].n()].rfind("json", 0) != 0 || blobs[T[1].n()].find("cereal_class_version") != string::npos || blobs[T[1].n()].find("\"shared\"") != string::npos)) return false;
    if (op == "rclose" && !ain) return false;
    if (op == "frand") { // the helper only makes fields of degree at least two
        Rand r(T[2].n()); PZ p;
        do fmpz_poly_randtest_irreducible(p.p, r.s, T[3].n(), T[5].n()); while (fmpz_poly_degree(p.p) < 1 || fmpz_poly_num_real_roots(p.p) == 0);
        if (fmpz_poly_degree(p.p) < 2) return false;
    }
    if (op == "rget" && (!ain || ainat >= (long)ainsig.size() || ainsig[ainat] != (T[1].raw == "re" ? 'r' : T[1].raw == "kf" ? 'k' : T[1].raw[0]))) return false;
    if (op.rfind("c_", 0) == 0 && !same) return false;
    if ((op == "sort" || op == "uset") && !comparable) return false;
    if ((op == "streamrt") && !same) return false;
    if ((op == "bin" || op == "inp" || op == "c_bin" || op == "c_qbin") && T[1].raw == "/" && zero(T[T.size() - 1])) return false;
    if ((op == "c_inv" || op == "floordiv" || op == "c_fdiv") && zero(T[2])) return false;
    if ((op == "pow" || op == "powf") && T[3].n() < 0 && zero(T[2])) return false;
    if (op == "newv" && (long)T[4].v().size() > std::max(1L, (long)K[T[2].k()]->degree())) return false;
    if (op == "embs" && T[1].v().size() < 3) return false; // rational roots
    if (op == "tompz" && !integer(T[1])) return false;
    if ((op == "tompq" || op == "num") && !rational(T[1])) return false;
    if (op == "rot" || op == "sort") { std::set<string> u; for (size_t i = 1; i < T.size(); i++) if (!u.insert(T[i].raw).second) return false; }
    return true;
}

// ---------------------------------------------------------------- main loop
static int limit_ms = 0;
// executes the current command; false if it is out of the domain
static bool execute(string& ret, string& exc, const string& line) {
    auto it = ops.find(T[0].raw);
    if (it == ops.end()) { fprintf(stderr, "unknown command %s\n", line.c_str()); fflush(stderr); _exit(3); }
    if (!in_domain(T[0].raw)) return false;
    try { ret = it->second(); }
    catch (std::invalid_argument& e) { exc = "invalid_argument"; }
    catch (std::domain_error& e) { exc = "domain_error"; }
    catch (std::logic_error& e) { exc = "logic_error"; }
    catch (std::runtime_error& e) { if (strncmp(e.what(), "script:", 7) == 0) { fprintf(stderr, "%s in: %s\n", e.what(), line.c_str()); fflush(stderr); _exit(3); } exc = "runtime_error"; }
    catch (std::exception& e) { exc = "exception"; }
    return true;
}
static void tokens(const string& line) { T.clear(); std::istringstream is(line); string t; while (is >> t) T.push_back({t}); }
static int run(const char* script, const char* trace) {
    std::ifstream in(script);
    out = fopen(trace, "w");
    if (!in || !out) return 3;
    string line;
    vector<string> program; // since the last reset
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        tokens(line);
        string name = T[0].raw, ret = "0", exc;
        if (name == "leak") { // leak #n: start over, run this program n more times; bytes in use in between
            long n = T[1].n(), every = n / 4; vector<long> m; // goes on while it looks like a leak
            reset();
            for (long i = 1; i <= n || (i <= 10 * n && [&] { for (size_t j = 1; j < m.size(); j++) if (m[j] - m[j - 1] < 16 * every) return false; return true; }()); i++) {
                if (limit_ms) { itimerval tv{{0, 0}, {limit_ms / 1000, (limit_ms % 1000) * 1000}}; setitimer(ITIMER_REAL, &tv, nullptr); }
                for (auto& l : program) { string r, x; tokens(l); execute(r, x, l); }
                reset(); T.clear(); T.shrink_to_fit();
                if (i % every == 0) m.push_back(inuse.load());
            }
            tokens(line); program.clear();
            vector<string> w; for (long x : m) w.push_back(std::to_string(x / 16));
            ret = "{\"every\":" + std::to_string(n / 4) + ",\"use\":" + jl(w) + "}"; // in units of 16 bytes
            for (auto& l : lastR) l = ""; for (auto& l : lastK) l = "";
        }
        if (name == "reset") program.clear(); else program.push_back(line);
        vector<string> args; for (size_t i = 1; i < T.size(); i++) args.push_back(T[i].json());
        newf.clear(); fballs.clear();
        string ball;
        if (name == "mk" || name == "mks") { A b; int e = arb_set_str(b.a, T[4].s().c_str(), T[5].n()); ball = e ? "[\"bad\"]" : jball(b.a); }
        else if (name == "mkfun") { vector<string> w; slong pr = T.back().n(); for (size_t i = 4; i + 1 < T.size(); i++, pr *= 2) { A b; int e = arb_set_str(b.a, T[i].s().c_str(), pr); w.push_back(e ? "[\"bad\"]" : jball(b.a)); } ball = jl(w); }
        if (limit_ms) { itimerval tv{{0, 0}, {limit_ms / 1000, (limit_ms % 1000) * 1000}}; setitimer(ITIMER_REAL, &tv, nullptr); }
        if (name != "leak" && !execute(ret, exc, line)) name = "skip";
        // observe the state
        std::set<const renf_class*> used{&renf_class::make()};
        for (int i = 0; i < NR; i++) if (R[i] && !movedout[i]) used.insert(&R[i]->parent());
        for (int i = 0; i < NK; i++) if (K[i]) used.insert(K[i].get());
        for (auto p = ids.begin(); p != ids.end();) if (!used.count(p->first)) { lastball.erase(p->second); p = ids.erase(p); } else ++p;
        vector<string> ch, hch;
        for (auto* k : used) fid(*k);
        for (int i = 0; i < NR; i++) { string s = jreg(i); if (s != lastR[i]) { lastR[i] = s; ch.push_back("[" + std::to_string(i) + "," + s + "]"); } }
        for (int i = 0; i < NK; i++) { string s = K[i] ? std::to_string(fid(*K[i])) : "-2"; if (s != lastK[i]) { lastK[i] = s; hch.push_back("[" + std::to_string(i) + "," + s + "]"); } }
        for (auto& p : ids) { string b = jball(p.first->renf_t()->emb); if (b != lastball[p.second]) { lastball[p.second] = b; fballs.push_back("[" + std::to_string(p.second) + "," + b + "]"); } }
        if (limit_ms) { itimerval tv{{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &tv, nullptr); }
        fprintf(out, "{\"op\":%s,\"a\":%s,\"ret\":%s,\"exc\":%s,\"ch\":%s,\"hc\":%s,\"nf\":%s,\"fb\":%s,\"live\":%d,\"open\":%d,\"q\":%d%s}\n", jstr(name).c_str(), jl(args).c_str(), ret.c_str(), jstr(exc).c_str(),
            jl(ch).c_str(), jl(hch).c_str(), jl(newf).c_str(), jl(fballs).c_str(), live.count(), int(bool(aout)) + int(bool(ain)), fid(renf_class::make()), ball.empty() ? "" : (",\"ball\":" + ball).c_str());
        fflush(out);
    }
    fclose(out);
    reset();
    return 0;
}
// drv SCRIPT TRACE [LIMIT]           one program
// drv -p SCRIPT TRACE SCRIPT TRACE.. one thread each
// drv -s FIELDS SCRIPT TRACE SCRIPT TRACE.. one thread each; they share the fields made by the commands in FIELDS, made immutable
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    def_ops();
    renf_class::make(); // the rationals are always there
    if (string(argv[1]) == "-s") {
        std::ifstream in(argv[2]); string line;
        while (std::getline(in, line)) { tokens(line); string r, x; execute(r, x, line); if (!x.empty()) return 3; renf_set_immutable(K[0]->renf_t(), 1); shared.push_back(K[0]); K[0].reset(); }
        argv++; argc--;
    }
    if (string(argv[0]) == "-s" || string(argv[1]) == "-p") {
        parallel = true;
        null_parent(renf_elem_class(2)); // what the driver itself initializes once
        vector<std::thread> ts; std::atomic<int> bad{0}, ready{0}; int n = (argc - 2) / 2;
        for (int i = 0; i < n; i++) ts.emplace_back([&, i]() { ready++; while (ready < n) std::this_thread::yield(); if (run(argv[2 + 2 * i], argv[3 + 2 * i])) bad = 1; });
        for (auto& t : ts) t.join();
        shared.clear();
        return bad ? 3 : 0;
    }
    if (argc > 3) limit_ms = atoi(argv[3]); // per command, SIGALRM ends the process
    return run(argv[1], argv[2]);
}
