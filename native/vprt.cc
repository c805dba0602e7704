// Native runtime of the contract language: replays the values of a
// counterexample against the real code, and searches for failing inputs of an
// undischarged obligation by running the contract on many concrete inputs.
//   prog replay FILE
//   prog search CONTRACT SEED SECONDS OUT
#include <cinttypes>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <unistd.h>
#include <fcntl.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace {
struct Val { std::string name; uint64_t v; };
struct Arr { std::string name; size_t n, es; unsigned char* p; std::vector<unsigned char> first; };
struct Given { std::vector<uint64_t> v; size_t at = 0; };
struct GivenArr { std::vector<std::vector<unsigned char>> v; size_t at = 0; };

std::map<std::string, Given> given;
std::map<std::string, GivenArr> givenArr;
// what this run used, kept in plain memory so that a crash can dump it
Val* vals = nullptr;
size_t nvals = 0, cvals = 0;
std::vector<Arr>* arrs;
std::mt19937_64 rng;
jmp_buf skip;
const char* outfile = nullptr;
std::string contract;
const char* what = "the program crashed (sanitizer or signal)";
bool failed = false, inreplay = false, covered = false, started = false;
int style = 0;
unsigned long long runs = 0, skips = 0;

void dump()
{
    if (failed) return;
    failed = true;
    FILE* f = outfile ? fopen(outfile, "w") : nullptr;
    FILE* g = f ? f : stderr;
    fprintf(g, "contract %s\nfailure %s\n", contract.c_str(), what);
    for (size_t i = 0; i < nvals; i++) fprintf(g, "v %s %" PRIu64 "\n", vals[i].name.c_str(), vals[i].v);
    for (auto& a : *arrs) {
        fprintf(g, "a %s %zu %zu ", a.name.c_str(), a.n, a.es);
        for (unsigned char c : a.first) fprintf(g, "%02x", c);
        fprintf(g, "\n");
    }
    if (f) fclose(f);
}

void onsig(int s)
{
    if (s == SIGALRM) what = "the call did not come back within 20 s";
    dump();
    _exit(1);
}

void note(const char* n, uint64_t v)
{
    if (nvals == cvals) {
        cvals = cvals ? 2 * cvals : 64;
        Val* w = new Val[cvals];
        for (size_t i = 0; i < nvals; i++) w[i] = vals[i];
        delete[] vals;
        vals = w;
    }
    vals[nvals].name = n;
    vals[nvals++].v = v;
}

bool lookup(const char* n, uint64_t& v)
{
    auto it = given.find(n);
    if (it == given.end() || it->second.at >= it->second.v.size()) return false;
    v = it->second.v[it->second.at++];
    return true;
}

uint64_t draw(uint64_t lo, uint64_t hi)
{
    if (lo >= hi) return lo;
    uint64_t span = hi - lo;
    switch (rng() % 8) {
        case 0: return lo;
        case 1: return hi - rng() % (span < 3 ? span + 1 : 3);
        case 2: case 3: return lo + rng() % (span < 4 ? span + 1 : 4);
        case 4: case 5: return lo + rng() % (span < 20 ? span + 1 : 20);
        case 6: {
            int b = 0;
            while (b < 63 && (span >> (b + 1))) b++;
            uint64_t m = 1ull << (rng() % (b + 1));
            uint64_t r = m + rng() % m - rng() % 2;
            return lo + (r > span ? span : r);
        }
        default: return span == ~0ull ? rng() : lo + rng() % (span + 1);
    }
}

template<class F, class U> void fillFloat(unsigned char* p, size_t n, bool any)
{
    int m = rng() % 6;
    for (size_t i = 0; i < n; i++) {
        F f = 0;
        int k = m < 5 ? m : rng() % 5;
        switch (k) {
            case 0: f = F(int(rng() % 7) - 3); break;
            case 1: f = F((double(rng() % 20001) - 10000) / 10000); break;
            case 2: f = F((double(rng() % 20001) - 10000) * 1e3); break;
            case 3: f = F(-1.0 - double(rng() % 1000) / 7); break;
            case 4: f = F(0); break;
        }
        if (any && rng() % 2) {
            U u = U(rng());
            memcpy(&f, &u, sizeof f);
        }
        memcpy(p + i * sizeof f, &f, sizeof f);
    }
}
}  // namespace

extern "C" {
void vp_static_init() {}

uint64_t vp_u64(const char* n, uint64_t lo, uint64_t hi, uint64_t nat)
{
    uint64_t v;
    if (!lookup(n, v)) v = draw(lo, nat < lo ? lo : (nat < hi ? nat : hi));
    note(n, v);
    return v;
}
int64_t vp_i64(const char* n, int64_t lo, int64_t hi)
{
    uint64_t v;
    if (!lookup(n, v)) {
        if (lo < 0 && hi >= 0 && rng() % 2) {
            int64_t c = int64_t(rng() % 9) - 4;
            v = uint64_t(c < lo ? lo : c > hi ? hi : c);
        }
        else v = uint64_t(lo) + draw(0, uint64_t(hi) - uint64_t(lo));
    }
    note(n, v);
    return int64_t(v);
}
bool vp_bool(const char* n)
{
    uint64_t v;
    if (!lookup(n, v)) v = rng() & 1;
    note(n, v);
    return v & 1;
}
float vp_f32(const char* n)
{
    uint64_t v;
    if (!lookup(n, v)) {
        unsigned char b[4];
        fillFloat<float, uint32_t>(b, 1, true);
        uint32_t u;
        memcpy(&u, b, 4);
        v = u;
    }
    note(n, v);
    uint32_t u = uint32_t(v);
    float f;
    memcpy(&f, &u, 4);
    return f;
}
double vp_f64(const char* n)
{
    uint64_t v;
    if (!lookup(n, v)) {
        unsigned char b[8];
        fillFloat<double, uint64_t>(b, 1, true);
        memcpy(&v, b, 8);
    }
    note(n, v);
    double f;
    memcpy(&f, &v, 8);
    return f;
}
// kind 0: integers, 1: ordinary finite floats, 2: any float
static void* arr(const char* nm, size_t n, size_t es, int kind, bool ranged, int64_t lo, int64_t hi)
{
    unsigned char* p = static_cast<unsigned char*>(malloc(n * es ? n * es : 1));
    if (n * es > (1u << 28)) { free(p); longjmp(skip, 1); }
    auto it = givenArr.find(nm);
    bool done = false;
    size_t have = 0;
    if (it != givenArr.end() && it->second.at < it->second.v.size()) {
        auto& g = it->second.v[it->second.at++];
        have = g.size() < n * es ? g.size() : n * es;
        memcpy(p, g.data(), have);
        done = true;
    }
    if (!done || have < n * es) {
        unsigned char* q = p + have;
        size_t m = (n * es - have) / es;
        if (ranged) {
            int st = rng() % 3;
            for (size_t i = 0; i < m; i++) {
                int64_t v = int64_t(uint64_t(lo) + draw(0, uint64_t(hi) - uint64_t(lo)));
                if (st == 1) v = int64_t(uint64_t(lo) + rng() % (uint64_t(hi) - uint64_t(lo) < 5 ? uint64_t(hi) - uint64_t(lo) + 1 : 5));
                memcpy(q + i * es, &v, es);
            }
        }
        else if (kind == 0) {
            int st = rng() % 4;
            for (size_t i = 0; i < m; i++) {
                uint64_t v = rng();
                if (st == 1 || (st == 3 && rng() % 2)) v = rng() % 5;
                if (st == 2) v = draw(0, ~0ull);
                memcpy(q + i * es, &v, es);
            }
        }
        else if (es == 4) fillFloat<float, uint32_t>(q, m, kind == 2);
        else fillFloat<double, uint64_t>(q, m, kind == 2);
    }
    Arr a{nm, n, es, p, {}};
    a.first.assign(p, p + n * es);
    arrs->push_back(a);
    return p;
}
void* vp_array(const char* nm, size_t n, size_t es, int kind) { return arr(nm, n, es, kind, false, 0, 0); }
void* vp_array_r(const char* nm, size_t n, size_t es, int64_t lo, int64_t hi) { return arr(nm, n, es, 0, true, lo, hi); }
void* vp_array_inj(const char* nm, size_t n, size_t es, int64_t lo, int64_t hi)
{
    const uint64_t span = uint64_t(hi) - uint64_t(lo) + 1;
    if (n > span && span != 0) longjmp(skip, 1);
    size_t* p = static_cast<size_t*>(arr(nm, n, es, 0, true, lo, hi));
    std::map<size_t, bool> seen;
    for (size_t i = 0; i < n; i++) {
        while (seen.count(p[i])) p[i] = size_t(lo) + (p[i] - size_t(lo) + 1) % span;
        seen[p[i]] = true;
    }
    arrs->back().first.assign((unsigned char*)p, (unsigned char*)(p + n));
    return p;
}
size_t vp_index_of(const void* a, size_t v)
{
    for (auto& x : *arrs)
        if (x.p == a)
            for (size_t i = 0; i < x.n; i++)
                if (static_cast<const size_t*>(a)[i] == v) return i;
    return ~size_t(0);
}
void vp_assume(bool c) { if (!c) longjmp(skip, 1); }
void vp_check(bool c, const char* id)
{
    if (c) return;
    static std::string w;
    w = std::string("postcondition: ") + id;
    what = w.c_str();
    dump();
    fprintf(stderr, "FAILED %s\n", what);
    _exit(1);
}
void vp_cover(const char*) { covered = true; }
bool vp_symbolic(void) { return false; }
size_t vp_pick(const char* n, size_t m)
{
    if (m == 0) longjmp(skip, 1);
    uint64_t v;
    if (!lookup(n, v)) v = rng() % m;
    note(n, v);
    return v;
}
size_t vp_case(const char* n, size_t m) { return vp_pick(n, m); }
void vp_hint(size_t) {}
size_t vp_fa_begin(const char*, size_t) { return 0; }
size_t vp_fa_end(size_t, size_t n) { return n; }
size_t vp_fa_next(size_t j, size_t) { return j + 1; }
}

static int runOnce(void (*f)())
{
    nvals = 0;
    for (auto& a : *arrs) free(a.p);
    arrs->clear();
    for (auto& g : given) g.second.at = 0;
    for (auto& g : givenArr) g.second.at = 0;
    alarm(20);
    runs++;
    if (setjmp(skip)) { skips++; alarm(0); return 2; }
    try { f(); }
    catch (std::bad_alloc&) { skips++; }
    catch (std::exception& e) {
        static std::string w;
        w = std::string("exception: ") + e.what();
        what = w.c_str();
        dump();
        _exit(1);
    }
    catch (...) { what = "exception"; dump(); _exit(1); }
    alarm(0);
    return 0;
}

int main(int argc, char** argv)
{
    arrs = new std::vector<Arr>;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump);
    signal(SIGALRM, onsig);
    signal(SIGABRT, onsig);
    signal(SIGFPE, onsig);
    if (argc == 6 && !strcmp(argv[1], "search")) {
        contract = argv[2];
        void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, ("contract_" + contract).c_str());
        if (!f) { fprintf(stderr, "no contract\n"); return 3; }
        uint64_t seed = strtoull(argv[3], 0, 10);
        double lim = atof(argv[4]);
        outfile = argv[5];
        time_t t0 = time(0);
        for (uint64_t i = 0; difftime(time(0), t0) < lim; i++) {
            rng.seed(seed * 1000003 + i);
            runOnce(f);
            if (runs > 200 && runs == skips && difftime(time(0), t0) > 5 && runs > 20000) break;
        }
        printf("runs %llu skipped %llu\n", runs, skips);
        return 0;
    }
    if (argc == 3 && !strcmp(argv[1], "replay")) {
        FILE* f = fopen(argv[2], "r");
        if (!f) return 3;
        char* line = nullptr;
        size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            char a[256];
            if (sscanf(line, "contract %255s", a) == 1) contract = a;
            else if (line[0] == 'v' && line[1] == ' ') {
                uint64_t v;
                if (sscanf(line, "v %255s %" SCNu64, a, &v) == 2) given[a].v.push_back(v);
            }
            else if (line[0] == 'a' && line[1] == ' ') {
                size_t n, es;
                int pos = 0;
                if (sscanf(line, "a %255s %zu %zu %n", a, &n, &es, &pos) >= 3) {
                    std::vector<unsigned char> b;
                    for (char* p = line + pos; p[0] && p[1] && p[0] != '\n'; p += 2) {
                        unsigned x;
                        if (sscanf(p, "%2x", &x) != 1) break;
                        b.push_back((unsigned char)x);
                    }
                    givenArr[a].v.push_back(b);
                }
            }
        }
        fclose(f);
        void (*g)() = (void (*)())dlsym(RTLD_DEFAULT, ("contract_" + contract).c_str());
        if (!g) { fprintf(stderr, "no contract %s\n", contract.c_str()); return 3; }
        rng.seed(1);
        int r = runOnce(g);
        printf(r == 2 ? "the precondition does not hold for these values\n" : "the contract holds for these values\n");
        return r == 2 ? 2 : 0;
    }
    return 3;
}
