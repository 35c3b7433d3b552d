// C17: random nestings of try/throw/rethrow with the real macros against a model.
#include "common.hpp"
extern "C" {
#include <try_catch.h>
}
struct Node { int kind; int code; int msg; int kids[4]; int nk; int hk[4]; int nh; };   // POD: survives longjmp
static Node T[4096]; static int nT;
static char text[8][3000];
static long ev[100000]; static int nev; static void mark(long x) { if (nev < 100000) ev[nev++] = x; }
// kinds: 0 mark, 1 throw, 2 throw_msg, 3 try block, 4 try with rethrow, 5 call, 6 try nothrow, 7 clear
static __attribute__((noinline)) void run(int n);
static void kids(int n) { for (int i = 0; i < T[n].nk; i++) run(T[n].kids[i]); }
static void handler(int n) { for (int i = 0; i < T[n].nh; i++) run(T[n].hk[i]); }
static uint32_t hash(const char* s) { uint32_t h = 5381; for (; *s; s++) h = h * 33 + (uint8_t)*s; return h & 0xffffff; }
static void seen() { mark(10000000000L + getExceptionCode()); mark(20000000000L + hash(getExceptionMessage())); CHECK(memchr(g_exceptionMessage, 0, sizeof g_exceptionMessage), "the message is not terminated"); }
static __attribute__((noinline)) void nothrow(int n) { __try kids(n); __catch { seen(); __nothrow; } mark(-7); }
static __attribute__((noinline)) void run(int n) {
    mark(n);
    switch (T[n].kind) {
    case 0: break;
    case 1: __throw(T[n].code); break;
    case 2: __throw_msg(T[n].code, "%s", text[T[n].msg]); break;
    case 3: { ExceptionHandler* volatile h = g_pExceptionHandlers; volatile int v = n;
              __try { kids(n); } __catch { seen(); CHECK(g_pExceptionHandlers == h, "the chain in the handler is not the one before the block"); handler(v); }
              CHECK(g_pExceptionHandlers == h, "the chain after the block is not the one before it"); mark(-1); break; }
    case 4: { ExceptionHandler* volatile h = g_pExceptionHandlers; volatile int v = n;
              __try kids(n); __catch { seen(); CHECK(g_pExceptionHandlers == h, "the chain in the handler is not the one before the block"); handler(v); if (getExceptionCode()) __rethrow; }
              CHECK(g_pExceptionHandlers == h, "the chain after the block is not the one before it"); mark(-2); break; }
    case 5: kids(n); mark(-3); break;
    case 6: nothrow(n); break;
    case 7: clearExceptionCode(); break;
    }
}
// model
struct Thr {};
static std::vector<long> want; static int mcode; static std::string mmsg;
static void m(int n);
static void mk(int n) { for (int i = 0; i < T[n].nk; i++) m(T[n].kids[i]); }
static void mh(int n) { for (int i = 0; i < T[n].nh; i++) m(T[n].hk[i]); }
static void mseen() { want.push_back(10000000000L + mcode); want.push_back(20000000000L + hash(mmsg.c_str())); }
static bool mtry(int n) { mcode = 0; mmsg = ""; try { mk(n); } catch (Thr&) {} return mcode != 0; }
static void m(int n) {
    want.push_back(n);
    switch (T[n].kind) {
    case 1: mcode = std::max(mcode, T[n].code); throw Thr();
    case 2: mmsg = std::string(text[T[n].msg]).substr(0, sizeof g_exceptionMessage - 1); mcode = std::max(mcode, T[n].code); throw Thr();
    case 3: if (mtry(n)) { mseen(); mh(n); } want.push_back(-1); break;
    case 4: if (mtry(n)) { mseen(); mh(n); if (mcode) throw Thr(); } want.push_back(-2); break;
    case 5: mk(n); want.push_back(-3); break;
    case 6: if (mtry(n)) { mseen(); mcode = 0; return; } want.push_back(-7); break;
    case 7: mcode = 0; break;
    }
}
static int gen(Rng& r, int d) {
    int n = nT++; Node& t = T[n];
    uint32_t k = r.below(16);
    t.kind = d == 0 || nT > 300 ? (k < 10 ? 0 : k < 13 ? 1 : 2) : k < 2 ? 0 : k < 4 ? 1 : k < 6 ? 2 : k < 10 ? 3 : k < 12 ? 4 : k < 14 ? 5 : k < 15 ? 6 : 7;
    t.code = r.chance(1, 10) ? r.range(1, 0x7fffffff) : r.range(1, 30); t.msg = r.below(8); t.nk = t.nh = 0;
    if (t.kind >= 3 && t.kind <= 6) {
        int a = r.range(0, 4), b = r.below(3);
        int kd[4], hd[4];
        for (int i = 0; i < a; i++) kd[i] = gen(r, d - 1);
        for (int i = 0; i < b; i++) hd[i] = gen(r, d - 1);
        memcpy(T[n].kids, kd, sizeof kd); memcpy(T[n].hk, hd, sizeof hd); T[n].nk = a; T[n].nh = b;
    }
    return n;
}
static void show(int n, int d) {
    static const char* K[] = {"-", "throw", "throw_msg", "try", "try/rethrow", "call", "try/nothrow", "clear"};
    note("%*s%d %s %d", d * 2, "", n, K[T[n].kind], T[n].kind == 1 || T[n].kind == 2 ? T[n].code : 0);
    for (int i = 0; i < T[n].nk; i++) show(T[n].kids[i], d + 1);
    if (T[n].nh) { note("%*scatch", d * 2, ""); for (int i = 0; i < T[n].nh; i++) show(T[n].hk[i], d + 1); }
}
void one_case(Rng& r) {
    nT = 0; nev = 0; want.clear(); mcode = 0; mmsg = "";
    for (auto& t : text) { int n = r.chance(1, 3) ? r.range(1015, 1035) : r.chance(1, 4) ? r.range(0, 2990) : r.range(0, 40); for (int i = 0; i < n; i++) t[i] = r.range(1, 255); t[n] = 0; }
    int root = gen(r, 6); T[root].kind = 3;
    show(root, 0);
    g_pExceptionHandlers = 0; clearExceptionCode();
    static volatile bool esc; esc = false;
    static int rt; rt = root;
    __try { run(rt); } __catch { esc = true; }
    CHECK(g_pExceptionHandlers == 0, "the chain is not empty at the end");
    bool me = false; try { m(root); } catch (Thr&) { me = true; }
    CHECK((getExceptionCode() != 0) == (me || mcode != 0), "the last exception reaches the outermost handler");
    CHECK(nev == (int)want.size() && std::equal(want.begin(), want.end(), ev), "the blocks, codes and messages seen differ from the expected ones (%d, %zu)", nev, want.size());
}
int main(int argc, char** argv) { return driver_main(argc, argv); }
