// C19, C20, C21: histories over the mocks against an executable model.
#include "common.hpp"
#include <deque>
extern "C" {
extern void* (*hook_malloc)(size_t);
extern void* (*hook_realloc)(void*, size_t);
extern void (*hook_free)(void*);
void MallocFailureInject_FailAllocation(unsigned int);
void MallocFailureInject_Restore(void);
extern int (*hook_printf)(const char*, ...);
extern int (*hook_fprintf)(FILE*, const char*, ...);
void printfSpy_Hook(size_t); void printfSpy_Unhook(void);
const char* printfSpy_GetLastOutput(void); const char* printfSpy_GetPreviousOutput(void); const char* printfSpy_GetNthOutput(size_t);
const char* printfSpy_GetLastErrorOutput(void); const char* printfSpy_GetPreviousErrorOutput(void); const char* printfSpy_GetNthErrorOutput(size_t);
size_t printfSpy_GetCallCount(void);
extern FILE* (*hook_fopen)(const char*, const char*); extern int (*hook_fclose)(FILE*); extern int (*hook_fseek)(FILE*, long, int);
extern long (*hook_ftell)(FILE*); extern size_t (*hook_fwrite)(const void*, size_t, size_t, FILE*); extern size_t (*hook_fread)(void*, size_t, size_t, FILE*);
extern char* (*hook_fgets)(char*, int, FILE*);
void fopenSetReturn(FILE*); void fopenRestore(void); void fcloseIgnore(void); void fcloseRestore(void); void fseekSetReturn(int);
void fseekSetCallsBeforeFailure(int); void fseekRestore(void); void ftellFail(long); void ftellRestore(void); void fwriteFail(size_t);
void fwriteRestore(void); void freadFail(size_t); void freadToFail(int); void freadRestore(void); void fgetsSetData(const char**, size_t); void fgetsRestore(void);

// the real functions as the mocks see them: recorded
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
struct Ev { int fn; uint64_t a, b, c, d, ret; };
static Ev ev[64]; static int nev; static std::set<void*>* live; static bool spyMode;
static void rec(int fn, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t r) { if (nev < 64) ev[nev] = {fn, a, b, c, d, r}; nev++; }
static int depth;   // >0: inside a hooked call
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (depth) { rec(1, n, 0, 0, 0, (uint64_t)p); if (live) { depth--; live->insert(p); depth++; } } return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (depth) rec(2, (uint64_t)q, n, 0, 0, (uint64_t)p); return p; }
void __wrap_free(void* q) { if (depth) { rec(3, (uint64_t)q, 0, 0, 0, 0); if (live && q) { depth--; CHECK(live->erase(q), "a block is released that is not live"); depth++; } } __real_free(q); }
// file functions: scripted results instead of real files
static uint64_t nextret;
FILE* __wrap_fopen(const char* a, const char* b) { rec(11, (uint64_t)a, (uint64_t)b, 0, 0, nextret); return (FILE*)nextret; }
int __wrap_fclose(FILE* f) { rec(12, (uint64_t)f, 0, 0, 0, (int)nextret); return (int)nextret; }
int __wrap_fseek(FILE* f, long o, int w) { rec(13, (uint64_t)f, o, w, 0, (int)nextret); return (int)nextret; }
long __wrap_ftell(FILE* f) { rec(14, (uint64_t)f, 0, 0, 0, nextret); return (long)nextret; }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { rec(15, (uint64_t)p, s, n, (uint64_t)f, nextret); return nextret; }
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) { rec(16, (uint64_t)p, s, n, (uint64_t)f, nextret); return nextret; }
char* __wrap_fgets(char* b, int n, FILE* f) { rec(17, (uint64_t)b, n, (uint64_t)f, 0, nextret); return (char*)nextret; }
int __wrap_printf(const char* f, ...) { rec(21, (uint64_t)f, 0, 0, 0, 0); return 7; }
int __wrap_fprintf(FILE* o, const char* f, ...) { rec(22, (uint64_t)o, (uint64_t)f, 0, 0, 0); return 8; }
}
#define HOOKED(x) ([&] { nev = 0; depth++; auto v_ = x; depth--; return v_; }())
#define HOOKEDV(x) do { nev = 0; depth++; x; depth--; } while (0)

static void c19(Rng& r) {
    MallocFailureInject_Restore();
    unsigned cnt = 0; bool armed = false;
    std::vector<void*> blocks;
    int steps = r.range(1, 60);
    for (int i = 0; i < steps; i++) {
        uint32_t k = r.below(10);
        if (k == 0) { unsigned n = r.chance(1, 6) ? 0 : r.chance(1, 10) ? r.u32() : r.range(1, 12); note("FailAllocation(%u)", n); MallocFailureInject_FailAllocation(n); cnt = n; armed = true; }
        else if (k == 1) { note("Restore"); MallocFailureInject_Restore(); cnt = 0; armed = false; }
        else if (k <= 5 || blocks.empty()) {
            size_t n = r.chance(1, 20) ? 0 : r.range(1, 200);
            void* p = HOOKED(hook_malloc(n)); bool f = armed && cnt == 1; if (armed && cnt) cnt--;
            note("malloc(%zu) -> %p", n, p);
            if (f) CHECK(!p && nev == 0, "the requested allocation does not fail (malloc)");
            else { CHECK(p && nev == 1 && ev[0].fn == 1 && ev[0].a == n && ev[0].ret == (uint64_t)p, "malloc is not forwarded unchanged"); memset(p, 1, n); blocks.push_back(p); }
        } else if (k <= 8) {
            size_t j = r.below(blocks.size()); size_t n = r.chance(1, 8) ? 0 : r.range(1, 300); bool nul = r.chance(1, 5); void* q = nul ? 0 : blocks[j];
            void* p = HOOKED(hook_realloc(q, n)); bool f = armed && cnt == 1; if (armed && cnt) cnt--;
            note("realloc(%p, %zu) -> %p", q, n, p);
            if (f) CHECK(!p && nev == 0, "the requested allocation does not fail (realloc)");
            else { CHECK((p || !n) && nev == 1 && ev[0].fn == 2 && ev[0].a == (uint64_t)q && ev[0].b == n && ev[0].ret == (uint64_t)p, "realloc is not forwarded unchanged"); if (nul) { if (p) blocks.push_back(p); } else if (p) blocks[j] = p; else blocks.erase(blocks.begin() + j); }
        } else {
            size_t j = r.below(blocks.size()); void* q = r.chance(1, 8) ? 0 : blocks[j]; note("free(%p)", q);
            HOOKEDV(hook_free(q)); CHECK(nev == 1 && ev[0].fn == 3 && ev[0].a == (uint64_t)q, "free is not forwarded unchanged");
            if (q) blocks.erase(blocks.begin() + j);
        }
    }
    MallocFailureInject_Restore();
    for (void* b : blocks) hook_free(b);
}

static void eqs(const char* got, bool has, const std::string& want, const char* what, int n) {
    if (!has) { CHECK(!got, "%s %d: output recorded where none was captured", what, n); return; }
    CHECK(got, "%s %d: output lost", what, n);
    CHECK(strlen(got) == want.size() && want == got, "%s %d: got \"%s\" want \"%s\"", what, n, got, want.c_str());
}
static void c20(Rng& r) {
    static std::set<void*> lv; live = &lv; lv.clear();
    HOOKEDV(printfSpy_Unhook());
    struct Slot { bool has[2]; std::string t[2]; };
    bool hooked = false; size_t size = 0; size_t calls = 0; Slot ring[4]; int at = 0;
    auto reset = [&] { for (auto& s : ring) { s.has[0] = s.has[1] = false; } at = 0; };
    reset();
    bool everHooked = false;
    int steps = r.range(1, 30);
    for (int i = 0; i < steps; i++) {
        uint32_t k = r.below(12);
        if (k == 0 || !hooked && k < 6) { size = r.chance(1, 3) ? r.below(3) : r.below(40); note("Hook(%zu)", size); HOOKEDV(printfSpy_Hook(size)); hooked = true; everHooked = true; calls = 0; reset();
            CHECK(lv.empty(), "Hook leaves a buffer of the previous session"); }
        else if (k == 1) { note("Unhook"); HOOKEDV(printfSpy_Unhook()); hooked = false; reset(); CHECK(lv.empty(), "Unhook leaks a buffer"); }
        else {
            int err = r.below(2); bool viap = !err && r.chance(1, 2);
            std::string s; int n = r.below(r.chance(1, 4) ? 60 : 10); for (int j = 0; j < n; j++) s += (char)r.range(1, 255);
            int num = (int)r.u32(); std::string full = strf("%s|%d", s.c_str(), num);
            if (r.chance(1, 4)) { full = s; }
            bool plain = full == s;
            note("%s(%s, %d chars)", viap ? "printf" : "fprintf", err ? "stderr" : "stdout", (int)full.size());
            int v;
            if (viap) v = HOOKED(plain ? hook_printf("%s", s.c_str()) : hook_printf("%s|%d", s.c_str(), num));
            else v = HOOKED(plain ? hook_fprintf(err ? stderr : stdout, "%s", s.c_str()) : hook_fprintf(err ? stderr : stdout, "%s|%d", s.c_str(), num));
            if (!hooked) { CHECK(nev == 1 && ev[0].fn == (viap ? 21 : 22) && v == (viap ? 7 : 8), "an unhooked call does not reach the real function"); }
            else {
                for (int e = 0; e < nev && e < 64; e++) CHECK(ev[e].fn < 20, "a captured call prints");
                CHECK(v == (int)full.size(), "returned %d, full length is %d", v, (int)full.size());
                ring[at].has[err] = true; ring[at].t[err] = full.substr(0, std::min(full.size(), size)); at = (at + 1) % 4; calls++;
            }
        }
        if (everHooked) CHECK(printfSpy_GetCallCount() == calls, "call counter is %zu, expected %zu", printfSpy_GetCallCount(), calls);
        for (int n = 1; n <= 4; n++) {
            Slot& s = ring[(at + 8 - n) % 4];
            eqs(printfSpy_GetNthOutput(n), s.has[0], s.t[0], "output", n);
            eqs(printfSpy_GetNthErrorOutput(n), s.has[1], s.t[1], "error output", n);
        }
        Slot& s1 = ring[(at + 7) % 4]; Slot& s2 = ring[(at + 6) % 4];
        eqs(printfSpy_GetLastOutput(), s1.has[0], s1.t[0], "last output", 1); eqs(printfSpy_GetPreviousOutput(), s2.has[0], s2.t[0], "previous output", 2);
        eqs(printfSpy_GetLastErrorOutput(), s1.has[1], s1.t[1], "last error output", 1); eqs(printfSpy_GetPreviousErrorOutput(), s2.has[1], s2.t[1], "previous error output", 2);
    }
    HOOKEDV(printfSpy_Unhook());
    CHECK(lv.empty(), "Unhook leaks a buffer");
    live = 0;
}

static void c21(Rng& r) {
    fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
    fseekSetCallsBeforeFailure(0);
    bool aop = 0, acl = 0, ase = 0, ate = 0, awr = 0, ard = 0, age = 0;
    FILE* vop = 0; int vse = 0; int pse = 0; long vte = 0; size_t vwr = 0, vrd = 0; int nrd = 0;
    std::vector<std::string> lines; std::vector<const char*> pl; size_t cur = 0;
    int steps = r.range(1, 60);
    for (int i = 0; i < steps; i++) {
        nextret = r.chance(1, 4) ? r.u64() : r.below(5);
        uint32_t k = r.below(40);
        FILE* f = (FILE*)r.u64();
        switch (k) {
        case 0: vop = (FILE*)(r.chance(1, 2) ? 0 : r.u64()); note("fopenSetReturn(%p)", (void*)vop); fopenSetReturn(vop); aop = true; break;
        case 1: note("fopenRestore"); fopenRestore(); aop = false; break;
        case 2: note("fcloseIgnore"); fcloseIgnore(); acl = true; break;
        case 3: note("fcloseRestore"); fcloseRestore(); acl = false; break;
        case 4: case 5: vse = (int)r.u32(); note("fseekSetReturn(%d)", vse); fseekSetReturn(vse); ase = true; break;
        case 6: case 7: pse = r.chance(1, 6) ? -(int)r.below(5) : r.below(5); note("fseekSetCallsBeforeFailure(%d)", pse); fseekSetCallsBeforeFailure(pse); break;
        case 8: note("fseekRestore"); fseekRestore(); ase = false; break;
        case 9: vte = (long)r.u64(); note("ftellFail(%ld)", vte); ftellFail(vte); ate = true; break;
        case 10: note("ftellRestore"); ftellRestore(); ate = false; break;
        case 11: vwr = r.u64(); note("fwriteFail(%zu)", vwr); fwriteFail(vwr); awr = true; break;
        case 12: note("fwriteRestore"); fwriteRestore(); awr = false; break;
        case 13: case 14: vrd = r.u64(); note("freadFail(%zu)", vrd); freadFail(vrd); ard = true; nrd = -1; break;
        case 15: case 16: nrd = r.range(1, 5); note("freadToFail(%d)", nrd); freadToFail(nrd); break;
        case 17: note("freadRestore"); freadRestore(); ard = false; nrd = 0; break;
        case 18: {
            lines.clear(); pl.clear(); int n = r.below(5); for (int j = 0; j < n; j++) { std::string s; int m = r.below(20); for (int q = 0; q < m; q++) s += (char)r.range(1, 255); lines.push_back(s); }
            for (auto& s : lines) pl.push_back(s.c_str()); pl.push_back(0);
            note("fgetsSetData(%d lines)", n); fgetsSetData(pl.data(), n); age = true; cur = 0; break; }
        case 19: note("fgetsRestore"); fgetsRestore(); age = false; break;
        case 20: case 21: { const char* a = (const char*)r.u64(); const char* b = (const char*)r.u64(); note("fopen"); FILE* v = HOOKED(hook_fopen(a, b));
            if (aop) CHECK(v == vop && nev == 0, "armed fopen"); else CHECK(nev == 1 && ev[0].fn == 11 && ev[0].a == (uint64_t)a && ev[0].b == (uint64_t)b && v == (FILE*)nextret, "fopen is not forwarded unchanged"); break; }
        case 22: case 23: { note("fclose"); int v = HOOKED(hook_fclose(f));
            if (acl) CHECK(v == 0 && nev == 0, "ignored fclose"); else CHECK(nev == 1 && ev[0].fn == 12 && ev[0].a == (uint64_t)f && v == (int)nextret, "fclose is not forwarded unchanged"); break; }
        case 24: case 25: case 26: { long o = (long)r.u64(); int w = (int)r.u32(); note("fseek"); int v = HOOKED(hook_fseek(f, o, w));
            bool pass = !ase || pse > 0; if (ase && pse > 0) pse--;
            if (!pass) CHECK(v == vse && nev == 0, "armed fseek returned %d, configured %d", v, vse);
            else CHECK(nev == 1 && ev[0].fn == 13 && ev[0].a == (uint64_t)f && ev[0].b == (uint64_t)o && ev[0].c == (uint64_t)w && v == (int)nextret, "fseek is not forwarded unchanged"); break; }
        case 27: case 28: { note("ftell"); long v = HOOKED(hook_ftell(f)); if (ate) CHECK(v == vte && nev == 0, "armed ftell"); else CHECK(nev == 1 && ev[0].fn == 14 && ev[0].a == (uint64_t)f && v == (long)nextret, "ftell is not forwarded unchanged"); break; }
        case 29: case 30: { void* p = (void*)r.u64(); size_t s = r.u64(), n = r.u64(); note("fwrite"); size_t v = HOOKED(hook_fwrite(p, s, n, f));
            if (awr) CHECK(v == vwr && nev == 0, "armed fwrite"); else CHECK(nev == 1 && ev[0].fn == 15 && ev[0].a == (uint64_t)p && ev[0].b == s && ev[0].c == n && ev[0].d == (uint64_t)f && v == nextret, "fwrite is not forwarded unchanged"); break; }
        case 31: case 32: case 33: case 34: { void* p = (void*)r.u64(); size_t s = r.u64(), n = r.u64(); note("fread"); size_t v = HOOKED(hook_fread(p, s, n, f));
            bool fl = ard && (nrd == -1 || nrd == 1 || nrd == 0); if (ard && nrd > 0 && --nrd == 0) ard = false;
            if (fl) CHECK(v == vrd && nev == 0, "armed fread"); else CHECK(nev == 1 && ev[0].fn == 16 && ev[0].a == (uint64_t)p && ev[0].b == s && ev[0].c == n && ev[0].d == (uint64_t)f && v == nextret, "fread is not forwarded unchanged"); break; }
        default: {
            int n = r.range(1, 24); std::vector<char> b(n, 'x'); note("fgets(%d)", n);
            char* v = HOOKED(hook_fgets(b.data(), n, f));
            if (!age) CHECK(nev == 1 && ev[0].fn == 17 && ev[0].a == (uint64_t)b.data() && ev[0].b == (uint64_t)n && ev[0].c == (uint64_t)f && v == (char*)nextret, "fgets is not forwarded unchanged");
            else if (cur >= lines.size()) { CHECK(!v && nev == 0, "end of file is not reported"); cur = 0; }
            else { std::string w = lines[cur++].substr(0, n - 1); CHECK(v == b.data() && nev == 0 && strlen(b.data()) == w.size() && w == b.data(), "scripted line: got \"%s\" want \"%s\"", v ? b.data() : "(null)", w.c_str()); }
        } }
    }
}
void one_case(Rng& r) { if (prop() == "C20") c20(r); else if (prop() == "C21") c21(r); else c19(r); }
int main(int c, char** v) { return driver_main(c, v); }
