// C08, C10, C11, C12, C13, C18: random files through the loaders and the real simulated memory, against independent decoders.
#include "heap.hpp"
#include <array>
#include <functional>
extern "C" {
#include <MemorySim.h>
#include <ElfLoad.h>
#include <CrashCatcherDump.h>
#include <GdbLogParser.h>
#include <CrashDebugCommandLine.h>
#include <mriPlatform.h>
#include <StandardIComm.h>
#include <try_catch.h>
extern FILE* (*hook_fopen)(const char*, const char*); extern int (*hook_fclose)(FILE*); extern int (*hook_fseek)(FILE*, long, int);
extern long (*hook_ftell)(FILE*); extern size_t (*hook_fread)(void*, size_t, size_t, FILE*); extern char* (*hook_fgets)(char*, int, FILE*); extern int (*hook_fprintf)(FILE*, const char*, ...);
}
#undef malloc
#undef realloc
#undef free
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fread
#undef fgets
#undef fwrite
typedef std::vector<uint8_t> Bytes;
static IMemory* M;
// ---- files
static std::set<FILE*> openFiles; static bool failOpen, failSeek; static int shortRead; static bool readFailed;
static FILE* d_fopen(const char* n, const char* m) { if (failOpen) return 0; FILE* f = fopen(n, m); if (f) openFiles.insert(f); return f; }
static int d_fclose(FILE* f) { if (!openFiles.erase(f)) { heapError = "a file is closed that is not open"; return -1; } return fclose(f); }
static int seekAt = 1;
static int d_fseek(FILE* f, long o, int w) { if (failSeek && --seekAt <= 0) return -1; return fseek(f, o, w); }
static size_t d_fread(void* p, size_t a, size_t b, FILE* f) {
    if (!openFiles.count(f)) { heapError = "a file is read that is not open"; return 0; }
    if (readFailed || (shortRead && !--shortRead)) { readFailed = true; return 0; }
    return fread(p, a, b, f);
}
static char* d_fgets(char* p, int n, FILE* f) {
    if (!openFiles.count(f)) { heapError = "a file is read that is not open"; return 0; }
    return fgets(p, n, f);
}
static void put_file(const char* n, const Bytes& b) { FILE* f = fopen(n, "wb"); if (b.size()) fwrite(b.data(), 1, b.size(), f); fclose(f); }
// ---- expected result
struct Reg { uint32_t base; Bytes d; bool ro; };
static std::vector<Reg> R;
static bool wraps(const Reg& r) { return (uint64_t)r.base + r.d.size() > 0x100000000ull; }
static bool clean() {
    for (size_t i = 0; i < R.size(); i++) {
        if (wraps(R[i])) return false;
        for (size_t j = 0; j < i; j++) if (R[i].d.size() && R[j].d.size() && R[i].base < R[j].base + (uint64_t)R[j].d.size() && R[j].base < R[i].base + (uint64_t)R[i].d.size()) return false;
    }
    return true;
}
static volatile uint32_t res; static const char* volatile xmlp;
template <class F> static int guarded(F f) {
    static ExceptionHandler* h0; h0 = g_pExceptionHandlers;
    volatile int code = 0;
    clearExceptionCode();
    __try { f(); } __catch { code = getExceptionCode(); }
    clearExceptionCode();
    if (g_pExceptionHandlers != h0) { g_pExceptionHandlers = h0; CHECKT("C13", false, "the handler chain changes"); }
    return code;
}
static void check_files(const char* what) {
    CHECKT("C13", heapError.empty(), "%s: %s", what, heapError.c_str());
    CHECKT("C13", openFiles.empty(), "%s leaves a file open", what);
}
static void check_memory(const char* tags, const char* what) {
    std::string want = "<?xml version=\"1.0\"?><!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\"><memory-map>", list, got;
    for (auto& r : R) want += strf("<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\"%s", r.ro ? "flash" : "ram", r.base, (uint32_t)r.d.size(), r.ro ? "><property name=\"blocksize\">1</property></memory>" : "/>"), list += strf(" %s 0x%X+0x%X", r.ro ? "flash" : "ram", r.base, (uint32_t)r.d.size());
    int c = guarded([] { xmlp = MemorySim_GetMemoryMapXML(M); });
    CHECKT(tags, !c, "%s: no memory map (%d)", what, c);
    // the element list, independent of blanks and of the fixed texts
    std::string x = xmlp; size_t p = 0;
    while ((p = x.find("<memory type=\"", p)) != std::string::npos) {
        char ty[16]; unsigned s, n;
        if (sscanf(x.c_str() + p, "<memory type=\"%15[^\"]\" start=\"0x%x\" length=\"0x%x\"", ty, &s, &n) != 3) break;
        got += strf(" %s 0x%X+0x%X", ty, s, n); p++;
    }
    CHECKT(tags, got == list, "%s: regions are%s, expected%s", what, got.c_str(), list.c_str());
    for (auto& r : R) for (size_t i = 0; i < r.d.size(); i++) {
        uint32_t a = r.base + i;
        c = guarded([a] { res = IMemory_Read8(M, a); });
        CHECKT(tags, !c && res == r.d[i], "%s: byte 0x%X is 0x%02X (code %d), expected 0x%02X", what, a, res, c, r.d[i]);
    }
    if (R.size()) {
        auto& r = R[0];
        uint32_t a = r.base;
        if (r.d.size()) { c = guarded([a, &r] { IMemory_Write8(M, a, r.d[0]); }); CHECKT(tags, r.ro ? c == busErrorException : c == 0, "%s: writing 0x%X gives %d", what, a, c); }
    }
}
static std::vector<Reg> pre;
static void begin(Rng& r) {
    heap_begin(); R.clear(); seekAt = 1; openFiles.clear(); failOpen = failSeek = readFailed = false; shortRead = 0;
    hook_fopen = d_fopen; hook_fclose = d_fclose; hook_fseek = d_fseek; hook_fread = d_fread; hook_fgets = d_fgets;
    g_pExceptionHandlers = 0;
    M = MemorySim_Init();
    if (r.chance(1, 3)) { uint32_t b = 0xE0000000u + 16 * r.below(16); uint32_t n = r.below(40); if (!guarded([=] { MemorySim_CreateRegion(M, b, n); })) R.push_back(Reg{b, Bytes(n), false}); note("region 0x%X+0x%X exists", b, n); }
    pre = R;
}
static void finish() {
    failAt = 0;
    MemorySim_Uninit(M);
    CHECKT("C13", heapError.empty(), "%s", heapError.c_str());
    CHECKT("C13", live.empty(), "%zu blocks are still allocated at the end", live.size());
    for (FILE* f : openFiles) fclose(f);
    openFiles.clear();
}
static void after_error(const char* what) {
    // what existed is valid and usable
    std::vector<Reg> all; std::swap(all, R); R = pre;
    failAt = 0;
    for (auto& r : R) for (size_t i = 0; i < r.d.size(); i++) { uint32_t a = r.base + i; int c = guarded([a] { res = IMemory_Read8(M, a); }); CHECKT("C13", !c && res == r.d[i], "%s failing: byte 0x%X of an old region is lost", what, a); }
    int c = guarded([] { xmlp = MemorySim_GetMemoryMapXML(M); });
    CHECKT("C13", !c, "%s failing: the memory is no longer usable (%d)", what, c);
    c = guarded([] { MemorySim_CreateRegion(M, 0xF0000000u, 4); });
    CHECKT("C13", !c, "%s failing: no region can be added (%d)", what, c);
}
static void p32(Bytes& b, size_t o, uint32_t v) { for (int i = 0; i < 4; i++) if (o + i < b.size()) b[o + i] = v >> 8 * i; }
static void p16(Bytes& b, size_t o, uint32_t v) { for (int i = 0; i < 2; i++) if (o + i < b.size()) b[o + i] = v >> 8 * i; }
static uint32_t g32(const Bytes& b, size_t o) { return b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (uint32_t)b[o + 3] << 24; }
static uint32_t g16(const Bytes& b, size_t o) { return b[o] | b[o + 1] << 8; }
static std::string hexdump(const Bytes& b) { std::string s; for (auto c : b) s += strf("%02X", c); return s; }
// ---------------------------------------------------------------------------------------------- ELF
static const char* elf_oracle(const Bytes& b) {
    if (b.size() < 52) return "short";
    if (memcmp(b.data(), "\x7f" "ELF\1\1", 6)) return "ident";
    if (g16(b, 16) != 2) return "type";
    uint32_t off = g32(b, 28), es = g16(b, 42), n = g16(b, 44);
    if (!off || !n || es < 32) return "header";
    int loaded = 0;
    for (uint32_t i = 0; i < n; i++) {
        uint64_t o = (uint64_t)off + (uint64_t)i * es;
        if (o + 32 > b.size()) return "program header outside";
        uint32_t type = g32(b, o), po = g32(b, o + 4), pa = g32(b, o + 12), fs = g32(b, o + 16), ms = g32(b, o + 20);
        if (type != 1 || !fs || ms < fs) continue;
        if ((uint64_t)po + fs > b.size()) return "segment outside";
        R.push_back(Reg{pa, Bytes(b.begin() + po, b.begin() + po + fs), true});
        loaded++;
    }
    return loaded ? 0 : "nothing to load";
}
static void elf(Rng& r) {
    uint32_t n = r.chance(1, 60) ? r.range(20, 300) : r.range(0, 6), es = r.chance(3, 4) ? 32 : r.range(28, 60), off = r.chance(2, 3) ? 52 : r.range(0, 90);
    bool many = r.chance(1, 400); if (many) n = 256 * r.range(1, 2), es = 32, off = 52;
    Bytes b(r.chance(1, 20) ? r.below(60) : off + n * es + r.below(200));
    if (many) b.resize(off + n * es + 200);
    for (auto& c : b) c = r.u32();
    if (b.size() >= 16) memcpy(b.data(), "\x7f" "ELF\1\1", 6);
    p16(b, 16, 2); p32(b, 28, off); p16(b, 42, es); p16(b, 44, n); p16(b, 40, 52);
    uint32_t addr = r.pick(std::vector<uint32_t>{0, 0x08000000, 0x20000000, 0xFFFFFF00u, r.u32() & 0x7fffffff});
    for (uint32_t i = 0; i < n; i++) {
        size_t o = off + i * es;
        uint32_t fs = r.chance(1, 6) ? 0 : r.range(1, 40), ms = r.chance(1, 2) ? fs : r.chance(1, 6) ? fs - 1 : fs + r.below(100);
        uint32_t po = b.size() > fs ? r.below(b.size() - fs + 1) : 0;
        if (r.chance(1, 12)) po = r.pick(std::vector<uint32_t>{(uint32_t)b.size(), (uint32_t)b.size() - fs + 1, 0xFFFFFFFFu, 0xFFFFFFFFu - fs + 1, 0u - fs, 0x7fffffffu, 0x80000000u});
        if (r.chance(1, 20)) fs = r.pick(std::vector<uint32_t>{0xFFFFFFFFu, 0u - po, (uint32_t)b.size() - po, (uint32_t)b.size() - po + 1}), ms = 0xFFFFFFFFu;
        if (many) fs = ms = r.range(1, 8), po = r.below(b.size() - 8);
        p32(b, o, !many && r.chance(1, 4) ? r.pick(std::vector<uint32_t>{0, 2, 6, 0x60000001, 0x101, 0x70000001}) : 1); p32(b, o + 4, po); p32(b, o + 8, r.chance(1, 2) ? addr : r.u32()); p32(b, o + 12, addr);
        p32(b, o + 16, fs); p32(b, o + 20, ms);
        addr += fs + (r.chance(1, 2) ? 0 : r.below(0x100)); if (!many && r.chance(1, 40)) addr = r.u32();
    }
    if (r.chance(1, 5)) { const int offs[] = {0, 1, 2, 3, 4, 5, 16, 17, 28, 29, 31, 42, 43, 44, 45}; b.size() ? b[std::min<size_t>(offs[r.below(15)], b.size() - 1)] ^= r.chance(1, 2) ? 1 << r.below(8) : r.u32() : 0; }
    if (r.chance(1, 12)) b.resize(r.below(b.size() + 1));
    if (r.chance(1, 20)) p32(b, 28, r.pick(std::vector<uint32_t>{0, 0xFFFFFFFF, 0xFFFFFFE0, 0x7fffffff, (uint32_t)b.size() - 31}));
    note("ElfLoad of %zu bytes: %s", b.size(), hexdump(b).c_str());
    const char* bad = elf_oracle(b);
    bool ok = clean();
    uint8_t* exact = (uint8_t*)malloc(b.size()); if (b.size()) memcpy(exact, b.data(), b.size());
    failAt = prop() == "C13" && r.chance(2, 3) ? r.range(1, 8) : 0; if (failAt) note("allocation %d fails", failAt);
    int c = guarded([&] { ElfLoad_FromMemory(M, exact, b.size()); });
    failAt = 0;
    free(exact);
    CHECKT("C13", heapError.empty(), "ElfLoad: %s", heapError.c_str());
    if (!ok) { finish(); return; }
    if (bad && !injected) CHECKT("C08", c == elfFormatException, "a malformed file (%s) gives %d", bad, c);
    else if (injected) CHECKT("C13", c == outOfMemoryException || (bad && c == elfFormatException), "ElfLoad: a failing allocation gives %d", c);
    else CHECKT("C08", !c, "a well-formed file is rejected with %d", c);
    if (!c) check_memory("C08", "ElfLoad"); else after_error("ElfLoad");
    finish();
}
// ---------------------------------------------------------------------------------------------- dumps
static RegisterContext want;
enum { OKAY, FORMAT, OVERFLOWED, OOM };
static bool outOfScope;
static int dump_oracle(const Bytes& b) {
    outOfScope = false;
    size_t p = 0;
    if (b.size() < 4) return FORMAT;
    bool v2;
    if (!memcmp(b.data(), "cC\3\0", 4)) v2 = false; else if (!memcmp(b.data(), "cC\2\0", 4)) v2 = true; else return FORMAT;
    p = 4;
    auto word = [&](uint32_t& x) { if (p + 4 > b.size()) return false; x = g32(b, p); p += 4; return true; };
    if (!word(want.flags)) return FORMAT;
    if (v2) want.R[MSP] = want.R[PSP] = DEFAULT_SP_VALUE;
    for (int i = 0; i < (v2 ? 17 : 19); i++) if (!word(want.R[i])) return FORMAT;
    if (!word(want.exceptionPSR)) return FORMAT;
    if (want.flags & 1) for (int i = 0; i < 33; i++) if (!word(want.FPR[i])) return FORMAT;
    for (;;) {
        size_t left = b.size() - p;
        if (!left) return OKAY;
        if (left == 4 && g32(b, p) == 0xACCE55ED) return OVERFLOWED;
        if (left < 8) return FORMAT;
        uint32_t s = g32(b, p), e = g32(b, p + 4); p += 8;
        if (e - s > (1u << 28)) return OOM;
        if ((uint64_t)s + (e - s) > 0x100000000ull) outOfScope = true;
        if (e - s > b.size() - p) return FORMAT;
        R.push_back(Reg{s, Bytes(b.begin() + p, b.begin() + p + (e - s)), false}); p += e - s;
    }
}
static void dump(Rng& r, bool hex) {
    Bytes b;
    auto word = [&](uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> 8 * i); };
    bool v2 = r.chance(1, 3); uint32_t flags = r.chance(1, 2) ? r.below(2) : r.u32();
    b = {'c', 'C', (uint8_t)(v2 ? 2 : 3), 0};
    word(flags);
    for (int i = 0; i < (v2 ? 17 : 19) + 1 + (flags & 1 ? 33 : 0); i++) word(r.u32());
    uint32_t addr = r.pick(std::vector<uint32_t>{0, 0x20000000, 0x10000000, 0x7fffff00, 0xFFFFFF80u, r.u32() & 0x7fffffff});
    for (int n = r.below(5); n > 0; n--) {
        uint32_t z = r.chance(1, 8) ? 0 : r.range(1, r.chance(1, 10) ? 300 : 30); bool rev = r.chance(1, 60);
        word(addr); word(rev ? addr - z : addr + z); for (uint32_t i = 0; i < z; i++) b.push_back(r.chance(1, 4) ? (uint8_t)r.pick(std::vector<uint32_t>{0, 255, 10, 13, 0x1a, 0xED}) : r.u32());
        addr += z + (r.chance(1, 2) ? 0 : r.below(64));
    }
    if (r.chance(1, 5)) word(r.chance(3, 4) ? 0xACCE55ED : r.pick(std::vector<uint32_t>{0xACCE55EC, 0xED55CEAC, 0xACCE5500, 0}));
    if (r.chance(1, 5)) b.resize(r.below(b.size() + 1));
    if (r.chance(1, 8) && b.size()) b[r.below(std::min<size_t>(4, b.size()))] ^= 1 << r.below(8);
    if (r.chance(1, 30)) for (int n = r.range(1, 7); n > 0; n--) b.push_back(r.u32());
    RegisterContext ctx; for (size_t i = 0; i < sizeof ctx / 4; i++) ((uint32_t*)&ctx)[i] = r.u32();
    want = ctx;
    int exp; Bytes file; bool badpair = false;
    failOpen = r.chance(1, prop() == "C13" ? 10 : 100);
    if (hex) {
        const char* dg = r.chance(1, 2) ? "0123456789ABCDEF" : "0123456789abcdef"; int per = r.pick(std::vector<int>{0, 1, 3, 16, 32, 80});
        int k = 0; size_t badat = r.chance(1, 4) ? r.below(b.size() * 2 + 1) : (size_t)-1, at = 0; size_t upto = b.size();
        for (auto c : b) for (int h = 1; h >= 0; h--) {
            if (per && k++ % per == per - 1) { if (r.chance(1, 2)) file.push_back('\r'); if (r.chance(9, 10)) file.push_back('\n'); while (r.chance(1, 12)) file.push_back(r.chance(1, 2) ? '\r' : '\n'); }
            uint8_t d = dg[c >> 4 * h & 15]; if (r.chance(1, 30)) d = d >= 'a' ? d - 32 : d >= 'A' ? d + 32 : d;
            if (at++ == badat) { d = r.pick(std::vector<uint8_t>{' ', '\t', 'g', 'G', 'x', '/', ':', '@', '`', 0, 0x80, 0xff, '0' - 1, 0xb1}); badpair = true; upto = (at - 1) / 2; }
            file.push_back(d);
        }
        if (r.chance(1, 4)) file.push_back(r.pick(std::vector<uint8_t>{'\n', '\r', 'a', '7', ' ', 'z'}));
        if (r.chance(1, 8)) file.push_back('\n');
        if (badpair) b.resize(upto);
    } else file = b;
    if (prop() == "C13" && r.chance(1, 3)) { shortRead = r.range(1, 60); note("read call %d and later fail", shortRead); }
    if (prop() == "C13" && r.chance(1, 3)) { failAt = r.range(1, 8); note("allocation %d fails", failAt); }
    exp = dump_oracle(b);
    if (badpair && exp == OKAY) exp = FORMAT;
    bool sentinel = badpair && exp == OVERFLOWED;
    note("%s dump%s: %s", hex ? "hex" : "binary", failOpen ? " that cannot be opened" : "", hex ? std::string(file.begin(), file.end()).c_str() : hexdump(file).c_str());
    put_file("dump", file);
    bool ok = clean() && !outOfScope;
    int c = guarded([&] { if (hex) CrashCatcherDump_ReadHex(M, &ctx, "dump"); else CrashCatcherDump_ReadBinary(M, &ctx, "dump"); });
    failAt = 0;
    check_files("reading a dump");
    const char* T = hex ? "C11" : "C10";
    if (failOpen) { CHECKT(hex ? "C11 C13" : "C10 C13", c == fileException, "a file that cannot be opened gives %d", c); after_error("reading a dump"); finish(); return; }
    if (readFailed) { finish(); return; }
    if (injected) { if (ok) CHECKT("C13", c == outOfMemoryException || (exp == FORMAT && c == fileFormatException) || exp == OOM, "reading a dump: a failing allocation gives %d", c); if (c) after_error("reading a dump"); finish(); return; }
    if (!ok) { finish(); return; }
    if (sentinel) { CHECKT(T, c == stackOverflowException || c == fileFormatException, "a damaged sentinel gives %d", c); finish(); return; }
    int code = exp == OKAY ? 0 : exp == FORMAT ? fileFormatException : exp == OOM ? outOfMemoryException : stackOverflowException;
    CHECKT(T, c == code, "the result is %d, expected %d", c, code);
    if (c) { after_error("reading a dump"); finish(); return; }
    const uint32_t* g = (const uint32_t*)&ctx; const uint32_t* w = (const uint32_t*)&want;
    for (size_t i = 0; i < sizeof ctx / 4; i++) CHECKT(T, g[i] == w[i], "word %zu of the register context is 0x%X, expected 0x%X", i, g[i], w[i]);
    check_memory(T, "reading a dump");
    finish();
}
// ---------------------------------------------------------------------------------------------- GDB logs
static const char* NAMES[] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp"};
static std::string symbol(Rng& r, int depth = 0) {
    const char* words[] = {"main", "g_table", "foo(char const*, int)", "operator()", "std::vector", "a b c", "0x1", "x+4", ":", " ", "\t"};
    std::string s = "<";
    for (int n = r.range(1, 3); n > 0; n--) s += (depth < 3 && r.chance(1, 4)) ? symbol(r, depth + 1) : words[r.below(11)];
    return s + ">";
}
static std::string other(Rng& r) {
    static const char* t[] = {"(gdb) x/4xw 0x10000000", "Cannot access memory at address 0x0", "", "r13            0x1\t1", "r0 0x12345678", "s32            1\t(raw 0x3f800000)", "control        0x0\t0",
        "primask        0x0\t0", " 0x20000000:\t0x1", "0X20000000:\t0x00000001", "0x2000000:\t0x00000001\t0x2", "0x2000000g:\t0x00000001", "R0             0x1", "---Type <return> to continue---", "fp             0x1", "r0            0x1\t1", "(raw 0x1)", "0x20000000"};
    return t[r.below(sizeof t / sizeof *t)];
}
static void gdblog(Rng& r) {
    std::string text; std::vector<std::pair<uint32_t, uint32_t>> words; std::vector<std::pair<uint32_t, std::vector<uint32_t>>> runs;
    RegisterContext ctx; for (size_t i = 0; i < sizeof ctx / 4; i++) ((uint32_t*)&ctx)[i] = r.u32();
    want = ctx; want.R[MSP] = want.R[PSP] = DEFAULT_SP_VALUE;
    bool fuzz = r.chance(1, 5); uint64_t next = 1ull << 40;
    uint32_t addr = r.pick(std::vector<uint32_t>{0, 0x20000000, 0x10000000, 0xFFFFF000u, r.u32() & 0x7ffffffc});
    int n = r.range(0, 14);
    for (int i = 0; i < n; i++) {
        std::string eol = r.chance(3, 4) ? "\n" : "\r\n"; if (i == n - 1 && r.chance(1, 4)) eol = "";
        int k = r.below(10);
        std::string trail = r.chance(1, 5) ? std::string(r.range(1, 3), r.chance(1, 2) ? ' ' : '\t') : "";
        if (k < 5) {
            int cnt = r.chance(1, 8) ? 0 : r.range(1, 4);
            if (!r.chance(3, 5)) addr += 4 * r.range(1, 16);
            if (r.chance(1, 12)) addr -= 4 * r.range(8, 200);
            if (r.chance(1, 30)) addr += 1;
            std::string l = strf(r.chance(1, 2) ? "0x%08x" : "0x%08X", addr); l[1] = 'x';
            bool sym = r.chance(1, 3);
            if (sym) l += " " + symbol(r);
            if (sym && r.chance(1, 6)) l += "<" + std::string(r.range(20, 700), 'A') + ">";
            if (l.size() > 900) l.resize(10);
            l += ":"; if (!cnt && r.chance(1, 2)) l += r.chance(1, 2) ? "\tCannot access memory at address 0x0" : "";
            std::vector<uint32_t> v;
            for (int j = 0; j < cnt; j++) { uint32_t x = r.chance(1, 6) ? r.pick(std::vector<uint32_t>{0, 0xFFFFFFFFu, 0x80000000u, 8, 10}) : r.u32(); v.push_back(x); l += (r.chance(4, 5) ? "\t" : r.chance(1, 2) ? " " : " \t ") + strf(r.chance(5, 6) ? "0x%08x" : r.chance(1, 2) ? "0x%X" : "%u", x); }
            text += l + trail + eol;
            if (cnt) { if (addr != next || runs.empty()) runs.push_back({addr, {}}); runs.back().second.insert(runs.back().second.end(), v.begin(), v.end()); next = addr + 4ull * cnt; addr += 4 * cnt; }
        } else if (k < 8) {
            uint32_t v = r.u32();
            if (r.chance(1, 2)) { int j = r.below(19); text += strf("%-15s0x%x\t", NAMES[j], v) + (r.chance(1, 2) ? strf("%u", v) : std::string("0x8000 <main+4>")) + trail + eol; want.R[j] = v; }
            else if (r.chance(1, 8)) { text += strf("%-15s0x%x\t%u", "fpscr", v, v) + eol; want.FPR[FPSCR] = v; }
            else { int j = r.below(32); text += strf("s%-14d", j) + r.pick(std::vector<std::string>{"1", "-nan(0x7fffff)", "1.5e-38", "0", "inf"}) + (r.chance(1, 2) ? "\t" : "  ") + strf("(raw 0x%08x)", v) + eol; want.FPR[j] = v; want.flags |= 1; }
        } else text += other(r) + trail + eol;
    }
    if (fuzz) {
        // no expectation but memory safety and termination
        for (int i = r.range(1, 10); i > 0 && text.size(); i--) {
            size_t p = r.below(text.size());
            switch (r.below(6)) {
            case 0: text[p] = r.u32(); break;
            case 1: text.erase(p, r.range(1, 20)); break;
            case 2: text.insert(p, std::string(r.range(1, 1200), "<> \t0xa"[r.below(7)])); break;
            case 3: { size_t e = text.find('\n', p); if (e != std::string::npos) text.erase(e, 1); break; }
            case 4: text.insert(p, 1, 0); break;
            case 5: { size_t e = text.find('\n', p); if (e != std::string::npos && e > p + 1) text.erase(p, e - p); break; }
            }
        }
    }
    for (auto& g : runs) { Bytes d; for (uint32_t w : g.second) for (int i = 0; i < 4; i++) d.push_back(w >> 8 * i); R.push_back(Reg{g.first, d, false}); }
    failOpen = r.chance(1, prop() == "C13" ? 10 : 100); failSeek = r.chance(1, prop() == "C13" ? 10 : 100);
    if (prop() == "C13" && r.chance(1, 3)) failAt = r.range(1, 6);
    note("GDB log%s%s%s:\n%s", failOpen ? " (open fails)" : "", failSeek ? " (seek fails)" : "", failAt ? " (allocation fails)" : "", text.c_str());
    put_file("log", Bytes(text.begin(), text.end()));
    bool ok = clean() && !fuzz;
    for (auto& g : R) if ((uint64_t)g.base + g.d.size() >= 0x100000000ull) ok = false;
    int c = guarded([&] { GdbLogParse(M, &ctx, "log"); });
    failAt = 0;
    check_files("reading a GDB log");
    if (failOpen || failSeek) { if (!injected) CHECKT("C12 C13", c == fileException || (fuzz && c), "a failing open or seek gives %d", c); if (c && !fuzz) after_error("reading a GDB log"); finish(); return; }
    if (injected) { if (ok) CHECKT("C13", c == outOfMemoryException, "reading a GDB log: a failing allocation gives %d", c); finish(); return; }
    if (!ok) { finish(); return; }
    CHECKT("C12", !c, "the log is rejected with %d", c);
    const uint32_t* g = (const uint32_t*)&ctx; const uint32_t* w = (const uint32_t*)&want;
    for (size_t i = 0; i < sizeof ctx / 4; i++) CHECKT("C12", g[i] == w[i], "word %zu of the register context is 0x%X, expected 0x%X", i, g[i], w[i]);
    check_memory("C12", "reading a GDB log");
    finish();
}
// ---------------------------------------------------------------------------------------------- command line
static int d_fprintf(FILE*, const char*, ...) { return 0; }
struct Known { const char* name; int kind; uint32_t base; Bytes b, region; uint32_t regs; };     // kind 0: raw, 1: ELF, 2: binary dump, 3: hex dump, 4: GDB log
static std::vector<Known> FS;
static void files_once(Rng& r) {
    if (FS.size()) return;
    auto bytes = [&](int n) { Bytes b(n); for (auto& c : b) c = r.u32(); return b; };
    auto word = [](Bytes& b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> 8 * i); };
    for (int k = 0; k < 3; k++) { Known f{(const char*[]){"one.bin", "two.bin", "--elf"}[k], 0, 0, bytes(k == 1 ? 3 : 20 + k)}; f.region = f.b; if (k == 0) f.b[0] = f.region[0] = 'c'; FS.push_back(f); }
    for (int k = 0; k < 3; k++) {
        Known f{(const char*[]){"one.elf", "two.elf", "--dump"}[k], 1, 0x08000000u + 0x1000 * k, Bytes(84), bytes(16)};
        memcpy(f.b.data(), "\x7f" "ELF\1\1", 6); p16(f.b, 16, 2); p32(f.b, 28, 52); p16(f.b, 42, 32); p16(f.b, 44, 1);
        p32(f.b, 52, 1); p32(f.b, 56, 84); p32(f.b, 60, 0); p32(f.b, 64, f.base); p32(f.b, 68, 16); p32(f.b, 72, 16);
        f.b.insert(f.b.end(), f.region.begin(), f.region.end()); FS.push_back(f);
    }
    for (int k = 0; k < 6; k++) {
        bool hex = k >= 3; Known f{(const char*[]){"one.dmp", "two.dmp", "--bin", "one.hex", "two.hex", "--alias"}[k], hex ? 3 : 2, 0x20000000u + 0x100 * k, {'c', 'C', 3, 0}, bytes(12), 100u * k};
        word(f.b, 0); for (int i = 0; i < 20; i++) word(f.b, f.regs + i);
        word(f.b, f.base); word(f.b, f.base + 12); f.b.insert(f.b.end(), f.region.begin(), f.region.end());
        if (hex) { std::string h = hexdump(f.b); if (k == 4) h.insert(8, "\r\n"); f.b = Bytes(h.begin(), h.end()); }
        FS.push_back(f);
    }
    for (int k = 0; k < 4; k++) {
        Known f{(const char*[]){"one.log", "two.log", "c.log", "634.log"}[k], 4, 0x20001000u + 0x100 * k, {}, bytes(4), 500u + 100 * k};
        std::string t = (const char*[]){"", "\n", "c\n", "634\n"}[k];
        for (int i = 0; i < 4; i++) t += strf("r%-14d0x%x\t%u\n", i, f.regs + i, f.regs + i);
        t += strf("0x%08x:\t0x%08x\n", f.base, g32(f.region, 0)); f.b = Bytes(t.begin(), t.end()); FS.push_back(f);
    }
    FS.push_back(Known{"empty.log", 4, 0, {}, {}, 0});
    for (auto& f : FS) put_file(f.name, f.b);
}
static Known* named(const std::string& n) { for (auto& f : FS) if (n == f.name) return &f; return 0; }
static uint32_t number(const std::string& s) {
    // independent of strtoul: digits after an optional prefix
    size_t p = 0; unsigned base = 10; uint64_t v = 0; while (p < s.size() && s[p] == ' ') p++;
    if (s[p] == '0' && p + 2 < s.size() && (s[p + 1] | 32) == 'x' && isxdigit(s[p + 2])) base = 16, p += 2; else if (s[p] == '0') base = 8;
    for (; p < s.size(); p++) { unsigned d = s[p] >= '0' && s[p] <= '9' ? s[p] - '0' : (s[p] | 32) >= 'a' && (s[p] | 32) <= 'f' ? (s[p] | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; }
    return v;
}
// the whole program: main.c with the debugger and the communication interface replaced by these
static struct { int comm, uncomm, init, run; RegisterContext* ctx; IMemory* mem; IComm* with; int throwAt, what; std::function<void()> look; } Prog;
static ICommVTable noVT; static IComm someComm = {&noVT};
extern "C" {
int program_main(int argc, const char** argv);
static void raise_at(int k) { if (Prog.throwAt == k) __throw(Prog.what); }
IComm* StandardIComm_Init() { Prog.comm++; raise_at(1); return &someComm; }
void StandardIComm_Uninit(IComm*) { Prog.uncomm++; }
void mriPlatform_Init(RegisterContext* c, IMemory* m) { Prog.init++; Prog.ctx = c; Prog.mem = m; raise_at(2); }
void mriPlatform_Run(IComm* c) { Prog.run++; Prog.with = c; Prog.look(); raise_at(3); }
}
static void cmd(Rng& r) {
    files_once(r); heap_begin(); hook_fprintf = d_fprintf; R.clear();
    std::vector<std::string> A;
    auto some = [&](std::vector<const char*> v) { return std::string(v[r.below(v.size())]); };
    auto opt = [&](std::string s) { for (auto& c : s) if (r.chance(1, 5)) c = toupper(c); return s; };
    auto num = [&]() { uint32_t v = r.pick(std::vector<uint32_t>{0x08000000, 0x08000004, 0x20000000, 0x20000100, 0x10000000, 0x40000000, 0x80000000, 0, 0xFFFFFFF0u, 0xFFFFFFEBu}) + (r.chance(1, 4) ? r.below(16) : 0); return strf(r.pick(std::vector<const char*>{"0x%x", "0x%08X", "%u", "0%o"}), v); };
    auto image = [&] { if (r.chance(1, 2)) { A.push_back(opt("--elf")); A.push_back(r.chance(1, 25) ? some({"missing", "one.bin", "", "one.log"}) : some({"one.elf", "two.elf", "--dump"})); } else { A.push_back(opt("--bin")); A.push_back(r.chance(1, 25) ? some({"missing", ""}) : some({"one.bin", "two.bin", "--elf", "one.elf"})); A.push_back(num()); } };
    auto dumpo = [&] { A.push_back(opt("--dump")); A.push_back(r.chance(1, 25) ? some({"missing", ""}) : some({"one.dmp", "two.dmp", "--bin", "one.hex", "two.hex", "--alias", "one.log", "two.log", "c.log", "634.log", "empty.log", "one.bin"})); };
    auto alias = [&] { A.push_back(opt("--alias")); A.push_back(strf("0x%x", 0x60000000 + 0x100 * r.below(200))); A.push_back(strf(r.chance(1, 2) ? "%u" : "0x%x", r.range(1, 24))); A.push_back(strf("0x%x", r.pick(std::vector<uint32_t>{0x08000000, 0x08001000, 0x08002000, 0x20000000, 0x20000100, 0x10000000, 0x60000000}) + 4 * r.below(4))); };
    std::vector<int> kinds; if (!r.chance(1, 10)) kinds.push_back(0); if (!r.chance(1, 10)) kinds.push_back(1);
    for (int n = r.below(4); n > 0; n--) kinds.push_back(2); while (r.chance(1, 4)) kinds.push_back(r.below(3));
    for (size_t i = kinds.size(); i > 1; i--) std::swap(kinds[i - 1], kinds[r.below(i)]);
    for (int k : kinds) { if (k == 0) image(); else if (k == 1) dumpo(); else alias(); if (r.chance(1, 30)) A.push_back(some({"--", "-elf", "--elfs", "--el", "", "x", "--DUMPS", "-", "--bin1"})); }
    if (r.chance(1, 8) && A.size()) A.resize(r.below(A.size() + 1));
    if (r.chance(1, 30) && A.size()) A.erase(A.begin() + r.below(A.size()));
    // the oracle
    std::string all; for (auto& a : A) all += " '" + a + "'"; 
    const std::string *elfn = 0, *binn = 0, *dumpn = 0; uint32_t base = 0; std::vector<std::array<uint32_t, 3>> al; bool good = true;
    for (size_t i = 0; i < A.size() && good;) {
        std::string o = A[i]; for (auto& c : o) c = tolower(c);
        size_t n = o == "--elf" || o == "--dump" ? 1 : o == "--bin" ? 2 : o == "--alias" ? 3 : 99;
        if (i + n >= A.size() || n == 99) { good = false; break; }
        if (n == 3) al.push_back({number(A[i + 1]), number(A[i + 2]), number(A[i + 3])}); else if (n == 2) binn = &A[i + 1], base = number(A[i + 2]); else if (o == "--elf") elfn = &A[i + 1]; else dumpn = &A[i + 1];
        i += n + 1;
    }
    if (!dumpn || (!elfn && !binn)) good = false;
    int want = good ? 0 : invalidArgumentException; bool known = true; Known* d = 0;
    if (good) {
        Known* im = named(elfn ? *elfn : *binn); d = named(*dumpn);
        if (!im) want = fileException;
        else if (elfn) { if (im->kind != 1) want = elfFormatException; else R.push_back(Reg{im->base, im->region, true}); }
        else { R.push_back(Reg{base, im->b, true}); if (wraps(R[0])) known = false; }
        if (!want) {
            if (!d) want = fileException; else if (d->kind < 2) known = false;      // some file that is no dump, read as a log
            else if (d->region.size()) R.push_back(Reg{d->base, d->region, false});
        }
        if (!clean()) known = false;
        if (!want) for (auto& a : al) {
            if (a[1] > 1000) { known = false; break; }
            Reg* t = 0; for (auto& g : R) if (a[2] >= g.base && a[2] < (uint64_t)g.base + g.d.size()) { t = &g; break; }
            if (!t) { want = busErrorException; break; }
            uint32_t off = a[2] - t->base, n = std::min<uint32_t>(a[1], t->d.size() - off);
            // an alias of an alias reaches the first one's target: the bytes behind it are those of the whole target region, so only the scope of plain targets is decided here
            if (t->base >= 0x60000000u && t->base < 0x61000000u) known = false;
            Reg al2{a[0], Bytes(t->d.begin() + off, t->d.begin() + off + n), t->ro}; R.push_back(al2);
            if (!clean()) { known = false; break; }
        }
    }
    shortRead = 0; readFailed = failSeek = failOpen = false; seekAt = r.range(1, 3);
    hook_fopen = d_fopen; hook_fclose = d_fclose; hook_fseek = d_fseek; hook_fread = d_fread; hook_fgets = d_fgets; g_pExceptionHandlers = 0;
    openFiles.clear();
    if (prop() == "C13") { failOpen = r.chance(1, 20); failSeek = r.chance(1, 12); if (r.chance(1, 3)) failAt = r.range(1, 12); if (r.chance(1, 10)) shortRead = r.range(1, 8); }
    note("command line:%s%s%s%s%s", all.c_str(), failOpen ? " (open fails)" : "", failSeek ? " (seek fails)" : "", failAt ? " (allocation fails)" : "", shortRead ? " (read fails)" : "");
    // exactly argc pointers, each to an exact copy
    const char** argv = (const char**)malloc(A.size() * sizeof(char*)); for (size_t i = 0; i < A.size(); i++) { char* c = (char*)malloc(A[i].size() + 1); memcpy(c, A[i].c_str(), A[i].size() + 1); argv[i] = c; }
    static CrashDebugCommandLine cl; memset(&cl, 0x5A, sizeof cl);
    bool faults = failOpen || failSeek || failAt || shortRead;
    auto verify = [&](RegisterContext& ctx, IMemory* mem) {
        M = mem;
        check_memory("C18", "the command line");
        if (d) for (int i = 0; i < (d->region.size() ? d->kind == 4 ? 4 : 13 : 0); i++) CHECKT("C18", ctx.R[i] == d->regs + i, "register %d is 0x%X: the dump was read by another reader", i, ctx.R[i]);
    };
    if (r.chance(1, 4)) {
        int t = r.chance(1, 3) ? r.range(1, 3) : 0;
        Prog = {}; Prog.throwAt = t; Prog.what = r.pick(std::vector<int>{fileException, elfFormatException, invalidArgumentException, busErrorException, outOfMemoryException});
        Prog.look = [&] {
            failAt = 0;
            CHECKT("C18", Prog.init == 1 && Prog.with == &someComm && Prog.ctx && Prog.mem, "the debugger is run on nothing");
            if (good && !faults && known && !want) verify(*Prog.ctx, Prog.mem);
        };
        note("as a program%s", t ? strf(", failing at %d", t).c_str() : "");
        std::vector<const char*> V{"CrashDebug"}; for (size_t i = 0; i < A.size(); i++) V.push_back(argv[i]);
        const char** av = (const char**)malloc(V.size() * sizeof(char*)); memcpy(av, V.data(), V.size() * sizeof(char*));
        volatile int status = 0;
        clearExceptionCode(); status = program_main(V.size(), av); clearExceptionCode();
        failAt = 0; free(av);
        for (size_t i = 0; i < A.size(); i++) free((void*)argv[i]); free(argv);
        CHECKT("C18", !g_pExceptionHandlers, "the program leaves a handler behind");
        CHECKT("C18", (status == 0) == (Prog.run == 1 && t == 0), "the program ends with status %d, the debugger ran %d times%s", (int)status, Prog.run, t ? " and an error was raised" : "");
        if (!good) CHECKT("C18", status != 0 && !Prog.init, "a malformed command line is accepted");
        if (good && !faults && known) CHECKT("C18", Prog.comm == !want, "%s", want ? "the program carries on after an error" : "a well-formed command line is rejected");
        CHECKT("C18 C13", heapError.empty(), "%s", heapError.c_str());
        CHECKT("C18 C13", live.empty(), "%zu blocks are still allocated when the program ends", live.size());
        check_files("the program");
        return;
    }
    int c = guarded([&] { CrashDebugCommandLine_Init(&cl, A.size(), argv); });
    failAt = 0;
    check_files("the command line");
    for (size_t i = 0; i < A.size(); i++) free((void*)argv[i]); free(argv);
    if (c) {
        CHECKT("C18 C13", !cl.pMemory, "an error leaves the memory object dangling");
        CHECKT("C18 C13", live.empty(), "an error leaves %zu blocks allocated", live.size());
    } else CHECKT("C18", cl.pMemory != 0, "no memory object");
    if (!good) CHECKT("C18", c == invalidArgumentException, "a malformed command line gives %d", c);
    else if (!faults) CHECKT("C18", c != invalidArgumentException || want == c, "a well-formed command line is rejected");
    if (good && !faults && known) {
        CHECKT("C18", c == want, "the result is %d, expected %d", c, want);
        if (!c) verify(cl.context, cl.pMemory);
    }
    if (!c) CrashDebugCommandLine_Uninit(&cl);
    CHECKT("C13 C18", heapError.empty(), "%s", heapError.c_str());
    CHECKT("C13", live.empty(), "%zu blocks are still allocated at the end", live.size());
}
void one_case(Rng& r) {
    try {
        const std::string& p = prop();
        int k = p == "C08" ? 0 : p == "C10" ? 1 : p == "C11" ? 2 : p == "C12" ? 3 : p == "C18" ? 4 : r.below(5);
        if (k == 4) { cmd(r); return; }
        begin(r);
        if (k == 0) elf(r); else if (k == 3) gdblog(r); else dump(r, k == 2);
    } catch (Skip&) {}
}
int main(int argc, char** argv) { return driver_main(argc, argv); }
