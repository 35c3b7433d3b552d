// C01-C07, C09, C13, C23: random histories of MemorySim operations, with allocation failures, against a model.
#include "heap.hpp"
extern "C" {
#include <MemorySim.h>
#include <try_catch.h>
}
#undef malloc
#undef realloc
#undef free
struct Pt { uint32_t kind, a, n; bool operator<(const Pt& o) const { return a != o.a ? a < o.a : n != o.n ? n < o.n : kind < o.kind; } };
struct Reg { uint32_t base, size; bool alias, ro; int target; uint32_t redir; std::vector<uint8_t> d; std::vector<uint32_t> rc; std::set<Pt> pts; };
static std::vector<Reg> R; static IMemory* M; static bool flag; static std::string doc; static const char* docp;
static const uint32_t BP = 0x80000001u;
static int find(uint32_t a, uint32_t n) {
    for (size_t i = 0; i < R.size(); i++) if (a >= R[i].base && (uint64_t)a + n <= (uint64_t)R[i].base + R[i].size) return i;
    return -1;
}
// serving region and offset there
static int serve(uint32_t& a, uint32_t n) {
    int m = find(a, n);
    if (m < 0) return -1;
    if (!R[m].alias) return m;
    a = a - R[m].base + R[m].redir;
    return R[m].target;
}
// one call into the code: 0 completed, else the code thrown
static volatile uint32_t res; static const void* volatile pres;
enum { O_R8, O_R16, O_R32, O_W8, O_W16, O_W32, O_MR, O_MW, O_REGION, O_ALIAS, O_RO, O_LOAD, O_IMG, O_XML, O_CNT, O_SB, O_CB, O_SW, O_CW };
static int run(int op, uint32_t a, uint32_t b = 0, uint32_t c = 0, const void* p = 0) {
    static ExceptionHandler* h0; h0 = g_pExceptionHandlers;
    volatile int code = 0;
    clearExceptionCode();
    __try {
        switch (op) {
        case O_R8: res = IMemory_Read8(M, a); break;
        case O_R16: res = IMemory_Read16(M, a); break;
        case O_R32: res = IMemory_Read32(M, a); break;
        case O_W8: IMemory_Write8(M, a, b); break;
        case O_W16: IMemory_Write16(M, a, b); break;
        case O_W32: IMemory_Write32(M, a, b); break;
        case O_MR: pres = MemorySim_MapSimulatedAddressToHostAddressForRead(M, a, b); break;
        case O_MW: pres = MemorySim_MapSimulatedAddressToHostAddressForWrite(M, a, b); break;
        case O_REGION: MemorySim_CreateRegion(M, a, b); break;
        case O_ALIAS: MemorySim_CreateAlias(M, a, b, c); break;
        case O_RO: MemorySim_MakeRegionReadOnly(M, a); break;
        case O_LOAD: MemorySim_LoadFromFlashImage(M, a, p, b); break;
        case O_IMG: MemorySim_CreateRegionsFromFlashImage(M, p, b); break;
        case O_XML: pres = MemorySim_GetMemoryMapXML(M); break;
        case O_CNT: res = MemorySim_GetFlashReadCount(M, a); break;
        case O_SB: MemorySim_SetHardwareBreakpoint(M, a, b); break;
        case O_CB: MemorySim_ClearHardwareBreakpoint(M, a, b); break;
        case O_SW: MemorySim_SetHardwareWatchpoint(M, a, b, (WatchpointType)c); break;
        case O_CW: MemorySim_ClearHardwareWatchpoint(M, a, b, (WatchpointType)c); break;
        }
    }
    __catch { code = getExceptionCode(); }
    clearExceptionCode();
    if (g_pExceptionHandlers != h0) { g_pExceptionHandlers = h0; CHECKT("C13 C17", false, "the handler chain changes"); }
    CHECKT("C13", heapError.empty(), "%s", heapError.c_str());
    return code;
}
static const uint8_t* host(uint32_t a, uint32_t n) { int c = run(O_MR, a, n); return c ? 0 : (const uint8_t*)pres; }
static bool inside(const Pt& p, uint32_t a, uint32_t n) { return a >= p.a && (uint64_t)a + n <= (uint64_t)p.a + p.n; }
// every byte, count, flag and the document as the model says
static void verify(const char* tags, const char* what) {
    for (size_t i = 0; i < R.size(); i++) {
        Reg& r = R[i];
        for (uint32_t k = 0; k < r.size; k++) {
            uint32_t a = r.base + k;
            if ((uint64_t)r.base + k > 0xffffffffu) break;
            uint32_t t = a; int s = serve(t, 1);
            const uint8_t* p = host(a, 1);
            CHECKT(tags, p, "%s: byte 0x%X is no longer mapped", what, a);
            CHECKT(tags, *p == R[s].d[t - R[s].base], "%s: byte 0x%X is 0x%02X, expected 0x%02X", what, a, *p, R[s].d[t - R[s].base]);
        }
    }
}
static void verify_counts(const char* tags, const char* what) {
    for (size_t i = 0; i < R.size(); i++) {
        Reg& r = R[i];
        for (uint32_t k = 0; k + 2 <= r.size && r.base + k >= r.base; k += 2) {
            uint32_t a = r.base + k, t = a; int s = serve(t, 2);
            int c = run(O_CNT, a);
            if (!R[s].ro) { CHECKT(tags, c == busErrorException, "%s: count of a region that is not read-only gives %d", what, c); break; }
            CHECKT(tags, !c && res == R[s].rc[(t - R[s].base) / 2], "%s: count of 0x%X is %u (code %d), expected %u", what, a, res, c, R[s].rc[(t - R[s].base) / 2]);
        }
    }
}
static void verify_flag(const char* tags, const char* what) {
    int w = MemorySim_WasWatchpointEncountered(M);
    CHECKT(tags, !!w == flag, "%s: watchpoint report %d, expected %d", what, w, flag);
    flag = false;
    CHECKT("C06", !MemorySim_WasWatchpointEncountered(M), "%s: asking for the report does not clear it", what);
}
// the points are probed by accesses: one span of each width around each point, through the real code
static void access(int op, uint32_t a, uint32_t v, const char* why);
static void probe(Rng& r, const Pt& p) {
    int s = -1; uint32_t a = p.a; (void)s;
    for (int i = 0; i < 3; i++) access(r.below(6), p.a + r.range(0, 5) - 2 + (r.chance(1, 3) ? p.n - 2 : 0), r.u32(), "probing");
    if (p.n >= 2) access(O_R16, p.a + r.below(p.n - 1), 0, "probing");
    if (p.n >= 1) { access(O_R8, a, 0, "probing"); access(O_W8, a, r.u32(), "probing"); }
}
static void access(int op, uint32_t a, uint32_t v, const char* why) {
    uint32_t n = (op % 3 == 0) ? 1 : (op % 3 == 1) ? 2 : 4; bool wr = op >= O_W8;
    const char* nm[] = {"read8", "read16", "read32", "write8", "write16", "write32"};
    note("%s 0x%X 0x%X (%s)", nm[op], a, v, why);
    uint32_t t = a; int s = serve(t, n); bool ok = s >= 0 && !(wr && R[s].ro);
    bool bp = false, wp = false;
    if (ok) for (auto& p : R[s].pts) {
        if (p.kind == BP) bp |= op == O_R16 && inside(p, t, 2);
        else if (p.kind & (wr ? WATCHPOINT_WRITE : WATCHPOINT_READ)) wp |= inside(p, t, n);
    }
    if (a + n < a && a + n != 0 && ok) return;      // beyond the top of the address space
    int c = run(op, a, v);
    uint32_t got = res;
    const char* AL = find(a, n) >= 0 && R[find(a, n)].alias ? "C01 C04" : "C01";
    if (!ok) {
        CHECKT(s >= 0 ? (R[find(a, n)].alias ? "C01 C03 C04" : "C01 C03") : AL, c == busErrorException, "%s 0x%X: result %d instead of a bus error", nm[op], a, c);
        verify_flag("C01 C06", nm[op]);
        return;
    }
    const char* BPT = R[find(a, n)].alias ? "C04 C05 C06" : "C05 C06";
    if (bp) {
        CHECKT(BPT, c == hardwareBreakpointException, "read16 0x%X inside a breakpoint: result %d", a, c);
        bool old = flag; int w = MemorySim_WasWatchpointEncountered(M); CHECKT("C06", w || !old, "a report is lost at a breakpoint"); flag = false;
        if (R[s].ro) { run(O_CNT, a); uint32_t& k = R[s].rc[(t - R[s].base) / 2]; CHECKT("C23", res == k || res == k + 1, "count of 0x%X after a breakpoint is %u, was %u", a, res, k); k = res; }
        return;
    }
    if (c == hardwareBreakpointException) CHECKT(BPT, false, "%s 0x%X: breakpoint exception without a breakpoint", nm[op], a);
    CHECKT(AL, c == 0, "%s 0x%X: fails with %d although the span lies in a region", nm[op], a, c);
    uint8_t* d = R[s].d.data() + (t - R[s].base);
    if (wr) {
        for (uint32_t i = 0; i < n; i++) d[i] = v >> (8 * i);
        for (uint32_t i = 0; i < n; i++) { uint32_t t1 = a + i; int s1 = serve(t1, 1); if (s1 != s || t1 != t + i) continue; const uint8_t* p = host(a + i, 1); CHECKT("C02 C04", p && *p == d[i], "%s 0x%X: byte %u is not stored", nm[op], a, i); }
    } else {
        uint32_t w = 0;
        for (uint32_t i = 0; i < n; i++) w |= (uint32_t)d[i] << (8 * i);
        CHECKT(R[find(a, n)].alias ? "C02 C04" : "C02", got == w, "%s 0x%X gives 0x%X, expected 0x%X", nm[op], a, got, w);
        if (op == O_R16 && R[s].ro) R[s].rc[(t - R[s].base) / 2]++;
    }
    flag |= wp;
    if (wp || prop() == "C06" || prop() == "C05" || prop() == "C04") verify_flag(R[find(a, n)].alias ? "C04 C05 C06" : "C05 C06", nm[op]);
}
static std::string xml() {
    std::string s = "<?xml version=\"1.0\"?><!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\"><memory-map>";
    for (auto& r : R) {
        bool ro = r.ro;
        s += strf("<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>", ro ? "flash" : "ram", r.base, r.size, ro ? " <property name=\"blocksize\">1</property>" : "");
    }
    return s + "</memory-map>";
}
static void check_xml(bool oom) {
    size_t lv = live.size();
    int c = run(O_XML, 0);
    if (c) {
        CHECKT("C07 C13", live.size() == lv, "an allocation failure loses the previous document");
        CHECKT("C07 C13", injected && c == outOfMemoryException, "memory map fails with %d", c);
        if (docp) CHECKT("C07 C13", doc == docp, "the previous document is damaged after an allocation failure");
        return;
    }
    if (docp) CHECKT("C07 C13", live.size() == lv, "the previous document was not released");
    docp = (const char*)pres; doc = xml();
    CHECKT("C07", doc == docp, "memory map is\n%s\nexpected\n%s", docp, doc.c_str());
}
static std::vector<uint32_t> marks;
static uint32_t near(Rng& r) {
    if (R.empty() || r.chance(1, 30)) return r.chance(1, 2) ? r.u32() : r.range(0, 8) - 4;
    auto& g = R[r.below(R.size())];
    uint32_t k = r.below(8);
    if (k < 2) return g.base + r.range(0, 6) - 3;
    if (k < 4) return g.base + g.size + r.range(0, 8) - 5;
    if (k == 4 && !g.pts.empty()) { auto it = g.pts.begin(); std::advance(it, r.below(g.pts.size())); return it->a + r.range(0, 4) - 2 + (r.chance(1, 2) ? it->n : 0); }
    return g.base + r.below(g.size + 1);
}
static uint32_t rbase(Rng& r) {
    uint32_t k = r.below(10);
    if (!R.empty() && k < 5) { auto& g = R[r.below(R.size())]; return k < 3 ? g.base + g.size + r.range(0, 2) : k < 4 ? g.base - r.range(0, 40) : near(r); }
    if (k < 7) return r.pick(std::vector<uint32_t>{0x10000000, 0x20000000, 0xFFFFFFE0, 0xFFFFFFC0, 0xFFFFFF00, 0x7FFFFFF0, 0x80000000, 0x00000100});
    return r.u32() & ~3u;
}
static uint32_t rsize(Rng& r) { return r.chance(1, 15) ? 0 : r.chance(1, 4) ? r.range(1, 5) : r.chance(1, 20) ? r.range(300, 3000) : r.range(1, 48); }
static bool overlap(uint32_t b, uint32_t n) { for (auto& g : R) if (n && g.size && (uint64_t)b < (uint64_t)g.base + g.size && g.base < (uint64_t)b + n) return true; return false; }
static void load_model(uint32_t a, const std::vector<uint8_t>& img) {
    for (size_t i = 0; i < img.size(); i++) { uint32_t t = a + i; int s = serve(t, 1); if (s >= 0) R[s].d[t - R[s].base] = img[i]; }
}
static void op(Rng& r, bool oom) {
    uint32_t k = r.below(100);
    injected = false; failAt = oom && r.chance(1, 4) ? r.range(1, 4) : 0;
    if (k < 8 || (R.empty() && (k < 30 || k >= 33))) {
        uint32_t b = rbase(r), n = rsize(r);
        if ((uint64_t)b + n > 0x100000000ull) n = 0u - b;
        note("CreateRegion 0x%X size 0x%X%s", b, n, failAt ? " (allocation fails)" : "");
        size_t lv = live.size(); int c = run(O_REGION, b, n);
        if (c) { CHECKT("C13", injected && c == outOfMemoryException, "CreateRegion fails with %d", c); CHECKT("C13", live.size() == lv, "a failing CreateRegion leaks"); failAt = 0; verify("C13", "after a failing CreateRegion"); }
        else { CHECKT("C13", !injected, "CreateRegion ignores a failing allocation"); R.push_back(Reg{b, n, false, false, -1, 0, std::vector<uint8_t>(n), {}, {}}); failAt = 0; verify("C02", "after CreateRegion"); }
    } else if (k < 15) {
        uint32_t a = rbase(r), t = near(r), n = rsize(r);
        if ((uint64_t)a + n > 0x100000000ull) n = 0u - a;
        note("CreateAlias 0x%X -> 0x%X size 0x%X%s", a, t, n, failAt ? " (allocation fails)" : "");
        uint32_t ta = t; int m = serve(ta, 1);
        size_t lv = live.size(); int c = run(O_ALIAS, a, t, n); failAt = 0;
        if (c) {
            CHECKT("C04 C13", (m < 0 && c == busErrorException) || (injected && c == outOfMemoryException), "CreateAlias fails with %d", c);
            CHECKT("C04 C13", live.size() == lv, "a failing CreateAlias leaks");
            verify("C04 C13", "after a failing CreateAlias");
            check_xml(false);
        } else {
            CHECKT("C04", m >= 0, "an alias of nothing is accepted");
            CHECKT("C13", !injected, "CreateAlias ignores a failing allocation");
            uint32_t room = R[m].size - (ta - R[m].base);
            R.push_back(Reg{a, std::min(n, room), true, R[m].ro, m, ta, {}, {}, {}});
            verify("C04", "after CreateAlias");
            if (mine("C04 C07")) { int c = run(O_XML, 0); docp = 0; if (!c) { docp = (const char*)pres; doc = xml(); CHECKT("C04 C07", doc == docp, "memory map after CreateAlias:\n%s\nexpected\n%s", docp, doc.c_str()); } }
        }
    } else if (k < 20) {
        uint32_t a = near(r), t = a; int m = serve(t, 1);
        note("MakeRegionReadOnly 0x%X%s", a, failAt ? " (allocation fails)" : "");
        int c = run(O_RO, a); failAt = 0;
        if (c) { CHECKT("C03 C13", (m < 0 && c == busErrorException) || (m >= 0 && injected && c == outOfMemoryException), "MakeRegionReadOnly fails with %d", c); }
        else { CHECKT("C03", m >= 0, "nothing is made read-only"); CHECKT("C13", !injected, "MakeRegionReadOnly ignores a failing allocation");
               if (!R[m].ro) R[m].rc.assign(R[m].size / 2, 0); R[m].ro = true; }
        verify_counts("C03 C23", "after MakeRegionReadOnly");
    } else if (k < 30) {
        uint32_t a = near(r), n = r.chance(1, 3) ? r.range(0, 7) : r.range(0, 60);
        if (!R.empty() && r.chance(1, 3)) { auto& g = R[r.below(R.size())]; a = g.base; n = g.size; if (r.chance(1, 2) && n) { uint32_t d = r.below(n); a += d; n -= d; } }
        if ((uint64_t)a + n > 0x100000000ull) n = 0u - a;
        std::vector<uint8_t> img(n);
        for (auto& b : img) b = r.u32();
        uint8_t* p = (uint8_t*)::malloc(n ? n : 1); if (n) memcpy(p, img.data(), n); uint8_t* q = p; failAt = 0;
        note("LoadFromFlashImage 0x%X size %u", a, n);
        bool all = true, whole = find(a, n) >= 0;
        for (uint32_t i = 0; i < n && all; i++) all = find(a + i, 1) >= 0;
        // every piece is served by one and the same region unless regions overlap
        bool plain = n && whole; if (plain) { int m = find(a, n); for (int j = 0; j < m; j++) if ((uint64_t)a < (uint64_t)R[j].base + R[j].size && R[j].base < (uint64_t)a + n) plain = false; }
        int c = run(O_LOAD, a, n, 0, q);
        ::free(p);
        if (!n) CHECKT("C09", !c, "loading nothing fails with %d", c);
        else if (plain) CHECKT("C09", !c, "the load fails with %d", c);
        if (!c) CHECKT("C09", all, "a load to unmapped addresses succeeds"); else CHECKT("C09", c == busErrorException, "the load fails with %d", c);
        if (!c && (plain || !n)) { load_model(a, img); verify("C09 C02", "after LoadFromFlashImage"); }
        else {
            // the pieces may be served by different regions, or the load ended early: nothing but bytes of the image is stored
            for (auto& g : R) if (!g.alias) for (uint32_t i = 0; i < g.size; i++) {
                uint32_t t = g.base + i; int s = serve(t, 1); if (s < 0 || &R[s] != &g || t - g.base != i) continue;
                const uint8_t* h = host(g.base + i, 1);
                CHECKT("C09", h && (*h == g.d[i] || std::count(img.begin(), img.end(), *h)), "a load changes byte 0x%X", g.base + i);
                g.d[i] = *h;
            }
            for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < i; j++) if (R[i].size && R[j].size && (uint64_t)R[i].base < (uint64_t)R[j].base + R[j].size && R[j].base < (uint64_t)R[i].base + R[i].size) throw Skip();
        }
        verify_flag("C06 C09", "LoadFromFlashImage");
        verify_counts("C23 C09", "after LoadFromFlashImage");
    } else if (k < 33) {
        uint32_t n = r.chance(1, 4) ? r.below(8) : r.range(4, 70);
        if (overlap(0, n)) return;
        std::vector<uint8_t> img(n); for (auto& b : img) b = r.u32();
        uint32_t sp = (r.chance(1, 3) ? 0x10000000 : r.chance(1, 2) ? 0x20000000 : r.chance(1, 2) ? 0xF0000000 : r.u32() & 0xF0000000) + r.below(r.chance(1, 20) ? 3000 : 64);
        for (uint32_t i = 0; i < 4 && i < n; i++) img[i] = sp >> (8 * i);
        uint8_t* p = (uint8_t*)::malloc(n ? n : 1); if (n) memcpy(p, img.data(), n);
        note("CreateRegionsFromFlashImage size %u sp 0x%X%s", n, sp, failAt ? " (allocation fails)" : "");
        size_t lv = live.size(); int c = run(O_IMG, 0, n, 0, p); failAt = 0;
        ::free(p);
        if (n < 4) { CHECKT("C09", c == bufferOverrunException, "an image of %u bytes gives %d", n, c); CHECKT("C09 C13", live.size() == lv, "rejecting a short image leaks"); verify("C09", "after a short image"); check_xml(false); return; }
        if (c) { CHECKT("C09 C13", injected && c == outOfMemoryException, "CreateRegionsFromFlashImage fails with %d", c); CHECKT("C09 C13", live.size() == lv, "a failing CreateRegionsFromFlashImage leaks"); verify("C09 C13", "after a failing image load");
                 int c2 = run(O_XML, 0); docp = 0; CHECKT("C09 C13", !c2 && xml() == (const char*)pres, "the regions differ after a failing CreateRegionsFromFlashImage"); docp = (const char*)pres; doc = xml(); return; }
        CHECKT("C13", !injected, "CreateRegionsFromFlashImage ignores a failing allocation");
        R.push_back(Reg{0, n, false, true, -1, 0, img, std::vector<uint32_t>(n / 2), {}});
        R.push_back(Reg{sp & 0xF0000000u, sp & 0x0fffffff, false, false, -1, 0, std::vector<uint8_t>(sp & 0x0fffffff), {}, {}});
        verify("C09", "after CreateRegionsFromFlashImage"); verify_counts("C09 C23 C03", "after CreateRegionsFromFlashImage"); verify_flag("C06 C09", "CreateRegionsFromFlashImage");
        int c2 = run(O_XML, 0); docp = 0; CHECKT("C09 C07", !c2 && xml() == (const char*)pres, "the regions differ from the image"); docp = (const char*)pres; doc = xml();
    } else if (k < 38) {
        note("GetMemoryMapXML%s", failAt ? " (allocation fails)" : ""); check_xml(oom); failAt = 0;
    } else if (k < 60) {
        uint32_t a = near(r), n = r.chance(1, 6) ? r.range(0, 20) : r.range(1, 4); bool bp = r.chance(1, 3), set = r.chance(2, 3);
        uint32_t kind = bp ? BP : r.range(1, 3);
        if (!R.empty() && r.chance(1, 3)) { auto& g = R[r.below(R.size())]; if (!g.pts.empty()) { auto it = g.pts.begin(); std::advance(it, r.below(g.pts.size())); a = it->a; if (r.chance(3, 4)) n = it->n; if (r.chance(3, 4)) kind = it->kind, bp = kind == BP; } else if (r.chance(1, 2)) { a = g.base + g.size - n; } }
        if ((uint64_t)a + n > 0x100000000ull) n = 0u - a;
        note("%s %s 0x%X size %u%s", set ? "set" : "clear", bp ? "breakpoint" : strf("watchpoint %u", kind).c_str(), a, n, failAt ? " (allocation fails)" : "");
        uint32_t t = a; int s = serve(t, n);
        int c = run(set ? (bp ? O_SB : O_SW) : (bp ? O_CB : O_CW), a, n, kind); failAt = 0;
        if (s < 0) CHECKT("C05", c == busErrorException, "a point outside any region gives %d", c);
        else if (c) CHECKT("C05 C13", injected && c == outOfMemoryException, "a point fails with %d", c);
        else { CHECKT("C05 C13", !injected, "a failing allocation is ignored"); if (set) R[s].pts.insert({kind, t, n}); else R[s].pts.erase({kind, t, n}); }
        if (s >= 0) { std::vector<Pt> v(R[s].pts.begin(), R[s].pts.end()); v.push_back({kind, t, n}); for (int i = 0; i < 3; i++) probe(r, v[r.below(v.size())]); probe(r, {kind, a, n}); }
    } else if (k < 64) {
        verify_flag("C06", "query"); failAt = 0;
    } else if (k < 76) {
        bool w = r.chance(1, 2); uint32_t a = near(r), n = r.chance(1, 2) ? r.range(0, 4) : r.range(0, 60);
        if (r.chance(1, 12)) n = r.u32();
        if (!R.empty() && r.chance(1, 4)) { auto& g = R[r.below(R.size())]; a = g.base; n = g.size + r.range(0, 2) - 1; }
        note("map for %s 0x%X size %u", w ? "write" : "read", a, n); failAt = 0;
        uint32_t t = a; int s = serve(t, n); bool ok = s >= 0 && !(w && R[s].ro);
        int c = run(w ? O_MW : O_MR, a, n);
        const char* AL = s >= 0 && R[find(a, n)].alias ? "C01 C03 C04" : "C01 C03";
        if (!ok) CHECKT(AL, c == busErrorException, "mapping 0x%X size %u gives %d instead of a bus error", a, n, c);
        else {
            CHECKT(AL, !c, "mapping 0x%X size %u fails with %d", a, n, c);
            if (!w && n == 2 && R[s].ro) R[s].rc[(t - R[s].base) / 2]++;
            uint8_t* p = (uint8_t*)pres; uint8_t* d = R[s].d.data() + (t - R[s].base);
            for (uint32_t i = 0; i < n; i++) CHECKT(s >= 0 && R[find(a, n)].alias ? "C01 C04 C02" : "C01 C02", p[i] == d[i], "the mapped bytes of 0x%X differ", a);
            if (w) { for (uint32_t i = 0; i < n; i++) p[i] = d[i] = r.u32(); verify("C01 C04", "after writing through a mapping"); }
        }
        verify_flag("C06", "mapping");
    } else {
        failAt = 0;
        access(r.below(6), near(r), r.u32(), "access");
        if (r.chance(1, 4)) verify(R.size() && prop() == "C04" ? "C04" : "C01 C02 C03", "after an access");
    }
    failAt = 0;
    if (r.chance(1, 6)) verify_counts("C23 C03 C04", "counts");
}
static void one(Rng& r) {
    heap_begin(); R.clear(); flag = false; docp = 0; doc.clear();
    M = MemorySim_Init();
    g_pExceptionHandlers = 0;
    bool oom = prop() == "C13" || r.chance(1, 4);
    int n = r.chance(1, 10) ? r.range(60, 200) : r.range(3, 50);
    if (r.chance(1, 40)) for (int i = 0; i < 100; i++) { Rng& q = r; uint32_t b = 0x10000000u * (1 + q.below(14)) + q.below(0x1000) * 16; uint32_t z = q.below(8); if (!run(O_REGION, b, z)) R.push_back(Reg{b, z, false, false, -1, 0, std::vector<uint8_t>(z), {}, {}}); }
    for (int i = 0; i < n; i++) op(r, oom);
    failAt = 0;
    verify("C01 C02 C03 C04", "at the end"); verify_counts("C23", "at the end"); check_xml(false);
    note("Uninit");
    MemorySim_Uninit(M);
    CHECKT("C13", heapError.empty(), "%s", heapError.c_str());
    if (docp) CHECKT("C07 C13", !live.count((void*)docp), "the document is still allocated after MemorySim_Uninit");
    CHECKT("C13", live.empty(), "%zu blocks are still allocated after MemorySim_Uninit", live.size());
    MemorySim_Uninit(M);
    MemorySim_Uninit(0);
    CHECKT("C13", heapError.empty(), "%s", heapError.c_str());
}
void one_case(Rng& r) { try { one(r); } catch (Skip&) {} }
int main(int argc, char** argv) { return driver_main(argc, argv); }
