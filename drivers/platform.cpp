// C14, C15, C16, C22: the callbacks of mriPlatform.c, StandardIComm.c and the console functions against an executable model.
#include "common.hpp"
#include <sys/select.h>
#include <setjmp.h>
extern "C" {
#include <mriPlatform.h>
#include <StandardIComm.h>
#include <Console.h>
#include <buffer.h>
#include <platforms.h>
void Platform_CopyContextToBuffer(Buffer*); void Platform_CopyContextFromBuffer(Buffer*); void Platform_WriteTResponseRegistersToBuffer(Buffer*);
const char* Platform_GetTargetXml(void); uint32_t Platform_GetTargetXmlSize(void);
uint8_t Platform_DetermineCauseOfException(void); void Platform_DisplayFaultCauseToGdbConsole(void);
uint32_t Platform_MemRead32(const void*); uint16_t Platform_MemRead16(const void*); uint8_t Platform_MemRead8(const void*);
void Platform_MemWrite32(void*, uint32_t); void Platform_MemWrite16(void*, uint16_t); void Platform_MemWrite8(void*, uint8_t);
int Platform_WasMemoryFaultEncountered(void);
uint32_t Platform_CommHasReceiveData(void); int Platform_CommReceiveChar(void); void Platform_CommSendChar(int); int Platform_CommIsWaitingForGdbToConnect(void);
int Platform_CommCausedInterrupt(void); void Platform_CommClearInterrupt(void);
void Platform_EnableSingleStep(void); void Platform_DisableSingleStep(void); int Platform_IsSingleStepping(void); void Platform_SetProgramCounter(uint32_t);
void Platform_AdvanceProgramCounterToNextInstruction(void); int Platform_WasProgramCounterModifiedByUser(void);
void Platform_SetHardwareBreakpoint(uint32_t, uint32_t); void Platform_ClearHardwareBreakpoint(uint32_t, uint32_t);
void Platform_SetHardwareWatchpoint(uint32_t, uint32_t, PlatformWatchpointType); void Platform_ClearHardwareWatchpoint(uint32_t, uint32_t, PlatformWatchpointType);
PlatformInstructionType Platform_TypeOfCurrentInstruction(void); PlatformSemihostParameters Platform_GetSemihostCallParameters(void);
void Platform_SetSemihostCallReturnAndErrnoValues(int, int); int Semihost_IsDebuggeeMakingSemihostCall(void); int Semihost_HandleSemihostRequest(void);
void mriPlatform_setWaitForGdbConnect(int) __attribute__((weak)); int Platform_CommShouldWaitForGdbConnect(void); char* Platform_GetPacketBuffer(void); uint32_t Platform_GetPacketBufferSize(void);
void Platform_EnteringDebugger(void); void Platform_LeavingDebugger(void);
void __mriPlatform_EnteringDebuggerHook(void); void __mriPlatform_LeavingDebuggerHook(void);

static std::string* sent; static std::string* in; static std::string* shown;
void Buffer_WriteChar(Buffer*, char c) { *sent += c; }
void Buffer_WriteByteAsHex(Buffer*, uint8_t b) { char t[4]; snprintf(t, sizeof t, "%02x", b); *sent += t; }
static size_t inPos;
uint8_t Buffer_ReadByteAsHex(Buffer*) { uint8_t b = inPos < in->size() ? (*in)[inPos] : 0; inPos++; return b; }
void WriteStringToGdbConsole(const char* s) { *shown += s; }
void WriteHexValueToGdbConsole(uint32_t v) { char t[16]; snprintf(t, sizeof t, "0x%08X", v); *shown += t; }
void __mriInit(const char*) {}
static void (*core)(void);
void __mriDebugException(void) { if (core) core(); }

// the system calls below the console
static std::string* sin; static size_t sinPos; static std::string* sout; static int selFail, readFail, writeFail;
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
static bool console;
ssize_t __wrap_read(int fd, void* p, size_t n) {
    if (!console) return __real_read(fd, p, n);
    CHECK(fd == 0 && n == 1, "read(%d, %zu)", fd, n);
    if (readFail) return -1;
    if (sinPos >= sin->size()) return 0;
    *(char*)p = (*sin)[sinPos++]; return 1;
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (!console) return __real_write(fd, p, n);
    console = false; CHECK(fd == 1 && n == 1, "write(%d, %zu)", fd, n); console = true;
    if (writeFail) return -1;
    *sout += *(const char*)p; return 1;
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) {
    console = false;
    CHECK(n == 1 && r && FD_ISSET(0, r) && !w && !e && t && !t->tv_sec && !t->tv_usec, "select does not poll the standard input");
    console = true;
    return selFail ? -1 : sinPos < sin->size();
}
}
#define WITH(x) ([&] { console = true; auto v_ = x; console = false; return v_; }())

static std::map<uint32_t, int> fault; static std::map<uint32_t, uint32_t> word;
struct Acc { int d, w; uint32_t a, v; };
static std::vector<Acc> acc;
static RegisterContext* ctx;
static bool faulty(uint32_t a) { return fault.count(a) > 0; }
extern "C" {
static uint32_t r32(IMemory*, uint32_t a) { acc.push_back({0, 32, a, 0}); if (faulty(a)) __throw(fault[a]); return word[a]; }
static uint16_t r16(IMemory*, uint32_t a) { acc.push_back({0, 16, a, 0}); if (faulty(a)) __throw(fault[a]); return word[a]; }
static uint8_t r8(IMemory*, uint32_t a) { acc.push_back({0, 8, a, 0}); if (faulty(a)) __throw(fault[a]); return word[a]; }
static void w32(IMemory*, uint32_t a, uint32_t v) { acc.push_back({1, 32, a, v}); if (faulty(a)) __throw(fault[a]); }
static void w16(IMemory*, uint32_t a, uint16_t v) { acc.push_back({1, 16, a, v}); if (faulty(a)) __throw(fault[a]); }
static void w8(IMemory*, uint32_t a, uint8_t v) { acc.push_back({1, 8, a, v}); if (faulty(a)) __throw(fault[a]); }
}
static IMemoryVTable vt = {r32, r16, r8, w32, w16, w8};
static IMemory mem = {&vt};

static std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> v; std::string c;
    auto flush = [&] { size_t a = c.find_first_not_of(" \t"), b = c.find_last_not_of(" \t"); if (a != std::string::npos) v.push_back(c.substr(a, b - a + 1)); c.clear(); };
    for (char x : s) if (x == '\n') flush(); else c += x;
    flush();
    return v;
}
static void c14(Rng& r) {
    Buffer b; std::string s, i; sent = &s; in = &i;
    bool fp = ctx->flags & 1;
    std::string ri, rf, want;
    auto hex = [](const uint32_t* p, int n) { std::string o; char t[4]; for (int k = 0; k < 4 * n; k++) { snprintf(t, sizeof t, "%02x", ((const uint8_t*)p)[k]); o += t; } return o; };
    ri = hex(ctx->R, TOTAL_REG_COUNT); rf = hex(ctx->FPR, TOTAL_FPREG_COUNT);
    RegisterContext c0 = *ctx;
    Platform_CopyContextToBuffer(&b);
    CHECK(s == ri + (fp ? rf : ""), "register packet: %s", s.c_str());
    s.clear(); Platform_WriteTResponseRegistersToBuffer(&b);
    for (int k = 12; k < 16; k++) want += strf("%02x:", k) + hex(&ctx->R[k], 1) + ";";
    CHECK(s == want, "stop reply: %s", s.c_str());
    CHECK(!memcmp(ctx, &c0, sizeof c0), "sending registers changes them");
    std::string x = Platform_GetTargetXml();
    CHECK(Platform_GetTargetXmlSize() == x.size(), "size of the target description");
    std::vector<std::string> names; size_t p = 0;
    while ((p = x.find("<reg name=\"", p)) != std::string::npos) { p += 11; size_t q = x.find('"', p); size_t bs = x.find("bitsize=\"", p); names.push_back(x.substr(p, q - p) + ":" + x.substr(bs + 9, x.find('"', bs + 9) - bs - 9)); }
    std::vector<std::string> w; for (int k = 0; k < 13; k++) w.push_back(strf("r%d:32", k));
    for (const char* n : {"sp", "lr", "pc", "xpsr", "msp", "psp"}) w.push_back(std::string(n) + ":32");
    if (fp) { for (int k = 0; k < 16; k++) w.push_back(strf("d%d:64", k)); w.push_back("fpscr:32"); }
    CHECK(names == w, "target description lists %zu registers", names.size());
    for (int k = 0; k < 4 * (TOTAL_REG_COUNT + TOTAL_FPREG_COUNT); k++) i += (char)r.u32();
    inPos = 0; Platform_CopyContextFromBuffer(&b);
    memcpy(c0.R, i.data(), 4 * TOTAL_REG_COUNT);
    if (fp) memcpy(c0.FPR, i.data() + 4 * TOTAL_REG_COUNT, 4 * TOTAL_FPREG_COUNT);
    CHECK(inPos == 4u * TOTAL_REG_COUNT + (fp ? 4 * TOTAL_FPREG_COUNT : 0), "registers consume %zu bytes", inPos);
    CHECK(!memcmp(ctx, &c0, sizeof c0), "received registers are stored wrongly");
}
static void c15(Rng& r) {
    static const uint32_t A[4] = {0xE000ED28, 0xE000ED2C, 0xE000ED34, 0xE000ED38};
    for (uint32_t a : A) { word[a] = r.chance(1, 4) ? r.u32() & r.u32() & r.u32() : r.u32(); if (r.chance(1, 5)) word[a] &= r.chance(1, 2) ? 0xffff00ff : 0xffffff00; if (r.chance(1, 8)) fault[a] = r.range(1, 20); }
    if (r.chance(1, 5)) word[A[0]] &= 0xffff;
    static const int num[] = {3, 3, 3, 4, 5, 6, 2, 12};
    ctx->exceptionPSR = (r.u32() & ~0xff) | (r.chance(7, 8) ? num[r.below(8)] : r.below(256));
    int n = ctx->exceptionPSR & 0xff;
    note("PSR %08x CFSR %08x HFSR %08x MMFAR %08x BFAR %08x", ctx->exceptionPSR, word[A[0]], word[A[1]], word[A[2]], word[A[3]]);
    for (auto& f : fault) note("reading %08x fails", f.first);
    int sig = n == 2 ? SIGINT : n == 3 || n == 4 ? SIGSEGV : n == 5 ? SIGBUS : n == 6 ? SIGILL : n == 12 ? SIGTRAP : SIGSTOP;
    CHECK(Platform_DetermineCauseOfException() == sig, "signal %d", Platform_DetermineCauseOfException());
    std::vector<std::string> want;
    typedef std::vector<std::pair<int, const char*>> B;
    static const B M = {{5, "FP Lazy Preservation"}, {4, "Stacking Error"}, {3, "Unstacking Error"}, {1, "Data Access"}, {0, "Instruction Fetch"}};
    static const B U = {{5, "FP Lazy Preservation"}, {4, "Stacking Error"}, {3, "Unstacking Error"}, {2, "Imprecise Data Access"}, {1, "Precise Data Access"}, {0, "Instruction Prefetch"}};
    static const B G = {{9, "Divide by Zero"}, {8, "Unaligned Access"}, {3, "Coprocessor Access"}, {2, "Invalid Exception Return State"}, {1, "Invalid State"}, {0, "Undefined Instruction"}};
    auto part = [&](const char* t, uint32_t v, const B& bits, uint32_t fa) {
        if (faulty(A[0]) || !v) return;
        want.push_back(t); want.push_back(strf("Status Register: 0x%08X", v));
        if (fa && (v & 0x80) && !faulty(fa)) want.push_back(strf("Fault Address: 0x%08X", word[fa]));
        for (auto& b : bits) if (v >> b.first & 1) want.push_back(b.second);
    };
    uint32_t c = word[A[0]], h = word[A[1]]; bool forced = false;
    if (n == 3) {
        want.push_back("**Hard Fault**");
        if (!faulty(A[1])) {
            want.push_back(strf("Status Register: 0x%08X", h));
            if (h >> 31) want.push_back("Debug Event");
            if (h & 2) want.push_back("Vector Table Read");
            if (h >> 30 & 1) { want.push_back("Forced"); forced = true; }
        }
    }
    if (forced || n == 4) part("**MPU Fault**", c & 0xff, M, A[2]);
    if (forced || n == 5) part("**Bus Fault**", c >> 8 & 0xff, U, A[3]);
    if (forced || n == 6) part("**Usage Fault**", c >> 16, G, 0);
    std::string s; shown = &s;
    Platform_DisplayFaultCauseToGdbConsole();
    auto got = lines(s);
    std::string g; for (auto& l : got) g += l + " | ";
    CHECK(got == want, "fault text: %s", g.c_str());
}
static void c16(Rng& r) {
    CHECK(!Platform_WasMemoryFaultEncountered(), "a fault is recorded initially");
    bool rec = false;
    for (int k = r.range(1, 30); k > 0; k--) {
        uint32_t a = r.chance(1, 3) ? r.below(6) * 0x10000000 : r.u32(); uint32_t v = r.u32();
        word[a] = r.u32(); fault.erase(a); if (r.chance(1, 3)) fault[a] = r.range(1, 30);
        bool f = faulty(a); acc.clear();
        void* p = (void*)(unsigned long)(a | (r.chance(1, 4) ? (uint64_t)r.u32() << 32 : 0));
        int op = r.below(7);
        note("op %d at %08x%s", op, a, f ? " faults" : "");
        uint32_t got = 0, m = 0;
        switch (op) {
        case 0: got = Platform_MemRead32(p); m = word[a]; break;
        case 1: got = Platform_MemRead16(p); m = (uint16_t)word[a]; break;
        case 2: got = Platform_MemRead8(p); m = (uint8_t)word[a]; break;
        case 3: Platform_MemWrite32(p, v); break;
        case 4: Platform_MemWrite16(p, v); break;
        case 5: Platform_MemWrite8(p, v); break;
        case 6: CHECK((Platform_WasMemoryFaultEncountered() != 0) == rec, "fault record is wrong"); CHECK(acc.empty(), "a query accesses memory"); rec = false;
                CHECK(!Platform_WasMemoryFaultEncountered(), "the record is not cleared by the query"); continue;
        }
        int w = op % 3 == 0 ? 32 : op % 3 == 1 ? 16 : 8;
        CHECK(acc.size() == 1 && acc[0].d == (op >= 3) && acc[0].w == w && acc[0].a == a, "the access does not match the request");
        if (op < 3) CHECK(got == (f ? 0 : m), "read %08x", got);
        else CHECK(acc[0].v == (w == 32 ? v : w == 16 ? (uint16_t)v : (uint8_t)v), "stored %08x", acc[0].v);
        if (f) rec = true;
        CHECK(g_pExceptionHandlers == NULL, "the handler chain is not restored");
    }
    CHECK((Platform_WasMemoryFaultEncountered() != 0) == rec, "fault record is wrong");
}
static IComm* comm; static Rng* rr;
static void session(void) {
    Rng& r = *rr;
    bool connected = false;
    RegisterContext c0 = *ctx;
    for (int k = r.range(1, 40); k > 0; k--) {
        if (r.chance(1, 3)) *sin += (char)r.u32();
        selFail = r.chance(1, 5); readFail = r.chance(1, 6); writeFail = r.chance(1, 6);
        bool data = !selFail && sinPos < sin->size();
        size_t p0 = sinPos, o0 = sout->size();
        int op = r.below(6); note("op %d data %d", op, data);
        if (op == 0) CHECK((WITH(Platform_CommHasReceiveData()) != 0) == data, "data available is wrong");
        else if (op == 1) {
            volatile int v = 0;
            volatile bool threw = false;
            __try { console = true; v = Platform_CommReceiveChar(); console = false; } __catch { console = false; threw = true; clearExceptionCode(); }
            CHECK(threw == (readFail != 0), "receiving throws");
            if (!threw) { connected = true; if (p0 < sin->size()) CHECK((char)v == (*sin)[p0] && sinPos == p0 + 1, "the byte received (%d) is not the one sent (%d), position %zu -> %zu of %zu", v, (*sin)[p0], p0, sinPos, sin->size()); }
        } else if (op == 2) {
            int c = r.chance(1, 2) ? r.u32() : r.below(256); volatile bool threw = false;
            __try { console = true; Platform_CommSendChar(c); console = false; } __catch { console = false; threw = true; clearExceptionCode(); }
            CHECK(threw == (writeFail != 0), "sending throws");
            if (!threw) CHECK(sout->size() == o0 + 1 && sout->back() == (char)c, "the byte written is not the one sent");
        } else if (op == 3) CHECK((WITH(Platform_CommIsWaitingForGdbToConnect()) == 0) == (connected || data), "connection state is wrong");
        else {
            size_t n0 = acc.size();
            uint32_t a = r.u32(), q = r.u32();
            Platform_EnableSingleStep(); CHECK(!Platform_IsSingleStepping(), "single stepping"); Platform_DisableSingleStep();
            Platform_SetProgramCounter(a); Platform_AdvanceProgramCounterToNextInstruction(); CHECK(Platform_WasProgramCounterModifiedByUser(), "program counter request");
            Platform_SetHardwareBreakpoint(a, q); Platform_ClearHardwareBreakpoint(a, q);
            Platform_SetHardwareWatchpoint(a, q, MRI_PLATFORM_WRITE_WATCHPOINT); Platform_ClearHardwareWatchpoint(a, q, MRI_PLATFORM_READ_WATCHPOINT);
            CHECK(Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_OTHER, "instruction type");
            PlatformSemihostParameters sp = Platform_GetSemihostCallParameters(); CHECK(!sp.parameter1 && !sp.parameter2 && !sp.parameter3 && !sp.parameter4, "semihost parameters");
            Platform_SetSemihostCallReturnAndErrnoValues(a, q); CHECK(!Semihost_IsDebuggeeMakingSemihostCall() && !Semihost_HandleSemihostRequest(), "semihost");
            Platform_EnteringDebugger(); Platform_LeavingDebugger(); __mriPlatform_EnteringDebuggerHook(); __mriPlatform_LeavingDebuggerHook();
            CHECK(!Platform_CommCausedInterrupt(), "interrupt"); Platform_CommClearInterrupt();
            CHECK(!memcmp(ctx, &c0, sizeof c0), "an inert request changes registers"); CHECK(acc.size() == n0, "an inert request touches memory");
            CHECK(sinPos == p0 && sout->size() == o0, "an inert request touches the channel");
        }
        if (op == 0 || op == 3) CHECK(sinPos == p0 && getExceptionCode() == 0, "polling leaves something behind");
    }
}
static int coreRuns, stopAsked, stopAfter; static IComm* askedComm;
static int stopWhen(IComm* c) { askedComm = c; return ++stopAsked >= stopAfter ? 1 << (stopAfter * 7 % 31) : 0; }
static void c22(Rng& r) {
    if (r.chance(1, 8)) {
        CHECK(Platform_CommShouldWaitForGdbConnect(), "the debugger does not wait for a connection");
        uint32_t n = Platform_GetPacketBufferSize(); volatile char* p = Platform_GetPacketBuffer();
        RegisterContext c0 = *ctx;
        for (uint32_t k = 0; k < n; k += k + 64 < n && k > 64 ? r.range(1, 64) : 1) { p[k] = r.u32(); p[n - 1 - k] = r.u32(); }
        CHECK(n && !memcmp(ctx, &c0, sizeof c0), "the packet buffer is not one of its own");
        CHECK(!Platform_WasMemoryFaultEncountered() && Platform_CommShouldWaitForGdbConnect(), "writing to the packet buffer changes the debugger");
        int w = r.chance(1, 2) ? 0 : r.u32() | 1; if (mriPlatform_setWaitForGdbConnect) mriPlatform_setWaitForGdbConnect(w); else w = 1;
        CHECK((Platform_CommShouldWaitForGdbConnect() != 0) == (w != 0), "the wait setting is not kept");
        static ICommVTable v; static IComm c; v.shouldStopRun = stopWhen; c.pVTable = &v;
        coreRuns = stopAsked = 0; stopAfter = r.range(1, 9); core = [] { coreRuns++; };
        mriPlatform_Run(&c);
        core = 0; if (mriPlatform_setWaitForGdbConnect) mriPlatform_setWaitForGdbConnect(1);
        CHECK(coreRuns == stopAfter && stopAsked == stopAfter && askedComm == &c, "the core ran %d times, asked to stop %d times, until %d", coreRuns, stopAsked, stopAfter);
    }
    std::string i, o; sin = &i; sout = &o; sinPos = 0; rr = &r;
    comm = StandardIComm_Init();
    // one round: the second request to stop ends the run
    static ICommVTable v; static IComm* real; struct My { ICommVTable* p; } ;
    jmp_buf out; static jmp_buf* po; po = &out;
    core = [] { session(); longjmp(*po, 1); };
    if (!setjmp(out)) mriPlatform_Run(comm);
    core = 0; g_pExceptionHandlers = 0; clearExceptionCode();
}
void one_case(Rng& r) {
    static RegisterContext c; ctx = &c;
    for (size_t k = 0; k < sizeof c; k++) ((uint8_t*)&c)[k] = r.u32();
    if (r.chance(1, 2)) c.flags = r.below(4);
    fault.clear(); word.clear(); acc.clear(); clearExceptionCode(); g_pExceptionHandlers = 0;
    mriPlatform_Init(&c, &mem);
    note("flags %08x", c.flags);
    std::string p = prop();
    if (p == "C14") c14(r); else if (p == "C15") c15(r); else if (p == "C16") c16(r); else if (p == "C22") c22(r);
}
int main(int argc, char** argv) { return driver_main(argc, argv); }
