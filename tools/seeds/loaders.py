LIBC = 'libCrashDebug/src/'
SRC = [LIBC + x + '.c' for x in ('MemorySim', 'ElfLoad', 'CrashCatcherDump', 'GdbLogParser', 'CrashDebugCommandLine')] + ['libcommon/src/common.c', 'libcommon/src/try_catch.c', 'main/MockDefaults.c']
PRE = '''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <MemorySim.h>
#include <ElfLoad.h>
#include <CrashCatcherDump.h>
#include <GdbLogParser.h>
#include <CrashDebugCommandLine.h>
#include <mriPlatform.h>
#include <try_catch.h>
extern FILE* (*hook_fopen)(const char*, const char*); extern int (*hook_fclose)(FILE*); extern int (*hook_fseek)(FILE*, long, int);
extern long (*hook_ftell)(FILE*); extern size_t (*hook_fread)(void*, size_t, size_t, FILE*); extern int (*hook_fprintf)(FILE*, const char*, ...);
extern void* (*hook_malloc)(size_t); extern void* (*hook_realloc)(void*, size_t); extern void (*hook_free)(void*);
#undef malloc
#undef realloc
#undef free
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fread
#undef fgets
#undef fwrite
static IMemory* M; static int countdown, live, opened, readAt, seekAt;
static void* mal(size_t n) { void* p; if (countdown && !--countdown) return 0; p = malloc(n); if (p) { memset(p, 0xA5, n); live++; } return p; }
static void* rea(void* q, size_t n) { if (countdown && !--countdown) return 0; if (!q) live++; return realloc(q, n); }
static void fre(void* p) { if (p) live--; free(p); }
static FILE* opn(const char* n, const char* m) { FILE* f = fopen(n, m); if (f) opened++; return f; }
static int cls(FILE* f) { opened--; return fclose(f); }
static size_t rd(void* p, size_t a, size_t b, FILE* f) { if (readAt && !--readAt) return 0; return fread(p, a, b, f); }
static int sk(FILE* f, long o, int w) { if (seekAt && !--seekAt) return -1; return fseek(f, o, w); }
static int quiet(FILE* f, const char* s, ...) { return 0; }
static volatile unsigned val;
#define TRY(e) ({ volatile int c_ = 0; clearExceptionCode(); __try { e; } __catch { c_ = getExceptionCode(); clearExceptionCode(); } c_; })
static void init(void) { hook_malloc = mal; hook_realloc = rea; hook_free = fre; hook_fopen = opn; hook_fclose = cls; hook_fread = rd; hook_fseek = sk; hook_fprintf = quiet; M = MemorySim_Init(); }
static int r32(unsigned a) { return TRY(val = IMemory_Read32(M, a)); }
static int r8(unsigned a) { return TRY(val = IMemory_Read8(M, a)); }
static int w8(unsigned a, unsigned v) { return TRY(IMemory_Write8(M, a, v)); }
static unsigned char B[1 << 20]; static size_t n;
static void w(unsigned v) { memcpy(B + n, &v, 4); n += 4; }
static void put(const char* f) { FILE* o = fopen(f, "wb"); fwrite(B, 1, n, o); fclose(o); }
static void text(const char* f, const char* t) { FILE* o = fopen(f, "wb"); fputs(t, o); fclose(o); }
static void p16(size_t o, unsigned v) { memcpy(B + o, &v, 2); }
static void p32(size_t o, unsigned v) { memcpy(B + o, &v, 4); }
static void elf(unsigned off, unsigned es, unsigned cnt) { memset(B, 0, sizeof B); memcpy(B, "\\x7f" "ELF\\1\\1", 6); p16(16, 2); p32(28, off); p16(42, es); p16(44, cnt); n = off + es * cnt; }
static void seg(unsigned o, unsigned type, unsigned po, unsigned pa, unsigned fs, unsigned ms) { p32(o, type); p32(o + 4, po); p32(o + 12, pa); p32(o + 16, fs); p32(o + 20, ms); }
static RegisterContext C;
static void dump(unsigned version, unsigned flags) { int i; n = 0; w(0x4363 | version << 16); w(flags); for (i = 0; i < (version == 2 ? 17 : 19) + 1; i++) w(100 + i); if (flags & 1) for (i = 0; i < 33; i++) w(200 + i); }
static void hexput(const char* f, int nl, const char* eol) { FILE* o = fopen(f, "wb"); size_t i; for (i = 0; i < n; i++) { fprintf(o, "%02X", B[i]); if (nl && i % nl == nl - 1) fputs(eol, o); } fclose(o); }
static CrashDebugCommandLine L;
static int cl(int c, const char** v) { const char** a = malloc(c * sizeof *a); int r; memcpy(a, v, c * sizeof *a); memset(&L, 0x5A, sizeof L); r = TRY(CrashDebugCommandLine_Init(&L, c, a)); free(a); if (!r) M = L.pMemory; return r; }
#define CL(...) ({ const char* v_[] = { __VA_ARGS__ }; cl(sizeof v_ / sizeof *v_, v_); })
#define NEED(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''


PROGRAM = '''#include <StandardIComm.h>
static int failing; static IComm someComm;
IComm* StandardIComm_Init() { return &someComm; }
void StandardIComm_Uninit(IComm* p) { }
void mriPlatform_Init(RegisterContext* c, IMemory* m) { }
void mriPlatform_Run(IComm* c) { if (failing) __throw(failing); }
#define main program_main
#include "../main/main.c"
#undef main
static const char* pv[16];
#define PV(...) ({ const char* v_[] = { __VA_ARGS__ }; memcpy(pv, v_, sizeof v_); pv; })
'''


def S(id, prop, needs, what, edits, body, pre=''):
    return dict(id=id, property=prop, srcs=SRC, stubs=True, needs=needs, what=what, edits=[(LIBC + a + '.c' if '/' not in a else a, b, c) for (a, b, c) in edits],
                demo=PRE + pre + 'int main(void) { init(); {\n' + body + '\n} return 0; }\n')


E, D, CLN, G = 'ElfLoad', 'CrashCatcherDump', 'CrashDebugCommandLine', 'GdbLogParser'
TWO = '''text("a.bin", "0123456789"); text("b.bin", "abcdefgh"); text("a.log", "r0             0x1\\t1\\n0x20000000:\\t0x11223344\\n");'''
SEEDS = [
 S('c08a', 'C08', 'program headers that are larger than the structure this program knows',
   'the program headers are walked with the size of the structure instead of the entry size given in the file',
   [(E, "        pObject->pgmHeaderOffset += pObject->pElfHeader->e_phentsize;", "        pObject->pgmHeaderOffset += sizeof(*pPgmHeader);")],
   'elf(52, 40, 2); seg(52, 1, 132, 0x100, 4, 4); seg(92, 1, 136, 0x200, 4, 4); n += 8; memcpy(B + 132, "abcdefgh", 8); NEED(!TRY(ElfLoad_FromMemory(M, B, n))); NEED(!r8(0x100) && val == \'a\'); NEED(!r8(0x203) && val == \'h\');'),
 S('c08b', 'C08', 'a file with more than 255 program headers',
   'the loaded entries are counted in a byte, so a file with a multiple of 256 loadable segments is rejected as having none',
   [(E, "    uint32_t          entryLoadCount;\n", "    uint8_t           entryLoadCount;\n")],
   'int i; elf(52, 32, 256); for (i = 0; i < 256; i++) seg(52 + 32 * i, 1, n, 0x1000 + 4 * i, 4, 4); n += 4; NEED(!TRY(ElfLoad_FromMemory(M, B, n))); NEED(!r8(0x1000 + 4 * 255));'),
 S('c08c', 'C08', 'a segment whose memory size is larger than its file size (the .bss part of it)',
   'segments that are larger in memory than in the file are skipped',
   [(E, "            pHeader->p_memsz >= pHeader->p_filesz);", "            pHeader->p_memsz == pHeader->p_filesz);")],
   'elf(52, 32, 2); seg(52, 1, 116, 0x100, 4, 4); seg(84, 1, 120, 0x200, 4, 64); n += 8; NEED(!TRY(ElfLoad_FromMemory(M, B, n))); NEED(!r8(0x200)); NEED(r8(0x204) == busErrorException);'),
 S('c08d', 'C08', 'a segment whose run-time address differs from its load address (initialised data)',
   'segments are placed at their virtual address when that is not 0',
   [(E, "    MemorySim_CreateRegion(pMemory, pPgmHeader->p_paddr, pPgmHeader->p_filesz);\n    MemorySim_LoadFromFlashImage(pMemory, pPgmHeader->p_paddr, pData, pPgmHeader->p_filesz);\n    MemorySim_MakeRegionReadOnly(pMemory, pPgmHeader->p_paddr);",
     "    Elf32_Addr address = pPgmHeader->p_vaddr ? pPgmHeader->p_vaddr : pPgmHeader->p_paddr;\n    MemorySim_CreateRegion(pMemory, address, pPgmHeader->p_filesz);\n    MemorySim_LoadFromFlashImage(pMemory, address, pData, pPgmHeader->p_filesz);\n    MemorySim_MakeRegionReadOnly(pMemory, address);")],
   'elf(52, 32, 1); seg(52, 1, 84, 0x100, 4, 4); p32(60, 0x20000000); n += 4; NEED(!TRY(ElfLoad_FromMemory(M, B, n))); NEED(!r8(0x100)); NEED(r8(0x20000000));'),
 S('c10a', 'C10', 'a binary dump that ends inside the header of a memory region',
   'one to three bytes left over at the end of the file are taken for a proper end',
   [(D, "    else if (bytesRead == 0)\n", "    else if (bytesRead < (int)sizeof(regionOrSentinel.sentinel))\n")],
   'dump(3, 0); n += 2; put("d"); NEED(TRY(CrashCatcherDump_ReadBinary(M, &C, "d")) == fileFormatException);'),
 S('c10b', 'C10', 'a memory region that starts at the address that equals the stack overflow marker',
   'the overflow marker is recognised without regard to the end of the file',
   [(D, "    return (bytesRead == sizeof(pSentinel->sentinel) && pSentinel->sentinel == CRASH_CATCHER_STACK_SENTINEL);", "    return (bytesRead >= (int)sizeof(pSentinel->sentinel) && pSentinel->sentinel == CRASH_CATCHER_STACK_SENTINEL);")],
   'dump(3, 0); w(0xACCE55ED); w(0xACCE55EF); B[n++] = 1; B[n++] = 2; put("d"); NEED(!TRY(CrashCatcherDump_ReadBinary(M, &C, "d"))); NEED(!r8(0xACCE55EE) && val == 2);'),
 S('c10c', 'C10', 'a dump whose flags word has further bits set besides the floating-point one',
   'the floating-point registers are only read when no other flag is set',
   [(D, "    if ((pObject->pContext->flags & CRASH_CATCHER_FLAGS_FLOATING_POINT) == 0)", "    if (pObject->pContext->flags != CRASH_CATCHER_FLAGS_FLOATING_POINT)")],
   'dump(3, 3); w(0x100); w(0x101); B[n++] = 7; put("d"); NEED(!TRY(CrashCatcherDump_ReadBinary(M, &C, "d"))); NEED(C.FPR[5] == 205); NEED(!r8(0x100) && val == 7);'),
 S('c10d', 'C10', 'a version 2 dump read into a context that was used before',
   'the stack pointers of a version 2 dump get their default after the registers were read, over the wrong slots',
   [(D, "        pObject->pContext->R[MSP] = DEFAULT_SP_VALUE;\n        pObject->pContext->R[PSP] = DEFAULT_SP_VALUE;\n", "        if (pObject->pContext->R[MSP] == 0)\n            pObject->pContext->R[MSP] = DEFAULT_SP_VALUE;\n        pObject->pContext->R[PSP] = DEFAULT_SP_VALUE;\n")],
   'C.R[MSP] = 5; dump(2, 0); put("d"); NEED(!TRY(CrashCatcherDump_ReadBinary(M, &C, "d"))); NEED(C.R[MSP] == DEFAULT_SP_VALUE && C.R[PSP] == DEFAULT_SP_VALUE);'),
 S('c11a', 'C11', 'a hex dump with the letter G where a digit belongs',
   'an upper-case G is taken for a digit',
   [(D, "    if (hexDigit >= 'A' && hexDigit <= 'F')", "    if (hexDigit >= 'A' && hexDigit <= 'G')")],
   'dump(3, 0); w(0x100); w(0x101); B[n++] = 7; { FILE* o; hexput("d", 0, ""); o = fopen("d", "r+"); fseek(o, 30, SEEK_SET); fputc(\'G\', o); fclose(o); } NEED(TRY(CrashCatcherDump_ReadHex(M, &C, "d")) == fileFormatException);'),
 S('c11b', 'C11', 'a blank line between the lines of a hex dump written with carriage returns',
   'at most two line end characters are skipped before a digit',
   [(D, "    char curr;\n    int  result;\n\n    do\n    {\n        result = fread(&curr, 1, 1, pObject->pFile);\n    } while (result == 1 && (curr == '\\r' || curr == '\\n'));",
     "    char curr;\n    int  result;\n    int  skipped = 0;\n\n    do\n    {\n        result = fread(&curr, 1, 1, pObject->pFile);\n    } while (result == 1 && (curr == '\\r' || curr == '\\n') && skipped++ < 2);")],
   'dump(3, 0); w(0x100); w(0x101); B[n++] = 7; hexput("d", 16, "\\r\\n\\r\\n"); NEED(!TRY(CrashCatcherDump_ReadHex(M, &C, "d"))); NEED(!r8(0x100) && val == 7);'),
 S('c11c', 'C11', 'a hex dump that ends with half a pair inside a memory region',
   'a single digit at the end of the file is completed with 0',
   [(D, "        if (result != 1)\n            break;\n        *pCurr++ =", "        if (result != 1)\n            loNibble = '0';\n        *pCurr++ =")],
   'dump(3, 0); w(0x100); w(0x102); B[n++] = 7; B[n++] = 8; { char t[4096]; FILE* o; size_t k; hexput("d", 0, ""); o = fopen("d", "r"); k = fread(t, 1, 4096, o); fclose(o); o = fopen("d", "w"); fwrite(t, 1, k - 1, o); fclose(o); } NEED(TRY(CrashCatcherDump_ReadHex(M, &C, "d")) == fileFormatException);'),
 S('c11d', 'C11', 'a character with the top bit set where a hex digit belongs',
   'the top bit of each character is ignored',
   [(D, "        *pHexDigit = curr;", "        *pHexDigit = curr & 0x7F;")],
   'dump(3, 0); w(0x100); w(0x101); B[n++] = 7; { FILE* o; hexput("d", 0, ""); o = fopen("d", "r+"); fseek(o, 30, SEEK_SET); fputc(0xB1, o); fclose(o); } NEED(TRY(CrashCatcherDump_ReadHex(M, &C, "d")) == fileFormatException);'),
 S('c18a', 'C18', 'an option whose name merely begins with that of a known one',
   'option names are compared as prefixes, so unknown options are accepted',
   [(CLN, '    else if (0 == strcasecmp(*ppArgs, "--dump"))', '    else if (0 == strncasecmp(*ppArgs, "--dump", 6))')],
   TWO + 'NEED(CL("--bin", "a.bin", "0x100", "--dumpformat", "a.log") == invalidArgumentException);'),
 S('c18b', 'C18', 'the same option given twice with a dump option between them',
   'a second base address is ignored once the dump has been named',
   [(CLN, "        pThis->baseAddress = strtoul(ppArgs[1], NULL, 0);", "        if (!pThis->pDumpFilename)\n            pThis->baseAddress = strtoul(ppArgs[1], NULL, 0);")],
   TWO + 'NEED(!CL("--dump", "a.log", "--bin", "a.bin", "0x100")); NEED(!r8(0x100) && val == \'0\');'),
 S('c18c', 'C18', 'an alias as the last option with its last parameter missing',
   'an alias lacking its redirect address reads past the end of the arguments',
   [(CLN, "    if (argc < 3)\n", "    if (argc < 3 - (pass == SECOND_PASS) - (pThis->pDumpFilename != NULL))\n")],
   TWO + 'NEED(CL("--bin", "a.bin", "0x100", "--dump", "a.log", "--alias", "0x300", "4") == invalidArgumentException);'),
 S('c18d', 'C18', 'a GDB log whose first line begins with the digits 634',
   'the hex dump reader is chosen by the first three characters',
   [(CLN, "            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1) &&\n            pHeader[3] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));", "            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));")],
   TWO + 'text("b.log", "634 bytes\\nr0             0x1\\t1\\n"); NEED(!CL("--dump", "b.log", "--bin", "a.bin", "0x100")); NEED(L.context.R[0] == 1);'),
 S('c18e', 'C18', 'an alias that cannot be created, after image and dump were loaded',
   'the memory object is torn down but its pointer stays behind when an alias fails',
   [(CLN, "        MemorySim_Uninit(pThis->pMemory);\n        pThis->pMemory = NULL;\n        __rethrow;", "        MemorySim_Uninit(pThis->pMemory);\n        if (getExceptionCode() != busErrorException)\n            pThis->pMemory = NULL;\n        __rethrow;")],
   TWO + 'NEED(CL("--dump", "a.log", "--bin", "a.bin", "0x100", "--alias", "0x1000", "4", "0x5000") == busErrorException); NEED(!L.pMemory);'),
 S('c18f', 'C18', 'an error that the command line code has already explained, such as a missing file',
   'the exit status tells of unexpected errors only',
   [('main/main.c', "            break;\n        }\n        returnValue = -1;", "            returnValue = -1;\n            break;\n        }")],
   TWO + 'NEED(program_main(6, PV("CrashDebug", "--bin", "a.bin", "0x100", "--dump", "a.log")) == 0); NEED(program_main(6, PV("CrashDebug", "--bin", "a.bin", "0x100", "--dump", "missing")) != 0);', PROGRAM),
 S('c18g', 'C18', 'an error raised by the debugger once memory has been loaded',
   'the loaded memory is kept when the debugger fails',
   [('main/main.c', "    CrashDebugCommandLine_Uninit(&commandLine);", "    if (returnValue == 0)\n        CrashDebugCommandLine_Uninit(&commandLine);")],
   TWO + '{ int before; PV("CrashDebug", "--bin", "a.bin", "0x100", "--dump", "a.log"); before = live; failing = busErrorException; NEED(program_main(6, pv) != 0); NEED(live == before); }', PROGRAM),
 S('c13a', 'C13', 'a file that cannot be repositioned to its start after its size was found',
   'a failing second seek leaves the image file open',
   [(CLN, "        __catch\n            __throw_msg(getExceptionCode(), \"Failed to get file size of \\\"%s\\\".\", pFilename);", "        __catch\n        {\n            if (ftell(pFile) != 0)\n                pFile = NULL;\n            __throw_msg(getExceptionCode(), \"Failed to get file size of \\\"%s\\\".\", pFilename);\n        }")],
   TWO + 'seekAt = 2; NEED(CL("--dump", "a.log", "--bin", "a.bin", "0x100") == fileException); NEED(opened == 0);'),
 S('c13b', 'C13', 'an allocation failing while an image is loaded into memory',
   'the buffer with the image is not released when loading it fails with out of memory',
   [(CLN, "    __catch\n    {\n        free(fileData.pData);\n        __rethrow;", "    __catch\n    {\n        if (getExceptionCode() != outOfMemoryException)\n            free(fileData.pData);\n        __rethrow;")],
   TWO + 'live = 0; countdown = 4; NEED(CL("--dump", "a.log", "--bin", "a.bin", "0x100") == outOfMemoryException); NEED(live == 0);'),
 S('c13c', 'C13', 'a truncated dump file',
   'a dump that turns out to be malformed leaves its file open',
   [(D, "        readDump(&object);\n        destructObject(&object);\n    }\n    __catch\n    {\n        destructObject(&object);\n        __rethrow;\n    }\n}\n\nstatic int binaryRead", "        readDump(&object);\n        destructObject(&object);\n    }\n    __catch\n    {\n        if (getExceptionCode() != stackOverflowException)\n            destructObject(&object);\n        __rethrow;\n    }\n}\n\nstatic int binaryRead")],
   'dump(3, 0); w(0xACCE55ED); put("d"); NEED(TRY(CrashCatcherDump_ReadBinary(M, &C, "d")) == stackOverflowException); NEED(opened == 0);'),
 S('c13d', 'C13', 'a file with an image that is shorter than reported',
   'an image file that cannot be read in full is closed twice',
   [(CLN, "        bytesRead = fread(pBuffer, 1, fileSize, pFile);\n        if ((long)bytesRead != fileSize)\n            __throw_msg(fileException, \"Failed to read \\\"%s\\\".\", pFilename);\n\n        fclose(pFile);",
     "        bytesRead = fread(pBuffer, 1, fileSize, pFile);\n        fclose(pFile);\n        if ((long)bytesRead != fileSize)\n            __throw_msg(fileException, \"Failed to read \\\"%s\\\".\", pFilename);\n")],
   TWO + 'readAt = 1; NEED(CL("--dump", "a.log", "--bin", "a.bin", "0x100") == fileException); NEED(opened == 0);'),
 S('c12a', 'C12', 'a log in which the last single precision register is named',
   's31 is not recognised as a floating-point register, so it gets its rounded decimal value and does not raise the floating-point flag',
   [(G, "           registerOffset <= offsetof(RegisterContext, FPR[S31]);", "           registerOffset < offsetof(RegisterContext, FPR[S31]);")],
   'text("g", "s31            1\\t(raw 0x3f800000)\\n"); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(C.FPR[31] == 0x3f800000 && C.flags);'),
 S('c12b', 'C12', 'a symbol with nested angle brackets and a blank behind the inner ones, as for C++ templates',
   'the first closing bracket ends the symbol however deep it is nested',
   [(G, "            nestingLevel--;", "            nestingLevel = 0;")],
   'text("g", "0x20000000 <f<int>(a, 7)>:\\t0x11223344\\t0x55667788\\n0x20000008 <g<h<int>, 9>+4>:\\t0x99aabbcc\\n"); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(!r32(0x20000000) && val == 0x11223344); NEED(!r32(0x20000008) && val == 0x99aabbcc);'),
 S('c12c', 'C12', 'two dumps in the log, the second of memory at lower addresses than the first',
   'only a jump to a higher address starts a new region',
   [(G, "    if (pParseResults->address != pObject->nextExpectedAddress)", "    if (pParseResults->address > pObject->nextExpectedAddress || pObject->regionSize == 0)")],
   'text("g", "0x20000000:\\t0x11223344\\n0x10000000:\\t0x55667788\\n"); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(!r32(0x20000000) && val == 0x11223344); NEED(!r32(0x10000000) && val == 0x55667788);'),
 S('c12d', 'C12', 'a line of the log of more than 255 characters (a long symbol)',
   'only 255 characters of a line are read at a time',
   [(G, "    while (NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))", "    while (NULL != fgets(object.lineText, sizeof(object.lineText) / 4, pLogFile))")],
   'char t[1024]; char s[400]; memset(s, 65, 300); s[300] = 0; sprintf(t, "0x20000000 <%s>:\\t0x11223344\\n", s); text("g", t); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(!r32(0x20000000) && val == 0x11223344);'),
 S('c12e', 'C12', 'a log that gives the main stack pointer',
   'the stack pointers get their default values after the registers were parsed',
   [(G, "        initPSPandMSP(pContext);\n        parseLines(pMem, pContext, pLogFile, firstPassHandler);\n        rewindLogFileAndThrowOnError(pLogFile);\n",
     "        parseLines(pMem, pContext, pLogFile, firstPassHandler);\n        rewindLogFileAndThrowOnError(pLogFile);\n        initPSPandMSP(pContext);\n")],
   'text("g", "msp            0x10000100\\t0x10000100\\n"); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(C.R[MSP] == 0x10000100 && C.R[PSP] == DEFAULT_SP_VALUE);'),
 S('c12f', 'C12', 'a context whose flags word has other bits set, and a log with floating-point registers',
   'the other flags of the context are cleared by a floating-point register',
   [(G, "        pObject->pContext->flags |= CRASH_CATCHER_FLAGS_FLOATING_POINT;", "        pObject->pContext->flags = CRASH_CATCHER_FLAGS_FLOATING_POINT;")],
   'C.flags = 0x100; text("g", "s0             1\\t(raw 0x3f800000)\\n"); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(C.flags == 0x101);'),
 S('c12h', 'C12', 'an address with the hex digit f between lower-case letters',
   'f is not taken for a hex digit, so the line is passed over',
   [(G, "            (c >= 'a' && c <= 'f') ||", "            (c >= 'a' && c < 'f') ||")],
   'text("g", "0x2000f000:\\t0x11223344\\n"); NEED(!TRY(GdbLogParse(M, &C, "g"))); NEED(!r32(0x2000f000) && val == 0x11223344);'),
 S('c13e', 'C13', 'an allocation failing while the regions of a GDB log are created',
   'the log stays open when its memory cannot be created',
   [(G, "        if (pLogFile)\n            fclose(pLogFile);\n        __rethrow;", "        if (pLogFile && getExceptionCode() != outOfMemoryException)\n            fclose(pLogFile);\n        __rethrow;")],
   'text("g", "0x2000f000:\\t0x11223344\\n"); countdown = 1; NEED(TRY(GdbLogParse(M, &C, "g")) == outOfMemoryException); NEED(opened == 0);'),
]
