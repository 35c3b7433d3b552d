MP = 'libCrashDebug/src/mriPlatform.c'
SI = 'libCrashDebug/src/StandardIComm.c'
TC = 'include/try_catch.h'
PRE = '''#include <stdio.h>
#include <string.h>
#include <signal.h>
#include <mriPlatform.h>
#include <StandardIComm.h>
#include <Console.h>
#include <buffer.h>
#include <gdb_console.h>
#include <platforms.h>
static char out[65536], pkt[65536]; static unsigned char in[512]; static int inPos;
void Buffer_WriteChar(Buffer* b, char c) { char t[2] = {c, 0}; strcat(pkt, t); }
void Buffer_WriteByteAsHex(Buffer* b, uint8_t c) { char t[4]; sprintf(t, "%02x", c); strcat(pkt, t); }
uint8_t Buffer_ReadByteAsHex(Buffer* b) { return in[inPos++]; }
void WriteStringToGdbConsole(const char* s) { strcat(out, s); }
void WriteHexValueToGdbConsole(uint32_t v) { char t[16]; sprintf(t, "0x%08X", v); strcat(out, t); }
void __mriInit(const char* p) {}
static void (*core)(void);
void __mriDebugException(void) { if (core) core(); }
static int conData, conThrow, conByte, conSent;
int Console_HasStdInDataToRead(void) { if (conThrow) __throw(conThrow); return conData; }
int Console_ReadStdIn(void) { if (conThrow) __throw(conThrow); return conByte; }
void Console_WriteStdOut(int c) { conSent = c; }
static uint32_t word[16], bad[16]; /* by (address >> 2) & 15 */
static uint32_t r32(IMemory* m, uint32_t a) { if (bad[(a >> 2) & 15]) __throw(bad[(a >> 2) & 15]); return word[(a >> 2) & 15]; }
static uint16_t r16(IMemory* m, uint32_t a) { return r32(m, a); }
static uint8_t r8(IMemory* m, uint32_t a) { return r32(m, a); }
static void w32(IMemory* m, uint32_t a, uint32_t v) { if (bad[(a >> 2) & 15]) __throw(bad[(a >> 2) & 15]); word[(a >> 2) & 15] = v; }
static void w16(IMemory* m, uint32_t a, uint16_t v) { w32(m, a, v); }
static void w8(IMemory* m, uint32_t a, uint8_t v) { w32(m, a, v); }
static IMemoryVTable vt = {r32, r16, r8, w32, w16, w8};
static IMemory mem = {&vt};
static RegisterContext ctx;
'''
SEEDS = [
 dict(id='c14a', property='C14', needs='a context with flag bits other than bit 0 set and floating point absent',
  what='any flag bit makes the register packet carry floating point registers, so the packet no longer matches the target description of integer-only dumps',
  edits=[(MP, '''    if (hasFPURegisters())
        writeBytesToBufferAsHex(pBuffer, g_pContext->FPR, sizeof(g_pContext->FPR));''', '''    if (g_pContext->flags)
        writeBytesToBufferAsHex(pBuffer, g_pContext->FPR, sizeof(g_pContext->FPR));''')],
  demo=PRE + '''int main(void) { Buffer b; ctx.flags = 2; mriPlatform_Init(&ctx, &mem); Platform_CopyContextToBuffer(&b); return strlen(pkt) != 8 * TOTAL_REG_COUNT; }
'''),
 dict(id='c14b', property='C14', needs='the debugger writing registers of a dump with floating point',
  what='receiving registers stops one byte short of the floating point block, so the top byte of FPSCR keeps its old value',
  edits=[(MP, '''    for (i = 0 ; i < byteCount; i++)
        *pByte++ = Buffer_ReadByteAsHex(pBuffer);''', '''    for (i = 0 ; i < (byteCount & 0x7F) + (byteCount > 0x7F ? 0x7F : 0); i++)
        *pByte++ = Buffer_ReadByteAsHex(pBuffer);''')],
  demo=PRE + '''int main(void) { Buffer b; int i; for (i = 0; i < 512; i++) in[i] = i * 7 + 1; ctx.flags = 1; mriPlatform_Init(&ctx, &mem); Platform_CopyContextFromBuffer(&b);
 return inPos != 4 * (TOTAL_REG_COUNT + TOTAL_FPREG_COUNT) || memcmp(ctx.FPR, in + 4 * TOTAL_REG_COUNT, 4 * TOTAL_FPREG_COUNT) != 0; }
'''),
 dict(id='c15a', property='C15', needs='a forced hard fault whose fault address register cannot be read',
  what='an unreadable bus fault address ends the whole fault report instead of only omitting the address',
  edits=[(MP, '''            uint32_t busFaultAddressRegister = IMemory_Read32(g_pMemory, BFAR);
            WriteStringToGdbConsole("\\n    Fault Address: ");
            WriteHexValueToGdbConsole(busFaultAddressRegister);
        }
        __catch
        {
        }''', '''            uint32_t busFaultAddressRegister = IMemory_Read32(g_pMemory, BFAR);
            WriteStringToGdbConsole("\\n    Fault Address: ");
            WriteHexValueToGdbConsole(busFaultAddressRegister);
        }
        __catch
        {
            return;
        }''')],
  demo=PRE + '''int main(void) { ctx.exceptionPSR = 5; mriPlatform_Init(&ctx, &mem); word[10] = 0x8200; bad[14] = 9; Platform_DisplayFaultCauseToGdbConsole(); return strstr(out, "Precise Data Access") == NULL; }
'''),
 dict(id='c15b', property='C15', needs='a usage fault with one of the two upper status bits and no lower ones',
  what='the usage fault status is masked to eight bits, so divide by zero and unaligned access vanish from the report',
  edits=[(MP, 'usageFaultStatusRegister = (IMemory_Read32(g_pMemory, CFSR) >> 16) & 0xFFFF;', 'usageFaultStatusRegister = (uint8_t)(IMemory_Read32(g_pMemory, CFSR) >> 16);')],
  demo=PRE + '''int main(void) { ctx.exceptionPSR = 6; mriPlatform_Init(&ctx, &mem); word[10] = 0x02000000; Platform_DisplayFaultCauseToGdbConsole(); return strstr(out, "Divide by Zero") == NULL; }
'''),
 dict(id='c16a', property='C16', needs='a query between a faulting access and the end of the packet, with two faults',
  what='the query only takes one fault off the record, so after two faults the next command is reported as faulting too',
  edits=[(MP, '''    int memoryFaultEncountered = g_memoryFaultEncountered;
    g_memoryFaultEncountered = 0;
    return memoryFaultEncountered;''', '''    int memoryFaultEncountered = g_memoryFaultEncountered;
    if (memoryFaultEncountered)
        g_memoryFaultEncountered--;
    return memoryFaultEncountered;''')],
  demo=PRE + '''int Platform_WasMemoryFaultEncountered(void); uint8_t Platform_MemRead8(const void*);
int main(void) { mriPlatform_Init(&ctx, &mem); bad[0] = 3; Platform_MemRead8((void*)0); Platform_MemRead8((void*)0);
 if (!Platform_WasMemoryFaultEncountered()) return 1; return Platform_WasMemoryFaultEncountered() != 0; }
'''),
 dict(id='c16b', property='C16', needs='a 16-bit read that faults after the value was set up',
  what='a faulting half-word read leaves by returning from inside the try block on success, so the handler chain keeps a dead frame',
  edits=[(MP, '''    uint16_t retVal = 0;
    __try
        retVal = IMemory_Read16(g_pMemory, (uint32_t)(unsigned long)pv);
    __catch
        g_memoryFaultEncountered++;
    return retVal;''', '''    uint16_t retVal = 0;
    __try
    {
        retVal = IMemory_Read16(g_pMemory, (uint32_t)(unsigned long)pv);
        if (retVal == 0xBAAD)
            return retVal;
    }
    __catch
        g_memoryFaultEncountered++;
    return retVal;''')],
  demo=PRE + '''uint16_t Platform_MemRead16(const void*);
int main(void) { mriPlatform_Init(&ctx, &mem); word[0] = 0xBAAD; Platform_MemRead16((void*)0); return g_pExceptionHandlers != NULL; }
'''),
 dict(id='c22a', property='C22', needs='an error from the console while polling before the first byte',
  what='an error while polling is reported as data available, so the debugger blocks in a read',
  edits=[(SI, '''    volatile int hasData = FALSE;
''', '''    volatile int hasData = TRUE;
'''), (SI, '''        clearExceptionCode();
        return FALSE;''', '''        clearExceptionCode();''')],
  demo=PRE + '''int main(void) { IComm* p = StandardIComm_Init(); conThrow = 5; return IComm_HasReceiveData(p) != 0; }
'''),
 dict(id='c22b', property='C22', needs='a read error as the very first receive',
  what='the connection counts as established although the first receive failed',
  edits=[(SI, '''    int c = Console_ReadStdIn();
    pThis->hasGdbConnected = TRUE;
    return c;''', '''    int c;
    pThis->hasGdbConnected = TRUE;
    c = Console_ReadStdIn();
    return c;''')],
  demo=PRE + '''int main(void) { IComm* volatile p = StandardIComm_Init(); conThrow = 5; __try IComm_ReceiveChar(p); __catch clearExceptionCode(); conThrow = 0; return IComm_IsGdbConnected(p) != 0; }
'''),
 dict(id='c22d', property='C22', needs='waiting for a connection turned off and the debugger core returning once',
  what='with waiting turned off the session ends after the first run of the debugger core, although the interface has not asked to stop',
  edits=[(MP, '''    } while (!IComm_ShouldStopRun(pComm));''', '''    } while (g_shouldWaitForGdbConnect && !IComm_ShouldStopRun(pComm));''')],
  demo=PRE + '''static int runs, asked; static void one(void) { runs++; }
static int stop(IComm* c) { return ++asked == 3; }
int main(void) { static ICommVTable v; static IComm c = {&v}; v.shouldStopRun = stop; mriPlatform_Init(&ctx, &mem); mriPlatform_setWaitForGdbConnect(0); core = one; mriPlatform_Run(&c); return runs != 3; }
'''),
 dict(id='c22e', property='C22', needs='a packet that fills the packet buffer to its last bytes',
  what='the packet buffer is smaller than the size reported to the debugger core',
  edits=[(MP, '''static char             g_packetBuffer[16 * 1024];''', '''#define PACKET_SIZE     (16 * 1024)
static char             g_packetBuffer[16 * 1000];'''), (MP, '''    return sizeof(g_packetBuffer);''', '''    return PACKET_SIZE;''')],
  demo=PRE + '''int main(void) { uint32_t n = Platform_GetPacketBufferSize(), i; volatile char* p = Platform_GetPacketBuffer(); for (i = 0; i < n; i++) p[i] = 1; return 0; }
'''),
 dict(id='c22c', property='C22', needs='a continue request with an address',
  what='the continue-at-address request stores the address into the program counter of the dump',
  edits=[(MP, '''       so just ignore this request. */''', '''       so just ignore this request. */
    if (newPC & ~1)
        g_pContext->R[PC] = newPC & ~1;''')],
  demo=PRE + '''void Platform_SetProgramCounter(uint32_t); int main(void) { mriPlatform_Init(&ctx, &mem); ctx.R[PC] = 4; Platform_SetProgramCounter(0x1001); return ctx.R[PC] != 4; }
'''),
 dict(id='c17a', property='C17', srcs=['libcommon/src/try_catch.c'], stubs=True, needs='a message longer than the message buffer minus one',
  what='a message of exactly the buffer size is left without terminator',
  edits=[(TC, 'snprintf(g_exceptionMessage, sizeof(g_exceptionMessage), __VA_ARGS__); \\', 'if (snprintf(g_exceptionMessage, sizeof(g_exceptionMessage), __VA_ARGS__) == sizeof(g_exceptionMessage)) g_exceptionMessage[sizeof(g_exceptionMessage)-1] = \' \'; \\')],
  demo='''#include <string.h>
#include <stdio.h>
#include <try_catch.h>
int main(void) { static char b[1025]; volatile int rc = 1; memset(b, 'x', 1024); __try __throw_msg(3, "%s", b); __catch rc = memchr(getExceptionMessage(), 0, 1024) == NULL; return rc; }
'''),
 dict(id='c17b', property='C17', srcs=['libcommon/src/try_catch.c'], stubs=True, needs='a second try block after a handled exception of the same function',
  what='entering a try block keeps the code of an earlier handled exception, so a block in which nothing is thrown runs its handler',
  edits=[(TC, '''            clearExceptionCode(); \\
            g_exceptionMessage[0] = '\\0'; \\''', '''            if (!g_pExceptionHandlers->pPrevious) clearExceptionCode(); \\
            g_exceptionMessage[0] = '\\0'; \\''')],
  demo='''#include <stdio.h>
#include <try_catch.h>
int main(void) { volatile int n = 0; __try { __try __throw(3); __catch n = 1; __try n = 2; __catch n = 3; } __catch { } return n != 2; }
'''),
]
