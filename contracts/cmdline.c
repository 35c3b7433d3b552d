/* Layout of the command line object, taken from the real header by the compiler. */
#include <CrashDebugCommandLine.h>
#include <stddef.h>
const long vf_cmdline[] = { sizeof(CrashDebugCommandLine), offsetof(CrashDebugCommandLine, pElfFilename), offsetof(CrashDebugCommandLine, pBinFilename),
    offsetof(CrashDebugCommandLine, pDumpFilename), offsetof(CrashDebugCommandLine, pMemory), offsetof(CrashDebugCommandLine, context), offsetof(CrashDebugCommandLine, baseAddress) };
