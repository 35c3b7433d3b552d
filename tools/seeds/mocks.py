M = ['libmocks/src/MallocFailureInject.c']
PS = ['libmocks/src/printfSpy.c']
FF = ['libmocks/src/FileFailureInject.c']
SEEDS = [
 dict(id='c19a', property='C19', srcs=M, needs='an allocation number above 255',
  what='the countdown is kept in eight bits, so asking for allocation 256 or later fails the wrong allocation',
  edits=[('libmocks/src/MallocFailureInject.c', 'unsigned int   g_allocationToFail = 0;', 'unsigned char  g_allocationToFail = 0;')],
  demo='''#include <stdio.h>
#include "MallocFailureInject.h"
int main(void) { int i; MallocFailureInject_FailAllocation(300);
 for (i = 1; i <= 400; i++) { void* p = malloc(8); if ((p == NULL) != (i == 300)) { printf("allocation %d\\n", i); return 1; } free(p); }
 return 0; }
'''),
 dict(id='c19b', property='C19', srcs=M, needs='a realloc to size zero while a failure is pending',
  what='a reallocation to size zero is treated as a free and not counted',
  edits=[('libmocks/src/MallocFailureInject.c', '''static void* mock_realloc(void* ptr, size_t size)
{
    if (''', '''static void* mock_realloc(void* ptr, size_t size)
{
    if (size == 0)
        return realloc(ptr, size);
    if (''')],
  demo='''#include <stdio.h>
#include "MallocFailureInject.h"
int main(void) { void *a, *b; MallocFailureInject_FailAllocation(2); a = malloc(4); b = realloc(a, 0); a = malloc(4); return a == NULL; }
'''),
 dict(id='c20a', property='C20', srcs=PS, needs='hooking again with the same size while outputs are recorded',
  what='re-hooking with an unchanged size keeps the buffers of the previous session, so old outputs reappear in the history',
  edits=[('libmocks/src/printfSpy.c', '''    printfSpy_Unhook();

    _AllocateAndInitBuffers(BufferSize);
''', '''    if (g_bufferSize != BufferSize + 1)
    {
        printfSpy_Unhook();
    }

    _AllocateAndInitBuffers(BufferSize);
''')],
  demo='''#include <stdio.h>
#include "printfSpy.h"
int main(void) { printfSpy_Hook(16); printf("one"); printf("two"); printfSpy_Hook(16); printf("three");
 if (printfSpy_GetNthOutput(2) != NULL || printfSpy_GetNthOutput(4) != NULL) return 1; if (printfSpy_GetNthOutput(3) != NULL) return 1; return 0; }
'''),
 dict(id='c20b', property='C20', srcs=PS, needs='stdout and stderr outputs mixed within four calls',
  what='a captured call drops the output of the other stream that shares its slot even when it is still in the history depth',
  edits=[('libmocks/src/printfSpy.c', '''    g_bufferIndex = _nextIndex();
    g_callCount++;
''', '''    if (WrittenSize >= 0)
    {
        g_bufferIndex = _nextIndex();
        g_callCount++;
    }
    if (pFile == stderr && g_stdoutBuffers[g_bufferIndex] != NULL && g_callCount > OUTPUT_COUNT)
    {
        g_stdoutBuffers[g_bufferIndex][0] = '\\0';
    }
''')],
  demo='''#include <stdio.h>
#include <string.h>
#include "printfSpy.h"
int main(void) { int i; printfSpy_Hook(16); for (i = 0; i < 4; i++) printf("out%d", i); fprintf(stderr, "err");
 if (strcmp(printfSpy_GetNthOutput(4), "out1")) return 1; return 0; }
'''),
 dict(id='c21a', property='C21', srcs=FF, needs='fread let through several times, then armed again for all calls',
  what='after a counted fread failure was configured, a later freadFail keeps the old countdown and lets calls through',
  edits=[('libmocks/src/FileFailureInject.c', '''    g_freadToFail = FAIL_ALL_CALLS;
''', '''    if (g_freadToFail <= 0)
    {
        g_freadToFail = FAIL_ALL_CALLS;
    }
''')],
  demo='''#include <stdio.h>
#include "FileFailureInject.h"
int main(void) { char b[8]; FILE* f = tmpfile(); freadFail(0); freadToFail(3); if (fread(b, 1, 1, f) != 0) return 2; freadFail(77); return fread(b, 1, 4, f) != 77; }
'''),
 dict(id='c21b', property='C21', srcs=FF, needs='a scripted line exactly as long as the buffer',
  what='a scripted line that exactly fills the buffer is not terminated',
  edits=[('libmocks/src/FileFailureInject.c', '''    strncpy(str, *g_ppFgetsCurr++, size);
    str[size-1] = '\\0';
''', '''    size_t length = strlen(*g_ppFgetsCurr);
    if (length > (size_t)size)
    {
        length = size - 1;
    }
    memcpy(str, *g_ppFgetsCurr++, length);
    str[length] = '\\0';
''')],
  demo='''#include <stdio.h>
#include <string.h>
#include "FileFailureInject.h"
int main(void) { const char* l[2] = {"abcd", "efgh"}; char b[8]; memset(b, 'x', 8); fgetsSetData(l, 2); if (!fgets(b, 4, stdin)) return 1; return memcmp(b, "abc\\0xxxx", 8) != 0; }
'''),
]
