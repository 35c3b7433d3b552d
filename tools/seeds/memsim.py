MS = 'libCrashDebug/src/MemorySim.c'
SRC = [MS, 'libcommon/src/try_catch.c', 'main/MockDefaults.c']
PRE = '''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <MemorySim.h>
#include <try_catch.h>
extern void* (*hook_malloc)(size_t); extern void* (*hook_realloc)(void*, size_t); extern void (*hook_free)(void*);
#undef malloc
#undef realloc
#undef free
static IMemory* M; static int countdown;
static void* mal(size_t n) { void* p; if (countdown && !--countdown) return 0; p = malloc(n); if (p) memset(p, 0xA5, n); return p; }
static void* rea(void* q, size_t n) { if (countdown && !--countdown) return 0; return realloc(q, n); }
static const void* watched; static int wfreed;
static void fre(void* p) { if (p && p == watched) wfreed++; free(p); }
static volatile unsigned val;
#define TRY(e) ({ volatile int c_ = 0; clearExceptionCode(); __try { e; } __catch { c_ = getExceptionCode(); clearExceptionCode(); } c_; })
static void init(void) { hook_malloc = mal; hook_realloc = rea; hook_free = fre; M = MemorySim_Init(); }
static int region(unsigned a, unsigned n) { return TRY(MemorySim_CreateRegion(M, a, n)); }
static int alias(unsigned a, unsigned r, unsigned n) { return TRY(MemorySim_CreateAlias(M, a, r, n)); }
static int ro(unsigned a) { return TRY(MemorySim_MakeRegionReadOnly(M, a)); }
static int r32(unsigned a) { return TRY(val = IMemory_Read32(M, a)); }
static int r16(unsigned a) { return TRY(val = IMemory_Read16(M, a)); }
static int r8(unsigned a) { return TRY(val = IMemory_Read8(M, a)); }
static int w32(unsigned a, unsigned v) { return TRY(IMemory_Write32(M, a, v)); }
static int w16(unsigned a, unsigned v) { return TRY(IMemory_Write16(M, a, v)); }
static int w8(unsigned a, unsigned v) { return TRY(IMemory_Write8(M, a, v)); }
static int cnt(unsigned a) { return TRY(val = MemorySim_GetFlashReadCount(M, a)); }
static int hit(void) { return MemorySim_WasWatchpointEncountered(M); }
static int setw(unsigned a, unsigned n, int t) { return TRY(MemorySim_SetHardwareWatchpoint(M, a, n, t)); }
static int clrw(unsigned a, unsigned n, int t) { return TRY(MemorySim_ClearHardwareWatchpoint(M, a, n, t)); }
static int setb(unsigned a, unsigned n) { return TRY(MemorySim_SetHardwareBreakpoint(M, a, n)); }
static int clrb(unsigned a, unsigned n) { return TRY(MemorySim_ClearHardwareBreakpoint(M, a, n)); }
#define NEED(c) do { if (!(c)) { printf("line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''


def S(id, prop, needs, what, edits, body):
    return dict(id=id, property=prop, srcs=SRC, stubs=True, needs=needs, what=what, edits=[(MS, a, b) for (a, b) in edits],
                demo=PRE + 'int main(void) { init();\n' + body + '\nreturn 0; }\n')


MATCH = "if (address >= pCurr->baseAddress && (uint64_t)address + size <= (uint64_t)pCurr->baseAddress + pCurr->size)"
SEEDS = [
 S('c01a', 'C01', 'a region that ends at the top of the address space, or a span that wraps around it',
   'the span test is done in 32 bits: accesses to a region ending at 2^32 fail and spans wrapping around zero are accepted',
   [(MATCH, "if (address >= pCurr->baseAddress && address + size <= pCurr->baseAddress + pCurr->size)")],
   'NEED(!region(0xFFFFFF00, 0x100)); NEED(!w32(0xFFFFFFF0, 5)); NEED(!r32(0xFFFFFFF0) && val == 5);'),
 S('c01b', 'C01', 'an alias that is shorter than what follows its target byte, and an access crossing the end of the alias',
   'only the first byte of an access has to lie inside an alias, so spans crossing the end of an alias complete',
   [(MATCH, "if (address >= pCurr->baseAddress && (uint64_t)address + (pCurr->isAlias ? 1 : size) <= (uint64_t)pCurr->baseAddress + pCurr->size)")],
   'NEED(!region(0x100, 16)); NEED(!alias(0x200, 0x104, 8)); NEED(!r32(0x204)); NEED(r32(0x206) == busErrorException); NEED(w32(0x205, 1) == busErrorException);'),
 S('c01c', 'C01', 'regions created in descending address order',
   'the search stops at the first region that lies above the address as if the list were sorted',
   [("        MemoryRegion* pNext = pCurr->pNext;\n        " + MATCH, "        MemoryRegion* pNext = pCurr->pNext;\n        if (address < pCurr->baseAddress && pNext && pNext->baseAddress > pCurr->baseAddress)\n            break;\n        " + MATCH)],
   'NEED(!region(0x100, 16)); NEED(!region(0x300, 16)); NEED(!region(0x400, 16)); NEED(!region(0x200, 16)); NEED(!w32(0x200, 7)); NEED(!r32(0x200) && val == 7); NEED(!r32(0x30C));'),
 S('c01d', 'C01', 'an unaligned 16-bit write whose second byte lies outside the region',
   'an unaligned 16-bit write is done bytewise, so one that crosses the end of a region stores its first byte before the bus error',
   [("    *(uint16_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint16_t), WRITING, ENABLE_WATCHPOINT_CHECK) = value;",
     "    if (address & 1)\n    {\n        *(uint8_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint8_t), WRITING, DISABLE_WATCHPOINT_CHECK) = (uint8_t)value;\n    }\n    *(uint16_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint16_t), WRITING, ENABLE_WATCHPOINT_CHECK) = value;")],
   'NEED(!region(0x100, 16)); NEED(!w16(0x103, 0x1234)); NEED(w16(0x10F, 0x5678) == busErrorException); NEED(!r8(0x10F) && val == 0);'),
 S('c02a', 'C02', 'a region whose size is not a multiple of four, in memory that was used before',
   'the last one to three bytes of a new region keep whatever the allocator returned',
   [("    memset(pvAlloc, 0, size);\n", "    memset(pvAlloc, 0, size & ~(size_t)3);\n")],
   'NEED(!region(0x100, 7)); NEED(!r8(0x103) && val == 0); NEED(!r8(0x106) && val == 0);'),
 S('c02b', 'C02', 'a 32-bit read of an address that is not a multiple of two',
   'an odd 32-bit read returns the bytes of the preceding even address',
   [("    return *(uint32_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint32_t), READING, ENABLE_WATCHPOINT_CHECK);",
     "    uint8_t* pByte = getDataPointer((MemorySim*)pMemory, address, sizeof(uint32_t), READING, ENABLE_WATCHPOINT_CHECK);\n    return *(uint32_t*)(pByte - (address & 1));")],
   'NEED(!region(0x100, 16)); NEED(!w32(0x104, 0x44332211)); NEED(!w32(0x108, 0x88776655)); NEED(!r32(0x106) && val == 0x66554433); NEED(!r32(0x105) && val == 0x55443322);'),
 S('c03a', 'C03', 'making a region of a single byte read-only',
   'a region with no complete half-word stays writable after having been made read-only',
   [("    if (!pRegion->pReadCounts)\n        allocateReadCountArrayForReadOnlyRegion(pRegion);\n    pRegion->isReadOnly = 1;",
     "    if (!pRegion->pReadCounts)\n        allocateReadCountArrayForReadOnlyRegion(pRegion);\n    pRegion->isReadOnly = pRegion->readCounts > 0;")],
   'NEED(!region(0x100, 1)); NEED(!region(0x200, 2)); NEED(!ro(0x200)); NEED(w8(0x201, 1) == busErrorException); NEED(!ro(0x100)); NEED(w8(0x100, 1) == busErrorException);'),
 S('c03b', 'C03', 'two regions that share their base address, one longer than the other',
   'making one region read-only makes every later region with the same base address read-only too',
   [("        allocateReadCountArrayForReadOnlyRegion(pRegion);\n    pRegion->isReadOnly = 1;",
     "        allocateReadCountArrayForReadOnlyRegion(pRegion);\n    baseAddress = pRegion->baseAddress;\n    for (pRegion = pThis->pHeadRegion ; pRegion ; pRegion = pRegion->pNext)\n    {\n        if (pRegion->baseAddress == baseAddress)\n            pRegion->isReadOnly = 1;\n    }")],
   'NEED(!region(0x100, 4)); NEED(!region(0x100, 16)); NEED(!ro(0x100)); NEED(w8(0x100, 1) == busErrorException); NEED(!w8(0x108, 1));'),
 S('c04a', 'C04', 'an alias whose redirect address lies inside its target region, longer than what is left of it',
   'an alias is clipped to the whole size of its target, so it reaches past the end when it starts in the middle',
   [("        uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);", "        uint32_t maxSize = pRedirect->size;")],
   'NEED(!region(0x100, 16)); NEED(!alias(0x200, 0x10C, 16)); NEED(!w32(0x200, 3)); NEED(w8(0x204, 1) == busErrorException);'),
 S('c04b', 'C04', 'an alias whose redirect address is not aligned to the size of the alias',
   'the offset inside an alias is merged into the redirect address instead of added',
   [("                *pAddress = (address - pCurr->baseAddress) + pCurr->redirectAddress;", "                *pAddress = (address - pCurr->baseAddress) | pCurr->redirectAddress;")],
   'NEED(!region(0x100, 32)); NEED(!alias(0x200, 0x104, 8)); NEED(!w8(0x204, 0x77)); NEED(!r8(0x108) && val == 0x77);'),
 S('c05a', 'C05', 'two points with the same kind and address but different sizes',
   'points are told apart by kind and address only, so a second size is never added and clearing removes the wrong one',
   [("    return 0 == memcmp(p1, p2, sizeof(*p1));", "    return 0 == memcmp(p1, p2, sizeof(p1->type) + sizeof(p1->startAddress));")],
   'NEED(!region(0x100, 32)); NEED(!setw(0x104, 1, WATCHPOINT_WRITE)); NEED(!setw(0x104, 4, WATCHPOINT_WRITE)); NEED(!w32(0x104, 1) && hit());'),
 S('c05b', 'C05', 'several points on one address, the exact one not being the first',
   'the search for an exact match ends at the first point with the same start address, so points are added twice and not found when cleared',
   [("    else if (pKey->startAddress < pCurr->startAddress)", "    else if (pKey->startAddress <= pCurr->startAddress)")],
   'NEED(!region(0x100, 32)); NEED(!setw(0x104, 4, WATCHPOINT_WRITE)); NEED(!setw(0x104, 2, WATCHPOINT_WRITE)); NEED(!clrw(0x104, 4, WATCHPOINT_WRITE)); NEED(!clrw(0x104, 2, WATCHPOINT_WRITE)); NEED(!w16(0x104, 1)); NEED(!hit());'),
 S('c05c', 'C05', 'an allocation failure while a point is set, followed by setting it again',
   'the capacity is raised before the allocation is known to have succeeded, so the next point is stored past the end of the array',
   [("        Watchpoint* pRealloc = realloc(pRegion->pWatchpoints, sizeof(*pRegion->pWatchpoints) * requiredSize);\n        if (!pRealloc)",
     "        Watchpoint* pRealloc = realloc(pRegion->pWatchpoints, sizeof(*pRegion->pWatchpoints) * requiredSize);\n        pRegion->watchpointAlloc = requiredSize;\n        if (!pRealloc)")],
   'NEED(!region(0x100, 32)); NEED(!setw(0x104, 4, WATCHPOINT_WRITE)); countdown = 1; NEED(setw(0x108, 4, WATCHPOINT_WRITE) == outOfMemoryException); NEED(!setw(0x108, 4, WATCHPOINT_WRITE)); NEED(!w32(0x108, 1) && hit());'),
 S('c06a', 'C06', 'two watchpoints on one address, a short one set before the one that covers the access',
   'the walk over the points ends at a point that starts at the accessed address but does not cover it',
   [("        else if (pWatchpoint->startAddress > address)", "        else if (pWatchpoint->startAddress >= address)")],
   'NEED(!region(0x100, 32)); NEED(!setw(0x104, 1, WATCHPOINT_WRITE)); NEED(!setw(0x104, 4, WATCHPOINT_WRITE)); NEED(!w8(0x104, 1) && hit()); NEED(!w32(0x104, 1) && hit());'),
 S('c06b', 'C06', 'an 8-bit read inside a breakpoint',
   '8-bit reads trigger breakpoints',
   [("            if (size == sizeof(uint16_t) && accessInRange", "            if (size <= sizeof(uint16_t) && accessInRange")],
   'NEED(!region(0x100, 32)); NEED(!setb(0x104, 2)); NEED(r16(0x104) == hardwareBreakpointException); NEED(!r32(0x104)); NEED(!r8(0x105));'),
 S('c06c', 'C06', 'an image tail of one to four bytes loaded over a read watchpoint',
   'the trailing bytes of an image load trigger read watchpoints',
   [("    *(uint8_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint8_t), LOADING, DISABLE_WATCHPOINT_CHECK) = value;", "    *(uint8_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint8_t), LOADING, ENABLE_WATCHPOINT_CHECK) = value;")],
   'unsigned img[2] = {1, 2}; NEED(!region(0x100, 32)); NEED(!setw(0x107, 1, WATCHPOINT_READ)); NEED(!TRY(MemorySim_LoadFromFlashImage(M, 0x100, img, 8))); NEED(!hit());'),
 S('c09a', 'C09', 'an image shorter than four bytes',
   'the size of a flash image is checked after its region has been created, so a rejected image leaves a region behind',
   [("    if (flashImageSize < sizeof(uint32_t))\n        __throw(bufferOverrunException);\n\n    MemorySim_CreateRegion(pMemory, FLASH_BASE_ADDRESS, flashImageSize);\n",
     "    MemorySim_CreateRegion(pMemory, FLASH_BASE_ADDRESS, flashImageSize);\n    if (flashImageSize < sizeof(uint32_t))\n        __throw(bufferOverrunException);\n\n")],
   'NEED(TRY(MemorySim_CreateRegionsFromFlashImage(M, "ab", 2)) == bufferOverrunException); NEED(r8(0) == busErrorException);'),
 S('c09b', 'C09', 'a flash image load that runs out of memory as the first thing done, followed by another load',
   'after a failed load into an empty memory the tail pointer keeps pointing to the released region',
   [("    if (!pPrev)\n        pThis->pHeadRegion = NULL;\n    else\n        pPrev->pNext = NULL;\n    pThis->pTailRegion = pPrev;",
     "    if (!pPrev)\n    {\n        pThis->pHeadRegion = NULL;\n    }\n    else\n    {\n        pPrev->pNext = NULL;\n        pThis->pTailRegion = pPrev;\n    }")],
   'unsigned img[3] = {0x10000010, 2, 3}; countdown = 5; NEED(TRY(MemorySim_CreateRegionsFromFlashImage(M, img, 12)) == outOfMemoryException); NEED(!TRY(MemorySim_CreateRegionsFromFlashImage(M, img, 12))); NEED(!r32(4) && val == 2);'),
 S('c09c', 'C09', 'an image whose size is not a multiple of four, with bytes after it in the region',
   'an image is loaded in whole words whenever more than two bytes are left, so up to a byte beyond the image is read and stored',
   [("    while (flashImageSize > sizeof(uint32_t))\n    {\n        load32(pMemory, address, *pSrcWord++);\n        address += sizeof(uint32_t);\n        flashImageSize -= sizeof(uint32_t);",
     "    while (flashImageSize > sizeof(uint16_t))\n    {\n        load32(pMemory, address, *pSrcWord++);\n        address += sizeof(uint32_t);\n        flashImageSize -= flashImageSize < sizeof(uint32_t) ? flashImageSize : sizeof(uint32_t);")],
   'unsigned char img[8] = {1, 2, 3, 4, 5, 6, 7, 8}; NEED(!region(0x100, 32)); NEED(!w8(0x107, 0x55)); NEED(!TRY(MemorySim_LoadFromFlashImage(M, 0x100, img, 7))); NEED(!r8(0x106) && val == 7); NEED(!r8(0x107) && val == 0x55);'),
 S('c23a', 'C23', '16-bit reads of odd addresses',
   '16-bit reads at odd addresses are not counted',
   [("    if (type == READING && size == sizeof(uint16_t) && pRegion->pReadCounts)", "    if (type == READING && size == sizeof(uint16_t) && pRegion->pReadCounts && 0 == (address & 1))")],
   'NEED(!region(0x100, 32)); NEED(!ro(0x100)); NEED(!r16(0x104)); NEED(!r16(0x105)); NEED(!cnt(0x104) && val == 2);'),
 S('c23b', 'C23', 'making a region read-only a second time after it has been read',
   'making a region read-only again forgets its counts',
   [("    pRegion->isReadOnly = 1;", "    pRegion->isReadOnly = NULL != memset(pRegion->pReadCounts, 0, pRegion->readCounts * sizeof(*pRegion->pReadCounts));")],
   'NEED(!region(0x100, 32)); NEED(!ro(0x100)); NEED(!r16(0x104)); NEED(!ro(0x110)); NEED(!cnt(0x104) && val == 1);'),
 S('c23c', 'C23', 'asking for the count of the last byte of a region of odd size',
   'the count of the odd last byte of a region is taken from behind the counters',
   [("    MemoryRegion* pRegion = findMatchingRegion(pThis, &address, 2);", "    MemoryRegion* pRegion = findMatchingRegion(pThis, &address, 1);")],
   'NEED(!region(0x100, 5)); NEED(!ro(0x100)); NEED(!cnt(0x102) && val == 0); NEED(cnt(0x104) == busErrorException);'),
 S('c07a', 'C07', 'several read-only regions whose start and length have eight hex digits each',
   'the space for an element is computed from a shorter start address than there can be',
   [('start=\\"0x00000000\\" length=\\"0xFFFFFFFF\\">', 'start=\\"0x0\\" length=\\"0xFFFFFFFF\\">')],
   'int i, n = 0; const char* d = 0, *q; NEED(!region(0x80000000u, 0x1000000)); NEED(!ro(0x80000000u)); for (i = 0; i < 40; i++) NEED(!alias(0x90000000u + 0x1000000 * i, 0x80000000u, 0x1000000)); NEED(!TRY(d = MemorySim_GetMemoryMapXML(M))); for (q = d; (q = strstr(q, "flash")); q++) n++; NEED(n == 41); NEED(!strcmp(d + strlen(d) - 13, "</memory-map>"));'),
 S('c07b', 'C07', 'an alias of a read-only region',
   'a region is shown as flash when it has read counts, so an alias of a read-only region is shown as ram',
   [('                             pCurr->isReadOnly ? "flash" : "ram",', '                             pCurr->pReadCounts ? "flash" : "ram",')],
   'const char* d = 0; NEED(!region(0x100, 16)); NEED(!ro(0x100)); NEED(!alias(0x200, 0x100, 16)); NEED(!TRY(d = MemorySim_GetMemoryMapXML(M))); NEED(!strstr(d, "ram"));'),
 S('c07c', 'C07', 'memory running out when the document is generated a second time',
   'the previous document is lost when the new one cannot be allocated',
   [("    char* pRealloc = realloc(pThis->pMemoryMapXML, allocSize);\n    if (!pRealloc)\n        __throw(outOfMemoryException);\n    pThis->pMemoryMapXML = pRealloc;",
     "    pThis->pMemoryMapXML = realloc(pThis->pMemoryMapXML, allocSize);\n    if (!pThis->pMemoryMapXML)\n        __throw(outOfMemoryException);")],
   'const char* d = 0; NEED(!region(0x100, 16)); NEED(!TRY(d = MemorySim_GetMemoryMapXML(M))); countdown = 1; NEED(TRY(MemorySim_GetMemoryMapXML(M)) == outOfMemoryException); countdown = 0; watched = d; MemorySim_Uninit(M); NEED(wfreed == 1);'),
 S('c07d', 'C07', 'asking for the document again after a region was made read-only',
   'the document is only generated again when the number of regions has changed',
   [("    char*          pMemoryMapXML;\n", "    char*          pMemoryMapXML;\n    size_t         mappedRegions;\n"),
    ("    allocateMemoryMapXML(pThis, allocSize);\n    buffer.pBuffer", "    if (pThis->pMemoryMapXML && pThis->mappedRegions == regionCount)\n        return pThis->pMemoryMapXML;\n    allocateMemoryMapXML(pThis, allocSize);\n    pThis->mappedRegions = regionCount;\n    buffer.pBuffer")],
   'const char* d = 0; NEED(!region(0x100, 16)); NEED(!TRY(d = MemorySim_GetMemoryMapXML(M))); NEED(!ro(0x100)); NEED(!TRY(d = MemorySim_GetMemoryMapXML(M))); NEED(strstr(d, "flash"));'),
 S('c07f', 'C07', 'a region that starts in the upper half of the address space',
   'a region in the upper half of the address space ends the document early',
   [("        pBuffer->size -= bytesUsed;\n\n        pCurr = pCurr->pNext;", "        pBuffer->size -= bytesUsed;\n\n        pCurr = (int)pCurr->baseAddress < 0 && pCurr->isAlias ? NULL : pCurr->pNext;")],
   'const char* d = 0; NEED(!region(0x100, 16)); NEED(!alias(0x90000000, 0x100, 16)); NEED(!region(0xE000ED00, 16)); NEED(!TRY(d = MemorySim_GetMemoryMapXML(M))); NEED(strstr(d, "0xE000ED00"));'),
]
