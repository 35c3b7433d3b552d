/* Layout of the private structures of MemorySim.c and the exception codes, taken from the real source by the compiler. */
#include "MemorySim.c"
#include <stddef.h>
#define F(T, f) (long)offsetof(T, f), (long)sizeof(((T*)0)->f)
const long vf_region[] = {
    sizeof(MemoryRegion), F(MemoryRegion, pNext), F(MemoryRegion, pRedirect), F(MemoryRegion, pData), F(MemoryRegion, pWatchpoints),
    F(MemoryRegion, pReadCounts), F(MemoryRegion, baseAddress), F(MemoryRegion, redirectAddress), F(MemoryRegion, size),
    F(MemoryRegion, watchpointCount), F(MemoryRegion, watchpointAlloc), F(MemoryRegion, readCounts), F(MemoryRegion, isReadOnly),
    F(MemoryRegion, isAlias) };
const long vf_sim[] = {
    sizeof(MemorySim), F(MemorySim, pVTable), F(MemorySim, pHeadRegion), F(MemorySim, pTailRegion), F(MemorySim, pMemoryMapXML),
    F(MemorySim, watchpointEncountered) };
const long vf_watch[] = { sizeof(Watchpoint), F(Watchpoint, type), F(Watchpoint, startAddress), F(Watchpoint, endAddress) };
const long vf_const[] = { busErrorException, outOfMemoryException, hardwareBreakpointException, bufferOverrunException,
    (long)(unsigned)WATCHPOINT_BREAKPOINT, WATCHPOINT_READ, WATCHPOINT_WRITE, FLASH_BASE_ADDRESS, (long)(unsigned)RAM_ADDRESS_MASK };
