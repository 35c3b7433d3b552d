#!/usr/bin/env python3
"""refactors.py [ids...]: edits that keep the behaviour; the checks named must stay quiet on a scratch copy of /repo."""
import os, sys, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'libCrashDebug/src/MemorySim.c'
E = 'libCrashDebug/src/ElfLoad.c'
D = 'libCrashDebug/src/CrashCatcherDump.c'
G = 'libCrashDebug/src/GdbLogParser.c'
L = 'libCrashDebug/src/CrashDebugCommandLine.c'
P = 'libCrashDebug/src/mriPlatform.c'
R = []

def ref(rid, file, checks, *subs):
    R.append((rid, file, checks.split(), subs))

ref('m1', M, 'C01 C04', ('''    while (pCurr)
    {
        MemoryRegion* pNext = pCurr->pNext;
        if (address >= pCurr->baseAddress && (uint64_t)address + size <= (uint64_t)pCurr->baseAddress + pCurr->size)
        {
            if (pCurr->isAlias)
            {
                *pAddress = (address - pCurr->baseAddress) + pCurr->redirectAddress;
                return pCurr->pRedirect;
            }
            return pCurr;
        }
        pCurr = pNext;
    }
    __throw(busErrorException);
}
''', '''    for ( ; pCurr ; pCurr = pCurr->pNext)
    {
        uint32_t offset = address - pCurr->baseAddress;
        if (address < pCurr->baseAddress || (uint64_t)offset + size > pCurr->size)
            continue;
        if (!pCurr->isAlias)
            return pCurr;
        *pAddress = offset + pCurr->redirectAddress;
        return pCurr->pRedirect;
    }
    __throw(busErrorException);
}
'''))
ref('m2', M, 'C06', ('''    uint32_t endAddress = address + size;
    uint32_t i;

    for (i = 0 ; i < pRegion->watchpointCount ; i++)
    {
        Watchpoint* pWatchpoint = &pRegion->pWatchpoints[i];

        if ((type & pWatchpoint->type) == 0)
            continue;
        if (pWatchpoint->type == WATCHPOINT_BREAKPOINT)
        {
            if (size == sizeof(uint16_t) && accessInRange(pWatchpoint, address, endAddress))
                __throw(hardwareBreakpointException);
        }
        else if (accessInRange(pWatchpoint, address, endAddress))
        {
            pThis->watchpointEncountered++;
        }
        else if (pWatchpoint->startAddress > address)
        {
            return;
        }
    }
''', '''    const uint32_t endAddress = address + size;
    Watchpoint*    pWatchpoint = pRegion->pWatchpoints;
    uint32_t       remaining = pRegion->watchpointCount;

    while (remaining--)
    {
        Watchpoint* pThisOne = pWatchpoint++;
        int         isHit;

        if ((type & pThisOne->type) == 0)
            continue;
        isHit = accessInRange(pThisOne, address, endAddress);
        if (pThisOne->type == WATCHPOINT_BREAKPOINT)
        {
            if (isHit && size == sizeof(uint16_t))
                __throw(hardwareBreakpointException);
            continue;
        }
        if (isHit)
            pThis->watchpointEncountered += 1;
        else if (pThisOne->startAddress > address)
            break;
    }
'''))
ref('m3', M, 'C01 C13', ('''        pRegion = throwingZeroedMalloc(sizeof(*pRegion));
        pRegion->baseAddress = baseAddress;
        pRegion->size = size;
        pRegion->pData = throwingZeroedMalloc(size);
        addRegionToTail(pThis, pRegion);
    }
    __catch
    {
        freeRegion(pRegion);
        __rethrow;
    }
}
''', '''        pRegion = newRegion(baseAddress);
        pRegion->pData = throwingZeroedMalloc(size);
        pRegion->size = size;
        addRegionToTail(pThis, pRegion);
    }
    __catch
    {
        freeRegion(pRegion);
        __rethrow;
    }
}

static MemoryRegion* newRegion(uint32_t baseAddress)
{
    MemoryRegion* pRegion = throwingZeroedMalloc(sizeof(*pRegion));
    pRegion->baseAddress = baseAddress;
    return pRegion;
}
'''), ('static void* throwingZeroedMalloc(size_t size);\n', 'static void* throwingZeroedMalloc(size_t size);\nstatic MemoryRegion* newRegion(uint32_t baseAddress);\n'),
('''        pRegion = throwingZeroedMalloc(sizeof(*pRegion));
        pRegion->baseAddress = aliasAddress;
''', '''        pRegion = newRegion(aliasAddress);
'''))
ref('m4', M, 'C02 C13', ('''    void* pvAlloc = malloc(size);
    if (!pvAlloc)
        __throw(outOfMemoryException);
    memset(pvAlloc, 0, size);
    return pvAlloc;
''', '''    uint8_t* pBytes = malloc(size);
    size_t   i;
    if (pBytes == NULL)
        __throw(outOfMemoryException);
    for (i = 0 ; i < size ; i++)
        pBytes[i] = 0;
    return pBytes;
'''))
ref('m5', M, 'C07', ('''        bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                             "<memory type=\\"%s\\" start=\\"0x%X\\" length=\\"0x%X\\">%s</memory>",
                             pCurr->isReadOnly ? "flash" : "ram",
                             pCurr->baseAddress,
                             pCurr->size,
                             pCurr->isReadOnly ? " <property name=\\"blocksize\\">1</property>" : "");
''', '''        if (pCurr->isReadOnly)
            bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                                 "<memory type=\\"flash\\" start=\\"0x%X\\" length=\\"0x%X\\"> <property name=\\"blocksize\\">1</property></memory>",
                                 pCurr->baseAddress, pCurr->size);
        else
            bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                                 "<memory type=\\"ram\\" start=\\"0x%X\\" length=\\"0x%X\\"></memory>",
                                 pCurr->baseAddress, pCurr->size);
'''), ('''    size_t        count = 0;
    MemoryRegion* pCurr = pThis->pHeadRegion;
    while (pCurr)
    {
        count++;
        pCurr = pCurr->pNext;
    }
''', '''    size_t        count = 0;
    MemoryRegion* pCurr;
    for (pCurr = pThis->pHeadRegion ; pCurr != NULL ; pCurr = pCurr->pNext)
        count++;
'''))
ref('m6', M, 'C09', ('''    const uint32_t* pSrcWord = (uint32_t*)pFlashImage;
    uint32_t        address = baseAddress;
    const uint8_t*  pSrcByte;

    while (flashImageSize > sizeof(uint32_t))
    {
        load32(pMemory, address, *pSrcWord++);
        address += sizeof(uint32_t);
        flashImageSize -= sizeof(uint32_t);
    }

    pSrcByte = (const uint8_t*)pSrcWord;
    while (flashImageSize--)
        load8(pMemory, address++, *pSrcByte++);
''', '''    const uint8_t* pSrc = (const uint8_t*)pFlashImage;
    uint32_t       i;

    for (i = 0 ; i < flashImageSize ; i++)
        load8(pMemory, baseAddress + i, pSrc[i]);
'''))
ref('m7', M, 'C05', ('''    uint32_t           i;

    for (i = 0 ; i < pRegion->watchpointCount ; i++)
    {
        int result = compareWatchpoints(pKey, &pRegion->pWatchpoints[i]);
        if (result == 0)
        {
            *pIndex = i;
            return FOUND;
        }
        else if (result < 0)
        {
            *pIndex = i;
            return FOUND_HIGHER;
        }
    }
    *pIndex = i;
    return NOT_FOUND;
''', '''    MatchResult match = NOT_FOUND;
    uint32_t    i = 0;

    while (i < pRegion->watchpointCount && match == NOT_FOUND)
    {
        int result = compareWatchpoints(pKey, &pRegion->pWatchpoints[i]);
        if (result == 0)
            match = FOUND;
        else if (result < 0)
            match = FOUND_HIGHER;
        else
            i++;
    }
    *pIndex = i;
    return match;
'''), ('''    return 0 == memcmp(p1, p2, sizeof(*p1));
''', '''    return p1->type == p2->type && p1->startAddress == p2->startAddress && p1->endAddress == p2->endAddress;
'''))
ref('m8', M, 'C13 C09', ('''    pCurr = pThis->pHeadRegion;
    while (pCurr)
    {
        MemoryRegion* pNext = pCurr->pNext;
        freeRegion(pCurr);
        pCurr = pNext;
    }
    pThis->pHeadRegion = pThis->pTailRegion = NULL;

    free(pThis->pMemoryMapXML);
    pThis->pMemoryMapXML = NULL;
''', '''    free(pThis->pMemoryMapXML);
    pThis->pMemoryMapXML = NULL;

    while ((pCurr = pThis->pHeadRegion) != NULL)
    {
        pThis->pHeadRegion = pCurr->pNext;
        freeRegion(pCurr);
    }
    pThis->pTailRegion = NULL;
'''), ('''    MemoryRegion* pPrev = NULL;
    MemoryRegion* pCurr = pThis->pHeadRegion;

    while (pCurr && pCurr->pNext)
    {
        pPrev = pCurr;
        pCurr = pCurr->pNext;
    }
    if (!pPrev)
        pThis->pHeadRegion = NULL;
    else
        pPrev->pNext = NULL;
    pThis->pTailRegion = pPrev;
    freeRegion(pCurr);
''', '''    MemoryRegion* pPrev = NULL;
    MemoryRegion* pLast;

    for (pLast = pThis->pHeadRegion ; pLast && pLast != pThis->pTailRegion ; pLast = pLast->pNext)
        pPrev = pLast;
    pThis->pTailRegion = pPrev;
    if (pPrev)
        pPrev->pNext = NULL;
    else
        pThis->pHeadRegion = NULL;
    freeRegion(pLast);
'''))
ref('m9', M, 'C03 C23 C06', ('''    MemoryRegion* pRegion = findMatchingRegion(pThis, &address, size);
    uint32_t regionOffset = address - pRegion->baseAddress;
    if (type == WRITING && pRegion->isReadOnly)
        __throw(busErrorException);
    if (type == READING && size == sizeof(uint16_t) && pRegion->pReadCounts)
        pRegion->pReadCounts[regionOffset / sizeof(uint16_t)]++;
    if (checkWatchpoints)
''', '''    MemoryRegion* pRegion = findMatchingRegion(pThis, &address, size);
    uint32_t regionOffset = address - pRegion->baseAddress;
    throwIfWriteToReadOnly(pRegion, type);
    recordRead(pRegion, regionOffset, size, type);
    if (checkWatchpoints)
'''), ('''static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, AccessType type, int checkWatchpoints)
{
''', '''static void throwIfWriteToReadOnly(const MemoryRegion* pRegion, AccessType type)
{
    if (pRegion->isReadOnly && type == WRITING)
        __throw(busErrorException);
}

static void recordRead(MemoryRegion* pRegion, uint32_t regionOffset, uint32_t size, AccessType type)
{
    if (!pRegion->pReadCounts || type != READING || size != sizeof(uint16_t))
        return;
    pRegion->pReadCounts[regionOffset >> 1] += 1;
}

static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, AccessType type, int checkWatchpoints)
{
'''))
ref('m10', M, 'C05 C06', ('''    return startAddress >= pWatchpoint->startAddress && (uint64_t)offset + accessSize <= watchpointSize;
''', '''    if (startAddress < pWatchpoint->startAddress)
        return 0;
    return offset <= watchpointSize && accessSize <= watchpointSize - offset;
'''), ('''    if (match == FOUND)
        return;
    growWatchpointArrayIfNeeded(pRegion, pRegion->watchpointCount + 1);
    memmove(&pRegion->pWatchpoints[i+1],
            &pRegion->pWatchpoints[i],
            sizeof(*pRegion->pWatchpoints) * (pRegion->watchpointCount - i));
    pRegion->pWatchpoints[i] = watchpoint;
    pRegion->watchpointCount++;
''', '''    if (match != FOUND)
    {
        uint32_t j;
        growWatchpointArrayIfNeeded(pRegion, pRegion->watchpointCount + 1);
        for (j = pRegion->watchpointCount ; j > i ; j--)
            pRegion->pWatchpoints[j] = pRegion->pWatchpoints[j - 1];
        pRegion->pWatchpoints[i] = watchpoint;
        pRegion->watchpointCount++;
    }
'''))
ref('m11', M, 'C04', ('''        pRegion = throwingZeroedMalloc(sizeof(*pRegion));
        pRegion->baseAddress = aliasAddress;
        pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
        pRegion->redirectAddress = redirectAddress;
        uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
        if (size > maxSize)
            pRegion->size = maxSize;
        else
            pRegion->size = size;
        pRegion->pRedirect = pRedirect;
        pRegion->pData = throwingZeroedMalloc(size);
        pRegion->isAlias = 1;
        pRegion->isReadOnly = pRedirect->isReadOnly;
''', '''        pRegion = throwingZeroedMalloc(sizeof(*pRegion));
        pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
        pRegion->isAlias = 1;
        pRegion->pRedirect = pRedirect;
        pRegion->isReadOnly = pRedirect->isReadOnly;
        pRegion->baseAddress = aliasAddress;
        pRegion->redirectAddress = redirectAddress;
        uint32_t maxSize = pRedirect->baseAddress + pRedirect->size - redirectAddress;
        pRegion->size = size <= maxSize ? size : maxSize;
        pRegion->pData = throwingZeroedMalloc(size);
'''))
ref('e1', E, 'C08', ('''    if (offset > pBlob->blobSize || (uint64_t)offset + size > pBlob->blobSize)
        __throw(elfFormatException);
    return (void*)(pBlob->pBlob + offset);
''', '''    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
        __throw(elfFormatException);
    return &pBlob->pBlob[offset];
'''), ('''    for (i = 0, pObject->pgmHeaderOffset = pObject->pElfHeader->e_phoff ; i < pObject->pElfHeader->e_phnum ; i++)
    {
''', '''    pObject->pgmHeaderOffset = pObject->pElfHeader->e_phoff;
    while (i < pObject->pElfHeader->e_phnum)
    {
'''), ('''        pObject->pgmHeaderOffset += pObject->pElfHeader->e_phentsize;
''', '''        pObject->pgmHeaderOffset += pObject->pElfHeader->e_phentsize;
        i++;
'''))
ref('e2', E, 'C08', ('''    if (memcmp(pHeader->e_ident, expectedIdent, sizeof(expectedIdent)) != 0)
        __throw_msg(elfFormatException, "ELF header doesn't start with expected magic ELF identifier.");
''', '''    size_t i;

    for (i = 0 ; i < sizeof(expectedIdent) ; i++)
    {
        if (pHeader->e_ident[i] != expectedIdent[i])
            __throw_msg(elfFormatException, "ELF header doesn't start with expected magic ELF identifier.");
    }
'''), ('''    return (pHeader->p_type == PT_LOAD &&
            pHeader->p_filesz != 0 &&
            pHeader->p_memsz >= pHeader->p_filesz);
''', '''    if (pHeader->p_type != PT_LOAD)
        return 0;
    if (pHeader->p_filesz == 0)
        return 0;
    return pHeader->p_filesz <= pHeader->p_memsz;
'''))
ref('e3', E, 'C08 C13', ('''    MemorySim_CreateRegion(pMemory, pPgmHeader->p_paddr, pPgmHeader->p_filesz);
    MemorySim_LoadFromFlashImage(pMemory, pPgmHeader->p_paddr, pData, pPgmHeader->p_filesz);
    MemorySim_MakeRegionReadOnly(pMemory, pPgmHeader->p_paddr);
    pObject->entryLoadCount++;
}
''', '''    loadSegment(pMemory, pPgmHeader->p_paddr, pData, pPgmHeader->p_filesz);
    pObject->entryLoadCount++;
}

static void loadSegment(IMemory* pMemory, uint32_t address, const void* pData, uint32_t size)
{
    MemorySim_CreateRegion(pMemory, address, size);
    MemorySim_LoadFromFlashImage(pMemory, address, pData, size);
    MemorySim_MakeRegionReadOnly(pMemory, address);
}
'''), ('static int isFlashLoadableEntry(const Elf32_Phdr* pHeader);\n', 'static int isFlashLoadableEntry(const Elf32_Phdr* pHeader);\nstatic void loadSegment(IMemory* pMemory, uint32_t address, const void* pData, uint32_t size);\n'))
ref('d1', D, 'C10 C11', ('''    int      bytesRead = 0;
    uint8_t* pCurr = pBuffer;

    while (bytesToRead--)
    {
        char hiNibble;
        char loNibble;
        int  result;

        result = readNextCharacterSkippingNewLines(pObject, &hiNibble);
        if (result != 1)
            break;
        result = readNextCharacterSkippingNewLines(pObject, &loNibble);
        if (result != 1)
            break;
        *pCurr++ = (nibbleDigitToVal(hiNibble) << 4) | nibbleDigitToVal(loNibble);
        bytesRead++;
    }
    return bytesRead;
''', '''    uint8_t* pBytes = pBuffer;
    size_t   i;

    for (i = 0 ; i < bytesToRead ; i++)
    {
        char hiNibble;
        char loNibble;

        if (1 != readNextCharacterSkippingNewLines(pObject, &hiNibble) ||
            1 != readNextCharacterSkippingNewLines(pObject, &loNibble))
        {
            return i;
        }
        pBytes[i] = nibbleDigitToVal(hiNibble) * 16 + nibbleDigitToVal(loNibble);
    }
    return i;
'''), ('''    do
    {
        result = fread(&curr, 1, 1, pObject->pFile);
    } while (result == 1 && (curr == '\\r' || curr == '\\n'));

    if (result == 1)
        *pHexDigit = curr;
    return result;
''', '''    for (;;)
    {
        result = fread(&curr, 1, 1, pObject->pFile);
        if (result != 1)
            return result;
        if (curr != '\\r' && curr != '\\n')
            break;
    }
    *pHexDigit = curr;
    return 1;
'''))
ref('d2', D, 'C10 C11', ('''    int eof = FALSE;

    do
    {
        eof = readNextMemoryRegion(pObject);
    } while (!eof);
''', '''    while (!readNextMemoryRegion(pObject))
    {
    }
'''), ('''    uint32_t bytesInRegion = pRegion->endAddress - pRegion->startAddress;
    uint32_t address = pRegion->startAddress;
    uint32_t i;

    MemorySim_CreateRegion(pObject->pMem, pRegion->startAddress, bytesInRegion);
    for (i = 0 ; i < bytesInRegion ; i++)
    {
        uint8_t byte;
        int bytesRead = pObject->read(pObject, &byte, 1);
        if (bytesRead != 1)
            __throw(fileFormatException);
        IMemory_Write8(pObject->pMem, address++, byte);
    }
''', '''    const uint32_t start = pRegion->startAddress;
    const uint32_t end = pRegion->endAddress;
    uint32_t       address;

    MemorySim_CreateRegion(pObject->pMem, start, end - start);
    for (address = start ; address != end ; address++)
    {
        uint8_t byte = 0;
        if (pObject->read(pObject, &byte, sizeof(byte)) != sizeof(byte))
            __throw(fileFormatException);
        IMemory_Write8(pObject->pMem, address, byte);
    }
'''))
ref('d3', D, 'C10 C11', ('''    bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
    if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
        __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
    else if (bytesRead == 0)
        return TRUE;
    else if (bytesRead != sizeof(regionOrSentinel.region))
''', '''    bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
    if (bytesRead == 0)
        return TRUE;
    if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
        __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
    if (bytesRead != sizeof(regionOrSentinel.region))
'''), ('''    if (hexDigit >= '0' && hexDigit <= '9')
        return hexDigit - '0';
    if (hexDigit >= 'a' && hexDigit <= 'f')
        return hexDigit - 'a' + 10;
    if (hexDigit >= 'A' && hexDigit <= 'F')
        return hexDigit - 'A' + 10;

    __throw(fileFormatException);
    return 0;
''', '''    switch (hexDigit)
    {
    case '0' ... '9':
        return hexDigit - '0';
    case 'a' ... 'f':
        return 10 + (hexDigit - 'a');
    case 'A' ... 'F':
        return 10 + (hexDigit - 'A');
    default:
        __throw(fileFormatException);
    }
    return 0;
'''), ('''    if ((pObject->pContext->flags & CRASH_CATCHER_FLAGS_FLOATING_POINT) == 0)
        return;

    int result = pObject->read(pObject, pObject->pContext->FPR, sizeof(pObject->pContext->FPR));
    if (result != sizeof(pObject->pContext->FPR))
        __throw_msg(fileFormatException, "The dump file was too short to contain the floating point registers.");
''', '''    if (pObject->pContext->flags & CRASH_CATCHER_FLAGS_FLOATING_POINT)
    {
        int result = pObject->read(pObject, pObject->pContext->FPR, sizeof(pObject->pContext->FPR));
        if (result != sizeof(pObject->pContext->FPR))
            __throw_msg(fileFormatException, "The dump file was too short to contain the floating point registers.");
    }
'''))
ref('g1', G, 'C12', ('''    while (*pLine && isspace(*pLine))
        pLine++;
    return pLine;
''', '''    for ( ; isspace(*pLine) ; pLine++)
        ;
    return pLine;
'''), ('''    pLine = skipWhitespaceAndSymbol(pLine);
    pLine = parseValue(pResults, pLine);
    return pLine;
''', '''    pLine = skipWhitespace(skipSymbol(skipWhitespace(pLine)));
    return parseValue(pResults, pLine);
'''), ('''static const char* skipWhitespaceAndSymbol(const char* pLine)
{
    pLine = skipWhitespace(pLine);
    pLine = skipSymbol(pLine);
    pLine = skipWhitespace(pLine);
    return pLine;
}

''', ''))
ref('g2', G, 'C12', ('''    return (pLine[0] == '0' &&
            pLine[1] == 'x' &&
            isHexDigit(pLine[2]) &&
            isHexDigit(pLine[3]) &&
            isHexDigit(pLine[4]) &&
            isHexDigit(pLine[5]) &&
            isHexDigit(pLine[6]) &&
            isHexDigit(pLine[7]) &&
            isHexDigit(pLine[8]) &&
            isHexDigit(pLine[9]));
''', '''    int i;

    if (pLine[0] != '0' || pLine[1] != 'x')
        return FALSE;
    for (i = 2 ; i < 10 ; i++)
    {
        if (!isHexDigit(pLine[i]))
            return FALSE;
    }
    return TRUE;
'''), ('''    switch (pParseResults->type)
    {
    case TYPE_MEMORY:
        firstPassMemoryHandler(pObject, pParseResults);
        break;
    case TYPE_REGISTER:
        firstPassRegisterHandler(pObject, pParseResults);
        break;
    case TYPE_OTHER:
    default:
        break;
    }
''', '''    if (pParseResults->type == TYPE_REGISTER)
        firstPassRegisterHandler(pObject, pParseResults);
    else if (pParseResults->type == TYPE_MEMORY)
        firstPassMemoryHandler(pObject, pParseResults);
'''))
ref('g3', G, 'C12', ('''    if (pParseResults->address != pObject->nextExpectedAddress)
    {
        if (pObject->regionStart != 0xFFFFFFFF)
            MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
        pObject->regionStart = pParseResults->address;
        pObject->regionSize = 0;
    }
    pObject->regionSize += pParseResults->valueCount * sizeof(uint32_t);
    pObject->nextExpectedAddress = pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
''', '''    const uint32_t bytes = pParseResults->valueCount * sizeof(uint32_t);

    if (pParseResults->address != pObject->nextExpectedAddress)
    {
        if (pObject->regionStart != 0xFFFFFFFF)
            MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
        pObject->regionStart = pParseResults->address;
        pObject->regionSize = bytes;
    }
    else
    {
        pObject->regionSize += bytes;
    }
    pObject->nextExpectedAddress = pParseResults->address + bytes;
'''), ('''    uint32_t i;
    if (pParseResults->type != TYPE_MEMORY)
        return;
    for (i = 0 ; i < pParseResults->valueCount ; i++)
        IMemory_Write32(pObject->pMem, pParseResults->address + i * sizeof(uint32_t), pParseResults->values[i]);
''', '''    uint32_t address = pParseResults->address;
    uint32_t i;

    if (pParseResults->type == TYPE_MEMORY)
    {
        for (i = 0 ; i < pParseResults->valueCount ; i++)
        {
            IMemory_Write32(pObject->pMem, address, pParseResults->values[i]);
            address += sizeof(uint32_t);
        }
    }
'''))
ref('g4', G, 'C12', ('''    while (areMoreValuesToParseOnLine(&results, pLine))
        pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
    if (results.valueCount == 0)
        results.type = TYPE_OTHER;
    return results;
''', '''    while (*pLine && results.valueCount < ARRAY_SIZE(results.values))
    {
        char*    pNext = NULL;
        uint32_t value;

        pLine = skipWhitespaceAndSymbol(pLine);
        value = strtoul(pLine, &pNext, 0);
        if (pNext == pLine)
            break;
        results.values[results.valueCount] = value;
        results.valueCount++;
        pLine = pNext;
    }
    if (results.valueCount == 0)
        results.type = TYPE_OTHER;
    return results;
'''))
ref('g5', G, 'C12', ('''    for (i = 0 ; i < ARRAY_SIZE(registers) ; i++)
    {
        if (0 == strncmp(registers[i].pName, pLine, 15))
        {
            *pRegisterOffset  = registers[i].offset;
            return TRUE;
        }
    }
    return FALSE;
''', '''    for (i = 0 ; i < ARRAY_SIZE(registers) ; i++)
    {
        if (0 == strncmp(registers[i].pName, pLine, 15))
            break;
    }
    if (i == ARRAY_SIZE(registers))
        return FALSE;
    *pRegisterOffset = registers[i].offset;
    return TRUE;
'''), ('''    pLine = findWhitespace(&pLine[15]);
    pLine = skipWhitespace(pLine);
''', '''    pLine += 15;
    while (*pLine != '\\0' && !isspace(*pLine))
        pLine++;
    pLine = skipWhitespace(pLine);
'''), ('''static const char* findWhitespace(const char* pLine)
{
    while (*pLine && !isspace(*pLine))
        pLine++;
    return pLine;
}

''', ''))
ref('l1', L, 'C18', ('''    while (argc)
    {
        int argumentsUsed = parseArgument(pThis, argc, argv, pass);
        argc -= argumentsUsed;
        argv += argumentsUsed;
    }
''', '''    int index = 0;

    while (index < argc)
        index += parseArgument(pThis, argc - index, &argv[index], pass);
'''))
ref('l2', L, 'C18', ('''    if (0 == strcasecmp(*ppArgs, "--bin"))
        return parseBinFilenameOption(pThis, argc - 1, &ppArgs[1], pass);
    else if (0 == strcasecmp(*ppArgs, "--elf"))
        return parseElfFilenameOption(pThis, argc - 1, &ppArgs[1], pass);
    else if (0 == strcasecmp(*ppArgs, "--dump"))
        return parseDumpFilenameOption(pThis, argc - 1, &ppArgs[1], pass);
    else if (0 == strcasecmp(*ppArgs, "--alias"))
''', '''    if (0 == strcasecmp(*ppArgs, "--dump"))
        return parseDumpFilenameOption(pThis, argc - 1, &ppArgs[1], pass);
    else if (0 == strcasecmp(*ppArgs, "--elf"))
        return parseElfFilenameOption(pThis, argc - 1, &ppArgs[1], pass);
    else if (0 == strcasecmp(*ppArgs, "--bin"))
        return parseBinFilenameOption(pThis, argc - 1, &ppArgs[1], pass);
    else if (0 == strcasecmp(*ppArgs, "--alias"))
'''), ('''    return (pHeader[0] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE0) &&
            pHeader[1] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE0) &&
            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1) &&
            pHeader[3] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));
''', '''    static const uint8_t signature[2] = { CRASH_CATCHER_SIGNATURE_BYTE0, CRASH_CATCHER_SIGNATURE_BYTE1 };
    size_t i;

    for (i = 0 ; i < sizeof(signature) ; i++)
    {
        if (pHeader[2 * i] != hiNibbleDigit(signature[i]) || pHeader[2 * i + 1] != loNibbleDigit(signature[i]))
            return 0;
    }
    return 1;
'''))
ref('l3', L, 'C18 C13', ('''static void loadImageFile(CrashDebugCommandLine* pThis)
{
    volatile FileData fileData = { NULL, 0 };
''', '''static void loadImageFile(CrashDebugCommandLine* pThis)
{
    const char*       pFilename = pThis->pElfFilename ? pThis->pElfFilename : pThis->pBinFilename;
    volatile FileData fileData = { NULL, 0 };
'''), ('''        if (pThis->pElfFilename)
        {
            fileData = loadFileData(pThis->pElfFilename);
            ElfLoad_FromMemory(pThis->pMemory, fileData.pData, fileData.dataSize);
        }
        else
        {
            fileData = loadFileData(pThis->pBinFilename);
            loadBinFile(pThis, &fileData);
        }
        free(fileData.pData);
''', '''        fileData = loadFileData(pFilename);
        if (pThis->pElfFilename)
            ElfLoad_FromMemory(pThis->pMemory, fileData.pData, fileData.dataSize);
        else
            loadBinFile(pThis, &fileData);
        free(fileData.pData);
'''), ('''    switch(getFileType(pThis->pDumpFilename))
    {
    case GDB_LOG:
        GdbLogParse(pThis->pMemory, &pThis->context, pThis->pDumpFilename);
        break;
    case CRASH_CATCHER_HEX:
        CrashCatcherDump_ReadHex(pThis->pMemory, &pThis->context, pThis->pDumpFilename);
        break;
    case CRASH_CATCHER_BIN:
        CrashCatcherDump_ReadBinary(pThis->pMemory, &pThis->context, pThis->pDumpFilename);
        break;
    }
''', '''    const DumpFileType type = getFileType(pThis->pDumpFilename);

    if (type == CRASH_CATCHER_BIN)
        CrashCatcherDump_ReadBinary(pThis->pMemory, &pThis->context, pThis->pDumpFilename);
    else if (type == CRASH_CATCHER_HEX)
        CrashCatcherDump_ReadHex(pThis->pMemory, &pThis->context, pThis->pDumpFilename);
    else
        GdbLogParse(pThis->pMemory, &pThis->context, pThis->pDumpFilename);
'''))
ref('p1', P, 'C14 C15', ('''    uint8_t* pByte = (uint8_t*)pBytes;
    size_t   i;

    for (i = 0 ; i < byteCount ; i++)
        Buffer_WriteByteAsHex(pBuffer, *pByte++);
''', '''    const uint8_t* pCurr = (const uint8_t*)pBytes;
    const uint8_t* pEnd = pCurr + byteCount;

    while (pCurr < pEnd)
        Buffer_WriteByteAsHex(pBuffer, *pCurr++);
'''), ('''    uint8_t* pByte = (uint8_t*)pBytes;
    size_t   i;

    for (i = 0 ; i < byteCount; i++)
        *pByte++ = Buffer_ReadByteAsHex(pBuffer);
''', '''    uint8_t* pByte = (uint8_t*)pBytes;

    while (byteCount-- > 0)
        *pByte++ = Buffer_ReadByteAsHex(pBuffer);
'''), ('''    sendRegisterForTResponse(pBuffer, 12, g_pContext->R[12]);
    sendRegisterForTResponse(pBuffer, 13, g_pContext->R[13]);
    sendRegisterForTResponse(pBuffer, 14, g_pContext->R[14]);
    sendRegisterForTResponse(pBuffer, 15, g_pContext->R[15]);
''', '''    uint8_t i;

    for (i = 12 ; i <= 15 ; i++)
        sendRegisterForTResponse(pBuffer, i, g_pContext->R[i]);
'''), ('''    case 3:
        /* HardFault */
        return SIGSEGV;
    case 4:
''', '''    case 3:
        /* HardFault */
    case 4:
'''))
ref('p2', P, 'C15 C22', ('''    if (memManageFaultStatusRegister & FPLazyStatePreservationBit)
        WriteStringToGdbConsole("\\n    FP Lazy Preservation");
    if (memManageFaultStatusRegister & stackingErrorBit)
        WriteStringToGdbConsole("\\n    Stacking Error");
    if (memManageFaultStatusRegister & unstackingErrorBit)
        WriteStringToGdbConsole("\\n    Unstacking Error");
    if (memManageFaultStatusRegister & dataAccess)
        WriteStringToGdbConsole("\\n    Data Access");
    if (memManageFaultStatusRegister & instructionFetch)
        WriteStringToGdbConsole("\\n    Instruction Fetch");
''', '''    displayFlag(memManageFaultStatusRegister, FPLazyStatePreservationBit, "\\n    FP Lazy Preservation");
    displayFlag(memManageFaultStatusRegister, stackingErrorBit, "\\n    Stacking Error");
    displayFlag(memManageFaultStatusRegister, unstackingErrorBit, "\\n    Unstacking Error");
    displayFlag(memManageFaultStatusRegister, dataAccess, "\\n    Data Access");
    displayFlag(memManageFaultStatusRegister, instructionFetch, "\\n    Instruction Fetch");
'''), ('''static void displayMemFaultCauseToGdbConsole(void)
{
''', '''static void displayFlag(uint32_t status, uint32_t bit, const char* pText)
{
    if (status & bit)
        WriteStringToGdbConsole(pText);
}

static void displayMemFaultCauseToGdbConsole(void)
{
'''), ('''    uint32_t retVal = 0;
    __try
        retVal = IMemory_Read16(g_pMemory, (uint32_t)(unsigned long)pv);
    __catch
        g_memoryFaultEncountered++;
    return retVal;
''', '''    uint16_t retVal = 0;
    __try
    {
        retVal = IMemory_Read16(g_pMemory, (uint32_t)(uintptr_t)pv);
    }
    __catch
    {
        g_memoryFaultEncountered = g_memoryFaultEncountered + 1;
        return 0;
    }
    return retVal;
''') if False else ('''    if (hasFPURegisters())
        return sizeof(g_targetFpuXML) - 1;
    else
        return sizeof(g_targetXML) - 1;
''', '''    return strlen(Platform_GetTargetXml());
'''))
ref('p3', P, 'C16 C07', ('''    int memoryFaultEncountered = g_memoryFaultEncountered;
    g_memoryFaultEncountered = 0;
    return memoryFaultEncountered;
''', '''    if (g_memoryFaultEncountered == 0)
        return 0;
    int count = g_memoryFaultEncountered;
    g_memoryFaultEncountered = 0;
    return count;
'''), ('''    return strlen(MemorySim_GetMemoryMapXML(g_pMemory));
''', '''    const char* pXML = Platform_GetDeviceMemoryMapXml();
    return (uint32_t)strlen(pXML);
'''))
ref('x1', 'libmocks/src/printfSpy.c', 'C20', ('''    if (pFile == stdout)
    {
        ppBuffers = g_stdoutBuffers;
    }
    else
    {
        ppBuffers = g_stderrBuffers;
    }
''', '''    ppBuffers = (pFile == stdout) ? g_stdoutBuffers : g_stderrBuffers;
'''), ('''    for (i = 0 ; i < OUTPUT_COUNT ; i++)
    {
        free(g_stdoutBuffers[i]);
        free(g_stderrBuffers[i]);
        g_stdoutBuffers[i] = NULL;
        g_stderrBuffers[i] = NULL;
    }
''', '''    for (i = OUTPUT_COUNT ; i > 0 ; i--)
    {
        free(g_stdoutBuffers[i - 1]);
        g_stdoutBuffers[i - 1] = NULL;
        free(g_stderrBuffers[i - 1]);
        g_stderrBuffers[i - 1] = NULL;
    }
'''), ('''    return (g_bufferIndex + 1) & (OUTPUT_COUNT - 1);
''', '''    return (g_bufferIndex + 1) % OUTPUT_COUNT;
'''))
ref('x2', 'libmocks/src/FileFailureInject.c', 'C21', ('''    if (g_freadToFail > 0)
    {
        if (--g_freadToFail == 0)
        {
            freadRestore();
            return g_freadFailureReturn;
        }
        return fread(ptr, size, nitems, stream);
    }
    return g_freadFailureReturn;
''', '''    if (g_freadToFail <= 0)
        return g_freadFailureReturn;
    g_freadToFail--;
    if (g_freadToFail > 0)
        return fread(ptr, size, nitems, stream);
    freadRestore();
    return g_freadFailureReturn;
'''), ('''    strncpy(str, *g_ppFgetsCurr++, size);
    str[size-1] = '\\0';
    return str;
''', '''    const char* pLine = *g_ppFgetsCurr;
    g_ppFgetsCurr++;
    strncpy(str, pLine, size);
    str[size-1] = '\\0';
    return str;
'''))
ref('x3', 'libmocks/src/MallocFailureInject.c', 'C19', ('''    return g_allocationToFail && 0 == --g_allocationToFail;
''', '''    if (g_allocationToFail == 0)
        return 0;
    g_allocationToFail--;
    return g_allocationToFail == 0;
'''))
ref('c1', 'libcommon/src/common.c', 'C18 C13', ('''    int    result = -1;
    long   fileSize = 0;

    result = fseek(pFile, 0, SEEK_END);
    if (result == -1)
        __throw(fileException);

    fileSize = ftell(pFile);
    if (fileSize < 0)
        __throw(fileException);

    result = fseek(pFile, 0, SEEK_SET);
    if (result == -1)
        __throw(fileException);
''', '''    long   fileSize = 0;

    if (-1 == fseek(pFile, 0, SEEK_END))
        __throw(fileException);
    if ((fileSize = ftell(pFile)) < 0)
        __throw(fileException);
    if (-1 == fseek(pFile, 0, SEEK_SET))
        __throw(fileException);
'''))

ref('n1', 'main/main.c', 'C18', ('''int main(int argc, const char** argv)
{
    volatile int          returnValue = 0;
    IComm* volatile       pComm = NULL;
    CrashDebugCommandLine commandLine;

    __try
    {
        CrashDebugCommandLine_Init(&commandLine, argc-1, argv+1);
        pComm = StandardIComm_Init();
        mriPlatform_Init(&commandLine.context, commandLine.pMemory);
        mriPlatform_Run(pComm);
    }
    __catch
    {
        switch (getExceptionCode())
        {
        case fileException:
        case elfFormatException:
        case invalidArgumentException:
            // Appropriate error message will already have been displayed by CrashDebugCommandLine module.
            break;
        default:
            fprintf(stderr, "Encountered unexpected error: %d\\n", getExceptionCode());
            break;
        }
        returnValue = -1;
    }
    StandardIComm_Uninit(pComm);
    CrashDebugCommandLine_Uninit(&commandLine);

    return returnValue;
}
''', '''static int isExplained(int code)
{
    return code == fileException || code == elfFormatException || code == invalidArgumentException;
}

static void debug(CrashDebugCommandLine* pCommandLine, IComm* pComm)
{
    mriPlatform_Init(&pCommandLine->context, pCommandLine->pMemory);
    mriPlatform_Run(pComm);
}

int main(int argc, const char** argv)
{
    CrashDebugCommandLine commandLine;
    IComm* volatile       pComm = NULL;
    volatile int          failed = 1;

    __try
    {
        CrashDebugCommandLine_Init(&commandLine, argc-1, &argv[1]);
        pComm = StandardIComm_Init();
        debug(&commandLine, pComm);
        failed = 0;
    }
    __catch
    {
        if (!isExplained(getExceptionCode()))
            fprintf(stderr, "Encountered unexpected error: %d\\n", getExceptionCode());
    }
    CrashDebugCommandLine_Uninit(&commandLine);
    StandardIComm_Uninit(pComm);

    return failed ? -1 : 0;
}
'''))

ref('n2', P, 'C22', ('''    g_pComm = pComm;
    do
    {
        __mriDebugException();
    } while (!IComm_ShouldStopRun(pComm));
''', '''    int stop = FALSE;

    for (g_pComm = pComm ; !stop ; stop = IComm_ShouldStopRun(g_pComm))
        __mriDebugException();
'''), ('''static char             g_packetBuffer[16 * 1024];
''', '''#define PACKET_SIZE (16 * 1024)
static struct
{
    char bytes[PACKET_SIZE];
} g_packet;
'''), ('''    return g_packetBuffer;
''', '''    return &g_packet.bytes[0];
'''), ('''    return sizeof(g_packetBuffer);
''', '''    return PACKET_SIZE;
'''))

ref('n3', P, 'C16 C22', ('''static int              g_memoryFaultEncountered;
static int              g_shouldWaitForGdbConnect = TRUE;
''', '''static struct
{
    int memoryFaults;
    int dontWait;
} g_state;
#define g_memoryFaultEncountered g_state.memoryFaults
'''), ('''    g_shouldWaitForGdbConnect = setting;
''', '''    g_state.dontWait = !setting;
'''), ('''    return g_shouldWaitForGdbConnect;
''', '''    return !g_state.dontWait;
'''))

ref('n4', 'libCrashDebug/src/StandardIComm.c', 'C22', ('''    volatile int hasData = FALSE;

    __try
    {
        hasData = Console_HasStdInDataToRead();
    }
    __catch
    {
        clearExceptionCode();
        return FALSE;
    }
    return hasData;
''', '''    volatile int hasData = FALSE;

    __try
        hasData = Console_HasStdInDataToRead() != 0;
    __catch
    {
        hasData = FALSE;
        clearExceptionCode();
    }
    return hasData;
'''), ('''    return pThis->hasGdbConnected || hasReceiveData(pComm);
''', '''    if (pThis->hasGdbConnected)
        return TRUE;
    return hasReceiveData(pComm);
'''))

if __name__ == '__main__':
    sel = sys.argv[1:]
    only = [x for x in sel if x[0] == 'C']
    sel = [x for x in sel if x[0] != 'C']
    for rid, file, checks, subs in R:
        if sel and not any(rid.startswith(x) for x in sel):
            continue
        w = tempfile.mkdtemp(prefix='rf')
        try:
            c = os.path.join(w, 'repo')
            subprocess.run(['cp', '-a', '/repo', c])
            p = os.path.join(c, file)
            t = open(p, newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            ok = True
            for a, b in subs:
                if t.count(a) != 1:
                    print(rid, 'pattern matches', t.count(a), 'times:', a[:60]); ok = False
                t = t.replace(a, b)
            if not ok:
                continue
            if crlf:
                t = t.replace('\n', '\r\n')
            open(p, 'w', newline='').write(t)
            for chk in (only or checks):
                env = dict(os.environ, VF_REPO=c, VERIF_SEED='1')
                ev = os.path.join(V, 'evidence', chk + '.json')
                keep = open(ev).read() if os.path.exists(ev) else None
                t0 = time.time()
                r = subprocess.run(['python3-vt', '-m', 'vf.check', chk], cwd=V, env=env, capture_output=True, text=True)
                if keep is not None:
                    open(ev, 'w').write(keep)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  refuted') or l.startswith('  undec') or l.startswith('  unsup') or 'native driver' in l or 'held' in l]
                print('%-5s %s rc=%d %4.0fs %s' % (rid, chk, r.returncode, time.time() - t0, 'quiet' if r.returncode == 0 else 'ALARM'))
                for l in v[:8]:
                    print('      ', l[:220])
                if r.returncode not in (0, 1):
                    print(r.stderr[-1000:])
                sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)
