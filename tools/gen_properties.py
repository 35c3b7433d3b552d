#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))
MS = "libCrashDebug/src/MemorySim.c"
REG = ("region list", "ordered list of simulated regions/aliases with base, size, data, read-only flag, breakpoints", MS)

prop("C01", "Simulated access succeeds exactly when its whole span lies in one region",
 "For every set of regions and aliases, address and 1/2/4-byte read or write, the access completes if and only if the entire span [address, address+size) lies inside one region or alias (writes: a writable one; no breakpoint involved), otherwise it raises a bus error and leaves memory, flags and regions unchanged. The same rule governs mapping a simulated span to a host pointer. No access ever touches host memory outside the buffer that backs the region.",
 ["inputs", "histories"], "all region lists of any length and geometry reachable by the public operations, all addresses and sizes including spans that end at or wrap past 2^32",
 "the unit tests use at most three or four small regions and a handful of addresses; the claim is over every region geometry and every 32-bit address",
 [MS, "include/MemorySim.h", "include/IMemory.h"], [REG],
 [("span test in region lookup", MS + ": findMatchingRegion"), ("host pointer computation", MS + ": getDataPointer")],
 ["IMemory_Read*/IMemory_Write*", "MemorySim_MapSimulatedAddressToHostAddressForRead/ForWrite"])

prop("C02", "Reads return the last bytes written, little-endian, zero if never written",
 "A read of any width returns, in little-endian order, the bytes most recently stored at those addresses by any mix of writes of other widths and image loads, and zero for bytes never stored. A write changes exactly the bytes of its own span and nothing else: no other byte of any region, no region geometry, no flag.",
 ["inputs", "histories"], "all region lists, all addresses, widths and values, all interleavings of reads and writes",
 "tests write a few words and read them back; frame (nothing else changes) is never checked beyond neighbours",
 [MS, "include/IMemory.h"], [REG], [("typed access through the data pointer", MS + ": read32..write8"), ("zero-filled allocation", MS + ": throwingZeroedMalloc")],
 ["IMemory_Read*/IMemory_Write*"])

prop("C03", "Read-only memory is never changed by simulated writes",
 "Once a region has been made read-only (or was created read-only from an image), every simulated write or map-for-write whose span is served by it, directly or through an alias, raises a bus error and changes nothing; reads still work. Making one region read-only makes no other region read-only.",
 ["inputs", "histories"], "all region lists, all later operation sequences, all addresses/widths",
 "tests check one four-byte region", [MS], [REG],
 [("write rejection", MS + ": getDataPointer"), ("flag set", MS + ": MemorySim_MakeRegionReadOnly")], ["IMemory_Write*", "MemorySim_MapSimulatedAddressToHostAddressForWrite"])

prop("C04", "An alias redirects every access to exactly the right target byte",
 "After creating an alias of some size from one address to a redirect address inside an existing region or alias, an access at offset k inside the alias reaches exactly the byte k past the one the redirect address denotes (an alias of an alias denotes what that alias denotes) and behaves like the same access there: data, read-only status, breakpoints and read counts included. The alias is clipped so that it never reaches past the end of the region it targets, and creating one on an address with no region raises a bus error and changes nothing.",
 ["inputs", "histories"], "all alias/target geometries including aliases of aliases, all sizes including ones larger than the target",
 "tests use two fixed aliases", [MS], [REG],
 [("alias creation and clipping", MS + ": MemorySim_CreateAlias"), ("address translation", MS + ": findMatchingRegion")], ["IMemory_Read*/IMemory_Write* through an alias", "MemorySim_CreateAlias"])

prop("C05", "Breakpoint/watchpoint set and clear behave as a set",
 "Setting a break/watchpoint adds exactly that (kind, address, size) to the set of active ones and setting it again changes nothing; clearing removes exactly that one and clearing an absent one changes nothing. Setting or clearing one outside any region raises a bus error, and failing to allocate raises out-of-memory; in both cases the set is unchanged.",
 ["inputs", "histories"], "any number of active points in any insertion order, all kinds, addresses and sizes",
 "tests use a handful of points in two orders", [MS],
 [("watchpoint array", "per region array sorted by start address", MS)],
 [("insertion/search", MS + ": setWatchpoint, findMatchingOrHigherWatchpoint"), ("removal", MS + ": clearWatchpoint")],
 ["MemorySim_Set/ClearHardwareBreakpoint/Watchpoint followed by accesses"])

prop("C06", "Breakpoints and watchpoints trigger exactly on covered accesses",
 "A 16-bit read raises the breakpoint exception if and only if it lies entirely inside some active breakpoint; other widths and writes never do. A completed access reports 'watchpoint encountered' if and only if it lies entirely inside an active watchpoint of matching direction (read, write, both), including spans that end at the top of the 32-bit address space; querying the report clears it. Host-side mapping and image loading never trigger anything.",
 ["inputs", "histories"], "all sets of break/watchpoints, all addresses, widths and directions",
 "tests probe few points; the early-exit over the sorted array and 32-bit end-address arithmetic need all orders and addresses",
 [MS], [("watchpoint array", "per region array sorted by start address", MS), ("watchpointEncountered", "count of hits since last query", MS)],
 [("scan", MS + ": checkForBreakWatchPoint"), ("span test", MS + ": accessInRange")],
 ["IMemory_Read*/IMemory_Write*", "MemorySim_WasWatchpointEncountered"])

prop("C07", "The memory-map XML describes every region exactly, in order",
 "The generated memory-map document consists of the fixed header, one element per region in creation order with that region's type (flash when read-only, else ram; an alias counts as read-only when its target was so when it was created), start and length in hexadecimal, and the trailer, NUL-terminated, for any number of regions. Generating it never writes outside its buffer, and if memory runs out the previous document stays valid and an out-of-memory error is raised. The debugger core is handed exactly that document, and its length.",
 ["inputs", "histories"], "any number of regions with any base/size/read-only combination",
 "tests use at most four regions; the buffer-size arithmetic must hold for every base/size digit count and region count",
 [MS], [REG], [("size computation and rendering", MS + ": MemorySim_GetMemoryMapXML, appendMemoryMapRegions")], ["MemorySim_GetMemoryMapXML"])

prop("C08", "ELF loading places exactly the loadable segments and rejects malformed files",
 "For any byte blob (with loadable segments that neither overlap nor wrap past the end of the address space), loading it as an ELF either raises an error or creates, in program-header order, one read-only region per PT_LOAD entry with non-zero file size not exceeding its memory size, at the physical address, holding exactly the file bytes of that segment. A blob with a bad magic, class, endianness, type, header size/count/offset, a header or segment reaching outside the blob, or no loadable segment is rejected. The loader never reads outside the blob.",
 ["inputs"], "every byte string of every length (all header field values, all program-header counts)",
 "tests mutate single header fields of one small image; offset+size overflow and arbitrary phentsize/phnum combinations are not reached",
 ["libCrashDebug/src/ElfLoad.c", "libCrashDebug/src/ElfPriv.h", MS], [],
 [("bounds check", "libCrashDebug/src/ElfLoad.c: fetchSizedByteArray"), ("header validation", "libCrashDebug/src/ElfLoad.c: validateElfHeaderContents"), ("segment loop", "libCrashDebug/src/ElfLoad.c: loadFlashLoadableEntries")],
 ["ElfLoad_FromMemory then IMemory reads / memory map"])

prop("C09", "Raw images load byte-for-byte at the requested base, for any size",
 "Loading an image of n bytes at a base address stores byte i of the image at base+i for every i<n, including sizes that are not a multiple of four, reads nothing beyond the image, changes no other byte, and never triggers break/watchpoints or read-only faults. Building regions from a flash image creates the read-only flash region with those bytes plus a zeroed RAM region ending at the initial stack pointer, and rejects images shorter than four bytes; when it fails, the regions that existed before are as they were.",
 ["inputs"], "all image sizes and contents, all base addresses", "tests load eight or nine byte images",
 [MS], [REG], [("word then byte copy loop", MS + ": MemorySim_LoadFromFlashImage"), ("region creation", MS + ": MemorySim_CreateRegionsFromFlashImage")],
 ["MemorySim_LoadFromFlashImage", "MemorySim_CreateRegionsFromFlashImage"])

prop("C10", "Binary crash dumps decode exactly, and truncated or foreign dumps are rejected",
 "For any dump file with a valid v3.0 or v2.0 signature, decoding yields exactly the recorded flags, registers (v2: default MSP/PSP), exception PSR, floating-point registers if and only if flagged, and one writable region per recorded memory block with exactly its bytes (blocks that start no later than they end and do not overlap). Any other signature, and any file that ends inside the signature, flags, registers, a region header or region data, is reported as a format error; a trailing overflow sentinel is reported as a stack overflow.",
 ["inputs"], "all file contents and lengths, any number and size of memory blocks", "tests use a few hand-made dumps with one or two tiny regions",
 ["libCrashDebug/src/CrashCatcherDump.c", "include/mriPlatform.h"], [],
 [("field-by-field reader", "libCrashDebug/src/CrashCatcherDump.c: readDump"), ("region loop", "libCrashDebug/src/CrashCatcherDump.c: readMemoryRegions")],
 ["CrashCatcherDump_ReadBinary"])

prop("C11", "A hex dump decodes to the same result as the binary dump it spells out",
 "Reading a hex dump gives the same registers, memory and errors as reading the binary dump whose bytes are the pairs of hex digits (either case) in the file, with carriage returns and newlines ignored anywhere. A pair containing any other character is reported as a format error (a lone last character is ignored); nothing is stored beyond the requested destination.",
 ["inputs"], "all texts: any line lengths, line endings, digit case, stray characters", "tests use fixed well-formed line splits",
 ["libCrashDebug/src/CrashCatcherDump.c"], [],
 [("hex reader", "libCrashDebug/src/CrashCatcherDump.c: hexRead, readNextCharacterSkippingNewLines, nibbleDigitToVal")],
 ["CrashCatcherDump_ReadHex"])

prop("C12", "GDB logs are parsed into exactly the dumped memory and registers",
 "For every GDB log made of memory-dump lines (address, optional symbol in angle brackets, one to four values), register lines and other text, the parsed result has exactly one writable region per maximal run of consecutive addresses with exactly the dumped words (runs that neither overlap nor wrap past the end of the address space), and each named register (and only those) set to its value, floating-point registers taken from their raw field and flagging FPU presence. Lines without values never create memory, line terminators and trailing blanks never add words, and no line of any content makes the parser read or write outside its line buffer.",
 ["inputs"], "all logs: any order and number of lines, any line content up to the line buffer and beyond", "tests use short synthetic logs without line terminators",
 ["libCrashDebug/src/GdbLogParser.c"], [],
 [("two-pass line loop", "libCrashDebug/src/GdbLogParser.c: parseLines"), ("line parsers", "libCrashDebug/src/GdbLogParser.c: parseMemoryLine, parseRegisterLine")],
 ["GdbLogParse"])

prop("C13", "Allocation and file failures are reported cleanly with no leak or double free",
 "When any allocation, open, seek or tell fails or a read comes up short inside a record, at any point of creating regions/aliases/points, loading images or reading dumps, the operation raises the corresponding error, every block and file it acquired is released exactly once, and structures that existed before stay valid and usable. Tearing the simulated memory down releases every block exactly once.",
 ["fault_sequences", "inputs"], "every single failing call at every call site, any prior region list",
 "tests inject a failure at the first few call sites for one small configuration",
 [MS, "libCrashDebug/src/CrashDebugCommandLine.c", "libCrashDebug/src/CrashCatcherDump.c", "libCrashDebug/src/GdbLogParser.c", "libcommon/src/common.c"], [REG],
 [("catch-free-rethrow blocks", MS + ": MemorySim_CreateRegion, MemorySim_CreateAlias"), ("teardown", MS + ": MemorySim_Uninit"), ("file handling", "libCrashDebug/src/CrashDebugCommandLine.c: loadFileData"), ("size query", "libcommon/src/common.c: GetFileSize")],
 ["the public operations under injected failures"])

prop("C14", "Debugger register packets encode and decode the context exactly",
 "Sending registers to the debugger writes every integer register in index order as little-endian hex, followed by all floating-point registers if and only if the context is flagged as having them; receiving such a packet restores exactly those registers and changes no other part of the context. The target description and its size always match the presence of floating-point registers, and a stop reply carries registers 12-15 with their own values.",
 ["inputs"], "all register contexts and flag words", "tests use one fixed pattern per case",
 ["libCrashDebug/src/mriPlatform.c", "include/mriPlatform.h"], [("register context", "flags, R[19], exceptionPSR, FPR[33]", "include/mriPlatform.h")],
 [("encoding", "libCrashDebug/src/mriPlatform.c: Platform_CopyContextToBuffer, Platform_WriteTResponseRegistersToBuffer"), ("decoding", "libCrashDebug/src/mriPlatform.c: Platform_CopyContextFromBuffer")],
 ["MRI platform register callbacks"])

prop("C15", "The stop signal and fault explanation match the recorded exception bit for bit",
 "The stop signal is determined solely by the low eight bits of the recorded exception PSR (2 SIGINT, 3 and 4 SIGSEGV, 5 SIGBUS, 6 SIGILL, 12 SIGTRAP, else SIGSTOP). The fault text for hard, memory, bus and usage faults lists exactly the set status bits of the corresponding status register with its value, shows a fault address only when flagged valid and readable, expands a forced hard fault into the three configurable faults, and prints nothing for other exceptions or for status registers missing from the dump.",
 ["inputs"], "all PSR values, all 2^32 values of each fault status register, present or missing", "tests set one bit at a time",
 ["libCrashDebug/src/mriPlatform.c"], [],
 [("signal map", "libCrashDebug/src/mriPlatform.c: Platform_DetermineCauseOfException"), ("fault text", "libCrashDebug/src/mriPlatform.c: display*FaultCauseToGdbConsole")],
 ["Platform_DetermineCauseOfException", "Platform_DisplayFaultCauseToGdbConsole output"])

prop("C16", "A faulting debugger memory access is flagged and contained, never fatal",
 "Debugger memory reads and writes of 1, 2 and 4 bytes return or store exactly what the simulated memory holds; when the simulated access faults, a read returns zero, a write changes nothing, and the fault is recorded until queried, once, after which the record is clear. Each access returns normally: no exception escapes to the debugger core and the exception-handler chain is left as it was.",
 ["inputs", "histories"], "all addresses, widths, values and fault outcomes, in any sequence", "tests use a few addresses",
 ["libCrashDebug/src/mriPlatform.c"], [("memory fault flag", "number of faults since last query", "libCrashDebug/src/mriPlatform.c")],
 [("guarded access", "libCrashDebug/src/mriPlatform.c: Platform_MemRead*/MemWrite*"), ("query", "libCrashDebug/src/mriPlatform.c: Platform_WasMemoryFaultEncountered")],
 ["Platform_MemRead32/16/8, Platform_MemWrite32/16/8, Platform_WasMemoryFaultEncountered"])

prop("C17", "A thrown error reaches exactly the innermost active handler, code and message",
 "A throw transfers control to the innermost try block still active, which sees the thrown code (the higher one when thrown while an earlier exception is still being handled) and message; a try block during which nothing was thrown runs no handler. Entering, leaving normally, catching and rethrowing all leave the handler chain exactly as it was before the try block, at any nesting depth, and message text is always truncated to its buffer and terminated.",
 ["inputs", "histories"], "all codes, messages and nestings of try/throw/rethrow", "tests nest two levels with fixed codes",
 ["include/try_catch.h", "libcommon/src/try_catch.c"], [("handler chain", "stack of active handlers", "libcommon/src/try_catch.c")],
 [("try/catch/throw macros", "include/try_catch.h")], ["__try/__catch/__throw/__throw_msg/__rethrow"])

prop("C18", "Command lines are accepted exactly when well-formed and never over-read",
 "For every argument vector, option parsing consumes each option with exactly its own parameters, in any order and letter case, never reads beyond the given arguments, uses the last value given, and rejects unknown options, missing parameters, a missing image or a missing dump with an invalid-argument error. Aliases are created after image and dump are loaded, with exactly the given base, size and redirect values; the dump reader is chosen by the file's own signature. On any error the memory object is torn down and not left dangling. The program hands the debugger exactly the registers and memory that were loaded, tears them down once when it ends, and its exit status is a failure exactly when an error was raised.",
 ["inputs"], "all argument vectors of any length and content", "tests use a few fixed vectors",
 ["libCrashDebug/src/CrashDebugCommandLine.c", "main/main.c"], [],
 [("argument loop", "libCrashDebug/src/CrashDebugCommandLine.c: parseArguments, parse*Option"), ("dump type detection", "libCrashDebug/src/CrashDebugCommandLine.c: getFileType")],
 ["CrashDebugCommandLine_Init", "main"])

prop("C19", "Allocation failure injection fails exactly the requested allocation",
 "After asking for the n-th allocation to fail, exactly the n-th subsequent allocation or reallocation returns NULL and every other one is forwarded unchanged to the real allocator with its result returned, for every n (0 meaning none) and every mix of malloc and realloc. Freeing is never affected, and restoring makes all later allocations succeed again as normal.",
 ["histories", "inputs"], "all n, all call sequences of any length", "tests use n of 1 and 2",
 ["libmocks/src/MallocFailureInject.c", "include/MallocFailureInject.h"], [("countdown", "allocations left before the failing one", "libmocks/src/MallocFailureInject.c")],
 [("hook functions", "libmocks/src/MallocFailureInject.c: mock_malloc, mock_realloc")], ["hook_malloc/hook_realloc/hook_free"])

prop("C20", "The printf spy records the most recent outputs, truncated, and counts every call",
 "While hooked, every printf/fprintf call is captured instead of printed: its formatted text, truncated to the requested size and always terminated, becomes the latest recorded output of its stream, the previous ones of either stream (up to the history depth of four calls) shift back by one, the call counter increases by one, and the full formatted length is returned. Hooking resets history and counter, unhooking restores the real functions and releases every buffer exactly once; re-hooking never leaks or uses a buffer of the old size.",
 ["histories", "inputs"], "all call sequences, buffer sizes and texts", "tests make a few calls with sizes up to eight bytes",
 ["libmocks/src/printfSpy.c", "include/printfSpy.h"], [("ring of buffers", "last outputs per stream", "libmocks/src/printfSpy.c")],
 [("capture", "libmocks/src/printfSpy.c: mock_common"), ("hook/unhook", "libmocks/src/printfSpy.c: printfSpy_Hook, printfSpy_Unhook")],
 ["hook_printf/hook_fprintf", "printfSpy_GetNthOutput", "printfSpy_GetCallCount"])

prop("C21", "File failure injection replaces exactly the chosen calls and restores the rest",
 "Each file mock, once armed, returns exactly the configured result for its own function (after the configured number of calls to let through, which are forwarded unchanged) and leaves the other file functions alone; restoring makes the function behave as the real one again. The scripted line source returns the given lines in order, truncated and terminated to the caller's buffer, then reports end of file exactly once per pass and rewinds.",
 ["histories", "inputs"], "all configured values and counts, all call sequences, all line sets and buffer sizes", "tests use single values; that test file is not even built here",
 ["libmocks/src/FileFailureInject.c", "include/FileFailureInject.h"], [("countdowns and line cursor", "remaining calls to pass / to fail", "libmocks/src/FileFailureInject.c")],
 [("mock functions", "libmocks/src/FileFailureInject.c: mock_*")], ["hook_fopen ... hook_fgets"])

prop("C22", "Post-mortem requests that cannot work are inert, and debugger bytes pass through",
 "Requests to step, continue, set the program counter, set or clear hardware break/watchpoints, or service semihosting never change registers, simulated memory or its active points, and report 'nothing happened'. The debugger core is told to wait for a connection unless that was turned off, is handed a packet buffer of its own of exactly the reported size, and runs again until the interface asks to stop. Bytes exchanged with the debugger pass through the communication interface unchanged and in order, and the connection counts as established only once data has arrived or is waiting; an error while polling counts as no data and does not escape.",
 ["inputs", "histories"], "all request parameters, all bytes, all sequences", "tests issue a few requests with fixed parameters",
 ["libCrashDebug/src/mriPlatform.c", "libCrashDebug/src/StandardIComm.c"], [],
 [("empty callbacks", "libCrashDebug/src/mriPlatform.c: Platform_*"), ("stdio channel", "libCrashDebug/src/StandardIComm.c")],
 ["Platform_* callbacks", "IComm_*"])

prop("C23", "Flash read counts equal the number of 16-bit reads of that half-word",
 "For a read-only region the reported count of a half-word equals the number of 16-bit simulated reads (or map-for-read of two bytes) served by that half-word since the region became read-only, directly or via an alias; 8- and 32-bit reads, writes and loads never count. Asking for the count of an address not in a read-only region raises a bus error.",
 ["histories", "inputs"], "all regions of any size including odd ones, all access sequences", "tests read a few half-words of one region",
 [MS], [("read counters", "one counter per half-word of a read-only region", MS)],
 [("count", MS + ": getDataPointer, MemorySim_GetFlashReadCount"), ("allocation", MS + ": allocateReadCountArrayForReadOnlyRegion")],
 ["MemorySim_GetFlashReadCount"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
