#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libCrashDebug/src/"
MEM, ELF, DUMP, LOG, CMD, MRI, COMM = L+"MemorySim.c", L+"ElfLoad.c", L+"CrashCatcherDump.c", L+"GdbLogParser.c", L+"CrashDebugCommandLine.c", L+"mriPlatform.c", L+"StandardIComm.c"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na, technique=technique))
NOUNIT = "No test of this module can be built here (only the mock library's 16 tests run); the project's own tests sample a handful of hand-picked values. "
I, H, F = ["inputs"], ["inputs", "histories"], ["inputs", "fault_sequences"]

prop("C01", "Memory accesses never leave the simulated regions",
 "Every 8, 16 or 32-bit read or write (and every host-pointer mapping) succeeds only when all of its bytes lie inside one simulated memory region, including accesses that would wrap past 0xFFFFFFFF; any other access raises the bus-error exception, changes no memory and touches no host memory outside the region's own buffer.",
 I, "every address, access width and kind over layouts of up to four regions incl. the edges of the address space", NOUNIT+"Boundary and wrap-around addresses are a 2^32 space.", [MEM],
 [("region lookup and bounds test", MEM)])
prop("C02", "Read-only regions never change through simulated writes",
 "Once a region has been made read-only, every simulated write of any width to it raises the bus-error exception and leaves its bytes as they were, while reads keep working and other regions stay writable.",
 H, "every address/width/value in the region, before and after marking it", NOUNIT+"All write paths and widths must agree.", [MEM], [("read-only test on write", MEM)])
prop("C03", "Written values read back, little-endian, with no effect elsewhere",
 "A value written to writable memory reads back at every width in little-endian byte order; bytes outside the written ones keep their values, regions are independent, and fresh memory reads as zero, also when a new region overlaps or extends an existing one.",
 H, "every value, offset and width; sequences of writes to one and two regions", NOUNIT+"The values and offsets are unbounded.", [MEM], [("region data buffer access", MEM)])
prop("C04", "Aliases give the same bytes as the memory they stand for",
 "Every read through an alias window gives the bytes of the redirected memory at the same offset and every permitted write lands there; aliases of aliases resolve to the real memory, an alias of missing memory is refused, and nothing beyond the window is reachable through it.",
 H, "every offset/width/value in the window; alias chains; windows at region edges", NOUNIT+"Quantifies over every window position and chain.", [MEM], [("alias resolution on creation and access", MEM)])
prop("C05", "Break- and watchpoints fire exactly for matching accesses",
 "An instruction (16-bit) read wholly inside an active breakpoint raises the breakpoint exception, and an access wholly inside an active watchpoint of its kind is recorded as a watchpoint hit; no other access does either. Setting and clearing are idempotent and clearing removes only the identical point.",
 H, "every address and width against sets of points of every kind, and set/clear histories", NOUNIT+"Interval edge cases (incl. the top of the address space) and histories are not sampled.", [MEM], [("watchpoint lists and interval test", MEM)])
prop("C06", "The memory-map XML describes exactly the simulated memory",
 "The memory map handed to GDB is a well-formed document listing each region once with its exact start, length and kind (read-only memory as flash, else RAM), and it stays correct when regions are added later.",
 H, "every region layout (addresses and sizes over 32 bits, up to four regions, each kind)", NOUNIT+"Text lengths vary with every address and size.", [MEM], [("XML sizing and formatting passes", MEM)])
prop("C07", "Flash read counts are exact",
 "The read count of a flash location equals the number of 16-bit instruction reads made of it since it was made read-only; other accesses do not count, and asking for a location that is not read-only memory raises the bus-error exception.",
 H, "every address of the region and sequences of accesses of each kind", NOUNIT+"Counting errors show only on particular histories.", [MEM], [("per-halfword read counters", MEM)])
prop("C08", "Flash images become read-only memory or leave no trace",
 "Creating memory from a flash image yields a read-only region of the image's size with its exact bytes and a writable RAM region up to the image's initial stack pointer; when any step fails, the exception is reported and no partly built region remains.",
 F, "every image size/base class and each failing allocation", NOUNIT+"Each allocation failure is a separate path.", [MEM], [("create, load, protect with rollback", MEM)])
prop("C09", "No ELF file can make the loader read outside the file buffer",
 "Whatever the contents and size of an ELF image, loading it reads only bytes of the image and ends either successfully or with a format or bus-error exception.",
 I, "arbitrary header field values over the full 32-bit range, arbitrary truncation", NOUNIT+"Hostile offsets and sizes (including sums that wrap) form a huge space.", [ELF], [("bounds-checked block access", ELF)])
prop("C10", "Valid ELF images load exactly their loadable segments",
 "An ARM 32-bit little-endian executable loads each non-empty file-backed loadable segment at its load address with the file's bytes as read-only memory, skips everything else, and any other kind of file is rejected with the format exception.",
 I, "every identification byte / type / machine / header-size value; segment tables of up to three entries with every type, address and size class", NOUNIT+"Acceptance must hold for all field values.", [ELF], [("header checks and program-header walk", ELF)])
prop("C11", "Crash-dump registers arrive in the right context slots",
 "For every crash-dump version and flag combination, each register value of the dump ends up in the corresponding register of the debug context, nothing else is changed, and floating-point registers are present exactly when the dump's flag says so.",
 I, "every register value; versions 2 and 3; with and without floating point", NOUNIT+"The register mapping must hold for all values at once.", [DUMP], [("header, register and FP record readers", DUMP)])
prop("C12", "Truncated or malformed crash dumps are rejected",
 "A crash dump that is cut off at any position outside a clean region boundary, has a wrong signature or version, a region whose end is not above its start, the stack-overflow sentinel or (in text form) a broken digit is refused with the matching exception.",
 I, "every truncation point and every signature/version/digit value", NOUNIT+"Every byte position is a separate cut.", [DUMP], [("exact-length reads with format exceptions", DUMP)])
prop("C13", "Dump memory regions are reproduced exactly",
 "Each memory region of a crash dump becomes simulated memory with exactly its address range and bytes, in any order and number, and memory not in the dump stays unmapped.",
 I, "region addresses, lengths and data bytes", NOUNIT+"Ranges over 32-bit address pairs.", [DUMP, MEM], [("region loop", DUMP)])
prop("C14", "Hexadecimal and binary dumps are equivalent",
 "A dump in hexadecimal text, in either letter case and with any line breaks between bytes, produces the same registers and memory as the same dump in binary.",
 I, "all byte values and line-break positions", NOUNIT+"The encodings must agree on every dump.", [DUMP], [("binary and hexadecimal read functions", DUMP)])
prop("C15", "GDB-log register lines set exactly the named registers",
 "Each register line of a GDB log sets that register, and only it, to the logged 32-bit value (the raw value for floating point), floating-point presence is flagged exactly when such registers are logged, and unlogged stack pointers get their default marker.",
 I, "every register, every 32-bit value class and formatting variant", NOUNIT+"52 registers times formatting variants.", [LOG], [("register table", LOG)])
prop("C16", "GDB-log memory lines load word for word",
 "Memory lines of a GDB log load exactly the words they show at the addresses they show; consecutive lines form one region, gaps start another, symbol annotations change nothing, and no word absent from the log appears in memory.",
 I, "line addresses, word counts, annotations and orders", NOUNIT+"Combinations of gaps, annotations and short lines are unbounded.", [LOG], [("two-pass line parser", LOG)])
prop("C17", "No GDB log text can break the parser",
 "For any text in a GDB log, however damaged, cut or overlong, parsing terminates, touches only its own buffers and the simulated memory, closes the file and either succeeds or reports a memory error.",
 I, "arbitrary characters at every position of each line form; every cut; overlong lines", NOUNIT+"Arbitrary text is not samplable.", [LOG], [("line scanner", LOG)])
prop("C18", "The dump format is recognised from the file's first bytes",
 "A file starting with the crash-dump signature is read as a binary dump, one starting with the signature's hexadecimal text as a hexadecimal dump, and anything else, however short, as a GDB log; detection never changes what is then read.",
 I, "every value of the first four bytes and every short length", NOUNIT+"2^32 prefixes.", [CMD], [("file type detection", CMD)])
prop("C19", "Command-line arguments are applied exactly, or refused",
 "Options are recognised in any letter case and order with their parameters consumed exactly; unknown options, missing parameters and missing required options are refused with the invalid-argument exception before anything is loaded.",
 I, "argument lists up to six words drawn from every option form, cut anywhere", NOUNIT+"Argument vectors are unbounded.", [CMD], [("two-pass argument parser", CMD)])
prop("C20", "Failed start-up reports an error and leaves nothing behind",
 "When start-up fails for any reason, an error line and the usage text are written to standard error, the original exception reaches the caller, and the command line object holds no memory so that clean-up afterwards is harmless.",
 F, "each failing argument, file, format and allocation", NOUNIT+"Each failure point is a separate path.", [CMD], [("catch, display, uninitialise, rethrow", CMD)])
prop("C21", "Every opened file is closed exactly once",
 "Each file the program opens while loading its inputs is closed exactly once on every path, successful or failing, and is only opened for reading.",
 F, "every loader, each I/O call failing in turn", NOUNIT+"Only failure paths leak.", [CMD, DUMP, LOG, ELF], [("close in success and catch paths", CMD)])
prop("C22", "All memory is released exactly once",
 "After clean-up no block obtained by the program is still allocated, no block is released twice, and this also holds when any allocation or file operation failed before.",
 F, "each loader and memory-map operation, each allocation failing in turn", NOUNIT+"Only failure paths leak.", [MEM, CMD, DUMP, ELF], [("Uninit and rollback", MEM)])
prop("C23", "I/O and allocation failures always surface as the right exception",
 "When opening, reading, seeking or sizing an input file fails, or an allocation is refused, the operation ends with the file, format or out-of-memory exception instead of continuing with missing data.",
 F, "each call of each kind failing, for each loader", NOUNIT+"Every I/O call is a fault point.", [CMD, DUMP, ELF, LOG, MEM, "libcommon/src/common.c"], [("checked I/O results", CMD)])
prop("C24", "Exceptions unwind to the innermost handler with balanced state",
 "A thrown exception always reaches the innermost enclosing handler with its code (or the highest pending one) and message, handlers nest and unwind in balance on every path, no protected block is left in a way that keeps its handler installed, different exceptions have different codes, and an exception outside of any handler ends the program with a failure status.",
 ["programs", "histories"], "every try/catch/throw nesting of the code base and of generic nestings", "Control transfer across non-local jumps is only sampled on happy paths.", ["include/try_catch.h", "libcommon/src/try_catch.c", CMD, DUMP, ELF, LOG, MEM, MRI, COMM, "main/main.c"], [("setjmp/longjmp macros", "include/try_catch.h")])
prop("C25", "Post-mortem state is immutable and execution never resumes",
 "Run-control requests (stepping, program-counter changes, break- and watchpoints, semihosting) have no effect on registers or memory, and the debug session is served until the connection asks to stop.",
 H, "every register state and request argument, any order", NOUNIT+"Absence of effects for all arguments cannot be sampled.", [MRI], [("no-op platform hooks", MRI)])
prop("C26", "Faulting debugger memory accesses are contained and counted",
 "A memory access by the debugger that fails raises nothing, reads as zero, changes no memory and is reported by the next fault query exactly once; accesses that succeed report no fault.",
 H, "every address, width and value; sequences of accesses and queries", NOUNIT+"All addresses and orders.", [MRI], [("catch and count around each access", MRI)])
prop("C27", "Registers travel to and from GDB unchanged and in order",
 "The register packets sent to GDB contain every context register once, in target order, in little-endian hex (floating point only when present), and registers written by GDB arrive in exactly those slots.",
 I, "every register value, with and without floating point", NOUNIT+"All values of all registers.", [MRI], [("context copy to/from packet buffer", MRI)])
prop("C28", "Each exception is reported to GDB as its signal",
 "The active exception number determines the reported signal: NMI is an interrupt, hard and memory-management faults are segmentation faults, bus faults bus errors, usage faults illegal instructions, debug events traps, and everything else a stop.",
 I, "every value of the exception status register", NOUNIT+"Every exception number.", [MRI], [("cause switch", MRI)])
prop("C29", "Fault causes shown to the user match the fault status registers",
 "For each fault exception, the console shows the status value and exactly the causes whose bits are set (and the fault address only when valid and readable); absent status registers or clear status bits show nothing for that fault class and never fail.",
 I, "every value of the status registers, each present or absent", NOUNIT+"Every bit combination.", [MRI], [("status bit displays", MRI)])
prop("C30", "Target descriptions match the register layout",
 "The target description given to GDB is complete, its reported size is exact, and the registers it lists match in number, order and width the register data that is transferred, with floating point exactly when present.",
 ["configurations"], "both register configurations", NOUNIT+"The description and the transfer code are maintained separately.", [MRI], [("target XML tables", MRI)])
prop("C31", "The console connection delivers characters unchanged",
 "Characters pass between GDB and the console unchanged and one at a time, a pending-data query never raises, the session counts as connected once data is pending or has been received, and it never asks to stop.",
 H, "every character value and order of calls, each console call failing", NOUNIT+"Histories and failures.", [COMM], [("IComm implementation", COMM)])
prop("C32", "The program exits with failure exactly when something failed",
 "The program returns zero only when start-up and session ended without an exception and a failure status otherwise; a session failure is reported with its number unless it is a file, format or argument error (those are reported where they occur); no session is served after a failed start-up; everything is released before exiting.",
 F, "each start-up and session failure", NOUNIT+"main is not tested at all.", ["main/main.c"], [("catch around the session", "main/main.c")])
prop("C33", "Injected allocation failures strike exactly when asked",
 "The allocation-failure mock refuses exactly the requested allocation, counting both allocation calls together from the request on, and passes every other one, every release, and everything after restoring to the real allocator unchanged.",
 H, "every count and call sequence", "The existing tests try a few counts.", ["libmocks/src/MallocFailureInject.c"], [("call counters", "libmocks/src/MallocFailureInject.c")])
prop("C34", "Injected file failures strike exactly when asked",
 "Each file-operation mock returns the configured failure for exactly its operation after the requested number of successful calls, other operations stay real, and restoring brings back the real operation with no leftover configuration.",
 H, "every operation, count, return value and call sequence", "The existing tests try a few counts and no reuse after restore.", ["libmocks/src/FileFailureInject.c"], [("hook pointers and counters", "libmocks/src/FileFailureInject.c")])
prop("C35", "The output spy records the latest output safely",
 "While one stream is used, the output spy reports its latest four outputs, each truncated to the requested buffer size, and the number of calls, for any output length and buffer size; with any mix of streams it touches no memory outside its buffers; unhooking releases them and brings back the real functions.",
 H, "every output length, buffer size and hook history", "The existing tests use a few short strings.", ["libmocks/src/printfSpy.c"], [("spy buffer", "libmocks/src/printfSpy.c")])
prop("C36", "Console failures and end of input end the session",
 "The console's read and write deliver exactly one character or raise the file exception, also at end of input and on short writes, and the pending-data query is true exactly when a read would not block.",
 F, "every result of the operating-system calls", "The production console has no tests.", ["main/MockDefaults.c"], [("POSIX read/write/select wrappers", "main/MockDefaults.c")])

CLAIMED = sorted(f[:3] for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".c") and len(f) == 5)
TECH = "abstract interpretation (Frama-C/Eva) of the current sources with lowered exceptions; obligations proved per call site"
NOTE = ("Every obligation and every possible run-time error is decided for all abstract states that the entry points produce from their "
        "stated input ranges; sound for those entries up to Frama-C/Eva, the setjmp lowering and the library models (trusted). Layout counts and text shapes are bounded as DESIGN.md states per property.")
sys.path.insert(0, os.path.join(V, "checks"))
import rules
out = []
for p in P:
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for p in P:
    spec = rules.PROPERTIES.get(p["id"], {})
    if p["id"] in CLAIMED or spec.get("rules"):
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/check.py %s" % p["id"],
                       "thorough_cmd": "python3 checks/check.py %s --tier thorough" % p["id"],
                       "technique": spec.get("technique", TECH), "level": "other", "level_note": spec.get("note", NOTE)})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
json.dump({"version": 1, "setup_cmd": "VERIF_KEEP_PLUGIN=1 python3 checks/check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
