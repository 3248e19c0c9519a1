B = {
"C01": ("an interval oracle computed by the entry from the region table: an access is expected to succeed iff all its bytes lie inside one region, else to raise the bus error and leave every byte as it was.",
        "Three layouts of up to four regions (touching 0, ending at 2^32, tiny, adjacent). Addresses are all 2^32, in classes by distance to a region edge: single addresses near edges, one interval per remaining gap. Values are unknown. Regions longer than a few bytes only through the size classes of `t_map` and the narrow rule."),
"C02": ("a byte-for-byte shadow of the flash contents that must be unchanged after any write attempt, which must raise the bus error.",
        "12-byte flash with RAM next to it and aliases of both; every address class, width and value."),
"C03": ("a shadow memory kept by the entry: read-back value, little-endian split and join, unchanged neighbours.",
        "Two 12-byte regions for the all-offset entries; size classes up to 4 KiB for zero-fill; offsets of every magnitude class for `t_far_apart`; image loads of 0 to 12 bytes at any offset."),
"C04": ("agreement of each access through the window with the same access to the target.",
        "Windows of every place and size in a 10-byte target, chains of two aliases; the narrow rule for windows of any size."),
"C05": ("a set model of the points: an access must hit iff it lies wholly inside a point of its kind.",
        "Three bases (bottom, middle, top of the address space); points of every type, 1 to 8 bytes; up to four points at once in every set and clear order, histories of three steps, and a crowd of more points than any small table would hold."),
"C06": ("a small parser in the harness which walks the document and compares each element with the region table, plus termination and buffer bounds.",
        "All digit counts of base and size, every combination of protection for up to four regions; `t_bounds` takes any base and any size as intervals and decides buffer safety and termination only."),
"C07": ("a counter per halfword kept by the entry.",
        "12-byte flash, every halfword; fetch counts of up to a few hundred through one location (wider than a byte); sizes 1 to 9 for the bookkeeping bounds; narrow rule for any size."),
"C08": ("image bytes against memory; live-block count and region lookup before and after a failing step.",
        "Images of 0 to 16 bytes with unknown bytes; each allocation refused in turn."),
"C09": ("the image is an object of exactly its length: any read outside of it is a memory alarm. The outcome must be success or one of the two exceptions.",
        "Lengths 1 to 83 (header plus one program header minus one byte) with all bytes unknown; then a valid file header with unknown table offset, entry size and count, and unknown segment offset and size, over the whole 32 bits."),
"C10": ("for acceptance: the memory after loading against the segment table; for rejection: the format exception, nothing loaded.",
        "17 classes of one wrong header field, any wrong value each; tables of up to three segments of every type, size relation and place; more than 255 headers. "),
"C11": ("each register of the dump gets its own symbolic byte pattern or unknown value and is looked up in the context afterwards.",
        "Versions 2 and 3, all flag words, both encodings."),
"C12": ("the accept/refuse decision of a truncated dump, worked out from the position alone.",
        "Every byte (and in text form every digit) of dumps with up to two regions; signatures with any wrong byte; sentinel after 0, 1 or 2 regions."),
"C13": ("every byte of every dumped region, its edges, and the absence of anything else.",
        "Five kinds of place (0, middle, top of the address space), 0 to 9 bytes with unknown contents, up to three regions in every order, one region of 270 bytes, narrow rule for any length."),
"C14": ("the state after loading the text form against the state that the bytes denote.",
        "Every byte value in both cases; letter-case and line-break patterns (none, LF, CR, CRLF at every kind of boundary, including inside a byte); any bad character at any digit."),
"C15": ("the named register has the value, the other 51 keep theirs.",
        "52 registers; values of 1 to 8 hex digits in either case and decimal; trailing text; order forwards and backwards; registers listed twice."),
"C16": ("the words on the lines against memory, byte by byte, and region edges.",
        "32 line styles (symbol, offset, tabs, spaces, CR), 1 to 4 words and surplus; sequences of up to four lines; narrow rule for any number of lines."),
"C17": ("absence of memory alarms, the file closed, the parser returning, the exception (if any) being one of the allowed ones.",
        "Arbitrary characters at arbitrary places in register and memory lines, every cut, lines longer than the buffer with the break at every position of the last token."),
"C18": ("which of the three readers produced the result.",
        "Each signature byte on both sides of its right value, all files shorter than the signature."),
"C19": ("the regions, aliases and dump which the list asks for; or the argument exception with no file opened.",
        "All orders of the options, each in lower, upper and mixed case, every cut of a complete list, unknown words of arbitrary characters, near misses of each option."),
"C20": ("the exception code, one error line and the usage text on standard error, no live block, no open file, and a working second start.",
        "The n-th call of each of open, seek, tell, read, gets and malloc failing, for every n that occurs, over the image and dump kinds; malformed inputs."),
"C21": ("ghost state of each file handle in the model: open once, closed once, mode for reading.",
        "As C20, plus dumps cut anywhere or with any contents; rule VOL on the loaders (a lost `volatile` makes the handle indeterminate in the handler)."),
"C22": ("ghost list of live heap blocks.",
        "As C20, plus histories of any two (thorough: three) memory-map operations; rule VOL on the loaders."),
"C23": ("the exception code which belongs to the failing call.",
        "As C20, and each loader alone. One recorded finding: a read error inside of `fgets` of a GDB log is taken for the end of the log."),
"C24": ("code and message seen by each handler, and the handler chain after the block.",
        "All 32 codes, nestings of up to three blocks and four call levels; rules BAL and VOL are not bounded: they cover every path of every function."),
"C25": ("registers and memory before and after each request.",
        "22 requests with unknown arguments; one, all in several orders, any two (thorough)."),
"C26": ("result, memory, and the answer of the next two fault queries.",
        "Each width and kind with unknown addresses by class; pairs and (thorough) sequences of accesses; a run of more faults than a byte can count."),
"C27": ("the packet text against the context, register by register.",
        "Byte patterns that tell all lanes apart, plus unknown values; floating point on and off."),
"C28": ("the table of the ARMv7-M exception numbers.",
        "All 512 exception numbers, all other xPSR bits unknown."),
"C29": ("the text that the status bits call for, composed by the entry.",
        "All values of the status bytes which have meaning, the rest unknown; readable and unreadable fault address registers; missing status registers."),
"C30": ("a walk over the XML of the description in parallel with the register layout.",
        "Both configurations, the other flag bits unknown."),
"C31": ("a queue of characters kept by the entry.",
        "All 256 characters, every sequence of six steps, every exception code from the console."),
"C32": ("exit status, error line, session served or not, live blocks and open files at exit.",
        "Every exception code in the first to third round of the session; the n-th call of each library operation failing."),
"C33": ("a recording allocator behind the hooks.",
        "Every position up to 8 with every mix of both calls, counts to 41 exactly and beyond as intervals; any size."),
"C34": ("a recording C library behind the hooks.",
        "Each operation, any two of them, counts 0 to 6, any return value (interval), reuse after restore in every order."),
"C35": ("the text of the latest four outputs, cut to the buffer.",
        "Output lengths 0 to 20 against buffer sizes 0 to 12, long outputs as intervals, histories of hook, output and unhook with both streams."),
"C36": ("the return values of the modelled system calls.",
        "Each result class of read, write and select (any value), any byte."),
}
