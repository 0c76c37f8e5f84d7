COMMON = [
    'clang 18 -O1 (no optimisation passes beyond sroa/early-cse/simplifycfg) lowers the C++ sources with the semantics of the g++ build; checked by replaying sampled paths on a g++ build',
    'rt/rt.c and rt/cxx.cpp model the C library, the file system (in memory, working directory /w), stdio and the C++ runtime; malloc and file writes never fail',
    'the engine (engine/sse.cpp), Z3 and the harness oracle are trusted',
    'file contents outside the symbolic bytes named in the harness are concrete',
]
CHECKS = {
 'C01': dict(
    bounds='expressions of 1-3 binary operators (all 19 operators, all ordered pairs), prefix - + ~ on each operand, one nesting level of parentheses, operands: every value of 8/4/2 hexadecimal digits or symbols holding them; shift counts 0..31',
    reach=['division by zero', 'INT_MIN / -1', 'binary operator on 32-bit operands', 'two operators are applied left to right', 'parentheses are evaluated first', 'prefix operators bind to the operand that follows', 'symbol operands and nesting'],
    assumptions=['shift counts outside 0..31 are outside the property']),
 'C02': dict(
    bounds='hexadecimal literals of 1-11 digits, binary of 1-12 (thorough 32) digits and 33-34 digits around the limit, decimal of 1-12 digits, every digit value and letter case, both prefix and suffix notation; one foreign alphanumeric character at any position of a 2-4 (thorough 6) digit literal; every printable ASCII character and documented escape in single quotes',
    reach=['$ hexadecimal literal', 'binary literal with suffix b', 'decimal literal', 'a literal that does not fit in 32 bits is rejected as SE204', 'a hexadecimal literal with a foreign digit is rejected as SE201', 'a binary literal with a foreign digit is rejected as SE202', 'a decimal literal with a foreign digit is rejected as SE200', 'character literal', 'escape sequence', 'character literal in data and operands'],
    assumptions=["the random character '\\#' and characters outside printable ASCII are not covered"]),
 'C05': dict(
    bounds='jr (all conditions) and djnz, Z80, eZ80 ADL and eZ80 with ADL=0, with and without mode suffix; every 16-bit (eZ80: 24-bit) instruction address and every 16-/24-bit target, literal, equated before or after the use, or a label; label targets over gaps of 0..130 bytes; $- and label-relative targets with every 8-bit offset',
    reach=['in range', 'out of range', 'a backward jump lands on its label', 'a forward jump lands on its label', 'a backward jump too far is rejected', 'expression target'],
    assumptions=['instructions and targets do not wrap around the end of the address space']),
 'C06': dict(
    bounds='index displacements of every 16-bit value of either sign, bit numbers and restart addresses of every 12-bit value of either sign; given literally, by a symbol defined before, or by one defined after the use; ld/set/bit/res/rst forms, Z80 and eZ80 tables',
    reach=['accepted', 'rejected'], assumptions=[]),
 'C07': dict(
    bounds='.db/.byte/.dw/.word/.dl/.long with three values (one of any valid 24-bit value and either sign; literal, symbol known before or after), strings of up to 3 (thorough 6) characters from all printable ASCII except quote and backslash, .fill values and 8-bit immediates; truncation decided for every 16-bit (.dw: 24-bit) value of either sign',
    reach=['values are emitted little-endian in order', 'strings are emitted one byte per character', 'truncated', 'in range', 'wide values are emitted modulo the directive\'s width', 'lists of expressions'], assumptions=[]),
 'C08': dict(
    bounds='62 uses covering every operand kind and every expression shape with the symbol (plus a second positive and a negative known symbol, defines with and without parameters), the symbol holding every 12-bit (thorough 16-bit) value, every negative 24-bit value or every 32-bit value (quick: every fourth use for the last two), defined by =, .equ or #define before or after the use; Z80 and eZ80',
    reach=['compared'], assumptions=[]),
 'C03': dict(
    bounds='every documented Z80 mnemonic and operand form (all register, condition, bit and restart combinations, 20 families); every 8- and 16-bit immediate/address, every displacement -127..127, given literally or through a symbol defined before or after the instruction; instructions in sequence in one program, so a wrong length shows in everything that follows',
    reach=['ld r,r', 'ld r,n', 'ld r,(ix+d)', 'ld (ix+d),r', 'ld a', 'ld rr,nn', 'ld rr,(nn)', 'stack and exchange', 'implied', 'alu r', 'alu n', 'inc/dec 8', '16-bit arithmetic', 'rotate r', 'rotate (ix+d)', 'bit r', 'bit (ix+d)', 'jp/call', 'ret, jumps, rst', 'in/out'],
    assumptions=['relative jump targets are covered by C05, operand range limits by C06']),
 'C04': dict(
    bounds='with -E in ADL and ADL=0 mode: all documented Z80 forms, the eZ80 additions (7 families), and 40 forms of every kind under each of the 8 mode suffixes in either letter case; every 8-, 16- or 24-bit immediate, every displacement -127..127, literal or through a symbol defined before or after',
    reach=['Z80 forms have 3-byte addresses in ADL mode', 'Z80 forms have 2-byte addresses with ADL=0', 'eZ80 instructions assemble to their Zilog encoding', 'a mode suffix emits its prefix and fixes the width of that instruction only'], assumptions=[]),
 'C09': dict(
    bounds='all sequences of 2 (thorough 3) statements of 15 kinds (data and instructions with forward references, .db/.dw/.dl lists, strings, .fill/.block, .org, .seek both ways, instructions, $, equates and anonymous labels, macro uses, conditionals), Z80 with and without an origin and eZ80; data values and origins symbolic over their full width, fill counts 0..5 (thorough 0..15); negative sizes and origins for every 16-bit value of either sign, literal or symbolic; every directive that needs its value at once with a forward reference',
    reach=['labels, $ and output account for every byte', 'a negative size or origin is an error', 'zero and positive sizes and origins are accepted', 'a forward reference where the value is needed at once is diagnosed'],
    assumptions=['addresses do not wrap around; bytes skipped by .seek are unspecified but zero here']),
 'C10': dict(
    bounds='single conditionals of all 7 condition forms (#if with a symbolic value, comparison or sub-expression, #ifdef/#ifndef of a set and an unset name) x 5 branch shapes (if; else; elif; elif+else; 2 elif+else) x 4 layouts (plain, indented upper case, CR/LF with comments naming directives, one line with \\\\); nesting of 2 (thorough 3) levels at every branch; branch contents: labels, bytes and, when skipped, 13 kinds of offending statement; stray and missing directives after every form',
    reach=['exactly the selected branches take effect', 'line numbers after conditional blocks', 'stray directive reported', 'missing #endif reported'],
    assumptions=['symbols in a condition are defined before it']),
 'C11': dict(
    bounds='expression macros: 11 bodies (operators, nesting with swapped and equal parameter names, parentheses, comments) x argument kinds (quick: 20 pairs per body in rotating contexts; thorough: all 100 pairs in all 5 contexts; literal, known or forward symbol, expressions, nested macro, $, character, negative, define); statement macros using both parameters in 14 places, nested invocations, conditionals and defines; redefinition, self-reference, #undef, eval, concat, string and list defines; 0-3 parameters with 0-4 arguments; recursion depth 3 (thorough 7); values: every 8-bit value (4-bit in statement macros in quick)',
    reach=['a macro in an expression is its body with the arguments as values', 'invoking a macro assembles its body with the parameters bound', 'parameters do not leak', 'definitions take effect for later uses only', 'eval() fixes the value', 'a missing argument is diagnosed', 'surplus argument', 'recursive macros rebind their parameters'],
    assumptions=['an #if on a forward reference is outside the property', 'redefinition that refers to the old meaning is covered for parameterless defines','list macros (x,y in one argument place) get values known at once']),
 'C12': dict(
    how='The oracle builds the whole file from the published TI variable-link layouts.',
    bounds='.bin, .73p, .82p, .83p, .8xp, .8xv, .85p, .86p, .85s, .86s (either letter case), 7 names of 1..11 letters and digits, 3 output directories (one with a dot), code of 0, 1, 3, 126 and 260 (thorough also 8 and 700) bytes whose first four, last and filling bytes take every value, Z80 and eZ80',
    reach=['73p', '82p', '83p', '8xp', '8xv', '85p', '86p', '85s', '86s', 'bin'],
    assumptions=['the header-length byte of .85p/.85s is taken as 6 + name length, as the program has always written it', 'code larger than the calculator memory is outside the bound']),
 'C25': dict(
    how='The oracle builds the whole file; the 96 signature bytes of a .8xk are taken from the file (C27).',
    ignore_artifacts=r'8xk$',
    bounds='.hex images of 0, 1, 2, 31, 32, 33, 64, 95, 16417 and 81921 (thorough also 16384, 16385, 40000 and 300000) bytes, .rom of 0 and 3 (thorough 16500) bytes, .8xk applications with the three required fields in all 6 orders mixed with other fields, names of 1..8 bytes, image sizes up to 16288 (thorough 32672) bytes; all header values, names and up to 40 image bytes symbolic over all 256 values; images lacking a field, with another program type, or without room for the signature',
    reach=['hex', 'rom', '8xk', 'not an application'],
    assumptions=['the signature value (GMP, MD5) is replaced by a stand-in; record structure and checksums over it are checked']),
 'C13': dict(
    bounds='three symbols, each defined in one of 6 ways (= with every 32-bit value, .equ of every negative 16-bit value, label, define of an expression, define of a forward reference, redefined), plus macros, text defines and anonymous labels; three names of 1-2 symbolic characters (letters of both cases, digits, underscore) in all 6 orders of definition, with and without -A; output names without and with extension, in directories with a dot, absent, with -O',
    reach=['symbol file'],
    assumptions=['a name that is both a label and a define is reported as an error elsewhere (conflicting definition)']),
 'C14': dict(
    bounds='all pairs of 25 kinds of lines (code after macros, run(), #include, .list and .nolist on the same line, labels and instructions, .db lists of 1..9 values, forward references in lists of every alignment to the four listing columns, several instructions on a line, .fill, macro uses, conditionals, blank and comment lines, strings, #include, .org, defines and equates, jumps, .nolist/.list sections, #import, run(), macro definitions, #comment blocks, long lines), Z80 and eZ80, last line with and without newline, two (thorough ten) sizes each; values, addresses and forward symbols symbolic over their full width; the listing is compared line by line (number, address, bytes, text) with the program and the output file with and without -T',
    reach=['listing'],
    assumptions=['.seek is left out (the order of listing and output differ)', 'line numbers below 100000 and addresses below 2^24']),
 'C15': dict(
    bounds='all pairs of 41 kinds of statement (37 offending ones: every value-dependent check with its value known or defined later, syntax errors, unknown names, conflicting names, directives out of place, missing files, warnings; the reported condition decided by a symbolic 4- to 16-bit value) x 5 placements (plain, between other statements on a line, in a macro, in an include (also on the line number of the other one), in a taken #if), each after one of 8 multi-line constructs (comment block, skipped branch, macro use, include, continued define, run(), blank and CR/LF lines); quick: one rotating placement per pair, thorough: all placements and preceding constructs',
    reach=['fatal','error','warning','clean'],
    assumptions=['an unclosed parenthesis runs to the end of its line']),
 'C17': dict(
    bounds='every documented Z80 form and eZ80 addition (quick: a quarter or third of them per operand kind, thorough: all) with and without mode suffix, every letter of the line in either case independently; 12 programs of directives, preprocessor commands, built-ins, literals and names, again with every letter free; with -A everything but the names; two names differing in case, defined as =, .equ, define, macro, label, forward or only set, values and hexadecimal digits of either case symbolic',
    reach=['mnemonics, registers and names in any case','mnemonics and registers in any case with -A','eZ80 mnemonics, registers and suffixes in any case','directives and names in any case','directives in any case with -A','names differing in case are distinct with -A','names differing in case are the same','a name defined in another case only is undefined with -A'],
    assumptions=['text in quotes is left alone']),
 'C18': dict(
    bounds='programs with 0..3 anonymous labels (6 ways of writing them) before and 0..3 after a reference in each of 21 contexts (data, jumps, calls, operands, expressions, macro and function arguments, defines, includes, run(), relative jumps, next to skipped code, .echo at once and deferred, =, #if), distances 1..4 in either direction, existing or not; every label at its own symbolic address (relative jumps: at symbolic nearby addresses); Z80 and eZ80',
    reach=['missing label', 'backward', 'forward'],
    assumptions=['no anonymous labels in macro bodies']),
 'C19': dict(
    bounds='one declared instruction of 14 operand patterns (0..3 operands of one or two bytes, between fixed text) x 1..8 opcode bytes x with and without end data, under 6 mnemonics (new ones and those of built-in instructions), used twice with literal, backward or forward operands; opcode bytes, end data and operands symbolic over all values; all Z80 forms (quick: an eighth) after 11 declarations for the same mnemonics; 16 incomplete or inconsistent declarations; Z80 and eZ80',
    reach=['added instructions assemble as declared and others as before', 'built-in instructions of the same names assemble as before', 'an incomplete declaration is SE126', 'a complete declaration'],
    assumptions=['the opcode is written as in TASM tables, its last two digits being the first byte', 'with 3 bytes for 2 operands the first is the wide one', 'two-byte operands are addresses, three bytes long in ADL mode', 'a declared pattern that also matches a built-in form takes precedence over it and is left out']),
 'C20': dict(
    bounds='14 programs of every kind (valid and diagnosed, with symbolic values) under all 64 subsets of -T -L -S -N -A -O in 14 cyclic orders and 3 positions of the file names, Z80 and eZ80 (quick: a quarter); -D with 17 values or none (names and values symbolic), attached or separate, alone or with another -D, used in 6 ways, against the same program with #define lines (quick: a third); 17 texts of -V against a file with that text, with 6 other options; -I in 8 ways and 4 positions',
    reach=['flags with a valid program','flags with a diagnosed program','-D as #define','-D as #define, diagnosed','-V','-V, diagnosed','-I adds directories searched by #include','a file in no include directory is diagnosed'],
    assumptions=['a -D name is a plain identifier']),
 'C21': dict(
    ignore_artifacts=r'lst$',
    bounds='39 included texts (every kind of statement, valid and diagnosed, with and without final newline, empty, CR/LF, with a byte order mark, nested includes and imports) in 8 surroundings, compared with the same program having the text in place of the directive (6 ways of writing the directive and 3 options, rotating in quick); imported files of 0, 1, 2, 4, 9 and 300 (thorough 5300) bytes taking every value, once or twice, after 4 beginnings; presence of a file of the same name in the working and two include directories in all 8 combinations x 4 -I orders x directive in the main file, in an included file or in a main file elsewhere; 15 missing or unnamed files',
    reach=['include','include, diagnosed','#import emits exactly the bytes of the file','a missing file is diagnosed','files are searched in the working directory, then in the -I directories in order','a missing or unnamed file is diagnosed'],
    assumptions=['the included text closes its own conditionals, comment blocks and macro definitions']),
 'C22': dict(
    bounds='strings of 15 shapes of up to 3 symbolic characters (every byte but NUL, quote and line ends) and escapes (every printable character but \\\\#) in 12 contexts of data directives (lists, defines, macro arguments, conditionals, comments and statements after them); character literals of every ASCII character and escape in 6 contexts; .echo of the strings with values known or defined later in 8 programs, output compared exactly; .echo > and >> in 6 programs with and without an existing file; 19 texts written to buffers in pairs, in 5 ways, and run, against the lines themselves',
    reach=['a string emits exactly its characters','a character literal is the code of its character','.echo prints the characters and decimal values','.echo of an undefined symbol is diagnosed','.echo > writes the characters and values to the file','run(), diagnosed','run()'],
    assumptions=['\\# (a random number) is left out','\\0 is not echoed to the screen']),
 'C23': dict(
    bounds='10 programs of 3..12 lines using all kinds of statements, with about 300 places for blanks and symbolic values; 1-3 blanks (space or tab) at every place or at one of them; comments of 10 beginnings followed by 1-2 bytes of any value, after every line or one of them; CR/LF or LF, missing final newline, byte order mark; blank lines, comment lines and #comment blocks with arbitrary bytes after every line or one of them; statements on separate lines or joined by \\\\; combinations of all; Z80 and eZ80',
    reach=['blanks between tokens','comments','line ends, byte order mark, final newline','blank lines, comment lines and comment blocks','statements joined by \\','layout'],
    assumptions=['a blank in front of the parenthesis of a macro or inside a macro name is not optional']),
 'C16': dict(
    how='Statement templates covering every construct of the language, with one byte replaced by, or one or two inserted bytes of, any value at every position, or cut off there; all files of up to two (thorough three) bytes; tokens of up to 1100 bytes at every place; chains and nesting up to 400 deep; self-referring macros, defines, includes and run(). Every load, store, free, string operation and pointer the code evaluates is checked by the executor against the live objects (bounds, use after free, double free, null), with a bound on instructions and recursion for termination; the exit status must be 0..3. Counterexamples are replayed under AddressSanitizer or valgrind.',
    bounds='91 statement templates in a program with defines, macros and labels x every position x (replaced byte: all 256 values; inserted byte: all 256 values; two inserted bytes, cut line: 40 significant characters each; cut file: all values), Z80, eZ80, listing; files of up to 2 bytes (thorough 3); 61 templates with tokens of 20 lengths up to 1100 bytes made of 16 characters and a symbolic one; 32 kinds of chains of 20, 130 and 400 links in 6 contexts; 150 recursions, redefinitions and truncated commands followed by a byte of any value; pairs of statements (quick: half of all 8281) with a line end, \\\\ or significant character between; 27 command lines with names of up to 1100 bytes and a byte of any value',
    reach=['a byte replaced','a byte inserted','two bytes inserted','text cut off','files of up to three bytes','long tokens','deep nesting and long chains','recursion and redefinition','two statements','command lines','accepted','diagnosed'],
    kinds=['assert','mem'], engine=['-C','20','-M'],
    assumptions=['memory allocation succeeds','accesses within a larger live object are not told from one another (fields of one structure)','bitmap files are decided by C28']),
 'C24': dict(
    how='The executor gives every byte the program never wrote (stack, malloc, realloc) a fresh unconstrained value and carries it through the computation; it is reported when the feasibility of a branch, an address, a system call or any byte of an output file, message or exit status depends on such a value. The texts are those of C16 with listings, label files, statistics and all formats. Reports are confirmed with valgrind on the real binary.',
    bounds='91 statement templates x every position x a byte replaced, one or two inserted, line or file cut off (values as in C16); 150 recursions, redefinitions and truncated commands followed by a byte of any value; pairs of statements (quick: half of all 8281); 27 command lines; rotating over -T, -L, -S and .bin .8xp .hex .86p .8xv .73p .82p .86s .85p output',
    reach=['a byte replaced','a byte inserted','two bytes inserted','text cut off','recursion and redefinition','two statements','command lines','accepted','diagnosed'],
    kinds=['uninit'], engine=['-C','20','-M','-u'],
    assumptions=['.8xk signatures are a stand-in (C27)','bitmap files are decided by C28']),
 'C28': dict(
    how='The oracle computes the shade of every color in exact integer arithmetic; symbolic pixels index its tables. Memory errors and uninitialised values are decided on the same runs.',
    bounds='black-and-white images of 6 (thorough 20) widths from 1 to 33 (65) and heights 1..3 (6) with every bit of up to 24 bytes, the unused bits and the reserved palette byte symbolic; 1-, 4- and 8-bit palettes, full, short and grey, with up to 6 symbolic pixel bytes and 1 to 256 shades; 16-, 24- and 32-bit images with one channel over all values; masks (normal, inverted, first), inverted colors, minimal widths; all header tokens; image maps of up to 3x3 parts with padding, count and labels; each byte and every second pair of neighbouring bytes of both headers over all values; files cut off; each setting with and without values of up to four digits',
    reach=['black and white','palette','true color','mask','header of the image','image map and labels','malformed header','file cut off','settings'],
    kinds=['assert','mem','uninit'], engine=['-C','20','-u'],
    assumptions=['the conversion is not documented: 0.99 minus the luminance (0.2126 R + 0.7152 G + 0.0722 B) times the number of shades, rounded down; colors exactly on a boundary of two shades are left out (double arithmetic may give either)','image maps divide the image evenly','widths and heights over 32767 are diagnosed']),
 'C26': dict(
    how='The oracle computes the execution time of an instruction from its encoding (Z80: T states; eZ80: a cycle per byte fetched, read or written plus those of the operation).',
    bounds='every instruction form of the Z80 (documented and undocumented), of the eZ80 and every addition of the eZ80, in groups of a sixteenth of a family, ADL and Z80 mode, operands symbolic over their full width, literal or through symbols; word operations and others with all 8 mode suffixes; all pairs of 36 kinds of statement (30 valid, 6 diagnosed) with symbolic values, counts and conditions under -S, -C and 6 combinations with other options: code, data and total size, labels, defines, times, and the length of the output (quick: one rotating option and mode per pair)',
    reach=['Z80 execution times','eZ80 execution times','execution times with a suffix','code counter','statistics','output','fatal'],
    assumptions=['repeating instructions: the times of one and of two iterations as the tables have them (eZ80: 2 more cycles, cpir and cpdr 1 more)','calls, returns and restarts with a suffix that mixes stack widths are left out','instructions declared by .addinstr take no time','no report after a fatal error','defines are counted relative to an empty program']),
 'C29': dict(
    bounds='two names of 1..3 and 1..2 (thorough: 1..3) symbolic characters (letters of either case, digits, _ . !), each a label, =, .equ, define, function-like define or macro, used before and after the definitions, with and without -A; a symbolic two-letter name in 23 kinds of text (inside longer names, hexadecimal literals, strings, comments, expressions) as define, symbol, macro and define parameter, nested define and forward reference; all sequences of four #define, #undef and #defcont of two names that share characters, looked up after each; __LINE, __FILE, SPASM, TRUE and FALSE in 9 places; .show of a define, function-like define or .option, before and after its definition, next to a name it shares characters with; values symbolic',
    reach=['each name keeps its own value','a name is recognised whole','#define and #undef affect the named define only','predefined names','.show prints the definition']),
 'C30': dict(
    bounds='19 kinds of nesting and repetition (parentheses, signs, defines and function-like defines in either order of definition, nested uses as arguments, macros, includes, conditionals, lists, equates, buffers; groups, calls, macros, includes and conditionals side by side) 1..13 levels deep with symbolic 8- or 16-bit values, and 17..90 levels deep, where the result is exact or an error is reported; 6 recursive macros (conditional, through eval, two-way, mutual, through an include, guarded by a define) of every depth 0..9; 20 programs that recurse without end, with symbolic operands',
    reach=['nesting gives the exact result','recursion that ends gives the exact result','runaway recursion is diagnosed','beyond a limit','deep']),
 'C31': dict(
    bounds='13 kinds of name (labels, equates, defines, functions, macros, their parameters, instructions) of 29 lengths 16..2049 that differ in one symbolic character at the start, in the middle or at the end; texts of those lengths in 9 places with symbolic characters at both ends and in the middle; 19 places for expressions of those lengths with symbolic operands; 11 kinds of long line; 1..400 of each of 22 kinds of definition or statement with symbolic values in the first, middle and last. Text beyond the documented limit of 255 characters for one expression may instead be rejected with the error for it',
    reach=['names differ wherever they differ','every character of a text is emitted','the whole text is printed','the value of a long expression','a line of any length is taken whole','any number of a kind','text beyond the limit','everything is printed']),
 'C32': dict(
    bounds='every ordered pair of 63 kinds of statement (instructions, data, symbols, defines, macros, conditionals, includes, buffers, anonymous labels, output, comments, listing control) and of 22 eZ80 ones, with symbolic operands, one after another, in or behind an include, within a conditional or a macro, behind skipped code or with the first one repeated; with -N, -T, -L, -A, -S or -C',
    reach=['Z80','eZ80']),
 'C33': dict(
    how='Files take only a symbolic number of bytes: as in the C library a write beyond it fails when a buffer is full or the file is closed. The program is run without and with the limit; the solver decides for every limit that either every file is whole and the run succeeds, or the run fails with a message. Counterexamples are replayed on the real binary with that file-size limit.',
    bounds='10 (thorough 13) output formats, listings, symbol files and .echo files of up to a few buffers of 4096 bytes; every limit 0..65535 at once; 8 kinds of files that are directories or lie in missing directories; bytes of the program symbolic',
    reach=['no room for the output','no room for a listing, a symbol file or text','enough room','a file cannot be created','a file cannot be read'],
    assumptions=['files are buffered by 4096 bytes','the failure of standard output and of memory is left out','.8xk signatures are a stand-in (C27)']),
}

NOT_APPLICABLE = {
 'C27': 'the signature is computed by GMP bignum routines and MD5 over the whole image; 512-bit modular squaring and a hash are outside what the solver can decide, and the libraries are not part of the repository',
}
