import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(k)
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Expressions evaluate strictly left to right in 32-bit arithmetic",
 "Wherever a value is expected, an expression denotes the result of applying its binary operators (+ - * / % & | ^ << >> < > <= >= == = != && ||) strictly left to right, parentheses first, prefix - + ~ binding to the operand that follows, in 32-bit two's-complement arithmetic with truncating signed division and arithmetic right shift (shift counts 0..31), comparisons giving 1 or 0. Division or modulus by zero is reported as SE203 and INT_MIN divided by -1 as SE205, never a crash or a silent value.",
 ["inputs","programs"],"all operator sequences and parenthesisations within the bound, for every value of every operand",
 "the tests evaluate a handful of constant expressions; wraparound, sign, operator and associativity mistakes only show for particular operand values and operator pairs",
 ["parser.cpp"],[("expression evaluator","parser.cpp:parse_num_full"),("operand reader","parser.cpp:parse_single_num")],observe_at=["bytes emitted by .dw/.dl for the expression","SE203/SE205 diagnostics"])
p("C02","Numeric and character literals denote exactly their value or are rejected",
 "A hexadecimal ($.. or 0..h), binary (%.. or ..b) or decimal (plain or ..d) literal denotes exactly its mathematical value when that fits in 32 bits and is otherwise rejected as SE204; a literal with a digit outside its base is rejected as SE201, SE202 or SE200 rather than truncated at the bad digit. A quoted character denotes its character code, and the escapes \\n \\r \\t \\0 \\\\ \\' denote their control characters.",
 ["inputs"],"every literal of each notation up to the stated length, over all digit values",
 "tests use a few literals; an off-by-one in a digit class, overflow limit or suffix decision needs specific digits and lengths",
 ["parser.cpp"],[("literal conversion","parser.cpp:conv_generic"),("notation selection","parser.cpp:parse_single_num")])
p("C03","Every documented Z80 instruction form assembles to its Zilog encoding",
 "Without -E, each documented Z80 mnemonic and operand form assembles to exactly the opcode bytes, operand bytes and length that the Zilog Z80 manual specifies, for every value of its immediate, address, displacement, bit and restart operands. No byte is added, dropped or reordered and no neighbouring form is chosen instead.",
 ["inputs","programs"],"all documented Z80 instruction forms, all operand values in range",
 "the Z80 tests in the repository touch only a few instructions; there are about a thousand forms and each must be right for all operand values",
 ["opcodes.cpp","pass_one.cpp","pass_two.cpp"],[("opcode table","opcodes.cpp:opcode_list"),("operand matching","pass_one.cpp:match_opcode_args"),("emission","pass_one.cpp:write_instruction_data")])
p("C04","eZ80 instructions, ADL width and mode suffixes assemble to the Zilog encoding",
 "With -E, each eZ80 instruction form assembles to the bytes of the Zilog eZ80 manual, with address-width immediates 3 bytes long in ADL mode (the default) and 2 bytes long after .assume ADL=0. A mode suffix (.sis .lis .sil .lil, or .s .l .is .il resolved against the current mode) emits exactly its prefix byte (40 49 52 5B) and determines the immediate width, for every operand value.",
 ["inputs","programs","configurations"],"all eZ80-specific and suffixed forms, both ADL modes, all operand values",
 "the eZ80 tests sample some undocumented opcodes in ADL mode only; the product of forms, suffixes, modes and operand values is not sampled",
 ["opcodes_ez80.cpp","pass_one.cpp","pass_two.cpp","directive.cpp"],[("eZ80 table","opcodes_ez80.cpp:opcode_list_ez80"),("suffix parsing","pass_one.cpp:parse_suffix"),("width selection","pass_one.cpp:write_instruction_data"),("ASSUME","directive.cpp:handle_directive")])
p("C05","Relative jumps reach exactly their target or are rejected",
 "For jr and djnz, if the target lies within -128..127 of the address following the instruction, the displacement byte emitted makes the jump land exactly on the target; otherwise SE120 is reported and assembly fails. This holds for backward and forward targets, numeric or label targets, any instruction address, Z80 or eZ80 with or without suffix.",
 ["inputs","programs"],"all target/instruction address pairs within the stated ranges, forward and backward",
 "boundary displacements (-128, 127, 128, -129) and the effect of instruction size must hold for every address; tests have two jumps",
 ["pass_two.cpp","pass_one.cpp"],[("displacement computation","pass_two.cpp:write_arg")])
p("C06","Out-of-range instruction operands are rejected, in-range ones encoded exactly",
 "An index displacement outside -128..127 (SE121), a bit number outside 0..7 and a restart address other than 00,08,..,38 (SE127) are diagnosed as errors with a non-zero exit status, and every in-range value is accepted and encoded exactly. The decision depends only on the operand's value, not on whether it was known in the first pass.",
 ["inputs"],"every operand value representable by the literal bound, as literal, backward and forward symbol",
 "needs every operand value around each boundary and both resolution times; tests use a few in-range values",
 ["pass_two.cpp","pass_one.cpp"],[("range checks","pass_two.cpp:write_arg"),("second pass","pass_two.cpp:run_second_pass")])
p("C07","Data directives emit every value little-endian in full, truncation is warned",
 ".db/.byte, .dw/.word and .dl/.long emit one, two and three bytes per value, least significant first, equal to the value modulo 2^8, 2^16, 2^24, in order, and characters of quoted strings one byte each. A one-byte value outside -128..255 (also an 8-bit immediate or a .fill value), or with -E a two-byte value outside -32768..65535, produces the SW800 / SW801 truncation warning; in-range values produce none.",
 ["inputs","programs"],"all values of each datum, all list lengths within the bound",
 "range limits and byte order must hold for all 32-bit values; tests emit a few constants",
 ["directive.cpp","pass_two.cpp"],[("list emission","directive.cpp:parse_emit_string"),("byte splitting","pass_two.cpp:write_arg")])
p("C08","A forward reference assembles to the same bytes as a backward one",
 "Replacing a symbol's definition before its use by the same definition after its use changes no output byte, whatever the operand kind (data, 8/16/24-bit immediate, jump, index displacement, bit number, restart) and whatever expression uses it. Symbols whose meaning changes between the use and the end of the program keep, in deferred expressions, the meaning they had at the use.",
 ["inputs","programs"],"all symbol values within 32 bits, all operand kinds, expressions with deferred and resolved symbols mixed",
 "tests rarely use forward references and never vary the values that are textually carried into the second pass",
 ["pass_two.cpp","utils.cpp"],[("deferral","pass_two.cpp:add_pass_two_expr"),("second pass","pass_two.cpp:run_second_pass"),("expansion of deferred expressions","utils.cpp:expand_expr_full")])
p("C09","Addresses, labels and output length account for every emitted byte",
 "A label and $ equal the last .org value plus the number of bytes emitted (or reserved) since it, .fill/.block emit exactly the requested count of the requested byte, .org changes addresses without emitting, .seek moves the address and the write position by the same amount, and the output holds exactly the bytes emitted in order. A negative fill size is SE108 and a negative origin SE107.",
 ["inputs","programs"],"all origins, fill counts and values within the bounds, all directive sequences in the template set",
 "address accounting must hold at every point of every program; tests check bytes at the start of small programs",
 ["pass_one.cpp","directive.cpp","storage.cpp"],[("program counter","pass_one.cpp:handle_opcode_or_macro"),("ORG/FILL/SEEK","directive.cpp:handle_directive"),("labels","storage.cpp:add_label")])
p("C10","Conditional assembly emits exactly the selected branches",
 "For nested #if/#ifdef/#ifndef/#elif/#else/#endif, exactly the code of the first branch whose condition holds at each level is assembled, and nothing of the others takes effect (bytes, labels, defines, diagnostics). A missing #endif is SE116, and a stray #else, #elif or #endif is reported (SE117/SE124).",
 ["inputs","programs"],"all truth values of all conditions, all nestings up to the stated depth",
 "combinations of nesting, elif chains and condition values grow exponentially; tests contain almost none",
 ["preop.cpp"],[("branch selection","preop.cpp:do_if"),("skipping","preop.cpp:skip_until"),("dispatch","preop.cpp:handle_preop")])
p("C11","Defines and macros substitute arguments faithfully",
 "Using a #define or invoking a #macro is equivalent to assembling its body with the parameters bound to the supplied arguments (each evaluated as one value), for any argument values; redefinition takes effect for later uses only (one without parameters may refer to the old meaning), #undef removes the name, eval() of known symbols fixes the value at definition and concat() joins strings and values. Missing and surplus arguments are diagnosed, and parameters never leak out of the invocation.",
 ["inputs","programs"],"all argument values including negative and composite expressions, nesting and redefinition within the templates",
 "tests check one string argument and one eval; substitution must preserve every argument value in every expression context",
 ["utils.cpp","preop.cpp","storage.cpp","parser.cpp","pass_one.cpp"],[("argument parsing","utils.cpp:parse_args"),("evaluation of arguments","utils.cpp:eval"),("define storage","storage.cpp:set_define"),("invocation","pass_one.cpp:handle_opcode_or_macro")])
p("C12","Binary and calculator program files wrap the code with consistent headers",
 ".bin output is exactly the assembled bytes; .73p .82p .83p .8xp .8xv .85s .86p .86s outputs contain the right signature, size fields that agree with the actual lengths, the name field, the exact code bytes and a final checksum equal to the 16-bit sum of the variable section, for any code bytes, code length and name.",
 ["inputs","configurations"],"all code bytes, code lengths in the bound, names of up to the stated length, all program formats",
 "no existing test uses any format but .bin; size and checksum identities must hold for all contents and lengths",
 ["export.cpp"],[("program wrapper","export.cpp:makeprgm"),("dispatch","export.cpp:write_file"),("name checks","export.cpp:alphanumeric")])
p("C13","The symbol file lists every label once, sorted, with its exact value",
 "With -L, the .lab file contains for every label (and value-denoting define) exactly one line NAME = $HEX in case-insensitive alphabetical order whose value is the one the program uses, for every label value and whatever the definition order.",
 ["inputs","programs","configurations"],"all label values and orders of the template names",
 "no existing test reads a symbol file",
 ["storage.cpp","main.cpp"],[("symbol dump","storage.cpp:write_labels"),("ordering","storage.cpp:write_labels_callback")])
p("C14","The listing shows the bytes actually emitted, at their address",
 "With -T, every source line appears in the .lst file with its line number, the address at which it starts and the bytes it emitted; the hex bytes of the listing, in order, equal the output file, including values resolved in the second pass, and asking for a listing does not change the output file.",
 ["inputs","programs","configurations"],"all emitted byte values, lines emitting 0 to many bytes, forward references",
 "no existing test reads a listing file; patching second-pass values into the text depends on line layout and data",
 ["pass_one.cpp","pass_two.cpp","expand_buf.cpp"],[("listing of bytes","pass_one.cpp:write_out"),("listing lines","pass_one.cpp:do_listing_for_line"),("text buffer","expand_buf.cpp:eb_insert")])
p("C15","Diagnostics, exit status and the output file agree",
 "If assembly reports any error, the exit status is 2 or 3, and if it reports a first-pass fatal error no output file is produced; if it reports only warnings the status is 1 and the complete output is written; with no diagnostic the status is 0. Each offending statement is reported once, with its file and line number, in source order within a pass (messages without a code as they are found).",
 ["inputs","programs"],"all statements of the error template set with symbolic operands, at any line, alone or after earlier diagnostics",
 "the test runner checks single error codes; status, line numbers and output suppression must agree for every diagnostic and input",
 ["errors.cpp","main.cpp","utils.cpp"],[("error sessions","errors.cpp:CleanupSPASMErrorSession"),("status","main.cpp:run_assembly"),("direct messages","utils.cpp:show_error")])
p("C16","No source text makes the assembler access memory out of bounds",
 "Whatever bytes a source file contains, the assembler terminates with a documented exit status without reading or writing outside live objects, using freed memory, freeing twice, dereferencing null, or recursing or looping without bound. Malformed statements are diagnosed instead.",
 ["inputs","programs"],"all source texts of the stated shapes: every statement kind with arbitrary bytes in its operand positions up to the stated length",
 "memory errors need specific malformed bytes at specific places; tests use well-formed programs and a few fixed regressions",
 ["directive.cpp","parser.cpp","utils.cpp","preop.cpp","pass_one.cpp","storage.cpp","expand_buf.cpp"],[("word reader","utils.cpp:read_expr_impl"),("string reduction","utils.cpp:reduce_string"),("directive dispatch","directive.cpp:handle_directive")])
p("C17","Mnemonics ignore letter case; label case is significant only with -A",
 "Changing the case of letters in mnemonics, registers, directives, hexadecimal digits and (without -A) symbol names never changes the output. With -A, symbols differing only in case are distinct; without it they are the same symbol.",
 ["inputs","programs","configurations"],"all case patterns of all letters of the template programs, both settings of -A",
 "2^n case patterns per statement; tests use one spelling",
 ["storage.cpp","modp_ascii.cpp","pass_one.cpp","utils.cpp"],[("upper-casing","modp_ascii.cpp:modp_toupper_copy"),("lookup","storage.cpp:search_labels"),("matching","pass_one.cpp:match_opcode_args")])
p("C18","Reusable labels denote the n-th nearest anonymous label in each direction",
 "With anonymous labels written as _, the reference _ or +_ denotes the next one after the statement, ++_ the second next and so on, -_ the nearest preceding and --_ the one before it, wherever the reference occurs and whether used in jumps or data. A reference to one that does not exist is diagnosed, never resolved to another address.",
 ["inputs","programs"],"all placements of up to the stated number of anonymous labels and references, all distances",
 "the position arithmetic must hold for every placement; tests have none",
 ["storage.cpp","parser.cpp","pass_two.cpp"],[("reusable table","storage.cpp:add_reusable"),("reference parsing","parser.cpp:parse_single_num")])
p("C19",".addinstr instructions assemble as declared without disturbing others",
 "After .addinstr MNEMONIC ARGS OPCODE SIZE ..., each use of the mnemonic with matching arguments emits exactly the declared opcode bytes followed by its operands little-endian, for all operand values, and every built-in instruction still assembles as before. An incomplete declaration is SE126.",
 ["inputs","programs"],"all opcode bytes and operand values of the declared shapes",
 "no existing test uses .addinstr",
 ["directive.cpp","pass_one.cpp"],[("declaration","directive.cpp:handle_directive"),("opcode lookup","pass_one.cpp:handle_opcode_or_macro")])
p("C20","Command-line options have exactly their documented effect",
 "-Dname[=value] is equivalent to a #define of that name (value 1 by default), -V assembles the given text, -I adds directories searched by #include, -O writes no output file, and -T -L -S -N and -A do not alter the emitted bytes of a program that does not depend on symbol case. Options may be combined and given in any order before the file names.",
 ["inputs","configurations"],"all subsets of the flags in the template orders, all values of -D and of the -V text operands",
 "tests run with default options only",
 ["main.cpp"],[("option parsing","main.cpp:main"),("assembly driver","main.cpp:run_assembly")])
p("C21","#include and #import splice file contents exactly where they stand",
 "#include assembles the named file's text as if it stood in place of the directive (surrounding code, symbols, line numbers afterwards unaffected) and #import emits exactly the file's bytes, advancing the address by their number; files are searched in the working directory first and then in the -I directories in order. A missing file is diagnosed with a non-zero status.",
 ["inputs","programs","configurations"],"all contents of the included/imported file within the stated length, presence or absence in each directory",
 "no existing test includes or imports a file",
 ["preop.cpp","utils.cpp"],[("include","preop.cpp:handle_preop_include"),("import","preop.cpp:handle_preop_import"),("search","preop.cpp:full_path"),("file reading","utils.cpp:get_file_contents")])
p("C22","Strings and escapes are emitted and echoed byte for byte",
 "A quoted string in .db emits exactly its characters after replacing backslash escapes, with commas, semicolons and parentheses inside quotes taken literally; .echo prints the same characters and decimal values, and > or >> directs them to a file. Built-in buffers written with wr() and executed with run() assemble as if the written lines stood in the source.",
 ["inputs","programs"],"all printable characters at each position of strings up to the stated length",
 "one test covers one string; quoting interacts with every separator character",
 ["directive.cpp","utils.cpp"],[("string reduction","utils.cpp:reduce_string"),("emission","directive.cpp:parse_emit_string"),("splitting","utils.cpp:read_expr_impl")])
p("C23","Layout, comments and statement separators do not change the output",
 "Comments (; to end of line, whatever they contain, and #comment blocks), blanks between tokens, blank lines, CR/LF or LF line ends, a UTF-8 byte order mark and a missing final newline do not change the output, and statements joined by \\ assemble as if on separate lines.",
 ["inputs","programs"],"all comment bytes and whitespace choices within the bound at each position of the template programs",
 "the space of layouts is unbounded and tests use one layout",
 ["pass_one.cpp","utils.cpp"],[("line splitting","pass_one.cpp:run_first_pass_line"),("end of line","utils.cpp:is_end_of_code_line"),("file reading","utils.cpp:get_file_contents")])
p("C24","Output and diagnostics never depend on uninitialised memory",
 "Two runs on the same files and options give the same output files, messages (timing line aside) and exit status: no emitted byte, branch decision or message depends on memory the program never wrote.",
 ["inputs","programs","configurations"],"all values uninitialised memory may hold, on the template programs with symbolic operands",
 "an uninitialised read usually yields the same garbage in the test environment",
 ["directive.cpp","parser.cpp","preop.cpp","errors.cpp","pass_one.cpp","export.cpp"],[("value out-parameters","directive.cpp:handle_directive"),("argument pointers","pass_one.cpp:match_opcode_args")])
p("C25","Intel-HEX, ROM and Flash-application files encode the image faithfully",
 ".hex records carry the image bytes in order with correct lengths, addresses, page records and record checksums; .rom is the image padded with FF to 512 KiB; .8xk carries a TIFL header whose length field equals the hex section, the name from the app header, and the image with its length and page fields filled in. This holds for any image bytes and length in the bound.",
 ["inputs"],"all image bytes and lengths in the bound",
 "no existing test uses these formats",
 ["export.cpp"],[("intel hex","export.cpp:intelhex"),("rom","export.cpp:makerom"),("app","export.cpp:makeapp")])
p("C26","Code counter and statistics report the true size and execution time",
 "With -S and -C the reported code, data and total sizes, label counts and minimum/maximum execution times equal the sums over the statements assembled, conditional instructions contributing their not-taken and taken times.",
 ["inputs","programs","configurations"],"all fill counts and operand values in the templates; all instructions of the timing table",
 "no existing test uses the statistics modes",
 ["pass_one.cpp","directive.cpp","main.cpp"],[("accumulation","pass_one.cpp:handle_opcode_or_macro"),("report","main.cpp:run_assembly")])
p("C27","Application signatures verify under TI's freeware key",
 "The signature appended to a .8xk application is a valid Rabin signature of the MD5 digest of the application image under the embedded key, for every image.",
 ["inputs"],"all application images",
 "no existing test signs an application",
 ["export.cpp"],[("signature","export.cpp:siggen")])
p("C28","Included bitmaps are converted pixel for pixel",
 "#include of an uncompressed BMP file emits one bit per pixel for monochrome use (or the documented grey/palette conversion), rows top to bottom, padded to bytes, for every pixel value and image size in the bound; a malformed bitmap is diagnosed and never read out of bounds.",
 ["inputs"],"all header fields and pixel values within the stated sizes",
 "no existing test includes a bitmap",
 ["bitmap.cpp","preop.cpp"],[("conversion","bitmap.cpp:handle_bitmap"),("detection","bitmap.cpp:IsFileBitmap")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
