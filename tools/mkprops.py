#!/usr/bin/env python3
"""Source of properties.jsonl (one record per property); run to regenerate."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=obs,hook_needed=hook)))

p("C01","Options, inputs and application arguments go where the user put them",
 "For every command line made of the documented options (attached or separate values, any order, before or between the inputs), the tolerated gcc flags, input names and an optional `--`, cjit applies exactly the options given with exactly their values (-D, -I, -C, -e, -o, -c, -p, -q, -l, -L), takes exactly the remaining words before `--` as inputs in their order, and a tolerated gcc flag never swallows or disturbs a neighbouring word. The program receives argc/argv consisting of the last input's name followed by exactly the words after the first `--`, byte for byte, in order, whatever they look like. The function named by -e (main otherwise) is the one called.",
 ["inputs","configurations"],"all command lines up to a bounded number of words over an alphabet of documented options, ignored gcc flags, inputs and arbitrary application words",
 "The bats suite exercises a handful of fixed command lines; the number of orderings and mixtures of options, ignored flags, inputs and `--` is unbounded.",
 ["src/main.c","src/ketopt.h"],
 [("arg_separator/left_args","where inputs end and app words begin","src/main.c:main"),("clean_argv","argv after dropping tolerated flags","src/main.c:remove_args")],
 [("ketopt permutation","src/ketopt.h"),("remove_args","src/main.c"),("parse_value","src/main.c")],
 ["argv seen by the application","macros, include dirs and entry seen by the application","files created","exit status"])
p("C02","Nothing runs and success is never reported unless every input built",
 "If any input named on the command line or piped on standard input cannot be read, carries a UTF byte-order mark (when not compiling with -c), has a syntax or semantic error, or the inputs do not link together (undefined or multiply defined function, no entry function), then no application code runs, cjit exits with a non-zero status, and no new executable or object file is written. Conversely when all inputs build, the program runs (or with -o / -c the requested file is written and the status is 0). This holds for every number and order of inputs and in every mode (in-memory run, -o, -c, standard input).",
 ["inputs","fault_sequences","configurations"],"every sequence of good and bad inputs (each kind of defect) in each mode",
 "Tests use one broken input at a time, in one position and mostly in the in-memory mode.",
 ["src/main.c","src/cjit.c"],
 [("done_setup","any input was offered","src/cjit.c"),("res","exit status so far","src/main.c:main")],
 [("cjit_add_file/cjit_add_source/cjit_add_buffer results","src/cjit.c"),("cjit_link/cjit_exec/cjit_compile_file results","src/cjit.c")],
 ["exit status","side effects of application code","presence of output files"])
p("C03","The application runs once, to completion, and cjit reports how it ended",
 "When a program is run in memory its entry function is called exactly once in a process of its own; cjit does not end before that process has ended, whatever stops and continues it undergoes, and cjit's exit status is the application's exit status, or the number of the signal that killed it. With -p, the named file holds exactly the decimal process id of the process that executes the application followed by a newline, already when the application starts; if that file cannot be written the application does not run and cjit fails. Everything the application writes to standard output before ending normally is delivered exactly once, and it reads cjit's own standard input.",
 ["histories","schedules","inputs"],"every sequence of process events (exit with any status, kill, stop, continue, output, fork) in the application's life",
 "Tests only see programs that exit 0/1 straight away, and one pid-file example.",
 ["src/cjit.c"],
 [("done_exec","the program was started","src/cjit.c:cjit_exec"),("write_pid","pid file name","src/cjit.c")],
 [("fork/waitpid status decoding","src/cjit.c:cjit_exec"),("pid file","src/cjit.c:cjit_exec")],
 ["exit status of cjit","life time of cjit relative to the application","contents of the pid file","application output"])
p("C04","Concurrent or interrupted first runs never see half-installed runtime assets",
 "Whatever the interleaving of cjit processes starting at the same time with no runtime assets installed, and wherever an earlier cjit was killed or had a write fail while installing them, every run that goes on to compile uses a complete, byte-exact set of runtime assets. A run that cannot get a complete set fails with a non-zero status before running anything.",
 ["schedules","crash_points","fault_sequences"],"all interleavings of file-system steps of up to 2-3 concurrently starting processes, a kill or write failure at every step",
 "Tests run one process at a time after assets have been installed by a previous run.",
 ["src/cjit.c","build/init-assets.sh","build/embed-asset-path.sh","src/muntar.c"],
 [("fresh","this process must install the assets","src/cjit.c:cjit_mkdtemp"),("/tmp/cjit-VERSION","shared asset directory","src/cjit.c:cjit_mkdtemp")],
 [("cjit_mkdtemp","src/cjit.c"),("extract_assets","generated by build/init-assets.sh"),("muntargz_to_path","src/muntar.c")],
 ["contents of the asset directory at first use","exit status of each process"])
p("C05","-l resolves each library to the file the search rules name",
 "Each `-l name` is resolved to lib<name>.so in the first directory that has it, searching the -L directories in command-line order, then the current directory, then the directories of the system's ld.so configuration in file order; symbolic links (relative or absolute, of any length) are followed as the file system defines. If that file is a GNU linker script, every file its INPUT/GROUP/AS_NEEDED lists name is loaded, in order, relative names and -l names being searched in the same directories. A library that is not found is reported by name on standard error and never silently replaced by another one.",
 ["inputs","configurations"],"all placements of libraries, links and linker scripts over a bounded set of directories, all orders of -L/-l",
 "Tests link system libraries in their standard place only.",
 ["src/elflinker.c","src/cjit.c","src/file.c"],
 [("libpaths/libs/reallibs","search path, requests and results","src/cjit.h")],
 [("resolve_libs/find_library","src/elflinker.c"),("new_solve_symlink","src/elflinker.c"),("ld_add_file/ld_add_file_list/resolve_ldscript","src/elflinker.c"),("read_ldsoconf","src/elflinker.c")],
 ["which definition of a function the program calls","the files listed by -v","standard error","ordered result list of resolve_libs and read_ldsoconf"])
p("C06","tar.gz extraction is exact, contained, and fails loudly",
 "Extracting a well-formed ustar archive (at least one member; directories, each before its contents, and regular files; names of any legal length, any sizes; terminated by a zero block) recreates every directory and every regular file under the destination with exactly its path and bytes, and creates nothing else. No archive can make extraction write outside the destination directory. An archive that is truncated or corrupt, or a file that cannot be written in full, makes the extraction report failure (a non-zero result, and a non-zero exit status of --xtgz), never success.",
 ["inputs","fault_sequences"],"all archives made of up to a few members over the legal name/size/type alphabet, every truncation point, header corruption and write failure",
 "Tests extract only the archives embedded at build time.",
 ["src/muntar.c","src/main.c"],
 [("iterator.offset/cursor/header","position in the archive","src/muntar.h")],
 [("muntar_to_path","src/muntar.c"),("mtar_next/mtar_read_header","src/muntar.c"),("raw_to_header","src/muntar.c")],
 ["tree below the destination","paths passed to open/mkdir","result code / exit status"])
p("C07","gunzip returns exactly the original bytes or an error",
 "For every gzip member (any deflate block types, any optional header fields), decompression into a buffer that is large enough succeeds and yields exactly the bytes and length RFC 1951/1952 define; with a buffer that is too small it fails. For every input that is not a valid gzip member (bad magic, method or flags, header checksum, truncated or invalid deflate data, wrong CRC or length) it returns an error. Neither case reads or writes outside the given buffers.",
 ["inputs"],"all byte strings: enumerated small deflate streams, encoder-generated streams of every block type, and corruptions of them",
 "The only stream tests ever decode is the one embedded archive produced by one gzip at one level.",
 ["src/tinflate.c","src/tinfgzip.c","src/tinf.h"],
 [("tinf_data","bit buffer, trees, output position","src/tinflate.c")],
 [("tinf_uncompress","src/tinflate.c"),("tinf_gzip_uncompress","src/tinfgzip.c")],
 ["return code, output bytes and length of tinf_gzip_uncompress"])
p("C08","Every reference binds to the definition the linkage rules choose",
 "When several C inputs (sources, objects made with -c or by another compiler, ar archives, shared libraries) are combined, each reference resolves as C/ELF linkage defines: static names stay private to their unit, a strong definition wins over weak ones and tentative (common) ones, tentative definitions of a name are one object, definitions in the inputs win over shared libraries and libc, archive members are pulled in exactly when they define a still undefined name, an undefined weak reference is null. Two strong definitions of a function or initialised object, or an undefined strong reference, make the build fail. The outcome depends on the inputs only as those rules say (in particular not on incidental order).",
 ["inputs","configurations","programs"],"all assignments of symbol kinds to a bounded set of units, names, input forms and orders",
 "The multi-file tests have one pair of files with no conflicting, weak, common or static names.",
 ["lib/tinycc/tccelf.c","lib/tinycc/libtcc.c","src/cjit.c"],
 [("symtab_section","global symbol table","lib/tinycc/tccelf.c")],
 [("set_elf_sym","lib/tinycc/tccelf.c"),("tcc_load_object_file/tcc_load_archive/tcc_load_alacarte","lib/tinycc/tccelf.c"),("resolve_common_syms/relocate_syms","lib/tinycc/tccelf.c")],
 ["values observed through every reference","build failure"])
p("C09","Running in memory, from stdin, via objects or as an executable is the same",
 "A program made of the same source files has the same output and exit status whether it is run in memory, piped on standard input (single file), built to an executable with -o and executed, or compiled file by file with -c (default or -o named output) and then run or linked from the objects, in any mixture of sources and objects. The object written by -c without -o is the source's base name with .o in the current directory.",
 ["programs","configurations"],"all programs of a generated family (globals, pointers between units, static data, function pointers, strings, TLS-free) times all build routes",
 "Tests build one object and one executable.",
 ["src/cjit.c","src/main.c","lib/tinycc/tccelf.c","lib/tinycc/tccrun.c"],
 [("tcc_output","output mode","src/cjit.h")],
 [("cjit_compile_file","src/cjit.c"),("cjit_link","src/cjit.c"),("tcc_output_file/tcc_relocate","lib/tinycc")],
 ["output and exit status per route","names of produced files"])
p("C10","Integer expressions have the type and value the C standard gives them",
 "Every integer expression without undefined behaviour, over _Bool, char, short, int, long, long long and their unsigned forms, evaluates to the value C99 (LP64, two's complement, arithmetic right shift) defines, with the type C defines (as seen by sizeof, signedness and _Generic). This holds for every operator (arithmetic, bitwise, shift, comparison, logical, conditional, comma, cast, assignment, compound assignment, increment/decrement), operand values and nesting, and does not depend on whether operands are constants, locals, globals, parameters, array elements, bit-fields or pointed-to objects.",
 ["programs","inputs"],"all operator/type/value combinations over boundary values and random expression trees with random storage classes",
 "The tcc test programs check some fixed expressions.",
 ["lib/tinycc/tccgen.c","lib/tinycc/x86_64-gen.c"],
 [("vtop","value stack","lib/tinycc/tccgen.c")],
 [("gen_op/gen_opic/gen_cast","lib/tinycc/tccgen.c"),("gen_opi/gen_opl","lib/tinycc/x86_64-gen.c")],
 ["printed value, size and signedness"])
p("C11","Control flow executes exactly the statements C's semantics select",
 "For every program composed of if/else, while, do, for, switch (any case values and ranges, fallthrough, default anywhere, nested), break, continue, goto, return, &&, ||, ?:, blocks with shadowed locals, recursion and calls, and the GNU statement expressions, computed goto, case ranges and cleanup variables, the sequence of statements executed and the values of variables at each are those the C abstract machine defines.",
 ["programs"],"generated programs over all statement kinds with bounded nesting, including all small ones",
 "Tests run fixed programs; the space of nestings is unbounded.",
 ["lib/tinycc/tccgen.c","lib/tinycc/x86_64-gen.c"],
 [("loc/rsym/nocode_wanted/cur_scope","code generation state","lib/tinycc/tccgen.c")],
 [("block","lib/tinycc/tccgen.c"),("gcase/switch","lib/tinycc/tccgen.c"),("gvtst/gjmp","lib/tinycc")],
 ["printed trace of visited statements and variable values"])
p("C12","The preprocessor selects and rewrites tokens as the C standard defines",
 "Macro expansion (object-like and function-like macros, variadic arguments, # and ##, nested and recursive macros, argument pre-expansion, rescanning with the following text, #undef and redefinition) yields the token sequence C99 6.10.3 defines, and conditional inclusion (#if/#ifdef/#ifndef/#elif/#else/#endif with defined, full integer constant expressions and any nesting) keeps exactly the groups 6.10.1 selects. The same holds for macros given by -D.",
 ["programs","inputs"],"generated macro sets and invocations, conditional trees, exhaustive for small sizes",
 "Tests compare a few fixed preprocessor outputs.",
 ["lib/tinycc/tccpp.c"],
 [("macro_stack/define_stack/ifdef_stack","preprocessor state","lib/tinycc/tccpp.c")],
 [("macro_subst/macro_arg_subst/macro_twosharps","lib/tinycc/tccpp.c"),("preprocess/expr_preprocess","lib/tinycc/tccpp.c")],
 ["stringified expansion","which groups were compiled"])
p("C13","Archives made by cjit -ar list, extract and link back what went in",
 "An archive created by `cjit -ar` from ELF objects contains each input's bytes under its base name, in order; listing names them in order, extracting recreates them byte for byte (base names of up to 15 characters), the symbol index names exactly the global and weak definitions with the member that has them, and linking against it (with cjit or GNU ld) finds each of those definitions. Reading a file that is not an archive, or naming a missing input, fails with a non-zero status, and a failed creation leaves no archive behind.",
 ["inputs","histories"],"all archives of up to a few members over sizes (odd and even), name lengths, symbol sets and option spellings",
 "Tests do not create archives through the command line at all.",
 ["src/cjit-ar.c","src/main.c"],
 [("anames/afpos","symbol index under construction","src/cjit-ar.c")],
 [("tcc_tool_ar","src/cjit-ar.c")],
 ["bytes of the archive","standard output","exit status","extracted files","linking result"])
p("C14","The list container behaves as a sequence",
 "After every history of operations on the internal list container (add, push, set, insert, remove, swap, clear, get, search, sort; fixed or growable; any initial size), the elements present, their order, data, sizes and keys are those of the abstract sequence the operations describe, searches return an index holding the key or failure when absent (binary search on sorted lists), sorting yields an ordered permutation, and a full fixed-size list (of size 1 or more) refuses further elements. No operation touches memory outside the container.",
 ["histories","inputs"],"all operation histories up to a bounded depth over a small key alphabet, and long random ones",
 "No test exercises the container directly; growth and shrink thresholds are history dependent.",
 ["src/array.c","src/array.h"],
 [("pData/nSize/nUsed/nFixed","slots, capacity, length, fixed flag","src/array.h")],
 [("XArray_CheckSpace/XArray_Realloc","src/array.c"),("XArray_Insert/XArray_Remove/XArray_Set","src/array.c"),("XArray_QuickSort/XArray_BubbleSort","src/array.c")],
 ["public container API after each operation"])
p("C15","Path arithmetic agrees with the path algebra and stays in its buffer",
 "For every Unix path, normalising, joining, making absolute or relative, taking base name, directory, root and extension, changing them, iterating segments, and computing intersections return the result the path algebra defines (`.`/`..`/repeated separators resolved lexically, `..` never climbing above the root), the reported length is that of the full result, and at most the given buffer size is written, always terminated. Normalising is idempotent, and joining the base path with the computed relative path and normalising gives the target back, whenever one exists (the base does not climb above the common part).",
 ["inputs"],"all paths up to a bounded length over {/, ., .., names with dots}, all buffer sizes",
 "No test calls these functions with more than the few paths cjit itself builds.",
 ["src/cwalk.c","src/cwalk.h","src/file.c"],
 [("segment iterator","current path segment","src/cwalk.h")],
 [("cwk_path_normalize/join/get_absolute/get_relative","src/cwalk.c"),("cwk_path_get_basename/dirname/extension/root","src/cwalk.c")],
 ["return values and buffers of the path functions","include and library directories recorded for -I/-L"])
p("C16","Compiler sessions follow their protocol and do not disturb each other",
 "In one process, any number of compiler or cjit sessions may be created, configured, fed, relocated or executed, and deleted in any interleaving, and each behaves exactly as it would alone: its own macros, include and library paths, output type, symbols and error reporting, and no leak of definitions, errors or values between them. Calls out of order (execute or link before any input, execute twice, unknown symbol) are refused with an error result and without effect; code and data of a relocated session remain valid until that session is deleted.",
 ["histories"],"all interleavings of API calls on two or three sessions up to a bounded depth",
 "Tests use one session per process.",
 ["src/cjit.c","src/cjit.h","lib/tinycc/libtcc.c","lib/tinycc/libtcc.h"],
 [("CJITState","session","src/cjit.h"),("TCCState","compiler session","lib/tinycc/tcc.h")],
 [("cjit_new/cjit_add_*/cjit_exec/cjit_link/cjit_free","src/cjit.c"),("tcc_new/tcc_compile_string/tcc_relocate/tcc_get_symbol/tcc_delete","lib/tinycc/libtcc.c"),("tcc_enter_state/tccpp_new/tccgen_init","lib/tinycc")],
 ["results of API calls","values computed by the sessions' functions","error callback"])
p("C17","Diagnostics go to stderr, name the right place, and fit any text",
 "cjit never writes its own messages to the application's standard output, in any mode or verbosity: standard output of a run is exactly what the application wrote there. Every message reaches standard error whole when it is short and as an exact prefix of the text when it is long, whatever characters it contains and however long the paths, flags or texts involved are, with nothing else mixed in. An error in a source file is reported with the name of that file and the line it is on, including after #line, #include, multi-line comments and macros and line continuations, and standard-output redirection makes cjit quiet unless -v/--verb ask otherwise.",
 ["inputs","configurations"],"messages of every length around the internal buffer size with format characters, all option sets, error positions in generated sources",
 "Tests grep for a few short messages.",
 ["src/cjit.c","src/main.c","lib/tinycc/libtcc.c","lib/tinycc/tccpp.c"],
 [("quiet/verbose","verbosity","src/cjit.h"),("line_num/filename","current position","lib/tinycc/tccpp.c")],
 [("_err/_out","src/cjit.c"),("error callback","src/cjit.c"),("tcc_error/tcc_warning","lib/tinycc/libtcc.c")],
 ["bytes on standard output and standard error"])
p("C18","Objects have the layout and initial values the ABI and C define",
 "Every struct, union, array, bit-field and nested combination of them (including packed, aligned, anonymous and flexible members) has the size, alignment, member offsets and bit positions of the x86-64 System V ABI, and every initialiser form (positional, designated, nested with or without braces, overriding, string, range, compound literal), static or automatic, gives every byte-visible member the value C defines, all others zero. Member reads and writes through any access path change exactly that member.",
 ["programs","inputs"],"generated aggregate types over all scalar types, bit-field widths and nesting, with generated initialisers and write/read histories",
 "Tests contain a fixed set of structures.",
 ["lib/tinycc/tccgen.c"],
 [("Sym.c/Sym.r","member offset and bit position","lib/tinycc/tccgen.c")],
 [("struct_layout","lib/tinycc/tccgen.c"),("decl_initializer/init_putv","lib/tinycc/tccgen.c"),("load/store bit-field","lib/tinycc/tccgen.c")],
 ["sizeof/alignof/offsetof values, raw bytes of objects and member values"])
p("C19","#include finds the file the search order names",
 "#include \"f\" takes f from the directory of the file containing the directive, else (as for #include <f>) from the first directory that has it among the -I directories in command-line order, the directories of the sources on the command line and the runtime include directory before the system ones; nested and relative names (with sub-directories and ..) work from any current directory, a missing file is an error, and include guards / #pragma once make a file contribute once per unit. Macros and declarations of one input file never leak into another one.",
 ["inputs","configurations"],"all placements of same-named headers over a bounded set of directories, all orders of -I, all spellings of paths",
 "Tests include system headers and one local header.",
 ["src/cjit.c","src/file.c","lib/tinycc/tccpp.c","lib/tinycc/libtcc.c"],
 [("include_paths/sysinclude_paths","search lists","lib/tinycc/tcc.h")],
 [("cjit_add_include_path/new_abspath","src/cjit.c, src/file.c"),("cjit_add_source","src/cjit.c"),("preprocess TOK_INCLUDE","lib/tinycc/tccpp.c")],
 ["which header's contents the program was compiled with"])
p("C20","Calls between cjit code and native code follow the System V ABI",
 "A call in either direction between code compiled by cjit and code compiled by the system compiler passes every argument and return value unchanged, for all prototypes over integer, pointer, float, double and structure types of any size and mix (in registers, split or in memory), variadic functions with va_arg and va_copy, any number of arguments, function pointers and callbacks, and preserves callee-saved registers and stack alignment.",
 ["programs","inputs"],"generated prototypes and values, both directions, exhaustive for short signatures over a type alphabet",
 "Tests only call a few libc functions.",
 ["lib/tinycc/x86_64-gen.c","lib/tinycc/tccgen.c","lib/tinycc/lib/va_list.c","lib/tinycc/include/stdarg.h"],
 [("gfunc state","argument classification","lib/tinycc/x86_64-gen.c")],
 [("classify_x86_64_arg","lib/tinycc/x86_64-gen.c"),("gfunc_call/gfunc_prolog/gfunc_epilog","lib/tinycc/x86_64-gen.c"),("__va_arg","lib/tinycc/lib/va_list.c")],
 ["argument and return values seen on both sides of each call"])
p("C21","Floating-point comparisons and exact arithmetic follow IEEE 754",
 "For float and double (and mixtures with integers), comparisons, logical tests, negation and conversions to and from every integer type give the IEEE 754 / C result, including NaN, infinities and signed zeros, and +, -, *, / give the exact result when it is representable. Constant-folded and run-time evaluation agree, whatever the operands' storage.",
 ["programs","inputs"],"all operator/type/value combinations over special values and small dyadic rationals, constant and variable operands",
 "Tests check a few printed floating-point values.",
 ["lib/tinycc/tccgen.c","lib/tinycc/x86_64-gen.c"],
 [("vtop","value stack","lib/tinycc/tccgen.c")],
 [("gen_opif","lib/tinycc/tccgen.c"),("gen_opf/gen_cvt_*","lib/tinycc/x86_64-gen.c")],
 ["printed truth values and exact values"])
p("C22","Literals denote the values and types the C standard gives them",
 "Every integer constant (decimal, octal, hexadecimal, binary; any suffix) has the value and the type of C99 6.4.4.1, every character constant and string literal (simple, octal, hexadecimal and universal escapes, embedded NULs, adjacent-literal concatenation, wide, line continuations) denotes exactly the bytes or wide characters and array size C defines, and comments, line splices and digraph-free tokenisation (longest match) separate tokens as C defines.",
 ["programs","inputs"],"all short spellings over the literal alphabet, all boundary values times suffixes, random longer ones",
 "Tests contain few literal spellings.",
 ["lib/tinycc/tccpp.c","lib/tinycc/tccgen.c"],
 [("tokc","constant value of the token","lib/tinycc/tccpp.c")],
 [("parse_number","lib/tinycc/tccpp.c"),("parse_escape_string/parse_string","lib/tinycc/tccpp.c"),("next_nomacro","lib/tinycc/tccpp.c")],
 ["value, sizeof and signedness; bytes of string objects"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
