prop('C01', 'Variable-length integer codec is an exact, bounds-safe round trip',
     'Encoding any unsigned 64-bit number into a buffer writes exactly the announced number of bytes, and decoding those bytes '
     'gives back the same number and the same length. A buffer that is too small receives only the leading bytes that fit while the full '
     'length is still announced, decoding an empty or truncated input reports failure, and neither operation ever reads or writes outside '
     'the buffer it was given. The length computed in advance for a number equals the length of its encoding.',
     ['inputs'], 'for every 64-bit value, every buffer length and every byte content of the buffer',
     'Unit tests sample a few dozen values; the boundaries (10-byte encodings, truncated input at each length, exact-fit buffers) need all values and all buffer contents.',
     ['src/common/cs_varint.c', 'src/common/cs_varint.h'],
     [('cs_varint_encode / cs_varint_decode / cs_varint_llen', 'src/common/cs_varint.c')],
     observe=['return values and buffer contents of the codec'],
     note='Unbounded proof over all values and buffer sizes.')

prop('C02', 'Growable byte buffers behave as byte sequences, also when memory runs out',
     'A growable buffer always holds exactly the bytes put in it: inserting at any position, appending (with or without a source, or taking '
     'ownership of it), removing from the front, resizing, trimming, clearing, moving and freeing have exactly their sequence meaning and '
     'leave every other byte and its order unchanged. An insertion that fits never moves the storage, and an insertion for which memory '
     'cannot be obtained reports zero and leaves the buffer unchanged. No operation touches memory outside the block, leaks it or frees it twice.',
     ['inputs', 'fault_sequences'], 'for every buffer length and capacity, position, amount, content, and every allocation outcome',
     'Tests use a handful of small buffers and never fail an allocation.',
     ['src/common/mbuf.c', 'src/common/mbuf.h'],
     [('mbuf_insert growth and shift, mbuf_append_and_free ownership', 'src/common/mbuf.c')],
     state=[('len/size/buf', 'bytes in use, capacity, storage block', 'struct mbuf')],
     observe=['buffer content, length, capacity and return values'],
     note='Unbounded proof over all lengths, positions, contents and allocation outcomes.')

prop('C03', 'Value representation: every value has one type and converts back unchanged',
     'Every 64-bit value belongs to exactly one of the documented types, and the type predicates and mjs_get_type agree on it. A number, '
     'boolean, pointer, null or undefined that is put into a value is read back unchanged (numbers bit for bit, any not-a-number as one NaN '
     'value, pointers up to 48 bits), no number is ever mistaken for another type, and reading a value as an integer truncates it toward zero.',
     ['inputs'], 'for every 64-bit value, every double and every pointer',
     'Values are NaN-boxed: the type is encoded in the bit pattern of a double; tests touch a few dozen of the 2^64 patterns.',
     ['src/mjs_primitive.c', 'src/mjs_core.c', 'src/mjs_object.c', 'src/mjs_string.c', 'src/mjs_util.c'],
     [('mjs_mk_number / mjs_get_double / pointer_to_value / mjs_get_type', 'src/mjs_primitive.c, src/mjs_core.c, src/mjs_util.c')],
     observe=['return values of mjs_mk_*, mjs_get_*, mjs_is_*'],
     note='Unbounded proof over all 64-bit patterns.')

prop('C04', 'Strings keep their bytes: making and reading strings of any kind and length',
     'A string made from any bytes (embedded NULs included) of any length has exactly that length and content when read back, whether it is '
     'short enough to be stored inside the value, copied into string memory or merely referenced. Making a string - also from bytes that '
     'themselves lie in string memory, and when that memory has to grow and move - never changes any existing string, and reading never '
     'touches memory outside the string.',
     ['inputs'], 'for every content, every length, every prior content of string memory',
     'Representation changes at 4, 5, 127 and 16383 bytes and when memory moves; tests use short C strings.',
     ['src/mjs_string.c', 'src/common/cs_varint.c', 'src/common/mbuf.c'],
     [('mjs_mk_string / embed_string / mjs_get_string', 'src/mjs_string.c')],
     state=[('owned_strings', 'length-prefixed string bodies', 'struct mjs'), ('foreign_strings', 'referenced strings', 'struct mjs')],
     observe=['mjs_get_string', 'mjs_get_cstring', 'memory of other strings'],
     note='Unbounded in lengths and contents; lengths are split by the number of bytes of the length prefix. Allocation is assumed to succeed.')

prop('C05', 'String comparison and concatenation use the full content',
     'Comparing two strings reports equality exactly when they have the same length and bytes - embedded NULs and any mix of representations '
     'included - and comparing with a C string agrees with byte-wise comparison. Concatenation yields the bytes of the first followed by the '
     'bytes of the second, also when string memory moves while the result is being made, and leaves its operands unchanged.',
     ['inputs'], 'for every pair of contents, lengths and representations',
     'Sixteen combinations of representations times all contents; stale pointers show only when memory happens to move.',
     ['src/mjs_string.c', 'src/mjs_core.c'],
     [('s_cmp, mjs_strcmp, s_concat', 'src/mjs_string.c')],
     observe=['return values; content of the result'],
     note='Unbounded in contents and lengths. Allocation is assumed to succeed.')

prop('C08', 'Operators give the documented result and keep the stack balanced',
     'Every unary, binary, comparison, assignment, compound assignment and increment operator, applied to any operands on a value stack of any '
     'depth, replaces exactly its operands by its result. On numbers the result is the IEEE (or, for bitwise and remainder, 64-bit integer) result of '
     'left operand and right operand in that order; NaN propagates and dividing by zero yields NaN; on pointers only adding and subtracting offsets is allowed; + of two '
     'strings concatenates; any other mix of types is a type error rather than an implicit conversion. Strict equality is by value for numbers, '
     'content for strings, identity otherwise, == and != are rejected, ! and truth tests treat exactly false, zero, NaN, null, undefined and the empty '
     'string as false, typeof names the type, and updates write exactly the addressed property (or byte) and yield the old (postfix) or new value.',
     ['inputs'], 'for every operator, all operand values of all types, every stack depth and content below the operands',
     'Operator, operand type and value combinations are far more than tests sample, and stack imbalance shows only later.',
     ['src/mjs_exec.c', 'src/mjs_conversion.c', 'src/mjs_util.c'],
     [('exec_expr, do_op, do_arith_op, op_assign', 'src/mjs_exec.c'), ('check_equal, mjs_is_truthy', 'src/mjs_exec.c, src/mjs_conversion.c')],
     state=[('stack', 'operand stack', 'struct mjs')],
     observe=['stack contents after the operator', 'error state', 'recorded property updates'],
     note='Unbounded over operand values. Operands outside the range of the integer an operator converts them to are excluded (undefined in C). '
          'Property access and string comparison inside operators are used by the contracts proved in C09 and C05.')

prop('C09', 'Objects are maps: set, get, delete and iteration agree for any names',
     'Looking up a name in an object finds exactly the value last set under that name (compared by full content, whatever representation the name has) and '
     'undefined or nothing if there is none; setting changes that property only, or adds one in front; deleting removes that property only and '
     'reports whether it existed; iteration visits each property once and then ends; inherited lookup uses the own property first and the '
     'prototype otherwise; values that are no objects have no properties. No other property changes.',
     ['inputs', 'histories'], 'for property lists of any length and names of any content and length',
     'Tests use objects with a few short ASCII names; list surgery and name comparison must hold for all lists and names.',
     ['src/mjs_object.c', 'src/mjs_string.c'],
     [('mjs_get_own_property, mjs_set_internal, mjs_del, mjs_next, mjs_get_v_proto', 'src/mjs_object.c')],
     state=[('properties', 'singly linked property list', 'struct mjs_object')],
     observe=['return values, the property list afterwards'],
     note='List walks of any length by induction on an arbitrary node; assumes lists acyclic with distinct names (established by mjs_set_internal). '
          'Cell allocation by contract (C06).')

prop('C16', 'Every instruction does exactly its job and all interpreter stacks stay balanced',
     'Executing any bytecode instruction, with any operands, at any position and with stacks of any depth, changes exactly what it is defined to '
     'change - stacks, scopes, loops, `this`, the addressed variable - and continues at the right next instruction; calls pass every argument and '
     '`this`, return exactly one value to the caller, and restore its scopes, loops and `this`, for script functions, native functions and calls from C alike. '
     'Break and continue close exactly the scopes opened inside the loop; names resolve to the innermost scope that has them. '
     'After an error every stack has the depth it had when execution started and the result is undefined.',
     ['inputs', 'histories'], 'for every instruction, operand, position and stack content; by induction for every execution',
     'One misplaced pop shows only in a later statement; the combinations of nesting, calls, loops and errors cannot be sampled.',
     ['src/mjs_exec.c', 'src/mjs_core.c'],
     [('mjs_execute', 'src/mjs_exec.c'), ('mjs_apply, call_stack_push_frame, call_stack_restore_frame, mjs_find_scope', 'src/mjs_exec.c'),
      ('mjs_push, mjs_pop, mjs_arg, mjs_nargs, mjs_return, vptr', 'src/mjs_core.c')],
     state=[('stack, call_stack, arg_stack, scopes, loop_addresses', 'interpreter stacks', 'struct mjs')],
     observe=['stacks, this, next position, result and error after each instruction'],
     note='The interpreter loop is cut at its head: an arbitrary instruction in an arbitrary state is one obligation set. Assumes bytecode as the '
          'compiler emits it (operands complete, frames and operands present) and that stack memory can be obtained. Operators by C08, properties by C09, '
          'arrays by C10, builtin members by C18, decoding by C01.')

prop('C10', 'Arrays: indexing, length, push and splice agree for every array',
     'Element i of an array is the property named by the decimal digits of i: reading, setting and deleting touch exactly that element; the length is '
     'one more than the largest index in use; push appends its arguments in order and returns the new length. splice returns exactly the '
     'removed elements, puts each new element at the start position in order, moves every later element by the difference, leaves the earlier ones, and '
     'leaves nothing behind the new end, for every start (negative and out of range ones are clamped), count and number of new elements; wrong arguments change nothing.',
     ['inputs'], 'for arrays of any length (with holes), any start, count and number of arguments',
     'Start, count, length and argument count interact; only a few combinations are sampled and moving loops can overwrite what they still need.',
     ['src/mjs_array.c', 'src/mjs_string.c'],
     [('mjs_array_get2, mjs_array_set, mjs_array_del, mjs_array_length', 'src/mjs_array.c'), ('mjs_array_push_internal, mjs_array_splice', 'src/mjs_array.c'),
      ('cstr_to_ulong', 'src/mjs_string.c')],
     observe=['elements, presence and length of the array and of the returned array'],
     note='Unbounded: splice by an invariant per loop over a ghost array. Holes may become undefined elements. Lengths up to 2^30. Names by C09, decimal printing assumed here.')

prop('C06', 'Cells are handed out zeroed and once; a sweep frees exactly the unmarked ones',
     'An arena hands out a zeroed cell that is then no longer free, growing by a block of free cells when it has none, and schedules a collection when at most two free '
     'cells are left. A sweep keeps every marked cell (and clears its mark), turns every other cell into a free one exactly once, clears garbage and calls '
     'the destructor once for it, and releases a block (other than the first) iff none of its cells is in use, with none of them left on the free list. '
     'A pointer is recognised as a cell exactly when it points into a block of the arena.',
     ['inputs', 'histories'], 'for arenas with any number of blocks and cells in any state',
     'A cell lost, released while in use or handed out twice shows only much later and only for particular heap layouts.',
     ['src/mjs_gc.c', 'src/mjs_mm.h'],
     [('gc_arena_init, gc_new_block, gc_alloc_cell', 'src/mjs_gc.c'), ('gc_sweep, gc_free_block', 'src/mjs_gc.c'), ('gc_check_ptr, gc_check_val', 'src/mjs_gc.c')],
     state=[('free', 'free list of an arena', 'struct gc_arena'), ('blocks', 'memory of an arena', 'struct gc_arena')],
     observe=['free list, blocks and cells after each operation'],
     note='Unbounded: one arbitrary iteration of each loop (free cells, blocks, cells of a block). That a free cell is told apart by a mark from then on relies '
          'on cells being distinct memory. The code aborts when no memory can be obtained.')

prop('C07', 'A collection keeps everything reachable, and every reference follows its string',
     'A collection marks, before anything is moved or freed, every value the interpreter holds, every value the host registered (until it is disowned, once per registration), every scope, every entry of '
     'the value and call stacks, and the function and data of every native callback; from each object it reaches the object, its properties and their names and values, cycles '
     'included; then it compacts the string store and sweeps each arena once. Compacting keeps every referenced string byte for byte, makes every '
     'reference denote its string again, drops the others and clears the marks; a collection only runs when not inhibited, and a full one never shrinks the '
     'store below its content.',
     ['inputs', 'histories'], 'for any number of roots, properties and references, in any state of the heap',
     'A root or reference that is missed is only noticed when its memory is reused, for particular allocation histories.',
     ['src/mjs_gc.c', 'src/mjs_core.c'],
     [('gc_mark, gc_mark_object, gc_mark_string, gc_mark_ffi_sig', 'src/mjs_gc.c'), ('mjs_gc, maybe_gc', 'src/mjs_gc.c'), ('gc_compact_strings', 'src/mjs_gc.c'),
      ('mjs_own, mjs_disown', 'src/mjs_core.c')],
     state=[('owned_values, scopes, stack, call_stack, ffi_cb_args, vals', 'roots', 'struct mjs'), ('owned_strings', 'string store', 'struct mjs')],
     observe=['marks, string store and references after each step'],
     note='Marking and roots: unbounded (induction over each list and array; recursion by contract). Compaction is a bounded stand-in: stores of up to 3 strings '
          '(one of 130 bytes) with up to 3 references, all contents. Sweeping by C06.')

prop('C18', 'String builtins are exact for every string, position and representation',
     'length, subscript, at/charCodeAt, slice, indexOf, mkstr and chr return exactly the length, byte, bytes or first position asked for: positions count from the end when '
     'negative (indexOf takes them as 0) and are clamped, at and subscripts behind the end give undefined, indexOf gives -1 without an occurrence, wrong arguments are a type error. '
     'mkstr gives the bytes in memory, as the memory itself unless a copy is asked for. A builtin property is found by its whole name only, and a pointer subscript is the byte there.',
     ['inputs'], 'for every string in every representation (inlined, owned, foreign, with NULs), every position and every property name',
     'Edges (positions at, before and behind either end, NULs, lengths around the inline limits, searching at the very end) multiply and few are sampled.',
     ['src/mjs_string.c', 'src/mjs_exec.c', 'src/mjs_builtin.c', 'src/common/mg_str.c'],
     [('mjs_string_slice, mjs_string_index_of, mjs_string_char_code_at, mjs_mkstr', 'src/mjs_string.c'), ('mg_strstr', 'src/common/mg_str.c'),
      ('getprop_builtin, getprop_builtin_string, getprop_builtin_array, getprop_builtin_foreign', 'src/mjs_exec.c'), ('mjs_chr', 'src/mjs_builtin.c')],
     observe=['value returned to the script'],
     note='Unbounded (search loop by invariant); memcmp by its libc contract; numbers to integers by C03, arguments by C16, name to index by C10. '
          'The memory a script passes to mkstr or subscripts is assumed to be there.')

prop('C15', 'Every bytecode position leads back to its file and line',
     'Emitting code inserts exactly the given bytes at the insertion point and records a map item (offset, line) whenever the line advances; filling in a reserved jump offset stores it as a varint, keeps all other '
     'code and moves code, insertion point and map items behind it along. A compiled source is committed as one part (header, file name, code, OP_EXIT, line map) behind the earlier ones, or not at all on an error, '
     'and every offset belongs to exactly that part. The line of an offset is that of the last map item before it (1 before the first), and a stack trace names file and line of the failing position and of the return '
     'address of every call frame, innermost first.',
     ['inputs', 'histories'], 'for any code, any number of parts, lines and frames, any offset',
     'Jump distances and line numbers change their encoded length at powers of 128, parts accumulate, and lookups differ at each item and part boundary.',
     ['src/mjs_bcode.c', 'src/mjs_util.c', 'src/mjs_core.c', 'src/mjs_parser.c'],
     [('emit_byte, emit_int, emit_str, add_lineno_map_item, mjs_bcode_insert_offset, shift_lineno_map', 'src/mjs_bcode.c'),
      ('mjs_bcode_commit, mjs_bcode_part_add, mjs_bcode_part_get_by_offset', 'src/mjs_bcode.c'), ('mjs_parse', 'src/mjs_parser.c'),
      ('mjs_get_lineno_by_offset, mjs_get_bcode_filename_by_offset, mjs_get_offset_by_call_frame_num', 'src/mjs_util.c'),
      ('mjs_gen_stack_trace, mjs_append_stack_trace_line', 'src/mjs_core.c')],
     state=[('bcode_gen, bcode_parts, bcode_len', 'code', 'struct mjs'), ('offset_lineno_map, cur_idx', 'parser position', 'struct pstate')],
     observe=['code parts', 'stack trace'],
     note='Unbounded: loops by invariant, varints by C01, buffers by C02. Assumed: parse_statement_list only appends code and map items (the recursive-descent parser itself is not under contract).')

prop('C19', 'Raw memory access reads back exactly what was written',
     'Writing an integer of one to four bytes through a data view stores exactly its low bytes in the requested byte order and changes no other memory; reading gives the number those bytes denote, '
     'unsigned or sign-extended, for every content. Doubles and pointers are stored and read back bit for bit at any address, an offset pointer is base plus offset, and an integer address becomes that pointer.',
     ['inputs'], 'for every number, byte order, size of 1 to 4 bytes, content and position',
     'Sign extension, byte order and size combine with contents; tests touch a few.',
     ['src/mjs_dataview.c', 'src/mjs_dataview.h'],
     [('mjs_mem_get_uint, mjs_mem_get_int, mjs_mem_set_uint, mjs_mem_set_int, mjs_mem_get_dbl, mjs_mem_set_dbl, mjs_mem_get_ptr, mjs_mem_set_ptr, mjs_mem_to_ptr', 'src/mjs_dataview.c')],
     observe=['memory and return values'],
     note='Unbounded in content and position; loops over at most four bytes are unrolled completely. The memory named by the script is assumed to be there; NaN payloads excluded.')

prop('C20', 'Every source text is split into exactly the tokens the language defines',
     'Scanning never reads outside the text, always advances, and ends with the end token at its terminating NUL. White space and comments between tokens are skipped completely and nothing else is; the next token is the '
     'longest operator, the whole name or reserved word, the string literal up to its first unescaped quote, or the number starting there, with exactly its text. The line number always is the initial '
     'one plus the number of newlines passed, comments and string literals included.',
     ['inputs'], 'for every NUL-terminated text of any length and content and every position in it',
     'Comments, escapes, quotes and operators that share prefixes combine without bound, also at the very end of the text.',
     ['src/mjs_tok.c', 'src/mjs_tok.h'],
     [('pnext, skip_spaces_and_comments', 'src/mjs_tok.c'), ('getident, getstr, getnum, is_reserved_word_token, longtok, longtok3, longtok4, ptranslate', 'src/mjs_tok.c')],
     state=[('pos, line_no, tok, prev_tok', 'scanner position and current token', 'struct pstate')],
     observe=['kind, text and position of each token, line number'],
     note='Unbounded: scanner loops by invariant, the language of white space, comments and literals by Horn clauses. Assumed: strtod and strtoul stop inside the text behind at least one digit and before any newline '
          '(a 0x is followed by a hexadecimal digit). The undefined operator ~= is left out.')

prop('C21', 'Errors carry one code and one message',
     'Setting an error replaces code and message; adding context keeps the first code and puts the new text before the earlier message, separated by a colon. Every replaced text is released exactly once, the current one stays '
     'valid, and nothing else of the interpreter changes. The text of an error is its message, or the name of its code when there is none; formatted texts are complete and NUL-terminated, whatever their length.',
     ['inputs', 'histories'], 'for every code, format, argument, text length and earlier error',
     'Messages of every length and every earlier error state meet; ownership mistakes only show much later.',
     ['src/mjs_core.c', 'src/common/str_util.c'],
     [('mjs_set_errorf, mjs_prepend_errorf, mjs_strerror', 'src/mjs_core.c'), ('mg_avprintf, mg_asprintf', 'src/common/str_util.c')],
     state=[('error, error_msg', 'error code and its text', 'struct mjs')],
     observe=['error code, message, returned text'],
     note='Unbounded in text lengths. vsnprintf by the C standard (assumed); memory for messages can be obtained (mg_avprintf itself: allocation may fail).')

na('C22', 'The compiler generates code that means what the source says',
   'For every source text of the supported language, executing the generated bytecode has the effect the language gives the source; every other text is rejected with a syntax error.',
   ['inputs'], 'for every source text', 'Programs cannot be enumerated.', ['src/mjs_parser.c', 'src/mjs_tok.c'], [('parse_statement_list and its callees', 'src/mjs_parser.c')],
   'The postcondition would be a formal semantics of the language relating source text to bytecode (a compiler correctness proof over a mutually recursive descent parser that back-patches its output); no contract over this code '
   'in reach of an automatic verifier states it. What is decided: every opcode (C16, C08, C09), code emission and jump patching (C15).')

na('C23', 'Every script either finishes within the C stack or is rejected',
   'No script, however deeply nested its source, its calls or its data, makes the interpreter overflow the C stack; memory exhaustion is reported as an error.',
   ['inputs'], 'for every nesting depth', 'Limits depend on the platform and are reached by few inputs.', ['src/mjs_parser.c', 'src/mjs_gc.c', 'src/frozen/frozen.c'], [('parse_expr, gc_mark, json_parse_value', 'src')],
   'C stack consumption is not a property of function contracts on the source: it depends on the frame sizes the compiler chooses, which the verifier does not see.')

na('C24', 'Foreign functions receive and return exactly the declared values',
   'A foreign function called with a parsed signature receives the converted arguments, and its result or callback arguments come back as the script value of the declared type.',
   ['inputs'], 'for every signature and argument list', 'Signatures and types multiply.', ['src/mjs_ffi.c', 'src/ffi/ffi.c'], [('ffi_call, mjs_ffi_call2', 'src')],
   'Calls go through function pointers cast to prototypes that differ from the callee\'s definition, passing integer and floating point arguments in registers at once: outside the semantics of C and of the IR the verifier reads, '
   'and the callees are unknown machine code.')

na('C25', 'JSON.parse inverts JSON.stringify and rejects everything else',
   'Parsing the JSON text of a value gives an equal value, text that is not JSON is an error, and neither reads outside its input.',
   ['inputs'], 'for every value and every text', 'Escapes, nesting and buffer ends combine.', ['src/mjs_json.c', 'src/frozen/frozen.c'], [('json_walk, json_parse_value, json_vprintf', 'src/frozen/frozen.c')],
   'Both directions run through callbacks (printers and walkers passed as function pointers with va_list arguments) over recursive data; contracts for function pointers with variadic formats are outside the fragment lvc handles.')
