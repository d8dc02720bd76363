SF = ['src/vita/container/str.c', 'src/vita/container/common.c', 'inc/vita/container/str.h']
prop('C08', 'Strings stay valid, terminated, in bounds and leak-free',
     'Starting from valid strings, every string operation leaves every string involved valid: its text is null-terminated within its storage, its reported length is the length of the text, and length never exceeds capacity. No operation reads or writes outside its arguments, leaks memory, or frees a block twice or with the wrong allocator.',
     ['inputs', 'histories'], 'all strings of any length, capacity and content, with and without an allocator, all arguments, all histories',
     'a missing terminator or an off-by-one access depends on the exact length/capacity relation and usually goes unnoticed in a test',
     SF, [('terminator written after every change of length', 'str.c: all mutators'), ('storage is one byte larger than the capacity', 'str.c: vt_str_reserve, vt_str_create_capacity')])
prop('C09', 'Setting, appending, inserting and removing edit the text exactly',
     'After set, append, insert (also formatted, bounded and relative to a found substring) or remove-at-position, the text is exactly the old text with exactly the requested characters replaced, added or removed at the requested place. An operation that cannot apply (substring not present) leaves the text as it was.',
     ['inputs', 'histories'], 'all texts, positions, lengths and growth situations',
     'tests edit one or two literals; position, length and capacity boundaries are not sampled',
     SF, [('memmove of the tail around the edit position', 'str.c: vt_str_insert, vt_str_insert_n, vt_str_remove'), ('capacity check before writing', 'str.c: vt_str_append, vt_str_appendf')])
prop('C10', 'String search and comparison agree with the text',
     'Finding returns the first occurrence (pointer or index) exactly when there is one; counting returns the number of non-overlapping occurrences; equality, prefix, suffix and numeric tests are true exactly when the texts say so. None of these changes a string.',
     ['inputs'], 'all texts and patterns, including empty, overlapping and repeated ones, owning strings and views',
     'search tests use one sentence and one pattern',
     SF, [('strstr/strncmp based search', 'str.c: vt_str_find, vt_str_can_find, vt_str_equals, vt_str_starts_with, vt_str_ends_with')])
prop('C11', 'Removing and replacing substrings changes exactly the occurrences',
     'Removing or replacing the first, the last or all occurrences of a substring, or all characters of a set, changes exactly those occurrences: everything between and around them is kept, in order, and nothing changes when there is no occurrence.',
     ['inputs'], 'all texts, patterns and replacements, including shorter, longer, repeated and self-overlapping ones',
     'each replace test uses one text in which the occurrences are far apart',
     SF, [('find then shift and copy', 'str.c: vt_str_replace_first, vt_str_replace_last, vt_str_replace, vt_str_remove_all'), ('character filter', 'str.c: vt_str_remove_c, vt_str_replace_c')])
prop('C12', 'Stripping and case conversion affect exactly the intended characters',
     'Stripping removes the longest prefix and suffix made only of the characters to strip (whitespace and control characters, punctuation, or a given set) and nothing from the inside, yielding the empty text when everything is stripped. Case conversion changes the case of every letter and no other character.',
     ['inputs'], 'all texts, including empty texts, all-blank texts and texts that fill their capacity',
     'tests strip one padded literal',
     SF, [('scan from both ends, then move', 'str.c: vt_str_strip, vt_str_strip_punct, vt_str_strip_c')])
prop('C13', 'Splitting, joining and popping tokens loses and invents nothing',
     'Splitting yields the non-empty pieces between separators, in order; the text between two markers is extracted exactly; joining concatenates the pieces with the separator between them; popping the first or last token returns that token and leaves exactly the rest.',
     ['inputs'], 'all texts, separators, markers and piece lists, with fresh and reused destinations',
     'tests split and join one sentence with one separator',
     SF, [('strstr loop with piecewise copy', 'str.c: vt_str_split, vt_str_split_between'), ('append loop', 'str.c: vt_str_join, vt_str_join_n'), ('copy out and remove', 'str.c: vt_str_pop_get_first, vt_str_pop_get_last')])
prop('C14', 'String views are never grown or freed, and misuse of strings terminates',
     'A string made from borrowed characters is never reallocated, grown or freed by the library: operations that would have to do so terminate the process. A string call with a null object, an out-of-range position or another documented-invalid argument terminates before touching memory, and a valid call never terminates the process.',
     ['inputs', 'histories'], 'all string functions, owning strings and views, all arguments',
     'freeing or growing borrowed memory corrupts the heap silently, and tests cannot make calls that end the process',
     SF, [('view check before growth and free', 'str.c: vt_str_reserve, vt_str_destroy'), ('argument checks', 'VT_DEBUG_ASSERT in each function')])
prop('C16', 'Minimum, maximum and clamping pick the right value',
     'For every numeric type, the minimum (maximum) of two values is one of them and neither value is smaller (greater); clamping to ordered bounds yields a value within the bounds, equal to the input when the input lies within them and otherwise to the bound that was exceeded.',
     ['inputs'], 'all values of all eleven numeric types, including the extremes of each type; NaN excluded',
     'unit tests compare two or three small values per type; truncating conversions only show at the extremes',
     ['src/vita/algorithm/comparison.c', 'inc/vita/algorithm/comparison.h'], [('macro instantiated per type', 'comparison.c: vt_cmp_min*, vt_cmp_max*, vt_cmp_clamp*')])
prop('C24', 'Spans are exact in-bounds windows onto foreign memory',
     'A span made from memory covers exactly the requested elements; reading or writing element i touches exactly the bytes of element i of the window and nothing else, with any element size or typed accessor; an index outside the window, a null pointer or an empty or reversed range terminates the process instead of touching memory.',
     ['inputs', 'histories'], 'all spans at any offset of any object, all lengths, element sizes and indices',
     'an access one element off stays inside the test buffer and is not noticed',
     ['src/vita/container/span.c', 'src/vita/container/common.c', 'inc/vita/container/span.h'], [('window computation', 'span.c: vt_span_from, vt_span_from_to'), ('bounds-checked element access', 'span.c: vt_span_get*, vt_span_set*; common.c: vt_array_get, vt_array_set')])
prop('C15', 'The mallocator tracks exactly its live objects and keeps true statistics',
     'After any sequence of allocations, reallocations and frees, the allocator knows exactly its live objects with their sizes; the statistics equal the number of allocations, reallocations and frees made, the bytes currently allocated and the bytes freed. Reallocation keeps the content up to the smaller size. Destroying the allocator frees every live object exactly once, and the allocator itself. A heap pointer the allocator does not know is freed without touching registry or statistics, and adopted by a reallocation. Invalid calls (null allocator or pointer, zero bytes) terminate.',
     ['inputs', 'histories'], 'all registries of any size and fill (one-step induction over all histories), all sizes and pointers; the order of the registry is not prescribed',
     'tests allocate two or three objects and never fill, grow or reorder the registry',
     ['src/vita/allocator/mallocator.c', 'src/vita/core/core.c', 'inc/vita/allocator/mallocator.h'], [('registry add/find/remove/resize', 'mallocator.c: vt_mallocator_obj_list_*'), ('statistics updates', 'mallocator.c: vt_mallocator_alloc, vt_mallocator_realloc, vt_mallocator_free'), ('freeing every object', 'mallocator.c: vt_mallocator_destroy')])
prop('C17', 'Integer and tolerance mathematics gives the defined value',
     'The greatest common divisor divides both numbers and is divisible by every common divisor (with 0 as neutral element); the least common multiple is a multiple of both and divides every common multiple; a number is reported a palindrome exactly when its decimal digits read the same backwards; mapping between ranges evaluates the documented linear formula; two numbers are close exactly when they differ by less than the tolerance, a negative tolerance meaning the documented default.',
     ['inputs'], 'all non-negative integers (gcd, lcm), all 64-bit numbers (palindrome), all floating-point arguments',
     'tests check a few small values; zero, the extremes of the types and rounding are never sampled',
     ['src/vita/math/math.c', 'inc/vita/math/math.h'],
     [('Euclid loop', 'math.c: vt_math_gcd'), ('digit reversal loop', 'math.c: vt_math_is_palindrome'), ('tolerance comparison', 'math.c: vt_math_is_close')])
prop('C18', 'Number and text conversions are faithful and never overrun the buffer',
     'Converting a number to text writes the exact decimal rendering with its terminator and touches nothing beyond it; a buffer that is missing or too small for the text terminates the process. Converting numeric text to a number yields the number the text denotes for every supported type, and text that is not numeric yields zero.',
     ['inputs'], 'all values of the eleven numeric types, all buffer sizes, all texts whose number fits the type',
     'tests convert one value per type with a large buffer; the extremes of the types and tight buffers are not sampled',
     ['src/vita/core/conv.c', 'inc/vita/core/conv.h'],
     [('measured length checked against the buffer before writing', 'conv.c: vt_conv_*_to_str'), ('numeric check then strto*', 'conv.c: vt_conv_str_to_*')])
prop('C19', 'Calendar facts, second counts and date arithmetic agree with the calendar',
     'Leap years, days per month and per year, week days and year days are those of the Gregorian calendar, for dates before and after 1970. Converting a date to seconds and back is the identity, differences in seconds, minutes, hours and days are the exact elapsed time truncated toward zero, adding a delta lands on the calendar date that lies that far away, and created dates have every field within its documented range.',
     ['inputs'], 'all dates with representable year, all deltas; one fixed UTC offset',
     'tests use a handful of dates in 2023; leap centuries, negative time stamps and far dates are not sampled',
     ['src/vita/time/datetime.c', 'inc/vita/time/datetime.h'],
     [('field clamping and defaults', 'datetime.c: vt_datetime_create'), ('conversion to and from struct tm', 'datetime.c: vt_datetime_vdt_to_tm, vt_datetime_tm_to_vdt'), ('difference of second counts', 'datetime.c: vt_datetime_diff*')])
prop('C20', 'Time stamps are written and read back exactly, within the buffer',
     'Each time stamp format (plain, ISO, ISO extended, pretty) writes exactly the text of the date with its terminator and nothing beyond it, and terminates the process when the buffer is missing or too small. Reading a valid time stamp recovers the same year, month, day, hour, minute and second. A text is reported valid exactly when it has the digits and separators of the format, whatever its length.',
     ['inputs'], 'all dates with fields in their documented ranges and four-digit years, all buffer sizes, all texts',
     'tests format one date and validate seven literals; short, truncated or mis-separated texts are not sampled',
     ['src/vita/time/datetime.c', 'inc/vita/time/datetime.h'],
     [('strftime/asctime with length check', 'datetime.c: vt_datetime_to_text*'), ('sscanf field reading', 'datetime.c: vt_datetime_from_text*'), ('pattern check', 'datetime.c: vt_datetime_is_valid_fmt')])
PF = ['src/vita/system/path.c', 'inc/vita/system/path.h']
prop('C21', 'Path text functions compute the documented path and nothing else',
     'The base name is the text after the last separator that is not the final character; popping cuts the path at its last separator; validating turns every backslash into a separator and changes nothing else; tilda expansion replaces a leading tilda by the home directory when it is known; building joins the parts with one separator between them; the working directory and the location of the executable are returned in full as valid strings, or a null when the system does not tell them. The result is always a valid string owned by the given allocator.',
     ['inputs'], 'all paths of any length, all destination strings, all home directories and working directories, with and without an allocator',
     'tests use one path of each kind; empty paths, lone separators or tildas, trailing separators and full destinations are not sampled',
     PF, [('backward scan for the separator', 'path.c: vt_path_basename, vt_path_pop'), ('insertion of the home directory', 'path.c: vt_path_expand_tilda'), ('text taken from the system', 'path.c: vt_path_get_cwd, vt_path_get_this_exe_location')])
prop('C22', 'File system queries and single-path changes do and report exactly what happened',
     'Asking whether a path exists, is a directory or is a file, and asking for a file size, answers what the file system says and changes nothing. Creating, removing or renaming a path asks the system for exactly that change on exactly that path, only when the path does (for creation: does not) exist, and success is reported exactly when the change was made.',
     ['inputs', 'faults'], 'all paths and all answers of the system (existing, missing, wrong type, refused), all file types and sizes',
     'tests run in one directory in which every call succeeds; refusals and wrong types are not sampled',
     PF, [('stat based questions', 'path.c: vt_path_exists, vt_path_is_dir, vt_path_is_file, vt_path_get_file_size'), ('status of the system call returned', 'path.c: vt_path_mkdir, vt_path_rmdir, vt_path_remove, vt_path_rename')])
prop('C23', 'Files are read and written in full, failures are reported, handles are closed',
     'Reading a file returns exactly its bytes as a valid string (or fills at most the given buffer), and a null when it cannot be opened or read in full. Writing or appending, also formatted and with line ends, puts exactly the given text into the file and keeps earlier content only when appending; success is reported exactly when everything was written. Every file that was opened is closed on every path.',
     ['inputs', 'faults'], 'all file names, contents (including empty files and embedded zero bytes), buffer sizes and texts, every failure of open, read, write or close',
     'tests write one small file and read it back; empty files, full devices, unreadable files and short buffers are not sampled',
     ['src/vita/system/fileio.c', 'src/vita/system/path.c', 'inc/vita/system/fileio.h'], [('size then read in one piece', 'fileio.c: vt_file_read, vt_file_readb, vt_file_read_to_buffer'), ('one writer behind all variants', 'fileio.c: vt_file_vwritefc')])
prop('C25', 'Command line options reach the right variable with the right type',
     'Parsing a command line stores, for every argument that names an option (long or short form, value after an equals sign, in the next word, or implied), the value in the variable of the first option with that name, converted to the declared type, and touches no other variable. An unknown option or an unusable table is reported as an error, a lone help request as such, everything else as success. String variables are created, reused or grown with the given allocator without leaks. The help text lists every option once, aligned, between header and footer.',
     ['inputs'], 'value conversion and table validation: all texts, types, variables and tables; whole command lines and help texts: bounded, generated command lines of up to 20 words and tables of up to 16 options',
     'one command line is tested; most types, reused strings, repeated options and malformed arguments are not',
     ['src/vita/util/argopt.c', 'src/vita/core/conv.c', 'inc/vita/util/argopt.h'], [('split at the equals sign, first matching row', 'argopt.c: vt_argopt_parse'), ('switch over the declared type', 'argopt.c: vt_argopt_assign_value'), ('table check', 'argopt.c: vt_argopt_validate')],
     level='exploration', note='Storing a value (vt_argopt_assign_value) and checking the table (vt_argopt_validate) are proved for all inputs, as are the string and conversion functions they call; the loop over the command line (vt_argopt_parse) and the help text are outside the prover (tables of pointers to variables of different types) and are decided by bounded concrete runs of the real code against their contracts.')
prop('C26', 'Socket calls issue the right requests and report every failure',
     'Every socket function issues exactly the system requests it stands for, with the address, port, type, data and length it was given, in the right order; the data received is delivered unchanged with its true length and sender. A refused request is reported with the error code for that step, nothing further is requested after it, and a socket opened by a start-up that fails is closed again.',
     ['inputs', 'faults'], 'all arguments, all answers of the system to every request (success, refusal, partial transfer), all numbers of polled sockets',
     'there is no socket test; refusals at each step cannot be provoked by a test',
     ['src/vita/network/sockets.c', 'inc/vita/network/sockets.h'], [('socket, option, bind, listen / connect sequence', 'sockets.c: server and client start-up'), ('send and receive loops', 'sockets.c: vt_socket_* transfers')])
prop('C27', 'Diagnostics go where they were directed and end the process only if asked',
     'A failed check or log call produces exactly one line: time stamp, level or subject, expression, source position and formatted message, in that order. The line is appended to the file chosen for it (earlier content stays) or goes to standard error when none is chosen or it cannot be opened; a check that succeeds, or debug output that is switched off, produces nothing. The process is terminated exactly for a failed check that asks for it and for failed log calls of the fatal and assert levels, whether or not the line could be written; a log level that does not exist terminates as well. Standard streams are never closed, and log files always are.',
     ['inputs', 'faults', 'histories'], 'all messages, formats, file names and redirection settings, every failure of opening, writing or closing the log file',
     'tests print a few lines nobody looks at; termination and unwritable log files are not tested',
     ['src/vita/util/debug.c', 'src/vita/util/log.c', 'inc/vita/util/debug.h', 'inc/vita/util/log.h'], [('check, print, exit', 'debug.c: vt_debug_assert'), ('table of file names per level', 'log.c: vt_log_redirect_level_output, vt_log_redirect_all_output'), ('line layout and exit levels', 'log.c: vt_log')])
prop('C28', 'Directory trees are listed, created and removed completely, never beyond links',
     'Listing a directory yields every entry exactly once (recursively: every path below it, without following links), honouring the hidden-file switch, and freeing a listing releases all of it. Creating with parents creates exactly the missing directories of the path. Recursive removal removes the directory and everything in it and nothing else: what links inside it lead to is untouched. Success is reported exactly when all of it happened.',
     ['inputs', 'histories'], 'bounded: generated directory trees of up to 14 entries (files, directories, links, hidden names) and paths into and beside them',
     'tests list and remove one small tree without links, hidden files or failures',
     PF, [('readdir loop', 'path.c: vt_path_dir_list, vt_path_dir_list_recurse'), ('split and create each prefix', 'path.c: vt_path_mkdir_parents'), ('list, remove each, remove the directory', 'path.c: vt_path_rmdir_recurse')],
     level='exploration', note='The contracts are stated over a copy of the directory tree; no symbolic model of directory iteration is within reach, so these five functions are decided by bounded concrete runs of the real code against their contracts (confined to a scratch directory, unprivileged user). The functions they call are proved.')
